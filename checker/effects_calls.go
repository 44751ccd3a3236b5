package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Effects) call(s *Summary, site ssa.Instruction, c *ssa.CallCommon, res ssa.Value, held map[string]bool) {
	e.calls++
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(s, site, b, c, res, held)
		return
	}
	var rets []locSet
	if c.IsInvoke() {
		args := []locSet{s.pts(c.Value)}
		for _, a := range c.Args {
			args = append(args, s.pts(a))
		}
		impls := e.implementations(c)
		for _, fn := range impls {
			rets = mergeRets(rets, e.enter(s, site, nil, fn, args, held))
		}
		rets = mergeRets(rets, e.model(s, site, c.Method.FullName(), c.Signature(), args, argTypes(c), true, held))
	} else {
		args := make([]locSet, len(c.Args))
		for i, a := range c.Args {
			args[i] = s.pts(a)
		}
		if callee := c.StaticCallee(); callee != nil {
			var clo *Node
			if _, ok := c.Value.(*ssa.MakeClosure); ok {
				for l := range s.pts(c.Value) {
					clo = l.n
				}
			}
			rets = e.callFn(s, site, clo, callee, args, argTypes(c), held)
		} else {
			rets = e.dynamic(s, site, s.pts(c.Value), args, argTypes(c), c.Signature(), held)
		}
	}
	for i, r := range rets {
		e.setResult(s, res, i, r)
	}
}

func argTypes(c *ssa.CallCommon) []types.Type {
	var out []types.Type
	if c.IsInvoke() {
		out = append(out, c.Value.Type())
	}
	for _, a := range c.Args {
		out = append(out, a.Type())
	}
	return out
}

func mergeRets(a, b []locSet) []locSet {
	for len(a) < len(b) {
		a = append(a, locSet{})
	}
	for i := range b {
		if a[i] == nil {
			a[i] = locSet{}
		}
		for l := range b[i] {
			a[i][l] = true
		}
	}
	return a
}

func (e *Effects) callFn(s *Summary, site ssa.Instruction, clo *Node, callee *ssa.Function, args []locSet, at []types.Type, held map[string]bool) []locSet {
	if callee.Blocks == nil || !inRepo(fnPkgPath(callee)) {
		return e.model(s, site, extName(callee), callee.Signature, args, at, false, held)
	}
	return e.enter(s, site, clo, callee, args, held)
}

// extName is the full name of an external function without type arguments.
func extName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if ob, ok := fn.Object().(*types.Func); ok {
		return ob.Origin().FullName()
	}
	n := fn.String()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	return n
}

func (e *Effects) dynamic(s *Summary, site ssa.Instruction, callees locSet, args []locSet, at []types.Type, sig *types.Signature, held map[string]bool) []locSet {
	var rets []locSet
	for l := range callees {
		switch {
		case l.n.kind == nFunc:
			var clo *Node
			if l.n.site != nil {
				clo = l.n
			}
			if l.n.once != "" {
				h := copySet(held)
				h[e.onceKey(s, l, "W")] = true
				rets = mergeRets(rets, e.callFn(s, site, clo, l.n.fn, args, at, h))
				continue
			}
			rets = mergeRets(rets, e.callFn(s, site, clo, l.n.fn, args, at, held))
		case l.n.outside():
			// a function kept in a global since initialisation
			if l.n.kind == nLoad && l.n.parent.kind == nGlobal && l.n.path == "" && l.path == "" {
				if fns, ok := e.globalFuncs(l.n.parent.global); ok {
					for _, gf := range fns {
						h := held
						if gf.once {
							h = copySet(held)
							lk := Loc{l.n.parent, ".once"}
							h[s.lockKey("W", lk)] = true
						}
						rets = mergeRets(rets, e.callFn(s, site, nil, gf.fn, args, at, h))
					}
					continue
				}
			}
			k := fmt.Sprintf("%p:%s", site, l.n.key+l.path)
			d := s.deferred[k]
			if d == nil {
				rn := s.node("d"+k, func() *Node { return &Node{kind: nDefer, site: site, typ: sig.Results()} })
				d = &deferredCall{callee: locSet{l: true}, args: make([]locSet, len(args)), types: at, sig: sig, res: rn, pos: instrPos(site)}
				s.deferred[k] = d
				s.changed = true
			}
			if s.recording {
				d.locks = setKey(held)
			}
			for i, a := range args {
				if d.args[i] == nil {
					d.args[i] = locSet{}
				}
				for x := range a {
					if !d.args[i][x] {
						d.args[i][x] = true
						s.changed = true
					}
				}
			}
			out := make([]locSet, sig.Results().Len())
			for i, t := range resultTypes(sig) {
				if pointerful(t) {
					out[i] = locSet{Loc{d.res, fmt.Sprintf("r%d", i)}: true}
				}
			}
			rets = mergeRets(rets, out)
		}
	}
	return rets
}

type globalFunc struct {
	fn   *ssa.Function
	once bool
}

// globalFuncs resolves a function typed global that is only assigned during package initialisation.
func (e *Effects) globalFuncs(g *ssa.Global) ([]globalFunc, bool) {
	if r, ok := e.gfuncs[g]; ok {
		return r, r != nil
	}
	var out []globalFunc
	ok := true
	for _, fn := range e.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, isStore := in.(*ssa.Store)
				if !isStore || st.Addr != g {
					continue
				}
				if fn.Name() != "init" || fn.Synthetic == "" {
					ok = false
				}
				switch v := st.Val.(type) {
				case *ssa.Function:
					out = append(out, globalFunc{v, false})
				case *ssa.MakeClosure:
					if len(v.Bindings) > 0 {
						ok = false
					}
					out = append(out, globalFunc{v.Fn.(*ssa.Function), false})
				case *ssa.Call:
					cal := v.Call.StaticCallee()
					if cal != nil && strings.HasPrefix(extName(cal), "sync.Once") && len(v.Call.Args) == 1 {
						switch f := v.Call.Args[0].(type) {
						case *ssa.Function:
							out = append(out, globalFunc{f, true})
						case *ssa.MakeClosure:
							if len(f.Bindings) > 0 {
								ok = false
							}
							out = append(out, globalFunc{f.Fn.(*ssa.Function), true})
						default:
							ok = false
						}
					} else {
						ok = false
					}
				default:
					ok = false
				}
			}
		}
	}
	if !ok || len(out) == 0 {
		e.gfuncs[g] = nil
		return nil, false
	}
	e.gfuncs[g] = out
	return out, true
}

func (e *Effects) onceKey(s *Summary, l Loc, mode string) string { return s.lockKey(mode, l) }

func (s *Summary) lockKey(mode string, l Loc) string {
	k := mode + ":" + l.n.key + "|" + l.path
	if _, ok := s.lockLocs[k]; !ok {
		s.lockLocs[k] = lockRef{mode, l}
	}
	return k
}

func (e *Effects) implementations(c *ssa.CallCommon) []*ssa.Function {
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for path, sp := range e.p.SPkgs {
		if !isLibraryPath(path) {
			continue
		}
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, typ := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.IsInterface(typ) || !types.Implements(typ, iface) {
					continue
				}
				sel := e.p.SSA.MethodSets.MethodSet(typ).Lookup(c.Method.Pkg(), c.Method.Name())
				if sel == nil {
					continue
				}
				if f := e.p.SSA.MethodValue(sel); f != nil && f.Blocks != nil && !e.p.isGenerated(f) && f.Synthetic == "" {
					out = append(out, f)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// mapper translates the callee's nodes into the caller's graph.
type mapper struct {
	e       *Effects
	s, cs   *Summary
	site    ssa.Instruction
	clo     *Node
	args    []locSet
	memo    map[*Node]locSet
	active  map[*Node]bool
	defRets map[*Node][]locSet // results of calls through function values, now resolved
}

func (m *mapper) loc(l Loc) locSet {
	if l.n.kind == nDefer && m.defRets[l.n] != nil && strings.HasPrefix(l.path, "r") {
		j := 1
		for j < len(l.path) && l.path[j] >= '0' && l.path[j] <= '9' {
			j++
		}
		idx := 0
		fmt.Sscanf(l.path[1:j], "%d", &idx)
		out := locSet{}
		if idx < len(m.defRets[l.n]) {
			for b := range m.defRets[l.n][idx] {
				out[Loc{b.n, b.path + l.path[j:]}] = true
			}
		}
		return out
	}
	base := m.node(l.n)
	if l.path == "" {
		return base
	}
	out := make(locSet, len(base))
	for b := range base {
		out[Loc{b.n, b.path + l.path}] = true
	}
	return out
}

func (m *mapper) set(ls locSet) locSet {
	out := locSet{}
	for l := range ls {
		for x := range m.loc(l) {
			out[x] = true
		}
	}
	return out
}

func (m *mapper) node(n *Node) locSet {
	if r, ok := m.memo[n]; ok {
		return r
	}
	if m.active[n] {
		return nil
	}
	m.active[n] = true
	defer delete(m.active, n)
	s := m.s
	var out locSet
	switch n.kind {
	case nParam:
		if n.idx < len(m.args) {
			out = m.args[n.idx]
		}
	case nFree:
		out = locSet{}
		if m.clo != nil {
			for l := range m.clo.edges[fmt.Sprintf("fv%d", n.idx)] {
				out[l] = true
			}
		}
	case nGlobal:
		out = locSet{Loc{s.globalNode(n.global), ""}: true}
	case nLoad:
		out = locSet{}
		for b := range m.loc(Loc{n.parent, n.path}) {
			for x := range s.lookup(b, n.typ) {
				out[x] = true
			}
		}
	case nAlloc:
		out = locSet{Loc{s.alloc(m.site, n.orig, n.typ), ""}: true}
	case nFunc:
		if n.site == nil {
			out = s.pts(n.fn)
		} else {
			out = locSet{Loc{s.node(fmt.Sprintf("ci%p:%s", m.site, n.orig), func() *Node {
				return &Node{kind: nFunc, fn: n.fn, site: m.site, typ: n.typ, orig: n.orig, once: n.once}
			}), ""}: true}
		}
	case nDefer:
		out = locSet{Loc{s.node(fmt.Sprintf("di%p:%s", m.site, n.key), func() *Node {
			return &Node{kind: nDefer, site: m.site, typ: n.typ}
		}), ""}: true}
	}
	m.memo[n] = out
	return out
}

// lock translates a lock of the callee; only unambiguous locks are kept.
func (m *mapper) lock(k string) string {
	r, ok := m.cs.lockLocs[k]
	if !ok {
		return ""
	}
	ls := m.loc(r.loc)
	if len(ls) != 1 {
		return ""
	}
	for l := range ls {
		return m.s.lockKey(r.mode, l)
	}
	return ""
}

func (m *mapper) locks(held map[string]bool, ks string) map[string]bool {
	out := copySet(held)
	for _, k := range strings.Split(ks, ",") {
		if k == "" {
			continue
		}
		if x := m.lock(k); x != "" {
			out[x] = true
		}
	}
	return out
}

func (e *Effects) mapper(s, cs *Summary, site ssa.Instruction, clo *Node, args []locSet) *mapper {
	return &mapper{e: e, s: s, cs: cs, site: site, clo: clo, args: args, memo: map[*Node]locSet{}, active: map[*Node]bool{}, defRets: map[*Node][]locSet{}}
}

// enter instantiates the summary of callee at a call site.
func (e *Effects) enter(s *Summary, site ssa.Instruction, clo *Node, callee *ssa.Function, args []locSet, held map[string]bool) []locSet {
	cs := e.Summarise(callee)
	siteIn := site
	m := e.mapper(s, cs, siteIn, clo, args)
	dk := make([]string, 0, len(cs.deferred))
	for k := range cs.deferred {
		dk = append(dk, k)
	}
	sort.Strings(dk)
	// several rounds because edges added below can enlarge what loads yield
	saved := s.changed
	any := saved
	for round := 0; round < 6; round++ {
		s.changed = false
		m.memo = map[*Node]locSet{}
		// calls the callee makes through function values
		for _, k := range dk {
			d := cs.deferred[k]
			var dargs []locSet
			for _, a := range d.args {
				dargs = append(dargs, m.set(a))
			}
			callees := m.set(d.callee)
			r := e.dynamic(s, site, callees, dargs, d.types, d.sig, m.locks(held, d.locks))
			old := m.defRets[d.res]
			m.defRets[d.res] = mergeRets(mergeRets(nil, old), r)
			if m.defRets[d.res] == nil {
				m.defRets[d.res] = []locSet{}
			}
		}
		m.memo = map[*Node]locSet{}
		for _, n := range cs.exported {
			for path, ls := range n.edges {
				agg := strings.HasPrefix(path, "=")
				pp := strings.TrimPrefix(path, "=")
				for d := range m.loc(Loc{n, pp}) {
					e.storeInto(s, d, m.set(ls), agg, siteIn)
				}
			}
		}
		ch := s.changed
		any = any || ch
		if !ch {
			break
		}
	}
	s.changed = any
	// effects
	if s.recording {
		for _, k := range cs.accOrder {
			a := cs.acc[k]
			lk := setKey(m.locks(held, a.locks))
			for l := range m.loc(a.loc) {
				na := *a
				na.loc = l
				na.locks = lk
				na.via = append([]string{fnName(callee)}, a.via...)
				if len(na.via) > 12 {
					na.via = na.via[:12]
				}
				e.recordAcc(s, &na, siteIn)
			}
		}
	}
	// results
	out := make([]locSet, len(cs.rets))
	for i, r := range cs.rets {
		out[i] = m.set(r)
	}
	return out
}

// prune keeps, for callers, only what is reachable from results, from objects that exist outside,
// from accesses and from arguments of calls through function values.
func (s *Summary) prune() {
	keep := map[*Node]bool{}
	var add func(n *Node)
	add = func(n *Node) {
		if keep[n] {
			return
		}
		keep[n] = true
		if n.parent != nil {
			add(n.parent)
		}
		for _, ls := range n.edges {
			for l := range ls {
				add(l.n)
			}
		}
	}
	for _, n := range s.nodes {
		if n.outside() {
			add(n)
		}
	}
	for _, r := range s.rets {
		for l := range r {
			add(l.n)
		}
	}
	for _, d := range s.deferred {
		for _, a := range d.args {
			for l := range a {
				add(l.n)
			}
		}
		for l := range d.callee {
			add(l.n)
		}
	}
	for n := range keep {
		if len(n.edges) > 0 {
			s.exported = append(s.exported, n)
		}
	}
	sort.Slice(s.exported, func(i, j int) bool { return s.exported[i].key < s.exported[j].key })
}

// ---------------------------------------------------------------------------------------------
// builtins and external functions

func (e *Effects) builtin(s *Summary, site ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, res ssa.Value, held map[string]bool) {
	in := site
	elems := func(l Loc) Loc { return Loc{l.n, l.path + "[]"} }
	switch b.Name() {
	case "append":
		dst := s.pts(c.Args[0])
		out := locSet{}
		n := s.alloc(in, e.allocName(in), c.Args[0].Type())
		nl := Loc{n, ""}
		out[nl] = true
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		capped := fullSlice(c.Args[0])
		for l := range dst {
			if !capped {
				e.record(s, elems(l), true, "append (writes into the spare capacity of the slice)", in, held, nil, nil)
				out[l] = true
			}
			if pointerful(et) {
				e.storeInto(s, elems(nl), s.lookup(elems(l), et), isAggregate(et), in)
			}
		}
		if len(c.Args) > 1 {
			if _, isSl := c.Args[1].Type().Underlying().(*types.Slice); isSl {
				for l := range s.pts(c.Args[1]) {
					e.record(s, elems(l), false, "append", in, held, nil, nil)
					if pointerful(et) {
						v := s.lookup(elems(l), et)
						e.storeInto(s, elems(nl), v, isAggregate(et), in)
						for d := range dst {
							if !capped {
								e.storeInto(s, elems(d), v, isAggregate(et), in)
							}
						}
					}
				}
			}
		}
		if res != nil {
			s.addVal(res, out)
		}
	case "copy":
		for l := range s.pts(c.Args[0]) {
			e.record(s, elems(l), true, "copy into the slice", in, held, nil, nil)
			if sl, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && pointerful(sl.Elem()) {
				for l2 := range s.pts(c.Args[1]) {
					e.storeInto(s, elems(l), s.lookup(elems(l2), sl.Elem()), isAggregate(sl.Elem()), in)
				}
			}
		}
		for l := range s.pts(c.Args[1]) {
			e.record(s, elems(l), false, "copy", in, held, nil, nil)
		}
	case "delete":
		for l := range s.pts(c.Args[0]) {
			e.record(s, elems(l), true, "delete", in, held, c.Args[1], nil)
		}
	case "clear":
		for l := range s.pts(c.Args[0]) {
			e.record(s, elems(l), true, "clear", in, held, nil, nil)
		}
	case "len", "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			for l := range s.pts(c.Args[0]) {
				e.record(s, elems(l), false, "len", in, held, nil, nil)
			}
		}
	case "ssa:wrapnilchk":
		if res != nil {
			s.addVal(res, s.pts(c.Args[0]))
		}
	}
}

// fullSlice: x[a:b:c] limits the capacity; append then copies (when b==c).
func fullSlice(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Max == nil {
		return false
	}
	return sl.High == sl.Max || constEq(sl.High, sl.Max) || lenOfSame(sl.High, sl.Max)
}

func constEq(a, b ssa.Value) bool {
	ca, ok1 := a.(*ssa.Const)
	cb, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && ca.Value != nil && cb.Value != nil && ca.Value.ExactString() == cb.Value.ExactString()
}

func lenOfSame(a, b ssa.Value) bool {
	ca, ok1 := a.(*ssa.Call)
	cb, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	x, ok1 := ca.Call.Value.(*ssa.Builtin)
	y, ok2 := cb.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && x.Name() == "len" && y.Name() == "len" && ca.Call.Args[0] == cb.Call.Args[0]
}

// what external functions do with memory. Anything not listed: package functions do not write
// through their arguments and their pointer results may alias arguments of the same type; methods
// with a pointer receiver write their receiver.
type extModel struct {
	writes  []int // arguments whose pointed-to memory is written
	elems   []int // arguments whose elements are written
	fresh   bool  // results are newly allocated, deeply
	shallow int   // 1-based argument whose elements the fresh result shares
	alias   int   // 1-based argument the result is (part of)
	pure    bool  // writes nothing and returns nothing shared
	copies  [][2]int
}

var extModels = map[string]extModel{
	"google.golang.org/protobuf/proto.Reset":                  {writes: []int{0}},
	"google.golang.org/protobuf/proto.Merge":                  {writes: []int{0}},
	"google.golang.org/protobuf/proto.Unmarshal":              {writes: []int{1}},
	"google.golang.org/protobuf/proto.Clone":                  {fresh: true},
	"google.golang.org/protobuf/proto.CloneOf":                {fresh: true},
	"google.golang.org/protobuf/proto.Marshal":                {fresh: true},
	"google.golang.org/protobuf/proto.Equal":                  {pure: true},
	"google.golang.org/protobuf/proto.String":                 {fresh: true},
	"google.golang.org/protobuf/proto.Bool":                   {fresh: true},
	"google.golang.org/protobuf/proto.Int32":                  {fresh: true},
	"google.golang.org/protobuf/proto.Int64":                  {fresh: true},
	"google.golang.org/protobuf/proto.Uint32":                 {fresh: true},
	"google.golang.org/protobuf/proto.Uint64":                 {fresh: true},
	"google.golang.org/protobuf/encoding/prototext.Unmarshal": {writes: []int{1}},
	"google.golang.org/protobuf/encoding/protojson.Unmarshal": {writes: []int{1}},
	"encoding/json.Unmarshal":                                 {writes: []int{1}},
	"encoding/xml.Unmarshal":                                  {writes: []int{1}},
	"encoding/binary.Read":                                    {writes: []int{0, 2}},
	"encoding/binary.Write":                                   {writes: []int{0}},
	"encoding/binary.ReadUvarint":                             {writes: []int{0}},
	"encoding/binary.PutUvarint":                              {elems: []int{0}},
	"io.ReadAll":                                              {writes: []int{0}, fresh: true},
	"io.ReadFull":                                             {writes: []int{0}, elems: []int{1}},
	"io.Copy":                                                 {writes: []int{0, 1}},
	"sort.Strings":                                            {elems: []int{0}},
	"sort.Ints":                                               {elems: []int{0}},
	"sort.Slice":                                              {elems: []int{0}},
	"sort.SliceStable":                                        {elems: []int{0}},
	"sort.Sort":                                               {writes: []int{0}},
	"sort.Stable":                                             {writes: []int{0}},
	"slices.Sort":                                             {elems: []int{0}},
	"slices.SortFunc":                                         {elems: []int{0}},
	"slices.SortStableFunc":                                   {elems: []int{0}},
	"slices.Reverse":                                          {elems: []int{0}},
	"slices.Insert":                                           {elems: []int{0}, alias: 1},
	"slices.Delete":                                           {elems: []int{0}, alias: 1},
	"slices.DeleteFunc":                                       {elems: []int{0}, alias: 1},
	"slices.Replace":                                          {elems: []int{0}, alias: 1},
	"slices.Compact":                                          {elems: []int{0}, alias: 1},
	"slices.CompactFunc":                                      {elems: []int{0}, alias: 1},
	"slices.Grow":                                             {alias: 1},
	"slices.Clip":                                             {alias: 1},
	"slices.Clone":                                            {shallow: 1},
	"slices.Concat":                                           {fresh: true},
	"slices.Sorted":                                           {fresh: true},
	"slices.SortedFunc":                                       {fresh: true},
	"slices.Collect":                                          {fresh: true},
	"slices.Values":                                           {alias: 1},
	"slices.All":                                              {alias: 1},
	"slices.Repeat":                                           {fresh: true},
	"maps.Clone":                                              {shallow: 1},
	"maps.Keys":                                               {alias: 1},
	"maps.Values":                                             {alias: 1},
	"maps.All":                                                {alias: 1},
	"maps.Collect":                                            {fresh: true},
	"maps.Copy":                                               {elems: []int{0}},
	"maps.Insert":                                             {elems: []int{0}},
	"maps.DeleteFunc":                                         {elems: []int{0}},
	"bytes.NewReader":                                         {fresh: true},
	"bytes.NewBuffer":                                         {alias: 1},
	"bytes.NewBufferString":                                   {fresh: true},
	"strings.NewReader":                                       {fresh: true},
	"strings.NewReplacer":                                     {fresh: true},
	"unicode/utf8.AppendRune":                                 {elems: []int{0}, alias: 1},
	"strconv.AppendInt":                                       {elems: []int{0}, alias: 1},
	"strconv.AppendUint":                                      {elems: []int{0}, alias: 1},
	"(*regexp.Regexp).Longest":                                {writes: []int{0}},
	"errors.New":                                              {fresh: true},
	"fmt.Errorf":                                              {fresh: true},
	"compress/gzip.NewReader":                                 {fresh: true},
}

// types whose methods do not write their receiver
var immutableRecv = []string{
	"(*regexp.Regexp).", "(embed.FS).", "(*strings.Replacer).", "(*embed.", "(reflect.", "(google.golang.org/protobuf/",
	"(*google.golang.org/protobuf/internal/impl.MessageState).", "(google.golang.org/protobuf/reflect",
	"(error).", "(fmt.Stringer).", "(golang.org/x/text/", "(*golang.org/x/text/language/display.Dictionary).", "(*unicode.", "(*bytes.Reader).Len", "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).Len", "(*strings.Builder).String",
	"(*strings.Builder).Cap", "(encoding/binary.",
	"(*google.golang.org/protobuf/internal/impl.", "(google.golang.org/protobuf/internal",
}

func (e *Effects) model(s *Summary, site ssa.Instruction, name string, sig *types.Signature, args []locSet, at []types.Type, invoke bool, held map[string]bool) []locSet {
	in := site
	if s.recording {
		e.ext[name]++
	}
	n := sig.Results().Len()
	out := make([]locSet, n)
	fresh := func(i int) Loc {
		return Loc{s.alloc(in, fmt.Sprintf("%s.%s#%d", e.allocName(in), name, i), sig.Results().At(i).Type()), ""}
	}
	freshAll := func() {
		for i := 0; i < n; i++ {
			if pointerful(sig.Results().At(i).Type()) {
				out[i] = locSet{fresh(i): true}
			}
		}
	}
	writeObj := func(ls locSet, what string) {
		for l := range ls {
			e.record(s, l, true, what, in, held, nil, nil)
			// everything reachable directly inside as well
		}
	}
	arg := func(i int) locSet {
		if i < len(args) {
			return args[i]
		}
		return nil
	}
	call := name
	switch {
	case strings.HasPrefix(name, "(*sync.Mutex)."), strings.HasPrefix(name, "(*sync.RWMutex)."), strings.HasPrefix(name, "(sync.Locker)."):
		return out // the lock analysis deals with these
	case name == "(*sync.Once).Do":
		for l := range arg(0) {
			h := copySet(held)
			h[s.lockKey("W", Loc{l.n, l.path + ".once"})] = true
			e.dynamic(s, site, arg(1), nil, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), h)
		}
		return out
	case name == "sync.OnceFunc" || name == "sync.OnceValue" || name == "sync.OnceValues":
		out[0] = locSet{}
		for l := range arg(0) {
			if l.n.kind == nFunc {
				fnn := l.n
				nn := s.node(fmt.Sprintf("once%p:%s", in, fnn.key), func() *Node {
					return &Node{kind: nFunc, fn: fnn.fn, site: in, typ: fnn.typ, orig: "once@" + e.allocName(in), once: "once"}
				})
				for p, ls := range fnn.edges {
					for x := range ls {
						s.addEdge(nn, p, x)
					}
				}
				out[0][Loc{nn, ""}] = true
			}
		}
		return out
	case strings.HasPrefix(name, "(*sync.Map)."):
		m := name[len("(*sync.Map)."):]
		for l := range arg(0) {
			h := copySet(held)
			h[s.lockKey("W", Loc{l.n, l.path + ".syncmap"})] = true
			el := Loc{l.n, l.path + "[]"}
			c := callCommon(site)
			var k, v ssa.Value
			if len(c.Args) > 1 {
				k = c.Args[1]
			}
			if len(c.Args) > 2 {
				v = c.Args[2]
			}
			switch m {
			case "Store", "LoadOrStore", "Swap", "CompareAndSwap":
				e.record(s, el, true, "sync.Map "+m, in, h, k, v)
				e.storeInto(s, el, arg(len(args)-1), false, in)
			case "Delete", "LoadAndDelete", "Clear", "CompareAndDelete":
				e.record(s, el, true, "sync.Map "+m, in, h, k, nil)
			default:
				e.record(s, el, false, "sync.Map "+m, in, h, k, nil)
			}
			if n > 0 && pointerful(sig.Results().At(0).Type()) {
				out[0] = s.lookup(el, sig.Results().At(0).Type())
			}
			if m == "Range" {
				e.dynamic(s, site, arg(1), []locSet{s.lookup(el, nil), s.lookup(el, nil)}, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), h)
			}
		}
		return out
	case strings.HasPrefix(name, "(*sync/atomic."), strings.HasPrefix(name, "sync/atomic."):
		m := name[strings.LastIndexByte(name, '.')+1:]
		c := callCommon(site)
		for l := range arg(0) {
			h := copySet(held)
			h[s.lockKey("W", Loc{l.n, l.path + ".atomic"})] = true
			isW := !strings.HasPrefix(m, "Load")
			var v ssa.Value
			if isW && len(c.Args) > 0 {
				v = c.Args[len(c.Args)-1]
			}
			e.record(s, Loc{l.n, l.path + ".v"}, isW, "atomic "+m, in, h, nil, v)
			if isW && len(args) > 1 {
				e.storeInto(s, Loc{l.n, l.path + ".v"}, arg(len(args)-1), false, in)
			}
			if n > 0 && pointerful(sig.Results().At(0).Type()) {
				out[0] = s.lookup(Loc{l.n, l.path + ".v"}, sig.Results().At(0).Type())
			}
		}
		return out
	case strings.HasPrefix(name, "(*sync.Pool)."):
		for l := range arg(0) {
			el := Loc{l.n, l.path + ".pool"}
			if strings.HasSuffix(name, ".Put") {
				e.storeInto(s, el, arg(1), false, in)
			} else if n > 0 {
				out[0] = mergeRets([]locSet{s.lookup(el, nil)}, []locSet{{fresh(0): true}})[0]
			}
		}
		return out
	}
	mod, known := extModels[call]
	// callbacks are run with the other arguments' contents
	for i, a := range args {
		if i < len(at) && at[i] != nil {
			if sg, ok := at[i].Underlying().(*types.Signature); ok && !strings.HasPrefix(name, "slices.Sorted") && !strings.HasPrefix(name, "slices.Collect") && !strings.HasPrefix(name, "maps.Collect") {
				var da []locSet
				for p := 0; p < sg.Params().Len(); p++ {
					o := locSet{}
					if pointerful(sg.Params().At(p).Type()) {
						for j, b := range args {
							if j == i {
								continue
							}
							for l := range b {
								for x := range s.lookup(Loc{l.n, l.path + "[]"}, sg.Params().At(p).Type()) {
									o[x] = true
								}
								if j < len(at) && types.Identical(at[j], sg.Params().At(p).Type()) {
									o[l] = true
								}
							}
						}
					}
					da = append(da, o)
				}
				e.dynamic(s, site, a, da, nil, sg, held)
			}
		}
	}
	// pointer arguments are read
	for i, a := range args {
		if i < len(at) && at[i] != nil {
			switch at[i].Underlying().(type) {
			case *types.Slice, *types.Map:
				for l := range a {
					e.record(s, Loc{l.n, l.path + "[]"}, false, "argument of "+name, in, held, nil, nil)
				}
			case *types.Pointer:
				for l := range a {
					e.record(s, l, false, "argument of "+name, in, held, nil, nil)
				}
			}
		}
	}
	if known {
		for _, i := range mod.writes {
			writeObj(arg(i), name)
		}
		for _, i := range mod.elems {
			for l := range arg(i) {
				e.record(s, Loc{l.n, l.path + "[]"}, true, name, in, held, nil, nil)
				// new elements come from the remaining arguments
				for j := range args {
					if j != i && j < len(at) && at[j] != nil {
						if sl, ok := at[j].Underlying().(*types.Slice); ok && pointerful(sl.Elem()) {
							for l2 := range args[j] {
								e.storeInto(s, Loc{l.n, l.path + "[]"}, s.lookup(Loc{l2.n, l2.path + "[]"}, sl.Elem()), isAggregate(sl.Elem()), in)
							}
						}
						if mp, ok := at[j].Underlying().(*types.Map); ok && pointerful(mp.Elem()) {
							for l2 := range args[j] {
								e.storeInto(s, Loc{l.n, l.path + "[]"}, s.lookup(Loc{l2.n, l2.path + "[]"}, mp.Elem()), isAggregate(mp.Elem()), in)
							}
						}
					}
				}
			}
		}
		freshAll()
		if mod.shallow > 0 && n > 0 {
			var et types.Type
			switch u := sig.Results().At(0).Type().Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Map:
				et = u.Elem()
			}
			if len(at) >= mod.shallow && at[mod.shallow-1] != nil {
				switch u := at[mod.shallow-1].Underlying().(type) {
				case *types.Slice:
					et = u.Elem()
				case *types.Map:
					et = u.Elem()
				}
			}
			out[0] = locSet{fresh(0): true}
			if et == nil || pointerful(et) {
				for l := range arg(mod.shallow - 1) {
					e.storeInto(s, Loc{fresh(0).n, "[]"}, s.lookup(Loc{l.n, l.path + "[]"}, et), et != nil && isAggregate(et), in)
				}
			}
		}
		if mod.alias > 0 && n > 0 {
			if out[0] == nil {
				out[0] = locSet{fresh(0): true}
			}
			for l := range arg(mod.alias - 1) {
				out[0][l] = true
			}
		}
		return out
	}
	// a method with a pointer receiver (or an interface method) may write its receiver
	if invoke || sig.Recv() != nil {
		immutable := false
		for _, p := range immutableRecv {
			if strings.HasPrefix(name, p) {
				immutable = true
			}
		}
		ptr := invoke
		if sig.Recv() != nil {
			if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
				ptr = true
			}
		}
		if ptr && !immutable {
			writeObj(arg(0), "call of "+name)
			if strings.HasSuffix(name, ").Read") {
				for l := range arg(1) {
					e.record(s, Loc{l.n, l.path + "[]"}, true, name, in, held, nil, nil)
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()
		if !pointerful(t) {
			continue
		}
		out[i] = locSet{fresh(i): true}
		if isErrorType(t) {
			continue
		}
		for j := range args {
			if j < len(at) && at[j] != nil && couldAlias(at[j], t) {
				for l := range args[j] {
					out[i][l] = true
				}
			}
		}
	}
	return out
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func couldAlias(a, r types.Type) bool {
	if types.Identical(a, r) {
		return true
	}
	if types.IsInterface(r) || types.IsInterface(a) {
		return true
	}
	_, s1 := a.Underlying().(*types.Slice)
	_, s2 := r.Underlying().(*types.Slice)
	if s1 && s2 && types.Identical(a.Underlying(), r.Underlying()) {
		return true
	}
	_, f := r.Underlying().(*types.Signature)
	return f
}

// ---------------------------------------------------------------------------------------------
// locks

// lockOp classifies a call as a lock operation on its first argument.
func lockOp(c *ssa.CallCommon) (mode string, acquire, ok bool) {
	f := c.StaticCallee()
	if f == nil {
		return "", false, false
	}
	switch extName(f) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "W", true, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "W", false, true
	case "(*sync.RWMutex).RLock":
		return "R", true, true
	case "(*sync.RWMutex).RUnlock":
		return "R", false, true
	}
	return "", false, false
}

// one place where the effect of an instruction on the locks held is described; `may` selects the
// over-approximating version used to find locks that are not released.
func (e *Effects) lockDelta(s *Summary, in ssa.Instruction) (acq, rel []string, deferred bool) {
	site, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	if _, isGo := in.(*ssa.Go); isGo {
		return
	}
	_, deferred = in.(*ssa.Defer)
	c := site.Common()
	if mode, a, ok := lockOp(c); ok {
		ls := s.pts(c.Args[0])
		if len(ls) == 1 {
			for l := range ls {
				k := s.lockKey(mode, l)
				if a {
					acq = append(acq, k)
				} else {
					rel = append(rel, k)
				}
			}
		}
		return
	}
	if c.IsInvoke() {
		return
	}
	f := c.StaticCallee()
	if f != nil && extName(f) == "(*sync.Once).Do" {
		ls := s.pts(c.Args[0])
		if len(ls) == 1 {
			for l := range ls {
				acq = append(acq, s.lockKey("O", Loc{l.n, l.path + ".once"}))
			}
		}
		return
	}
	var callees []*ssa.Function
	var clo *Node
	if f != nil {
		callees = append(callees, f)
		if _, ok := c.Value.(*ssa.MakeClosure); ok {
			for l := range s.pts(c.Value) {
				clo = l.n
			}
		}
	} else {
		for l := range s.pts(c.Value) {
			if l.n.kind == nFunc {
				callees = append(callees, l.n.fn)
				clo = l.n
				if l.n.once != "" {
					acq = append(acq, s.lockKey("O", l))
				}
			} else if l.n.kind == nLoad && l.n.parent.kind == nGlobal && l.n.path == "" {
				if fns, ok := e.globalFuncs(l.n.parent.global); ok && len(fns) == 1 && fns[0].once {
					acq = append(acq, s.lockKey("O", Loc{l.n.parent, ".once"}))
				}
			}
		}
		if len(callees) != 1 {
			return
		}
	}
	for _, cf := range callees {
		if cf.Blocks == nil || !inRepo(fnPkgPath(cf)) {
			continue
		}
		cs := e.Summarise(cf)
		args := make([]locSet, len(c.Args))
		for i, a := range c.Args {
			args[i] = s.pts(a)
		}
		m := e.mapper(s, cs, in, clo, args)
		for k := range cs.exitHeld {
			if x := m.lock(k); x != "" {
				acq = append(acq, x)
			}
		}
		for k := range cs.releases {
			if x := m.lock(k); x != "" {
				rel = append(rel, x)
			}
		}
	}
	sort.Strings(acq)
	sort.Strings(rel)
	return
}

func (e *Effects) lockStep(s *Summary, in ssa.Instruction, held map[string]bool) {
	if !s.recording {
		return
	}
	if _, ok := in.(*ssa.RunDefers); ok {
		for k := range held {
			if strings.HasPrefix(k, "D") {
				delete(held, k[1:])
				delete(held, k)
			}
		}
		return
	}
	acq, rel, def := e.lockDelta(s, in)
	if def {
		for _, k := range rel {
			held["D"+k] = true
		}
		return
	}
	for _, k := range rel {
		delete(held, k)
	}
	for _, k := range acq {
		held[k] = true
	}
}

// lockFlow: the locks certainly held on entry to each block.
func (e *Effects) lockFlow(s *Summary, dead map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]map[string]bool {
	in := map[*ssa.BasicBlock]map[string]bool{}
	known := map[*ssa.BasicBlock]bool{}
	fn := s.fn
	in[fn.Blocks[0]] = map[string]bool{}
	known[fn.Blocks[0]] = true
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if dead[b] || !known[b] {
				continue
			}
			held := copySet(in[b])
			for _, x := range b.Instrs {
				e.lockStep(s, x, held)
			}
			for _, sc := range b.Succs {
				if dead[sc] {
					continue
				}
				if !known[sc] {
					known[sc] = true
					in[sc] = copySet(held)
					changed = true
					continue
				}
				for k := range in[sc] {
					if !held[k] {
						delete(in[sc], k)
						changed = true
					}
				}
			}
		}
	}
	return in
}

// finishLocks derives what callers need to know and the lock errors of this function.
func (e *Effects) finishLocks(s *Summary, dead map[*ssa.BasicBlock]bool) {
	fn := s.fn
	lockish := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, r, _ := e.lockDelta(s, in); len(a)+len(r) > 0 {
				lockish = true
			}
		}
	}
	if !lockish {
		return
	}
	// may-held: tokens "H..." (held), "P..." (held with a deferred release pending), "X..." (released though not taken here)
	in := map[*ssa.BasicBlock]map[string]bool{fn.Blocks[0]: {}}
	step := func(held map[string]bool, x ssa.Instruction, report bool) {
		if _, ok := x.(*ssa.RunDefers); ok {
			for k := range held {
				if k[0] == 'P' {
					delete(held, k)
				}
				if k[0] == 'Q' {
					held["X"+k[1:]] = true
					delete(held, k)
				}
			}
			return
		}
		acq, rel, def := e.lockDelta(s, x)
		for _, k := range rel {
			if def {
				if held["H"+k] {
					delete(held, "H"+k)
					held["P"+k] = true
				} else {
					held["Q"+k] = true
				}
				continue
			}
			if held["H"+k] {
				delete(held, "H"+k)
			} else if held["P"+k] {
				if report {
					s.problem(e, x, "the lock is released here and again by a deferred call", k)
				}
			} else {
				held["X"+k] = true
			}
		}
		for _, k := range acq {
			if k[0] == 'O' {
				held["H"+k] = true
				continue
			}
			if report {
				other := "R" + k[1:]
				if k[0] == 'R' {
					other = "W" + k[1:]
				}
				if held["H"+k] || held["P"+k] || held["H"+other] || held["P"+other] {
					s.problem(e, x, "the lock may already be held by this call when it is acquired here (deadlock)", k)
				}
			}
			held["H"+k] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if in[b] == nil || dead[b] {
				continue
			}
			held := copySet(in[b])
			for _, x := range b.Instrs {
				step(held, x, false)
			}
			for _, sc := range b.Succs {
				if in[sc] == nil {
					in[sc] = map[string]bool{}
					changed = true
				}
				for k := range held {
					if !in[sc][k] {
						in[sc][k] = true
						changed = true
					}
				}
			}
		}
	}
	first := true
	for _, b := range fn.Blocks {
		if in[b] == nil || dead[b] {
			continue
		}
		held := copySet(in[b])
		must := copySet(s.lockIn[b])
		for _, x := range b.Instrs {
			if ret, ok := x.(*ssa.Return); ok {
				now := map[string]bool{}
				for k := range must {
					if k[0] != 'D' {
						now[k] = true
					}
				}
				for k := range held {
					if k[0] == 'X' {
						s.releases[k[1:]] = true
					}
					if k[0] == 'H' && k[1] != 'O' && !now[k[1:]] {
						s.problem(e, ret, "the lock may still be held when the function returns here", k[1:])
					}
				}
				if first {
					s.exitHeld = now
					first = false
				} else {
					for k := range s.exitHeld {
						if !now[k] {
							if k[0] != 'O' {
								s.problem(e, ret, "the lock is held on some returns of the function but not on this one", k)
							}
							delete(s.exitHeld, k)
						}
					}
					for k := range now {
						if !s.exitHeld[k] && k[0] != 'O' {
							s.problem(e, ret, "the lock is still held on this return but not on the others", k)
						}
					}
				}
			}
			step(held, x, true)
			e.lockStep(s, x, must)
		}
	}
}

func (s *Summary) problem(e *Effects, in ssa.Instruction, text, key string) {
	r := s.lockLocs[key]
	name := key
	if r.loc.n != nil {
		name = r.loc.String()
	}
	for _, p := range s.problems {
		if p.text == text && p.key == name && p.pos == instrPos(in) {
			return
		}
	}
	s.problems = append(s.problems, lockProblem{instrPos(in), s.fn, text, name})
}

func callCommon(in ssa.Instruction) *ssa.CallCommon {
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return &ssa.CallCommon{}
}
