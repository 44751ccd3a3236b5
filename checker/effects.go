package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A compositional, context sensitive points-to and effect analysis.
//
// Every function gets a summary: a small heap graph over its parameters, free variables, the
// globals and the objects it allocates, plus the reads and writes it performs on objects that
// exist outside of it, each with the locks that are certainly held. A call instantiates the
// callee's summary in the caller's graph, so an effect on a parameter becomes an effect on
// whatever the caller passed. Writes to an object that has been allocated by the function itself
// (or by a callee) and has not been made reachable from outside yet are not effects.

type nodeKind int

const (
	nParam nodeKind = iota
	nFree
	nGlobal
	nLoad  // what an outside location held on entry
	nAlloc // allocated here or in a callee
	nFunc  // function value, possibly with bindings (closure)
	nDefer // result of a call through a function value that is only known to the caller
)

type Node struct {
	kind   nodeKind
	idx    int
	global *ssa.Global
	parent *Node
	path   string
	orig   string // identity of the leaf allocation
	once   string // function value wrapped by sync.OnceFunc and friends
	site   ssa.Instruction
	fn     *ssa.Function
	typ    types.Type
	depth  int
	key    string
	edges  map[string]map[Loc]bool // stored pointers, by path inside the object
}

func (n *Node) outside() bool {
	return n.kind == nParam || n.kind == nFree || n.kind == nGlobal || n.kind == nLoad || n.kind == nDefer
}

// rootedIn finds the parameter, free variable or global an outside node hangs off.
func (n *Node) root() *Node {
	for n.kind == nLoad {
		n = n.parent
	}
	return n
}

func (n *Node) name() string {
	switch n.kind {
	case nParam:
		return fmt.Sprintf("param%d", n.idx)
	case nFree:
		return fmt.Sprintf("free%d", n.idx)
	case nGlobal:
		return "global " + globalName(n.global)
	case nLoad:
		return n.parent.name() + pathName(n.path) + "->"
	case nAlloc:
		return "alloc@" + n.orig
	case nFunc:
		return "func " + n.fn.Name()
	}
	return "result of callback"
}

func pathName(p string) string {
	if p == "" {
		return ""
	}
	if strings.HasPrefix(p, ".") || strings.HasPrefix(p, "[") {
		return p
	}
	return "." + p
}

func globalName(g *ssa.Global) string {
	s := strings.TrimPrefix(g.String(), modPath+"/")
	return strings.Replace(s, modPath+".", "phonenumbers.", 1)
}

// Loc is a location: an object and a path inside it.
type Loc struct {
	n    *Node
	path string
}

func (l Loc) String() string { return l.n.name() + pathName(l.path) }

type locSet map[Loc]bool

// Access is a read or write of an outside location.
type Access struct {
	loc   Loc
	write bool
	what  string // description of the instruction
	pos   token.Pos
	fn    *ssa.Function // where it happens
	locks string        // canonical lock set held, see lockKey
	via   []string      // call chain from the summarised function
	instr ssa.Instruction
	key   ssa.Value // map writes: key and value
	val   ssa.Value
}

type deferredCall struct {
	callee locSet
	args   []locSet
	types  []types.Type
	sig    *types.Signature
	res    *Node
	locks  string
	pos    token.Pos
}

type Summary struct {
	fn        *ssa.Function
	nodes     map[string]*Node
	vals      map[ssa.Value]locSet
	rets      []locSet
	acc       map[string]*Access
	accOrder  []string
	deferred  map[string]*deferredCall
	exitHeld  map[string]bool // locks taken and still held on every return
	releases  map[string]bool // locks released that were not taken here
	done      bool
	inprog    bool
	lockIn    map[*ssa.BasicBlock]map[string]bool
	changed   bool
	publish   map[*Node][]ssa.Instruction // inside nodes made reachable from outside, and where
	pubLoc    map[*Node]Loc
	problems  []lockProblem
	recording bool
	lockLocs  map[string]lockRef
	exported  []*Node // nodes that matter to callers
}

type lockProblem struct {
	pos  token.Pos
	fn   *ssa.Function
	text string
	key  string
}

type Effects struct {
	p       *Program
	sums    map[*ssa.Function]*Summary
	dead    map[*ssa.Function]map[*ssa.BasicBlock]bool
	stack   []*ssa.Function
	calls   int
	ext     map[string]int // external callees met
	latches map[*ssa.Global]latch
	gfuncs  map[*ssa.Global][]globalFunc
}

func NewEffects(p *Program) *Effects {
	if e, ok := p.facts["effects"].(*Effects); ok {
		return e
	}
	e := &Effects{p: p, sums: map[*ssa.Function]*Summary{}, dead: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, ext: map[string]int{}, gfuncs: map[*ssa.Global][]globalFunc{}}
	e.latches = findLatches(p)
	p.facts["effects"] = e
	return e
}

func pointerful(t types.Type) bool { return pointerfulRec(t, 0) }
func pointerfulRec(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerfulRec(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerfulRec(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerfulRec(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// isAggregate: values of this type are represented by the location holding their content.
func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (s *Summary) node(key string, mk func() *Node) *Node {
	if n, ok := s.nodes[key]; ok {
		return n
	}
	n := mk()
	n.key = key
	n.edges = map[string]map[Loc]bool{}
	s.nodes[key] = n
	s.changed = true
	return n
}

func (s *Summary) param(i int, t types.Type) *Node {
	return s.node(fmt.Sprintf("p%d", i), func() *Node { return &Node{kind: nParam, idx: i, typ: t} })
}
func (s *Summary) free(i int, t types.Type) *Node {
	return s.node(fmt.Sprintf("f%d", i), func() *Node { return &Node{kind: nFree, idx: i, typ: t} })
}
func (s *Summary) globalNode(g *ssa.Global) *Node {
	return s.node("g:"+g.String(), func() *Node { return &Node{kind: nGlobal, global: g, typ: g.Type()} })
}
func (s *Summary) load(parent *Node, path string, t types.Type) *Node {
	if parent.depth >= 8 {
		return parent
	}
	return s.node("l("+parent.key+")"+path, func() *Node {
		return &Node{kind: nLoad, parent: parent, path: path, depth: parent.depth + 1, typ: t}
	})
}
func (s *Summary) alloc(site ssa.Instruction, orig string, t types.Type) *Node {
	return s.node(fmt.Sprintf("a%p:%s", site, orig), func() *Node {
		return &Node{kind: nAlloc, site: site, orig: orig, typ: t}
	})
}

// lookup yields what a location holds. t is the type of the content.
func (s *Summary) lookup(l Loc, t types.Type) locSet {
	out := locSet{}
	if t != nil && isAggregate(t) {
		out[l] = true
		return out
	}
	for e := range l.n.edges[l.path] {
		out[e] = true
	}
	// content copied wholesale from other aggregates
	for cp, cset := range l.n.edges {
		if strings.HasPrefix(cp, "=") {
			base := cp[1:]
			if strings.HasPrefix(l.path, base) {
				for c := range cset {
					if c.n == l.n && c.path == base {
						continue
					}
					for x := range s.lookupOnce(Loc{c.n, c.path + l.path[len(base):]}, t) {
						out[x] = true
					}
				}
			}
		}
	}
	if l.n.outside() {
		out[Loc{s.load(l.n, l.path, t), ""}] = true
	}
	return out
}

func (s *Summary) lookupOnce(l Loc, t types.Type) locSet {
	out := locSet{}
	for e := range l.n.edges[l.path] {
		out[e] = true
	}
	if l.n.outside() {
		out[Loc{s.load(l.n, l.path, t), ""}] = true
	}
	return out
}

func (s *Summary) addEdge(n *Node, path string, l Loc) {
	m := n.edges[path]
	if m == nil {
		m = map[Loc]bool{}
		n.edges[path] = m
	}
	if !m[l] {
		m[l] = true
		s.changed = true
	}
}

func (s *Summary) addVal(v ssa.Value, ls locSet) {
	m := s.vals[v]
	if m == nil {
		m = locSet{}
		s.vals[v] = m
	}
	for l := range ls {
		if !m[l] {
			m[l] = true
			s.changed = true
		}
	}
}

// Summarise computes (or returns) the summary of fn.
func (e *Effects) Summarise(fn *ssa.Function) *Summary {
	s := e.sums[fn]
	if s == nil {
		s = &Summary{fn: fn, nodes: map[string]*Node{}, vals: map[ssa.Value]locSet{}, acc: map[string]*Access{},
			deferred: map[string]*deferredCall{}, publish: map[*Node][]ssa.Instruction{}, pubLoc: map[*Node]Loc{},
			exitHeld: map[string]bool{}, releases: map[string]bool{}, lockLocs: map[string]lockRef{}}
		e.sums[fn] = s
	}
	if s.done || s.inprog {
		return s
	}
	s.inprog = true
	e.stack = append(e.stack, fn)
	dead := e.deadBlocks(fn)
	pass := func() {
		for _, b := range fn.Blocks {
			if dead[b] {
				continue
			}
			held := copySet(s.lockIn[b])
			for _, in := range b.Instrs {
				e.instr(s, in, held)
				e.lockStep(s, in, held)
			}
		}
	}
	// first the heap graph, then, with it settled, the locks and the accesses
	for round := 0; round < 80; round++ {
		s.changed = false
		s.lockIn = map[*ssa.BasicBlock]map[string]bool{}
		pass()
		if !s.changed {
			break
		}
	}
	s.recording = true
	for round := 0; round < 20; round++ {
		s.changed = false
		s.lockIn = e.lockFlow(s, dead)
		pass()
		if !s.changed {
			break
		}
	}
	e.finishLocks(s, dead)
	e.stack = e.stack[:len(e.stack)-1]
	s.inprog = false
	s.prune()
	// a function on a call cycle is recomputed by its callers until stable; the only cycles in
	// practice are direct self recursion, for which the fixpoint above already used its own summary
	s.done = true
	return s
}

func copySet(m map[string]bool) map[string]bool {
	out := make(map[string]bool, len(m))
	for k := range m {
		out[k] = true
	}
	return out
}

func setKey(m map[string]bool) string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (s *Summary) pts(v ssa.Value) locSet {
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		return locSet{Loc{s.globalNode(x), ""}: true}
	case *ssa.Function:
		n := s.node("fn:"+x.String(), func() *Node { return &Node{kind: nFunc, fn: x, typ: x.Type()} })
		return locSet{Loc{n, ""}: true}
	case *ssa.Builtin:
		return nil
	case *ssa.Parameter:
		if !pointerful(x.Type()) {
			return nil
		}
		for i, p := range s.fn.Params {
			if p == x {
				return locSet{Loc{s.param(i, x.Type()), ""}: true}
			}
		}
	case *ssa.FreeVar:
		if !pointerful(x.Type()) {
			return nil
		}
		for i, p := range s.fn.FreeVars {
			if p == x {
				return locSet{Loc{s.free(i, x.Type()), ""}: true}
			}
		}
	}
	return s.vals[v]
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type lockRef struct {
	mode string // "W", "R" or "O" (after a one-time initialisation)
	loc  Loc
}

func (e *Effects) record(s *Summary, l Loc, write bool, what string, in ssa.Instruction, held map[string]bool, key, val ssa.Value) {
	e.recordAcc(s, &Access{loc: l, write: write, what: what, pos: instrPos(in), fn: s.fn, locks: setKey(held), instr: in, key: key, val: val}, in)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if in.Pos().IsValid() {
		return in.Pos()
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if *o == nil {
			continue
		}
		switch (*o).(type) {
		case *ssa.Function, *ssa.Global:
			continue
		}
		if (*o).Pos().IsValid() {
			return (*o).Pos()
		}
	}
	if b := in.Block(); b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return x.Pos()
			}
		}
		return b.Parent().Pos()
	}
	return token.NoPos
}

func (e *Effects) recordAcc(s *Summary, a *Access, at ssa.Instruction) {
	if !s.recording {
		return
	}
	l := a.loc
	if !l.n.outside() {
		// an object made here: only matters once it is reachable from outside
		if pl, ok := s.publishedBefore(l.n, at); ok {
			a.loc = Loc{pl.n, pl.path + "->" + l.path}
		} else {
			return
		}
	}
	rw := "R"
	if a.write {
		rw = "W"
	}
	k := fmt.Sprintf("%s|%s|%s|%s", rw, a.loc.String(), a.locks, posKey(a))
	if !a.write {
		k = fmt.Sprintf("%s|%s|%s", rw, a.loc.String(), a.locks)
	}
	if _, ok := s.acc[k]; !ok {
		s.acc[k] = a
		s.accOrder = append(s.accOrder, k)
		s.changed = true
	}
}

func posKey(a *Access) string { return fmt.Sprintf("%d", a.pos) }

// publishedBefore reports whether inside node n may have become reachable from outside before `at`.
func (s *Summary) publishedBefore(n *Node, at ssa.Instruction) (Loc, bool) {
	seen := map[*Node]bool{}
	var walk func(n *Node) (Loc, bool)
	walk = func(m *Node) (Loc, bool) {
		if seen[m] {
			return Loc{}, false
		}
		seen[m] = true
		for _, p := range s.publish[m] {
			if p == at {
				continue
			}
			if mayFollow(p, at, m.site) {
				return s.pubLoc[m], true
			}
		}
		// containers holding m
		for _, c := range s.nodes {
			if c.outside() || c == m {
				continue
			}
			for path, ls := range c.edges {
				for l := range ls {
					if l.n == m {
						if pl, ok := walk(c); ok {
							return Loc{pl.n, pl.path + "->" + path}, true
						}
					}
				}
			}
		}
		return Loc{}, false
	}
	return walk(n)
}

// mayFollow: is there a path from instruction a to instruction b that does not pass the allocation again?
func mayFollow(a, b, alloc ssa.Instruction) bool {
	if a == nil || b == nil || a.Block() == nil || b.Block() == nil {
		return true
	}
	idx := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	ai, bi := idx(a), idx(b)
	allocIn := func(blk *ssa.BasicBlock, from, to int) bool {
		if alloc == nil || alloc.Block() != blk {
			return false
		}
		i := idx(alloc)
		return i > from && i < to
	}
	if a.Block() == b.Block() && ai < bi && !allocIn(a.Block(), ai, bi) {
		return true
	}
	if allocIn(a.Block(), ai, len(a.Block().Instrs)) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			if !allocIn(x, -1, bi) {
				return true
			}
			continue
		}
		if alloc != nil && alloc.Block() == x {
			continue
		}
		work = append(work, x.Succs...)
	}
	return false
}

// storeInto records pointers being placed into a location.
func (e *Effects) storeInto(s *Summary, dst Loc, vals locSet, aggregate bool, at ssa.Instruction) {
	for v := range vals {
		if aggregate {
			if v != dst {
				s.addEdge(dst.n, "="+dst.path, v)
			}
		} else {
			s.addEdge(dst.n, dst.path, v)
		}
		if dst.n.outside() && !v.n.outside() {
			found := false
			for _, p := range s.publish[v.n] {
				if p == at {
					found = true
				}
			}
			if !found {
				s.publish[v.n] = append(s.publish[v.n], at)
				if _, ok := s.pubLoc[v.n]; !ok {
					s.pubLoc[v.n] = dst
				}
				s.changed = true
			}
		}
	}
}

func elemPath(path, f string) string { return path + f }

func (e *Effects) instr(s *Summary, in ssa.Instruction, held map[string]bool) {
	switch x := in.(type) {
	case *ssa.Alloc:
		n := s.alloc(x, e.allocName(x), deref(x.Type()))
		s.addVal(x, locSet{Loc{n, ""}: true})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		n := s.alloc(in, e.allocName(in), v.Type())
		s.addVal(v, locSet{Loc{n, ""}: true})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		n := s.node(fmt.Sprintf("c%p", x), func() *Node { return &Node{kind: nFunc, fn: fn, site: x, typ: fn.Type(), orig: e.allocName(x)} })
		for i, b := range x.Bindings {
			for l := range s.pts(b) {
				s.addEdge(n, fmt.Sprintf("fv%d", i), l)
			}
		}
		s.addVal(x, locSet{Loc{n, ""}: true})
	case *ssa.MakeInterface:
		if !pointerful(x.X.Type()) {
			return
		}
		if isAggregate(x.X.Type()) {
			n := s.alloc(x, e.allocName(x), x.X.Type())
			e.storeInto(s, Loc{n, ""}, s.pts(x.X), true, in)
			s.addVal(x, locSet{Loc{n, ""}: true})
			return
		}
		s.addVal(x, s.pts(x.X))
	case *ssa.ChangeType:
		s.addVal(x, s.pts(x.X))
	case *ssa.ChangeInterface:
		s.addVal(x, s.pts(x.X))
	case *ssa.Convert:
		// string <-> slice conversions copy
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			n := s.alloc(x, e.allocName(x), x.Type())
			s.addVal(x, locSet{Loc{n, ""}: true})
			return
		}
		if pointerful(x.Type()) {
			s.addVal(x, s.pts(x.X))
		}
	case *ssa.MultiConvert:
		s.addVal(x, s.pts(x.X))
	case *ssa.SliceToArrayPointer:
		s.addVal(x, s.pts(x.X))
	case *ssa.TypeAssert:
		s.addVal(x, s.pts(x.X))
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			_ = call
			s.addVal(x, s.vals[tupleKey{x.Tuple, x.Index}.val(s)])
			return
		}
		if pointerful(x.Type()) {
			s.addVal(x, s.pts(x.Tuple))
		}
	case *ssa.Phi:
		if !pointerful(x.Type()) {
			return
		}
		for _, ed := range x.Edges {
			s.addVal(x, s.pts(ed))
		}
	case *ssa.Slice:
		s.addVal(x, s.pts(x.X))
	case *ssa.FieldAddr:
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		f := "." + st.Field(x.Field).Name()
		out := locSet{}
		for l := range s.pts(x.X) {
			out[Loc{l.n, elemPath(l.path, f)}] = true
		}
		s.addVal(x, out)
	case *ssa.Field:
		if !pointerful(x.Type()) {
			return
		}
		st := x.X.Type().Underlying().(*types.Struct)
		f := "." + st.Field(x.Field).Name()
		for l := range s.pts(x.X) {
			s.addVal(x, s.lookup(Loc{l.n, elemPath(l.path, f)}, x.Type()))
		}
	case *ssa.IndexAddr:
		out := locSet{}
		for l := range s.pts(x.X) {
			out[Loc{l.n, elemPath(l.path, "[]")}] = true
		}
		s.addVal(x, out)
	case *ssa.Index:
		if !pointerful(x.Type()) {
			return
		}
		for l := range s.pts(x.X) {
			s.addVal(x, s.lookup(Loc{l.n, elemPath(l.path, "[]")}, x.Type()))
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			for l := range s.pts(x.X) {
				e.record(s, l, false, "read", in, held, nil, nil)
				if pointerful(x.Type()) {
					s.addVal(x, s.lookup(l, x.Type()))
				}
			}
		case token.ARROW:
			for l := range s.pts(x.X) {
				s.addVal(x, s.lookup(Loc{l.n, "[]"}, x.Type()))
			}
		}
	case *ssa.Store:
		for l := range s.pts(x.Addr) {
			e.record(s, l, true, "assignment", in, held, nil, x.Val)
			if pointerful(x.Val.Type()) {
				e.storeInto(s, l, s.pts(x.Val), isAggregate(x.Val.Type()), in)
			}
		}
	case *ssa.MapUpdate:
		for l := range s.pts(x.Map) {
			e.record(s, Loc{l.n, elemPath(l.path, "[]")}, true, "map update", in, held, x.Key, x.Value)
			if pointerful(x.Value.Type()) {
				e.storeInto(s, Loc{l.n, elemPath(l.path, "[]")}, s.pts(x.Value), isAggregate(x.Value.Type()), in)
			}
			if pointerful(x.Key.Type()) {
				e.storeInto(s, Loc{l.n, elemPath(l.path, "[key]")}, s.pts(x.Key), isAggregate(x.Key.Type()), in)
			}
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		for l := range s.pts(x.X) {
			ml := Loc{l.n, elemPath(l.path, "[]")}
			e.record(s, ml, false, "map lookup", in, held, x.Index, nil)
			if pointerful(vt) {
				s.addVal(x, s.lookup(ml, vt))
			}
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			for l := range s.pts(x.X) {
				e.record(s, Loc{l.n, elemPath(l.path, "[]")}, false, "map iteration", in, held, nil, nil)
			}
			s.addVal(x, s.pts(x.X))
		}
	case *ssa.Next:
		if x.IsString {
			return
		}
		if r, ok := x.Iter.(*ssa.Range); ok {
			mt, ok := r.X.Type().Underlying().(*types.Map)
			if !ok {
				return
			}
			for l := range s.pts(r) {
				e.record(s, Loc{l.n, elemPath(l.path, "[]")}, false, "map iteration", in, held, nil, nil)
				if pointerful(mt.Elem()) {
					s.addVal(x, s.lookup(Loc{l.n, elemPath(l.path, "[]")}, mt.Elem()))
				}
				if pointerful(mt.Key()) {
					s.addVal(x, s.lookup(Loc{l.n, elemPath(l.path, "[key]")}, mt.Key()))
				}
			}
		}
	case *ssa.Send:
		for l := range s.pts(x.Chan) {
			e.storeInto(s, Loc{l.n, "[]"}, s.pts(x.X), isAggregate(x.X.Type()), in)
		}
	case *ssa.Return:
		for i, r := range x.Results {
			for len(s.rets) <= i {
				s.rets = append(s.rets, locSet{})
			}
			for l := range s.pts(r) {
				if !s.rets[i][l] {
					s.rets[i][l] = true
					s.changed = true
				}
			}
		}
	case *ssa.Call:
		e.call(s, x, x.Common(), x, held)
	case *ssa.Defer:
		e.call(s, x, x.Common(), nil, held)
	case *ssa.Go:
		e.call(s, x, x.Common(), nil, held)
	}
}

// results of calls with several values live under synthetic keys
type tupleKey struct {
	t ssa.Value
	i int
}

type tupleVal struct {
	ssa.Value
	i int
}

var tupleVals = map[tupleKey]ssa.Value{}

func (k tupleKey) val(s *Summary) ssa.Value {
	if v, ok := tupleVals[k]; ok {
		return v
	}
	v := &tupleVal{k.t, k.i}
	tupleVals[k] = v
	return v
}

func (e *Effects) allocName(in ssa.Instruction) string {
	fn := in.Parent()
	n := 0
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if x == in {
				return fmt.Sprintf("%s#%d", fnName(fn), n)
			}
			n++
		}
	}
	return fnName(fn)
}

func (e *Effects) setResult(s *Summary, res ssa.Value, i int, ls locSet) {
	if res == nil || len(ls) == 0 {
		return
	}
	if _, ok := res.Type().(*types.Tuple); ok {
		s.addVal(tupleKey{res, i}.val(s), ls)
		return
	}
	if i == 0 {
		s.addVal(res, ls)
	}
}

func resultTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, sig.Results().At(i).Type())
	}
	return out
}
