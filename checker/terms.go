package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms: hash-consed names for the values a function computes, in terms of its parameters and of
// versions of memory. Two values with the same term are equal in every execution.

type term struct {
	id   int
	op   string
	sym  string
	args []*term
	typ  types.Type
	n    int // nodes
	lits []*term
}

type engine struct {
	prover    *bprover
	p         *Program
	tab       map[string]*term
	fns       map[string]*ssa.Function
	ctx       map[*ssa.Function]*fctx
	mod       map[*ssa.Function]*modset
	sums      map[string]*summary
	defs      map[*term]*ssa.BasicBlock // where a local unknown is (re)computed
	getter    map[*ssa.Function]string
	comp      map[*ssa.Function]int
	busyC     map[*ssa.Function]bool
	callID    map[string]ssa.CallInstruction
	nilT      *term
	trueT     *term
	falseT    *term
	zero      *term
	one       *term
	vers      map[*term]*verInfo
	joins     map[*term]*joinInfo
	joinBusy  map[*term]bool
	fixedG    map[*ssa.Global]*term
	fixedL    map[*ssa.Global][]*term
	globLoads map[*ssa.Global][]ssa.Instruction
	globUses  map[*ssa.Global][]ssa.Instruction
	allocs    map[*term]bool
	stop      map[string]bool
	asking    bool
	sentinels map[string]bool
	given     map[*ssa.Function][]*term
	once      map[ssa.Value]ssa.Value
	objs      map[*term]*verInfo
	objAddr   map[*term]*term
	callers   map[*ssa.Function][]ssa.CallInstruction
	open      map[*ssa.Function]bool
	callVer   map[*term]map[string]*term // the memory a call starts from
	made      map[*term]*term            // lengths of lists made
	needed    map[*ssa.Function]map[int]bool
	nilReads  map[*term]bool
	api       map[*ssa.Function]bool // what may be called from outside, if it differs from the library's interface
}

func (p *Program) Engine() *engine { return p.EngineStop("") }

// EngineStop is an engine that takes the functions named (with their package path) as they are.
func (p *Program) EngineStop(names ...string) *engine {
	key := "engine " + strings.Join(names, " ")
	if e, ok := p.facts[key].(*engine); ok {
		return e
	}
	stop := map[string]bool{}
	for _, n := range names {
		stop[n] = true
	}
	e := &engine{p: p, stop: stop, tab: map[string]*term{}, fns: map[string]*ssa.Function{}, ctx: map[*ssa.Function]*fctx{}, mod: map[*ssa.Function]*modset{},
		sums: map[string]*summary{}, defs: map[*term]*ssa.BasicBlock{}, getter: map[*ssa.Function]string{}, comp: map[*ssa.Function]int{}, busyC: map[*ssa.Function]bool{}, callID: map[string]ssa.CallInstruction{},
		vers: map[*term]*verInfo{}, joins: map[*term]*joinInfo{}, joinBusy: map[*term]bool{}, allocs: map[*term]bool{}, once: map[ssa.Value]ssa.Value{}, objs: map[*term]*verInfo{}, objAddr: map[*term]*term{}}
	e.nilT, e.trueT, e.falseT = e.mk("const", "nil"), e.mk("const", "true"), e.mk("const", "false")
	e.zero, e.one = e.num(0), e.num(1)
	p.facts[key] = e
	e.computeMods()
	return e
}

func (e *engine) mk(op, sym string, args ...*term) *term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('\x00')
	b.WriteString(sym)
	for _, a := range args {
		b.WriteByte('\x00')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t := e.tab[k]; t != nil {
		return t
	}
	t := &term{id: len(e.tab) + 1, op: op, sym: sym, args: args, n: 1}
	for _, a := range args {
		t.n += a.n
	}
	e.tab[k] = t
	return t
}

func (e *engine) num(n int64) *term  { return e.mk("const", strconv.FormatInt(n, 10)) }
func (e *engine) str(s string) *term { return e.mk("const", strconv.Quote(s)) }
func (t *term) isConst() bool        { return t.op == "const" }
func (t *term) strConst() (string, bool) {
	if t.op == "const" && strings.HasPrefix(t.sym, "\"") {
		s, err := strconv.Unquote(t.sym)
		return s, err == nil
	}
	return "", false
}
func (t *term) intConst() (int64, bool) {
	if t.op != "const" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.sym, 10, 64)
	return n, err == nil
}

func (t *term) String() string {
	switch t.op {
	case "const":
		return t.sym
	case "param":
		return t.sym
	case "not":
		return "!" + t.args[0].String()
	}
	if t.n > 200 {
		return fmt.Sprintf("%s:%s#%d", t.op, t.sym, t.id)
	}
	var s []string
	for _, a := range t.args {
		s = append(s, a.String())
	}
	return t.op + ":" + t.sym + "(" + strings.Join(s, ",") + ")"
}

// ---- effects by type ------------------------------------------------------------------------

type modset struct {
	reads, writes map[string]bool
	any           bool // may write anything
}

func elemKey(t types.Type) string { return "elem:" + tstr(t) }
func mapKey(t types.Type) string  { return "map:" + tstr(t.Underlying()) }

// fresh reports that an address belongs to an object made in this function.
func freshBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			return true
		default:
			return false
		}
	}
}

func memKeyOf(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return typeField(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		t := x.X.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		switch y := t.(type) {
		case *types.Slice:
			return elemKey(y.Elem())
		case *types.Array:
			return elemKey(y.Elem())
		}
	case *ssa.Global:
		return "glob:" + x.String()
	case *ssa.Alloc:
		return "cell:" + tstr(deref(x.Type()))
	}
	return "cell:" + tstr(deref(a.Type()))
}

// storeKeys: the keys of a location, with those of its fields if it is a struct.
func storeKeys(addr ssa.Value, out map[string]bool) {
	out[memKeyOf(addr)] = true
	fieldKeys(deref(addr.Type()), out)
}

func fieldKeys(t types.Type, out map[string]bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out[typeField(t, i)] = true
			fieldKeys(u.Field(i).Type(), out)
		}
	case *types.Array:
		out[elemKey(u.Elem())] = true
		fieldKeys(u.Elem(), out)
	}
}

var pureExt = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "regexp.", "(*regexp.Regexp).", "(*strings.Replacer).", "slices.Contains", "slices.Index", "slices.Clone", "slices.Sorted",
	"slices.Equal", "slices.Max", "slices.Min", "slices.Concat", "slices.Collect", "slices.Values", "slices.BinarySearch", "maps.Keys", "maps.Clone", "maps.Values", "fmt.Sprint", "fmt.Errorf", "errors.", "math.", "math/bits.", "bytes.", "cmp.",
	"google.golang.org/protobuf/proto.String", "google.golang.org/protobuf/proto.Int32", "google.golang.org/protobuf/proto.Uint64", "google.golang.org/protobuf/proto.Bool", "google.golang.org/protobuf/proto.Clone", "google.golang.org/protobuf/proto.Equal",
	"(*sync.", "(embed.FS).", "(error).Error", "(*bytes.Buffer).", "(*bytes.Reader).", "(*strings.Builder).", "(*strings.Reader).", "unicode/utf16."}

func isPureExt(n string) bool {
	for _, p := range pureExt {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// msgKeys lists the field keys of a struct a pointer leads to.
func msgKeys(t types.Type, out map[string]bool, depth int) {
	n := namedOf(deref(t))
	if n == nil || n.Obj().Pkg() == nil || !inRepo(n.Obj().Pkg().Path()) || depth > 3 {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		k := typeField(n, i)
		if out[k] {
			continue
		}
		out[k] = true
		msgKeys(st.Field(i).Type(), out, depth+1)
	}
}

func (e *engine) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

// computeMods finds, per function, the memory outside it that it may read or write, as type-level
// keys, from the effect summaries.
func (e *engine) computeMods() {
	eff := NewEffects(e.p)
	for _, fn := range e.p.Funcs {
		e.fns[fn.String()] = fn
	}
	// what a compiled-pattern table does to itself is not visible: it returns what its argument determines
	hidden := map[ssa.Instruction]bool{}
	for _, fn := range e.p.Funcs {
		if e.compiler(fn) > 0 {
			for _, a := range ordered(eff.Summarise(fn).acc) {
				hidden[a.instr] = true
			}
		}
	}
	for _, fn := range e.p.Funcs {
		m := &modset{reads: map[string]bool{}, writes: map[string]bool{}}
		e.mod[fn] = m
		s := eff.Summarise(fn)
		if len(s.deferred) > 0 {
			m.any = true
		}
		for _, a := range ordered(s.acc) {
			if hidden[a.instr] {
				continue
			}
			dst := m.reads
			if a.write {
				dst = m.writes
			}
			if !e.accessKeys(a, dst) {
				m.any = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					m.any = true
				}
			}
		}
	}
}

// accessKeys adds the keys of one access; false if they are not known.
func (e *engine) accessKeys(a *Access, out map[string]bool) bool {
	switch x := a.instr.(type) {
	case *ssa.Store:
		storeKeys(x.Addr, out)
		return true
	case *ssa.MapUpdate:
		out[mapKey(x.Map.Type())] = true
		return true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			storeKeys(x.X, out)
			return true
		}
	case *ssa.Lookup:
		out[mapKey(x.X.Type())] = true
		return true
	case *ssa.Range:
		out[mapKey(x.X.Type())] = true
		return true
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			out[mapKey(r.X.Type())] = true
			return true
		}
	case *ssa.Convert:
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			out[elemKey(t.Elem())] = true
			return true
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if bu, ok := cc.Value.(*ssa.Builtin); ok {
			switch bu.Name() {
			case "append":
				if a.write {
					return true // beyond the length only, which no term observes
				}
			}
			for _, v := range cc.Args {
				switch t := v.Type().Underlying().(type) {
				case *types.Map:
					out[mapKey(t)] = true
				case *types.Slice:
					out[elemKey(t.Elem())] = true
				}
			}
			return true
		}
		f := cc.StaticCallee()
		if f == nil {
			return false
		}
		if a.write {
			ks := e.extWrites(f, cc)
			for k := range ordered(ks) {
				if k == "*" {
					return false
				}
				out[k] = true
			}
			return true
		}
		for _, v := range cc.Args {
			t := v.Type()
			if mi, ok := v.(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			switch u := t.Underlying().(type) {
			case *types.Map:
				out[mapKey(u)] = true
			case *types.Slice:
				out[elemKey(u.Elem())] = true
				msgKeys(u.Elem(), out, 0)
			case *types.Pointer:
				out["cell:"+tstr(u.Elem())] = true
				msgKeys(t, out, 0)
			}
		}
		return true
	}
	return false
}

// extWrites: the keys an external call may write; "*" for anything.
func (e *engine) extWrites(f *ssa.Function, cc *ssa.CallCommon) map[string]bool {
	n := extName(f)
	out := map[string]bool{}
	switch {
	case strings.HasPrefix(n, "google.golang.org/protobuf/proto.Reset"), strings.HasPrefix(n, "google.golang.org/protobuf/proto.Merge"):
		t := cc.Args[0].Type()
		if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		msgKeys(t, out, 0)
		if len(out) == 0 {
			out["*"] = true
		}
		return out
	case strings.HasPrefix(n, "google.golang.org/protobuf/proto.Unmarshal"):
		t := cc.Args[1].Type()
		if mi, ok := cc.Args[1].(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		msgKeys(t, out, 0)
		return out
	case strings.HasPrefix(n, "sort."), strings.HasPrefix(n, "slices.Sort"), strings.HasPrefix(n, "slices.Reverse"):
		for _, a := range cc.Args {
			t := a.Type()
			if mi, ok := a.(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			if sl, ok := t.Underlying().(*types.Slice); ok {
				out[elemKey(sl.Elem())] = true
			}
		}
		return out
	case n == "encoding/binary.Read":
		a := cc.Args[2]
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		out["cell:"+tstr(deref(a.Type()))] = true
		return out
	case isPureExt(n):
		return out
	}
	for _, a := range cc.Args {
		t := a.Type()
		if mi, ok := a.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			nm := namedOf(u.Elem())
			if nm != nil && nm.Obj().Pkg() != nil && !inRepo(nm.Obj().Pkg().Path()) {
				continue // state of an external type only
			}
			out["*"] = true
		case *types.Slice:
			out[elemKey(u.Elem())] = true
		case *types.Signature:
			out["*"] = true
		}
	}
	return out
}

// ---- per function ---------------------------------------------------------------------------

type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fctx struct {
	e     *engine
	fn    *ssa.Function
	name  string
	val   map[ssa.Value]*term
	busy  map[ssa.Value]bool
	keys  map[string]bool // memory keys this function changes
	all   bool
	inV   map[*ssa.BasicBlock]map[string]*term
	outV  map[*ssa.BasicBlock]map[string]*term
	verM  map[ssa.Instruction]map[string]*term
	loops map[*ssa.BasicBlock]*natLoop
	rpo   []*ssa.BasicBlock
	order map[*ssa.BasicBlock]int
	flow  *flow
	phis  map[*term]*ssa.Phi
	sites map[*term]ssa.Instruction

	busyMem int
	deref   map[*ssa.BasicBlock][]derefAt
}

func (e *engine) fctx(fn *ssa.Function) *fctx {
	if c := e.ctx[fn]; c != nil {
		return c
	}
	c := &fctx{e: e, fn: fn, name: fn.String(), val: map[ssa.Value]*term{}, busy: map[ssa.Value]bool{}, keys: map[string]bool{}, order: map[*ssa.BasicBlock]int{}, phis: map[*term]*ssa.Phi{}, sites: map[*term]ssa.Instruction{}}
	e.ctx[fn] = c
	c.cfg()
	c.versions()
	return c
}

func (c *fctx) cfg() {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			dfs(b.Succs[i])
		}
		post = append(post, b)
	}
	dfs(c.fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.order[post[i]] = len(c.rpo)
		c.rpo = append(c.rpo, post[i])
	}
	c.loops = map[*ssa.BasicBlock]*natLoop{}
	for _, b := range c.rpo {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := c.loops[h]
			if l == nil {
				l = &natLoop{h, map[*ssa.BasicBlock]bool{h: true}}
				c.loops[h] = l
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
}

// instrWrites lists the memory keys an instruction may change.
func (c *fctx) instrWrites(in ssa.Instruction) (map[string]bool, bool) {
	switch x := in.(type) {
	case *ssa.Store:
		m := map[string]bool{}
		storeKeys(x.Addr, m)
		return m, false
	case *ssa.MapUpdate:
		return map[string]bool{mapKey(x.Map.Type()): true}, false
	case *ssa.Defer, *ssa.Go:
		return nil, false
	case *ssa.RunDefers:
		return nil, true
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	cc := ci.Common()
	if bu, ok := cc.Value.(*ssa.Builtin); ok {
		switch bu.Name() {
		case "copy":
			if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
				return map[string]bool{elemKey(sl.Elem()): true}, false
			}
		case "append":
			if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && false {
				return map[string]bool{elemKey(sl.Elem()): true}, false
			}
		case "delete", "clear":
			switch t := cc.Args[0].Type().Underlying().(type) {
			case *types.Map:
				return map[string]bool{mapKey(t): true}, false
			case *types.Slice:
				return map[string]bool{elemKey(t.Elem()): true}, false
			}
		}
		return nil, false
	}
	out := map[string]bool{}
	any := false
	add := func(f *ssa.Function) {
		m := c.e.mod[f]
		if m == nil {
			any = true
			return
		}
		for k := range m.writes {
			out[k] = true
		}
		any = any || m.any
	}
	for _, a := range cc.Args {
		switch y := a.(type) {
		case *ssa.MakeClosure:
			add(y.Fn.(*ssa.Function))
		case *ssa.Function:
			if inRepo(fnPkgPath(y)) {
				add(y)
			}
		}
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		add(mc.Fn.(*ssa.Function))
		return out, any
	}
	f := cc.StaticCallee()
	if f == nil {
		if cc.IsInvoke() && cc.Method.Name() == "Error" {
			return out, any
		}
		return out, true
	}
	if inRepo(fnPkgPath(f)) && f.Blocks != nil {
		if c.e.compiler(f) == 0 {
			add(f)
		}
		return out, any
	}
	for k := range ordered(c.e.extWrites(f, cc)) {
		if k == "*" {
			any = true
		} else {
			out[k] = true
		}
	}
	return out, any
}

const anyKey = "*"

func (c *fctx) versions() {
	eff := map[ssa.Instruction]map[string]bool{}
	for _, b := range c.rpo {
		for _, in := range b.Instrs {
			w, any := c.instrWrites(in)
			if any {
				if w == nil {
					w = map[string]bool{}
				}
				w[anyKey] = true
				c.all = true
			}
			if len(w) > 0 {
				eff[in] = w
				for k := range w {
					c.keys[k] = true
				}
			}
		}
	}
	c.inV = map[*ssa.BasicBlock]map[string]*term{}
	out := map[*ssa.BasicBlock]map[string]*term{}
	c.verM = map[ssa.Instruction]map[string]*term{}
	idx := map[ssa.Instruction]int{}
	n := 0
	for _, b := range c.rpo {
		for _, in := range b.Instrs {
			n++
			idx[in] = n
		}
	}
	ver := func(in ssa.Instruction) *term {
		t := c.e.mk("ver", fmt.Sprintf("%s#%d", c.name, idx[in]))
		c.e.defs[t] = in.Block()
		c.sites[t] = in
		c.e.vers[t] = &verInfo{c, in}
		return t
	}
	for round := 0; round < 50; round++ {
		changed := false
		for _, b := range c.rpo {
			cur := map[string]*term{}
			for k := range ordered(c.keys) {
				var v *term
				first := true
				diff := false
				for _, p := range b.Preds {
					o := out[p]
					if o == nil {
						continue
					}
					if first {
						v, first = o[k], false
					} else if o[k] != v {
						diff = true
					}
				}
				if diff {
					v = c.e.mk("ver", fmt.Sprintf("%s@%d#%s", c.name, b.Index, k))
					c.e.defs[v] = b
					c.e.joins[v] = &joinInfo{c, b}
				}
				cur[k] = v
			}
			// once a join has its own version it keeps it
			if old := c.inV[b]; old != nil {
				for k, v := range ordered(old) {
					if v != nil && strings.Contains(v.sym, fmt.Sprintf("@%d#", b.Index)) {
						cur[k] = v
					}
				}
			}
			c.inV[b] = cur
			o := map[string]*term{}
			for k, v := range cur {
				o[k] = v
			}
			for _, in := range b.Instrs {
				if w := eff[in]; w != nil {
					v := ver(in)
					if w[anyKey] {
						for k := range c.keys {
							o[k] = v
						}
					} else {
						for k := range w {
							o[k] = v
						}
					}
				}
			}
			if !sameVers(out[b], o) {
				out[b] = o
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	c.outV = out
	for _, b := range c.rpo {
		cur := map[string]*term{}
		for k, v := range c.inV[b] {
			cur[k] = v
		}
		snap := cur
		for _, in := range b.Instrs {
			c.verM[in] = snap
			if w := eff[in]; w != nil {
				v := ver(in)
				nx := map[string]*term{}
				for k, x := range snap {
					nx[k] = x
				}
				if w[anyKey] {
					for k := range c.keys {
						nx[k] = v
					}
				} else {
					for k := range w {
						nx[k] = v
					}
				}
				snap = nx
			}
		}
	}
}

func sameVers(a, b map[string]*term) bool {
	if a == nil || len(a) != len(b) {
		return false
	}
	for k, v := range ordered(b) {
		if a[k] != v {
			return false
		}
	}
	return true
}

// verAt is the version of a memory key just before an instruction; nil is the version on entry.
func (c *fctx) verAt(in ssa.Instruction, key string) *term {
	m := c.verM[in]
	if m == nil {
		return nil
	}
	if v, ok := m[key]; ok {
		return v
	}
	return m[anyKey]
}

func (c *fctx) opaque(v ssa.Value) *term {
	id := "?"
	if in, ok := v.(ssa.Instruction); ok {
		id = fmt.Sprintf("%d.%s", in.Block().Index, v.Name())
	}
	t := c.e.mk("op", c.name+"#"+id)
	if in, ok := v.(ssa.Instruction); ok {
		c.e.defs[t] = in.Block()
		c.sites[t] = in
	}
	t.typ = v.Type()
	return t
}

// verInfo is the instruction that made a version of memory.
type verInfo struct {
	c  *fctx
	in ssa.Instruction
}

// joinInfo is the block where several versions of memory meet.
type joinInfo struct {
	c *fctx
	b *ssa.BasicBlock
}

// outer: the address lies in an object made before the paths that meet at the block part, outside
// any loop the block heads.
func (j *joinInfo) outer(addr *term) bool {
	for addr.op == "&fld" || addr.op == "&elem" || addr.op == "arrslice" {
		addr = addr.args[0]
	}
	in := j.c.sites[addr]
	return in != nil && j.c.e.allocs[addr] && in.Block() != j.b && in.Block().Dominates(j.b)
}

func memAddr(e *engine, op, key string, args []*term) *term {
	switch op {
	case "fld", "get":
		return e.mk("&fld", key, args[0])
	case "elem":
		return e.elemAddr(key, args[0], args[1])
	case "cell":
		return args[0]
	}
	return nil
}

// joined: the value at an address where versions meet, if it is the same on all ways there.
func (e *engine) joined(ver *term, op, key string, args []*term) *term {
	j := e.joins[ver]
	if j == nil || e.joinBusy[ver] || j.c.outV == nil {
		return nil
	}
	addr := memAddr(e, op, key, args)
	if addr == nil || !j.outer(addr) {
		return nil
	}
	e.joinBusy[ver] = true
	defer delete(e.joinBusy, ver)
	var val *term
	for _, p := range j.b.Preds {
		o := j.c.outV[p]
		if o == nil {
			continue
		}
		pv, ok := o[key]
		if !ok {
			pv = o[anyKey]
		}
		x := e.mem(op, key, pv, args...)
		if n := len(x.args); n > 0 && x.op == op && x.sym == key && x.args[n-1] == ver {
			continue // as before on this way round
		}
		if val != nil && val != x {
			return nil
		}
		val = x
	}
	if val != nil && len(val.args) > 0 && val.args[len(val.args)-1].op == "ver" && val.op == op && val.sym == key {
		return nil
	}
	return val
}

// mem builds a memory dependent term, looking through the writes that made the version.
func (e *engine) mem(op, key string, ver *term, args ...*term) *term {
	for step := 0; ver != nil && step < 200; step++ {
		if e.joins[ver] != nil {
			if v := e.joined(ver, op, key, args); v != nil {
				return v
			}
			break
		}
		vi := e.vers[ver]
		if vi == nil || vi.c.busyMem > 20 {
			break
		}
		var addr *term
		switch op {
		case "fld", "get":
			addr = e.mk("&fld", key, args[0])
		case "elem":
			addr = e.elemAddr(key, args[0], args[1])
		case "cell":
			addr = args[0]
		case "gload":
			addr = e.mk("glob", strings.TrimPrefix(key, "glob:"))
		}
		if addr == nil {
			break
		}
		vi.c.busyMem++
		skip, val := e.through(vi, op, key, addr, args)
		vi.c.busyMem--
		if val != nil {
			return val
		}
		if !skip {
			break
		}
		ver = vi.c.verAt(vi.in, key)
	}
	if ver != nil {
		args = append(append([]*term{}, args...), ver)
	}
	return e.mk(op, key, args...)
}

func (e *engine) elemAddr(key string, x, i *term) *term {
	if x.op == "arrslice" && x.args[1] == e.zero {
		x = x.args[0]
	}
	return e.mk("&elem", key, x, i)
}

// through: the value a write left at an address, or whether the write was elsewhere.
func (e *engine) through(vi *verInfo, op, key string, addr *term, args []*term) (bool, *term) {
	c := vi.c
	switch x := vi.in.(type) {
	case *ssa.Store:
		at := c.t(x.Addr)
		if at == addr {
			v := c.t(x.Val)
			if op == "get" {
				if v.op == "call" && strings.HasPrefix(v.sym, "google.golang.org/protobuf/proto.") && len(v.args) == 1 {
					return false, v.args[0]
				}
				if v.op == "fld" {
					return false, e.mk("get", v.sym, v.args...)
				}
				return false, nil
			}
			return false, v
		}
		if op == "fld" && at == args[0] {
			return false, e.sel(key, c.t(x.Val))
		}
		return e.distinct(at, addr), nil
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false, nil
		}
		n := extName(f)
		if strings.HasPrefix(n, "google.golang.org/protobuf/proto.Merge") && len(x.Call.Args) == 2 && (op == "get" || op == "fld") {
			d, s := x.Call.Args[0], x.Call.Args[1]
			if mi, ok := d.(*ssa.MakeInterface); ok {
				d = mi.X
			}
			if mi, ok := s.(*ssa.MakeInterface); ok {
				s = mi.X
			}
			dt := c.t(d)
			if dt == args[0] {
				if al, ok := d.(*ssa.Alloc); ok && c.pristine(al, x, key) {
					return false, e.mem(op, key, c.verAt(x, key), c.t(s))
				}
				return false, nil
			}
			return e.distinct(dt, args[0]), nil
		}
	}
	return false, nil
}

// pristine: nothing was written to a field of a new object before an instruction.
func (c *fctx) pristine(al *ssa.Alloc, at ssa.Instruction, key string) bool {
	for _, r := range *al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && typeField(fa.X.Type(), fa.Field) == key {
			for _, q := range *fa.Referrers() {
				if st, ok := q.(*ssa.Store); ok && (st.Block().Dominates(at.Block()) && (st.Block() != at.Block() || before(st, at))) {
					return false
				}
			}
		}
	}
	return true
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// distinct: two addresses certainly differ.
func (e *engine) distinct(a, b *term) bool {
	type step struct{ op, sym, idx string }
	path := func(t *term) (*term, []step) {
		var p []step
		for {
			switch t.op {
			case "&fld":
				p = append(p, step{"f", t.sym, ""})
				t = t.args[0]
				continue
			case "&elem":
				i := ""
				if t.args[1].isConst() {
					i = t.args[1].sym
				}
				p = append(p, step{"e", t.sym, i})
				t = t.args[0]
				continue
			case "arrslice":
				if t.args[1] == e.zero {
					t = t.args[0]
					continue
				}
			}
			break
		}
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
		return t, p
	}
	ra, pa := path(a)
	rb, pb := path(b)
	if ra != rb {
		fixed := func(t *term) bool { return e.allocs[t] }
		base := func(t *term) bool { return t.op == "param" || t.op == "glob" || e.allocs[t] }
		return fixed(ra) && base(rb) || fixed(rb) && base(ra)
	}
	for i := 0; i < len(pa) && i < len(pb); i++ {
		x, y := pa[i], pb[i]
		if x.op != y.op || x.sym != y.sym {
			return x.op == "f" && y.op == "f" // different fields of one object
		}
		if x.op == "e" {
			if x.idx == "" || y.idx == "" {
				return false
			}
			if x.idx != y.idx {
				return true
			}
		}
	}
	return false
}

// sel is a field of a struct value.
func (e *engine) sel(key string, v *term) *term {
	if v.op == "obj" {
		var ver *term
		if len(v.args) > 1 {
			ver = v.args[1]
		}
		return e.mem("fld", key, ver, v.args[0])
	}
	if vi := e.objs[v]; vi != nil {
		return e.mem("fld", key, vi.c.verAt(vi.in, key), e.objAddr[v])
	}
	return e.mk("sel", key, v)
}

func constTerm(e *engine, x *ssa.Const) *term {
	if x.Value == nil {
		switch u := x.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return e.str("")
			}
			if u.Info()&types.IsNumeric != 0 {
				return e.zero
			}
			if u.Info()&types.IsBoolean != 0 {
				return e.falseT
			}
		case *types.Struct, *types.Array:
			return e.mk("zero", tstr(x.Type()))
		}
		return e.nilT
	}
	switch x.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(x.Value) {
			return e.trueT
		}
		return e.falseT
	case constant.String:
		return e.str(constant.StringVal(x.Value))
	case constant.Int:
		return e.mk("const", x.Value.ExactString())
	}
	return e.mk("const", "f"+x.Value.ExactString())
}

// t is the term of a value.
func (c *fctx) t(v ssa.Value) *term {
	if t := c.val[v]; t != nil {
		return t
	}
	if c.busy[v] {
		return c.opaque(v)
	}
	c.busy[v] = true
	t := c.t1(v)
	delete(c.busy, v)
	if t.typ == nil {
		t.typ = v.Type()
	}
	c.val[v] = t
	return t
}

func (c *fctx) t1(v ssa.Value) *term {
	e := c.e
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(e, x)
	case *ssa.Parameter:
		for i, p := range c.fn.Params {
			if p == x {
				return e.mk("param", fmt.Sprintf("%s$%d", c.name, i))
			}
		}
	case *ssa.FreeVar:
		for i, p := range c.fn.FreeVars {
			if p == x {
				return e.mk("free", fmt.Sprintf("%s$%d", c.name, i))
			}
		}
	case *ssa.Global:
		return e.mk("glob", x.String())
	case *ssa.Function:
		if e.fns[x.String()] == nil {
			e.fns[x.String()] = x
		}
		return e.mk("func", x.String())
	case *ssa.MakeClosure:
		var as []*term
		for _, b := range x.Bindings {
			as = append(as, c.binding(b))
		}
		if g, ok := x.Fn.(*ssa.Function); ok {
			e.fns[g.String()] = g
		}
		return e.mk("closure", x.Fn.String(), as...)
	case *ssa.Phi:
		t := e.mk("phi", fmt.Sprintf("%s#%d.%s", c.name, x.Block().Index, x.Name()))
		e.defs[t] = x.Block()
		c.phis[t] = x
		t.typ = x.Type()
		if c.loops[x.Block()] == nil {
			// all alternatives equal
			c.val[v] = t
			var same *term
			for _, ed := range x.Edges {
				et := c.t(ed)
				if same == nil {
					same = et
				} else if same != et {
					return t
				}
			}
			if same != nil {
				return same
			}
		}
		return t
	case *ssa.ChangeType:
		return c.t(x.X)
	case *ssa.ChangeInterface:
		return c.t(x.X)
	case *ssa.MakeInterface:
		return e.mk("iface", tstr(x.X.Type()), c.t(x.X))
	case *ssa.Convert:
		return c.convert(x)
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			return e.not(c.t(x.X))
		case token.SUB:
			return e.arith("-", e.zero, c.t(x.X))
		case token.MUL:
			if fv, ok := x.X.(*ssa.FreeVar); ok && e.setOnce(fv) != nil {
				return c.t(fv)
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				if v := e.setOnce(al); v != nil {
					return c.t(v)
				}
			}
			return c.load(x, x.X)
		}
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.FieldAddr:
		return e.mk("&fld", typeField(x.X.Type(), x.Field), c.t(x.X))
	case *ssa.IndexAddr:
		return e.elemAddr(memKeyOf(x), c.t(x.X), c.t(x.Index))
	case *ssa.Field:
		return e.sel(typeField(x.X.Type(), x.Field), c.t(x.X))
	case *ssa.Index:
		return e.idx(c.t(x.X), c.t(x.Index))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			k := mapKey(x.X.Type())
			t := e.mem("lookup", k, c.verAt(x, k), c.t(x.X), c.t(x.Index))
			if x.CommaOk {
				return e.mk("commaok", "", t)
			}
			return t
		}
		return e.idx(c.t(x.X), c.t(x.Index))
	case *ssa.Extract:
		return c.extract(x)
	case *ssa.Slice:
		b := c.t(x.X)
		lo, hi := e.zero, (*term)(nil)
		if x.Low != nil {
			lo = c.t(x.Low)
		}
		if x.High != nil {
			hi = c.t(x.High)
		}
		if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
			arr := deref(x.X.Type()).Underlying().(*types.Array)
			if hi == nil {
				hi = e.num(arr.Len())
			}
			t := e.mk("arrslice", "", b, lo, hi)
			return t
		}
		if hi == nil {
			hi = e.length(b)
		}
		if lo == e.zero && hi == e.length(b) {
			return b
		}
		return e.slice(b, lo, hi)
	case *ssa.Call:
		return c.call(x)
	case *ssa.Alloc:
		t := c.opaque(v)
		t.typ = x.Type()
		e.allocs[t] = true
		return t
	case *ssa.MakeSlice:
		t := c.opaque(v)
		if e.made == nil {
			e.made = map[*term]*term{}
		}
		e.made[t] = c.t(x.Len)
		return t
	}
	return c.opaque(v)
}

// binding names what a closure captures: the value, for a variable that is set once, where it is
// declared.
func (c *fctx) binding(b ssa.Value) *term {
	if v := c.e.setOnce(b); v != nil {
		return c.t(v)
	}
	return c.t(b)
}

// setOnce gives the only value a captured variable ever has; for a variable captured more than once
// removed, some value that is not nil.
func (e *engine) setOnce(v ssa.Value) ssa.Value {
	if r, ok := e.once[v]; ok {
		return r
	}
	e.once[v] = nil
	var r ssa.Value
	switch x := v.(type) {
	case *ssa.FreeVar:
		g := x.Parent()
		var from ssa.Value
		for i, fv := range g.FreeVars {
			if fv != x || g.Parent() == nil {
				continue
			}
			n := 0
			for _, b := range g.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(g) {
						from = mc.Bindings[i]
						n++
					}
				}
			}
			if n != 1 {
				from = nil
			}
		}
		if from != nil {
			if e.setOnce(from) != nil {
				r = from
			}
		}
	case *ssa.Alloc:
		var st *ssa.Store
		captured := false
		var uses func(a ssa.Value) bool
		uses = func(a ssa.Value) bool {
			for _, u := range *a.Referrers() {
				switch y := u.(type) {
				case *ssa.Store:
					if y.Addr != a || st != nil {
						return false
					}
					st = y
				case *ssa.UnOp:
					if y.Op != token.MUL {
						return false
					}
				case *ssa.DebugRef:
				case *ssa.MakeClosure:
					captured = true
					g := y.Fn.(*ssa.Function)
					for i, b := range y.Bindings {
						if b == a && !uses(g.FreeVars[i]) {
							return false
						}
					}
				default:
					return false
				}
			}
			return true
		}
		if uses(x) && captured && st != nil && st.Block() == x.Block() && st.Parent() == x.Parent() {
			// nothing reads the variable between its declaration and its only assignment
			ok, on := true, false
			for _, in := range x.Block().Instrs {
				if in == ssa.Instruction(x) {
					on = true
				} else if in == ssa.Instruction(st) {
					break
				} else if on {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(x) {
							ok = false
						}
					}
				}
			}
			if ok {
				r = st.Val
			}
		}
	}
	e.once[v] = r
	return r
}

func (e *engine) slice(b, lo, hi *term) *term {
	if b.op == "slice" {
		// offsets add up
		return e.mk("slice", "", b.args[0], e.arith("+", b.args[1], lo), e.arith("+", b.args[1], hi))
	}
	return e.mk("slice", "", b, lo, hi)
}

func (e *engine) idx(x, i *term) *term {
	if s, ok := x.strConst(); ok {
		if n, ok := i.intConst(); ok && n >= 0 && int(n) < len(s) {
			return e.num(int64(s[n]))
		}
	}
	return e.mk("idx", "", x, i)
}

func (e *engine) not(t *term) *term {
	switch {
	case t == e.trueT:
		return e.falseT
	case t == e.falseT:
		return e.trueT
	case t.op == "not":
		return t.args[0]
	}
	return e.mk("not", "", t)
}

func (e *engine) length(x *term) *term {
	if s, ok := x.strConst(); ok {
		return e.num(int64(len(s)))
	}
	if x == e.nilT {
		return e.zero
	}
	switch x.op {
	case "slice", "arrslice":
		return e.arith("-", x.args[2], x.args[1])
	case "cat":
		r := e.zero
		for _, a := range x.args {
			r = e.arith("+", r, e.length(a))
		}
		return r
	case "str", "bytes":
		return e.length(x.args[0])
	case "append":
		return e.arith("+", e.length(x.args[0]), e.length(x.args[1]))
	}
	return e.mk("len", "", x)
}

// arith builds a sum or difference in a normal form: coefficients over atoms plus a constant.
func (e *engine) arith(op string, a, b *term) *term {
	la, lb := e.lin(a), e.lin(b)
	s := int64(1)
	if op == "-" {
		s = -1
	}
	return e.unlin(la.add(lb, s))
}

type lin struct {
	k int64
	m map[*term]int64
}

func (l lin) add(o lin, s int64) lin {
	r := lin{l.k + s*o.k, map[*term]int64{}}
	for t, c := range l.m {
		r.m[t] = c
	}
	for t, c := range ordered(o.m) {
		r.m[t] += s * c
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func (e *engine) lin(t *term) lin {
	if n, ok := t.intConst(); ok {
		return lin{n, map[*term]int64{}}
	}
	if t.op == "sum" {
		k, _ := strconv.ParseInt(t.sym[:strings.IndexByte(t.sym, '|')], 10, 64)
		r := lin{k, map[*term]int64{}}
		cs := strings.Split(t.sym[strings.IndexByte(t.sym, '|')+1:], ",")
		for i, a := range t.args {
			n, _ := strconv.ParseInt(cs[i], 10, 64)
			r.m[a] = n
		}
		return r
	}
	return lin{0, map[*term]int64{t: 1}}
}

func (e *engine) unlin(l lin) *term {
	if len(l.m) == 0 {
		return e.num(l.k)
	}
	var ts []*term
	for t := range ordered(l.m) {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && l.k == 0 && l.m[ts[0]] == 1 {
		return ts[0]
	}
	cs := make([]string, len(ts))
	for i, t := range ts {
		cs[i] = strconv.FormatInt(l.m[t], 10)
	}
	return e.mk("sum", strconv.FormatInt(l.k, 10)+"|"+strings.Join(cs, ","), ts...)
}

func intBits(t types.Type) (bits int, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 64, false, true
}

func (c *fctx) convert(x *ssa.Convert) *term {
	from, to := x.X.Type(), x.Type()
	t := c.t(x.X)
	fb, fs, fok := intBits(from)
	tb, ts, tok := intBits(to)
	if fok && tok {
		if t.isConst() || tb > fb && (ts || fs == ts) || tb == fb && fs == ts {
			return t
		}
		return c.e.mk("conv", tstr(to.Underlying()), t)
	}
	isStr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	if sl, ok := from.Underlying().(*types.Slice); ok && isStr(to) {
		k := elemKey(sl.Elem())
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			if t.op == "bytes" {
				return t.args[0]
			}
			return c.e.mem("str", k, c.verAt(x, k), t)
		}
		return c.e.mem("runestr", k, c.verAt(x, k), t)
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isStr(from) {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return c.e.mk("bytes", "", t)
		}
		return c.e.mk("runes", "", t)
	}
	if isStr(from) && isStr(to) {
		return t
	}
	return c.e.mk("conv", tstr(to), t)
}

func (c *fctx) binop(x *ssa.BinOp) *term {
	e := c.e
	a, b := c.t(x.X), c.t(x.Y)
	_, _, isInt := intBits(x.X.Type())
	isStr := false
	if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	switch x.Op {
	case token.EQL:
		return e.eq(a, b)
	case token.NEQ:
		return e.not(e.eq(a, b))
	case token.LSS:
		return e.lt(a, b, isInt || isStr)
	case token.GTR:
		return e.lt(b, a, isInt || isStr)
	case token.LEQ:
		if isInt || isStr {
			return e.not(e.lt(b, a, true))
		}
	case token.GEQ:
		if isInt || isStr {
			return e.not(e.lt(a, b, true))
		}
	case token.ADD:
		if isStr {
			return e.cat(a, b)
		}
		if isInt {
			return e.arith("+", a, b)
		}
	case token.SUB:
		if isInt {
			return e.arith("-", a, b)
		}
	case token.MUL:
		if k, ok := a.intConst(); ok && isInt {
			return e.scale(b, k)
		}
		if k, ok := b.intConst(); ok && isInt {
			return e.scale(a, k)
		}
	}
	return e.mk("bin", x.Op.String(), a, b)
}

func (e *engine) scale(t *term, k int64) *term {
	l := e.lin(t)
	r := lin{l.k * k, map[*term]int64{}}
	if k != 0 {
		for x, c := range l.m {
			r.m[x] = c * k
		}
	}
	return e.unlin(r)
}

func (e *engine) cat(a, b *term) *term {
	var parts []*term
	add := func(t *term) {
		var ts []*term
		if t.op == "cat" {
			ts = t.args
		} else {
			ts = []*term{t}
		}
		for _, x := range ts {
			s, ok := x.strConst()
			if ok && s == "" {
				continue
			}
			if ok && len(parts) > 0 {
				if p, ok := parts[len(parts)-1].strConst(); ok {
					parts[len(parts)-1] = e.str(p + s)
					continue
				}
			}
			parts = append(parts, x)
		}
	}
	add(a)
	add(b)
	switch len(parts) {
	case 0:
		return e.str("")
	case 1:
		return parts[0]
	}
	return e.mk("cat", "", parts...)
}

func (e *engine) eq(a, b *term) *term {
	if a == e.nilT && e.sentinel(b) || b == e.nilT && e.sentinel(a) {
		return e.falseT
	}
	if a == b {
		return e.trueT
	}
	if a.isConst() && b.isConst() {
		return e.falseT
	}
	if a == e.trueT || b == e.trueT {
		if a == e.trueT {
			return b
		}
		return a
	}
	if a == e.falseT || b == e.falseT {
		if a == e.falseT {
			return e.not(b)
		}
		return e.not(a)
	}
	if a == e.nilT || b == e.nilT {
		x := a
		if a == e.nilT {
			x = b
		}
		switch x.op {
		case "iface", "closure", "func", "glob", "&fld", "&elem":
			return e.falseT
		}
	}
	if s, ok := a.strConst(); ok && s == "" {
		return e.eq(e.length(b), e.zero)
	}
	if s, ok := b.strConst(); ok && s == "" {
		return e.eq(e.length(a), e.zero)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return e.mk("eq", "", a, b)
}

func (e *engine) lt(a, b *term, total bool) *term {
	if !total {
		return e.mk("flt", "", a, b)
	}
	if x, ok := a.intConst(); ok {
		if y, ok := b.intConst(); ok {
			if x < y {
				return e.trueT
			}
			return e.falseT
		}
	}
	if a == b {
		return e.falseT
	}
	return e.mk("lt", "", a, b)
}

func (c *fctx) extract(x *ssa.Extract) *term {
	t := c.t(x.Tuple)
	if t.op == "commaok" {
		if x.Index == 0 {
			return t.args[0]
		}
		l := t.args[0]
		return c.e.mk("has", l.sym, l.args...)
	}
	return c.e.res(t, x.Index)
}

func (e *engine) res(call *term, i int) *term { return e.mk("res", strconv.Itoa(i), call) }

// load: the value at an address just before an instruction.
func (c *fctx) load(at ssa.Instruction, addr ssa.Value) *term {
	e := c.e
	key := memKeyOf(addr)
	ver := c.verAt(at, key)
	switch deref(addr.Type()).Underlying().(type) {
	case *types.Struct:
		// the value of a whole object: forwarded from its last store, or its fields as they are now
		ks := map[string]bool{}
		fieldKeys(deref(addr.Type()), ks)
		same := true
		for k := range ordered(ks) {
			if c.verAt(at, k) != ver {
				same = false
			}
		}
		if same {
			if ver == nil {
				return e.mk("obj", "", c.t(addr))
			}
			if st, ok := c.sites[ver].(*ssa.Store); ok && c.t(st.Addr) == c.t(addr) {
				return c.t(st.Val)
			}
			return e.mk("obj", "", c.t(addr), ver)
		}
		// fields written one by one: the version of the last write stands for all if it came last
		var last *term
		for k := range ordered(ks) {
			v := c.verAt(at, k)
			if v != nil && (last == nil || v.id > last.id) {
				last = v
			}
		}
		if v, ok := at.(ssa.Value); ok {
			t := c.opaque(v)
			c.e.objs[t] = &verInfo{c, at}
			c.e.objAddr[t] = c.t(addr)
			return t
		}
	case *types.Array:
		if v, ok := at.(ssa.Value); ok {
			return c.opaque(v)
		}
	}
	switch x := addr.(type) {
	case *ssa.Global:
		if v := e.fixed(x); v != nil {
			return v
		}
		return e.mem("gload", key, ver)
	case *ssa.FieldAddr:
		return e.mem("fld", key, ver, c.t(x.X))
	case *ssa.IndexAddr:
		return e.mem("elem", key, ver, c.t(x.X), c.t(x.Index))
	case *ssa.Alloc:
		return e.mem("cell", key, ver, c.t(x))
	}
	// a pointer held in a field of a message: the optional scalar it stands for
	pt := c.t(addr)
	if pt.op == "fld" {
		return e.mk("get", pt.sym, pt.args...)
	}
	return e.mem("cell", key, ver, pt)
}

// fixed is the value of an unexported package variable that is only ever set by its initialiser, if
// it is a text or a compiled pattern made of constants.
func (e *engine) fixed(g *ssa.Global) *term {
	if t, ok := e.fixedG[g]; ok {
		return t
	}
	if e.fixedG == nil {
		e.fixedG = map[*ssa.Global]*term{}
	}
	e.fixedG[g] = nil
	if g.Object() == nil || g.Object().Exported() || !inRepo(g.Pkg.Pkg.Path()) {
		return nil
	}
	us := e.globalUses(false)[g]
	if len(us) != 1 {
		return nil
	}
	st, ok := us[0].(*ssa.Store)
	if !ok || st.Addr != ssa.Value(g) || !strings.HasPrefix(st.Parent().Name(), "init") {
		return nil
	}
	t := e.fixedVal(st.Val, 0)
	if t != nil && t.typ == nil {
		t.typ = deref(g.Type())
	}
	e.fixedG[g] = t
	return t
}

// globalUses lists the uses of each variable: its loads, or everything else.
func (e *engine) globalUses(loads bool) map[*ssa.Global][]ssa.Instruction {
	if e.globUses == nil {
		e.globUses = map[*ssa.Global][]ssa.Instruction{}
		e.globLoads = map[*ssa.Global][]ssa.Instruction{}
		for _, fn := range e.p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var ops []*ssa.Value
					for _, o := range in.Operands(ops) {
						if x, ok := (*o).(*ssa.Global); ok {
							if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
								e.globLoads[x] = append(e.globLoads[x], in)
								continue
							}
							e.globUses[x] = append(e.globUses[x], in)
						}
					}
				}
			}
		}
	}
	if loads {
		return e.globLoads
	}
	return e.globUses
}

// fixedVal: a text or pattern known from its initialiser, nil if it is not.
func (e *engine) fixedVal(v ssa.Value, d int) *term {
	if d > 12 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		if t := constTerm(e, v); t != nil {
			if _, ok := t.strConst(); ok {
				return t
			}
		}
	case *ssa.BinOp:
		a, b := e.fixedVal(v.X, d+1), e.fixedVal(v.Y, d+1)
		if v.Op == token.ADD && a != nil && b != nil {
			return e.cat(a, b)
		}
	case *ssa.UnOp:
		if h, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return e.fixed(h)
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || len(v.Call.Args) != 1 {
			return nil
		}
		if a := e.fixedVal(v.Call.Args[0], d+1); a != nil && extName(f) == "regexp.MustCompile" {
			return e.mk("regexp", "", a)
		}
	}
	return nil
}

// fixedList: the values of a list variable set up once, each known; nil if they are not.
func (e *engine) fixedList(g *ssa.Global) []*term {
	if r, ok := e.fixedL[g]; ok {
		return r
	}
	if e.fixedL == nil {
		e.fixedL = map[*ssa.Global][]*term{}
	}
	e.fixedL[g] = nil
	us := append(append([]ssa.Instruction{}, e.globalUses(false)[g]...), e.globalUses(true)[g]...)
	var val ssa.Value
	for _, u := range us {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != ssa.Value(g) || val != nil || !strings.HasPrefix(u.Parent().Name(), "init") {
				return nil
			}
			val = u.Val
		case *ssa.UnOp:
			for _, w := range *u.Referrers() {
				switch w := w.(type) {
				case *ssa.IndexAddr:
					for _, x := range *w.Referrers() {
						if l, ok := x.(*ssa.UnOp); !ok || l.Op != token.MUL {
							return nil
						}
					}
				case *ssa.Range, *ssa.DebugRef:
				case *ssa.Call:
					if bi, ok := w.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
						return nil
					}
				default:
					return nil
				}
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	if val == nil {
		return nil
	}
	var out []*term
	for _, x := range literalElems(val) {
		t := e.fixedVal(x, 0)
		if t == nil {
			return nil
		}
		out = append(out, t)
	}
	e.fixedL[g] = out
	return out
}

// patterns: the patterns a term can stand for, nil if they are not known.
func (e *engine) patterns(re *term) []*term {
	if re.op == "regexp" {
		if _, ok := re.args[0].strConst(); ok {
			return []*term{re}
		}
	}
	if (re.op == "elem" || re.op == "idx") && re.args[0].op == "gload" {
		name := strings.TrimPrefix(re.args[0].sym, "glob:")
		for g := range ordered(e.globalUses(false)) {
			if g.String() == name {
				return e.fixedList(g)
			}
		}
	}
	return nil
}

// getterOf recognises an accessor of a generated message: it returns the field, or a fixed value if unset.
func (e *engine) getterOf(fn *ssa.Function) string {
	if s, ok := e.getter[fn]; ok {
		return s
	}
	e.getter[fn] = ""
	if !e.p.isGenerated(fn) || fn.Signature.Recv() == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
		return ""
	}
	key := ""
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				k := typeField(x.X.Type(), x.Field)
				if x.X != ssa.Value(fn.Params[0]) || key != "" && key != k {
					return ""
				}
				key = k
			case *ssa.Call, *ssa.Store:
				return ""
			}
		}
	}
	e.getter[fn] = key
	return key
}

// getTerm is the canonical name of the value of a message field.
func (e *engine) getTerm(fn *ssa.Function, key string, ver *term, x *term) *term {
	// pointers to messages, slices and strings stored directly are read as they are
	scalar := false
	n := namedOf(deref(fn.Params[0].Type()))
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if typeField(n, i) == key {
			if p, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok {
				if _, isStruct := p.Elem().Underlying().(*types.Struct); !isStruct {
					scalar = true
				}
			}
		}
	}
	if scalar {
		return e.mem("get", key, ver, x)
	}
	return e.mem("fld", key, ver, x)
}

func (c *fctx) call(x *ssa.Call) *term {
	e := c.e
	cc := &x.Call
	var args []*term
	for _, a := range cc.Args {
		args = append(args, c.t(a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if _, isMap := cc.Args[0].Type().Underlying().(*types.Map); isMap {
				return e.mem("maplen", mapKey(cc.Args[0].Type()), c.verAt(x, mapKey(cc.Args[0].Type())), args[0])
			}
			if arr, ok := deref(cc.Args[0].Type()).Underlying().(*types.Array); ok {
				return e.num(arr.Len())
			}
			return e.length(args[0])
		case "min", "max":
			if _, _, ok := intBits(x.Type()); ok {
				r := args[0]
				for _, a := range args[1:] {
					r = e.mk(b.Name(), "", r, a)
				}
				return r
			}
		case "append":
			t := e.mk("append", c.name+"#"+x.Name(), args...)
			e.defs[t] = x.Block()
			return t
		}
		return c.opaque(x)
	}
	f := cc.StaticCallee()
	if f == nil {
		if cc.IsInvoke() && cc.Method.Name() == "Error" {
			return e.mk("call", "(error).Error", c.t(cc.Value))
		}
		return c.opaque(x)
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			args = append(args, c.binding(b))
		}
	}
	if n := extName(f); (n == "unicode.In" || n == "unicode.IsOneOf") && len(cc.Args) == 2 {
		list, ch := cc.Args[1], args[0]
		if n == "unicode.IsOneOf" {
			list, ch = cc.Args[0], args[1]
		}
		if es := literalElems(list); len(es) > 0 {
			t := e.mk("call", "unicode.Is", c.t(es[0]), ch)
			if len(es) == 1 {
				return t
			}
			ts := []*term{t}
			for _, x := range es[1:] {
				ts = append(ts, e.mk("call", "unicode.Is", c.t(x), ch))
			}
			return e.mk("anyof", "", ts...)
		}
	}
	if n := extName(f); (n == "(*strings.Builder).String" || n == "(*bytes.Buffer).String") && len(cc.Args) == 1 {
		if t := c.builderText(x); t != nil {
			return t
		}
	}
	return e.callTerm(f, args, func(k string) *term { return c.verAt(x, k) }, func() *term { return c.opaque(x) })
}

// callTerm names the result of a call; ver gives the memory versions the callee starts from.
func (e *engine) callTerm(f *ssa.Function, args []*term, ver func(string) *term, unique func() *term) *term {
	if inRepo(fnPkgPath(f)) && f.Blocks != nil {
		if k := e.getterOf(f); k != "" {
			return e.getTerm(f, k, ver(k), args[0])
		}
		if i := e.compiler(f); i > 0 {
			return e.mk("regexp", "", args[i-1])
		}
		if t := e.forward(f, args, ver); t != nil {
			return t
		}
		m := e.mod[f]
		if m == nil || m.any {
			return unique()
		}
		var vs []*term
		var ks []string
		for k := range ordered(m.reads) {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if v := ver(k); v != nil {
				vs = append(vs, v)
			}
		}
		ct := e.mk("call", f.String(), append(append([]*term{}, args...), dedupTerms(vs)...)...)
		if len(vs) > 0 && e.callVer[ct] == nil {
			if e.callVer == nil {
				e.callVer = map[*term]map[string]*term{}
			}
			m := map[string]*term{}
			for _, k := range ks {
				if v := ver(k); v != nil {
					m[k] = v
				}
			}
			e.callVer[ct] = m
		}
		return ct
	}
	n := extName(f)
	e.fns[n] = f
	switch n {
	case "regexp.MustCompile":
		return e.mk("regexp", "", args[0])
	case "(*regexp.Regexp).String":
		if args[0].op == "regexp" {
			return args[0].args[0]
		}
	case "strings.Clone":
		return args[0]
	case "fmt.Sprintf", "fmt.Sprint", "strings.Join":
		if t := e.built(n, args, ver); t != nil {
			return t
		}
	}
	if strings.HasPrefix(n, "(*bytes.") || strings.HasPrefix(n, "(*strings.") || strings.HasPrefix(n, "(*sync.") {
		return unique()
	}
	if isPureExt(n) {
		// elements of slices passed in may change between calls
		var vs []*term
		for _, p := range f.Params {
			if sl, ok := p.Type().Underlying().(*types.Slice); ok {
				if v := ver(elemKey(sl.Elem())); v != nil {
					vs = append(vs, v)
				}
			}
		}
		if len(f.Params) == 0 {
			sig := f.Signature
			for i := 0; i < sig.Params().Len(); i++ {
				if sl, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); ok {
					if v := ver(elemKey(sl.Elem())); v != nil {
						vs = append(vs, v)
					}
				}
			}
		}
		return e.mk("call", n, append(append([]*term{}, args...), dedupTerms(vs)...)...)
	}
	return unique()
}

// built gives the text made by formatting functions from parts known one by one.
func (e *engine) built(n string, args []*term, ver func(string) *term) *term {
	items := func(sl *term, key string) []*term {
		if sl == e.nilT {
			return []*term{}
		}
		k, ok := e.length(sl).intConst()
		if !ok || k > 32 {
			return nil
		}
		out := []*term{}
		for i := int64(0); i < k; i++ {
			out = append(out, e.mem("elem", key, ver(key), sl, e.num(i)))
		}
		return out
	}
	switch n {
	case "strings.Join":
		if len(args) < 2 {
			return nil
		}
		sep, ok := args[1].strConst()
		xs := items(args[0], "elem:string")
		if !ok || xs == nil {
			return nil
		}
		r := e.str("")
		for i, x := range xs {
			if i > 0 {
				r = e.cat(r, e.str(sep))
			}
			r = e.cat(r, x)
		}
		return r
	case "fmt.Sprintf":
		if len(args) < 2 {
			return nil
		}
		f, ok := args[0].strConst()
		var xs []*term
		for _, k := range []string{"elem:interface{}", "elem:any"} {
			xs = items(args[1], k)
			good := xs != nil
			for i, x := range xs {
				if x.op == "iface" && x.sym == "string" {
					xs[i] = x.args[0]
				} else {
					good = false
				}
			}
			if good {
				break
			}
			xs = nil
		}
		if !ok || xs == nil {
			return nil
		}
		r := e.str("")
		for {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				return e.cat(r, e.str(f))
			}
			if i+1 >= len(f) {
				return nil
			}
			r = e.cat(r, e.str(f[:i]))
			switch f[i+1] {
			case '%':
				r = e.cat(r, e.str("%"))
			case 's', 'v':
				if len(xs) == 0 {
					return nil
				}
				r = e.cat(r, xs[0])
				xs = xs[1:]
			default:
				return nil
			}
			f = f[i+2:]
		}
	}
	return nil
}

// builderText is the text in a builder used by straight-line code of one function only.
func (c *fctx) builderText(x *ssa.Call) *term {
	al, ok := x.Call.Args[0].(*ssa.Alloc)
	if !ok {
		return nil
	}
	e := c.e
	var writes []*ssa.Call
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			return nil
		case *ssa.Call:
			f := r.Call.StaticCallee()
			if f == nil || len(r.Call.Args) == 0 || r.Call.Args[0] != ssa.Value(al) {
				return nil
			}
			_, m, _ := strings.Cut(extName(f), ").")
			switch m {
			case "String", "Len", "Cap", "Grow":
			case "WriteString":
				writes = append(writes, r)
			case "WriteByte", "WriteRune":
				if _, ok := r.Call.Args[1].(*ssa.Const); !ok {
					return nil
				}
				writes = append(writes, r)
			default:
				return nil
			}
		default:
			return nil
		}
	}
	for _, b := range []*ssa.BasicBlock{al.Block(), x.Block()} {
		if c.inLoop(b) {
			return nil
		}
	}
	var before1 []*ssa.Call
	for _, w := range writes {
		switch {
		case w.Block() == x.Block() && before(w, x), w.Block() != x.Block() && w.Block().Dominates(x.Block()):
			if c.inLoop(w.Block()) {
				return nil
			}
			before1 = append(before1, w)
		case w.Block() == x.Block() || x.Block().Dominates(w.Block()):
		default:
			return nil
		}
	}
	sort.Slice(before1, func(i, j int) bool {
		a, b := before1[i], before1[j]
		if a.Block() == b.Block() {
			return before(a, b)
		}
		return a.Block().Dominates(b.Block())
	})
	r := e.str("")
	for _, w := range before1 {
		if k, ok := w.Call.Args[1].(*ssa.Const); ok && isInteger(k.Type()) {
			r = e.cat(r, e.str(string(rune(k.Int64()))))
			continue
		}
		r = e.cat(r, c.t(w.Call.Args[1]))
	}
	return r
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// inLoop: the block can be executed more than once in a call.
func (c *fctx) inLoop(b *ssa.BasicBlock) bool {
	for _, l := range ordered(c.loops) {
		if l.blocks[b] {
			return true
		}
	}
	return false
}

func dedupTerms(ts []*term) []*term {
	seen := map[*term]bool{}
	var out []*term
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

// forward replaces a call of a function that only computes an expression by that expression.
func (e *engine) forward(f *ssa.Function, args []*term, ver func(string) *term) *term {
	if e.p.isGenerated(f) || e.stop[f.String()] || len(f.Blocks) != 1 || f.Signature.Results().Len() != 1 || e.busyC[f] {
		return nil
	}
	b := f.Blocks[0]
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Alloc:
			if n := deref(x.Type()).String(); n == "strings.Builder" || n == "bytes.Buffer" {
				continue // what it holds is followed
			}
			return nil
		case *ssa.Store, *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Panic, *ssa.MakeClosure, *ssa.MakeSlice, *ssa.MakeMap:
			return nil
		}
	}
	if m := e.mod[f]; m == nil || m.any || len(m.writes) > 0 {
		return nil
	}
	r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok {
		return nil
	}
	e.busyC[f] = true
	defer delete(e.busyC, f)
	c := e.fctx(f)
	t := c.t(r.Results[0])
	if t.n > 60 || hasOp(t, "op", map[*term]bool{}) {
		return nil
	}
	return e.subst(t, f, args, ver, nil)
}

func hasOp(t *term, op string, seen map[*term]bool) bool {
	if t.op == op {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if hasOp(a, op, seen) {
			return true
		}
	}
	return false
}

// compiler recognises a function that returns the compiled form of its string parameter, possibly
// from a table that only ever holds compiled forms of its keys. It yields the parameter's index + 1.
func (e *engine) compiler(f *ssa.Function) int {
	if i, ok := e.comp[f]; ok {
		return i
	}
	e.comp[f] = 0
	if f.Signature.Results().Len() != 1 || f.Signature.Results().At(0).Type().String() != "*regexp.Regexp" {
		return 0
	}
	for i, p := range f.Params {
		b, ok := p.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsString == 0 {
			continue
		}
		good, some := true, false
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					some = true
					if !e.compiled(r.Results[0], p, map[ssa.Value]bool{}, 0) {
						good = false
					}
				}
			}
		}
		if good && some {
			e.comp[f] = i + 1
			return i + 1
		}
	}
	return 0
}

// compiled: v is the compiled form of pattern (or came out of a table of such under that key).
func (e *engine) compiled(v, pattern ssa.Value, seen map[ssa.Value]bool, depth int) bool {
	if seen[v] {
		return true
	}
	if depth > 6 {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !e.compiled(ed, pattern, seen, depth) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return x.Value == nil && !isString(x.Type()) // nil: only on paths where nothing was found
	case *ssa.Extract:
		switch y := x.Tuple.(type) {
		case *ssa.Lookup:
			return x.Index == 0 && y.Index == pattern && e.compiledTable(y.X, depth)
		case *ssa.Call:
			return e.compiledCall(y, x.Index, pattern, depth)
		case *ssa.TypeAssert:
			return x.Index == 0 && e.compiled(y.X, pattern, seen, depth)
		}
	case *ssa.TypeAssert:
		return e.compiled(x.X, pattern, seen, depth)
	case *ssa.MakeInterface:
		return e.compiled(x.X, pattern, seen, depth)
	case *ssa.Lookup:
		return x.Index == pattern && e.compiledTable(x.X, depth)
	case *ssa.Call:
		return e.compiledCall(x, 0, pattern, depth)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr != ssa.Value(al) || !e.compiled(y.Val, pattern, seen, depth) {
						return false
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return true
		}
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *engine) compiledCall(c *ssa.Call, res int, pattern ssa.Value, depth int) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	if n := extName(f); n == "regexp.MustCompile" || n == "regexp.Compile" {
		return res == 0 && c.Call.Args[0] == pattern
	}
	if (extName(f) == "(*sync.Map).Load" || extName(f) == "(*sync.Map).LoadOrStore") && res == 0 {
		k := c.Call.Args[1]
		if mi, ok := k.(*ssa.MakeInterface); ok {
			k = mi.X
		}
		return k == pattern && e.compiledSyncMap(c.Call.Args[0], depth)
	}
	if !inRepo(fnPkgPath(f)) || f.Blocks == nil {
		return false
	}
	var param ssa.Value
	for i, a := range c.Call.Args {
		if a == pattern && i < len(f.Params) {
			param = f.Params[i]
		}
	}
	if param == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && !e.compiled(r.Results[res], param, map[ssa.Value]bool{}, depth+1) {
				return false
			}
		}
	}
	return true
}

func (e *engine) compiledSyncMap(m ssa.Value, depth int) bool {
	g, ok := m.(*ssa.Global)
	if !ok {
		return false
	}
	for _, fn := range e.p.LibFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || len(ci.Common().Args) < 3 || ci.Common().Args[0] != ssa.Value(g) {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil {
					return false
				}
				switch extName(f) {
				case "(*sync.Map).Store", "(*sync.Map).LoadOrStore":
					k, v := ci.Common().Args[1], ci.Common().Args[2]
					if mi, ok := k.(*ssa.MakeInterface); ok {
						k = mi.X
					}
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					if !e.storedCompiled(fn, k, v, depth+1) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return true
}

// compiledTable: every entry of the global map m is the compiled form of its key.
func (e *engine) compiledTable(m ssa.Value, depth int) bool {
	ld, ok := m.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok {
		return false
	}
	for _, fn := range e.p.LibFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if l, ok := x.Map.(*ssa.UnOp); ok && l.X == ssa.Value(g) {
						if !e.storedCompiled(fn, x.Key, x.Value, depth+1) {
							return false
						}
					} else if types.Identical(x.Map.Type(), m.Type()) && !freshBase(x.Map) {
						return false
					}
				case *ssa.Store:
					if x.Addr == ssa.Value(g) {
						if _, ok := x.Val.(*ssa.MakeMap); !ok {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// storedCompiled: at every call of fn that stores value under key, value is key compiled.
func (e *engine) storedCompiled(fn *ssa.Function, key, value ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	if vp, ok := value.(*ssa.Parameter); ok {
		ki := -1
		vi := -1
		for i, p := range fn.Params {
			if ssa.Value(p) == key {
				ki = i
			}
			if p == vp {
				vi = i
			}
		}
		if ki < 0 || vi < 0 {
			return false
		}
		some := false
		for _, g := range e.p.LibFuncs() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
						some = true
						if !e.storedCompiled(g, ci.Common().Args[ki], ci.Common().Args[vi], depth+1) {
							return false
						}
					}
				}
			}
		}
		return some
	}
	return e.compiled(value, key, map[ssa.Value]bool{}, depth)
}

// literalElems: the values of a list written out at the place, nil if they are not all known.
func literalElems(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok || al.Referrers() == nil {
		return nil
	}
	out := make([]ssa.Value, arr.Len())
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Slice:
			if u != sl {
				return nil
			}
		case *ssa.IndexAddr:
			k, ok := u.Index.(*ssa.Const)
			if !ok || len(*u.Referrers()) != 1 {
				return nil
			}
			st, ok := (*u.Referrers())[0].(*ssa.Store)
			if !ok || out[k.Int64()] != nil {
				return nil
			}
			out[k.Int64()] = st.Val
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	for _, x := range out {
		if x == nil {
			return nil
		}
	}
	return out
}

// sentinel: the value of an error variable that is set up once and never changed.
func (e *engine) sentinel(t *term) bool {
	if t.op != "gload" {
		return false
	}
	if e.sentinels == nil {
		e.sentinels = map[string]bool{}
		stored := e.p.storedGlobals()
		for _, pkg := range ordered(e.p.SPkgs) {
			for _, m := range ordered(pkg.Members) {
				if g, ok := m.(*ssa.Global); ok && isErrorType(deref(g.Type())) && !stored[g] && madeError(pkg, g, 0) {
					e.sentinels["glob:"+g.String()] = true
				}
			}
		}
	}
	return e.sentinels[t.sym]
}

// madeError: the variable is initialised with a new error, or with another such variable.
func madeError(pkg *ssa.Package, g *ssa.Global, depth int) bool {
	init := pkg.Func("init")
	if init == nil || depth > 3 {
		return false
	}
	n, good := 0, false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(g) {
				continue
			}
			n++
			switch x := st.Val.(type) {
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && (extName(f) == "errors.New" || extName(f) == "fmt.Errorf") {
					good = true
				}
			case *ssa.UnOp:
				if h, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && h.Pkg != nil {
					good = madeError(h.Pkg, h, depth+1)
				}
			}
		}
	}
	return n == 1 && good
}
