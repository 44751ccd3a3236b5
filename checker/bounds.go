package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Showing linear facts at points of the program: from the conditions on the way to the point, by
// cases over where values come from, by induction over loops, from the ways a callee returns, and
// from what holds at every call of the function.

var btrace = os.Getenv("PHTRACE") != ""

type bprover struct {
	ranking    map[*natLoop][]lin // what gets smaller in each round
	anyPure    bool               // what any function of the standard library makes of known things is known
	e          *engine
	steps      int
	invs       map[*ssa.BasicBlock][]lin // established loop invariants
	invBusy    map[*ssa.BasicBlock]bool
	rets       map[*ssa.Function][]bret
	retBusy    map[*ssa.Function]bool
	memo       map[string]bool
	busy       map[string]bool
	why        string
	limit      int
	sites      map[*ssa.Function][]ssa.CallInstruction
	siteOpen   map[*ssa.Function]bool
	skip       func(*ssa.Function) bool
	objs       map[string]bool
	lows       map[any]int
	level      int
	low        int
	entries    map[*ssa.Function][]entryFact
	useEntries bool
	globs      map[string]bool
	quiet      int    // what fails is not the obligation itself
	short      int    // proofs that failed so far
	found      string // why the obligation certainly fails
}

// bgoal is a condition on terms.
type bgoal struct {
	ts   []*term
	test func(f *factset, ts []*term) bool
	key  string
}

func atLeastZero(e *engine, l lin) bgoal {
	return bgoal{ts: []*term{e.unlin(l)}, key: "ge", test: func(f *factset, ts []*term) bool {
		return f.proves(e.lin(ts[0]))
	}}
}

func (g bgoal) mapped(f func(*term) *term) bgoal {
	n := g
	n.ts = make([]*term, len(g.ts))
	for i, t := range g.ts {
		n.ts[i] = f(t)
	}
	return n
}

func (g bgoal) String() string {
	var b strings.Builder
	for _, t := range g.ts {
		b.WriteString(fmt.Sprintf(" %d", t.id))
	}
	return g.key + b.String()
}

type bret struct {
	lits map[*term]bool
	res  []*term
}

// bpoint is a place with what is assumed there.
type bpoint struct {
	c       *fctx
	blk     *ssa.BasicBlock
	via     int // the point is on this edge out of blk, or -1
	at      ssa.Instruction
	with    []map[*term]*term // calls taken apart
	split   *ssa.BasicBlock
	inside  bool // the function is looked at for one call: other callers do not matter
	up      *bup // that call
	entered bool // the facts on entry are among the assumptions
	local   bool // callers have been asked already
	lits    map[*term]bool
	hyps    []lin
}

// bup is the call through which a function is looked at.
type bup struct {
	p bpoint
	x *ssa.Call
}

func (p *Program) bounder() *bprover {
	if b, ok := p.facts["bounder"].(*bprover); ok {

		return b
	}
	b := &bprover{e: p.EngineStop("*", "bounds"), invs: map[*ssa.BasicBlock][]lin{}, limit: 800, invBusy: map[*ssa.BasicBlock]bool{}, rets: map[*ssa.Function][]bret{}, retBusy: map[*ssa.Function]bool{}, memo: map[string]bool{}, busy: map[string]bool{}}
	b.skip = asYouType
	b.e.api = map[*ssa.Function]bool{}
	for _, f := range p.ExportedAPI(apiPackages...) {
		if !asYouType(f) {
			b.e.api[f] = true
		}
	}
	p.facts["bounder"] = b
	return b
}

// wideBounder also looks at the as-you-type formatter, and takes every function nothing in the
// library calls as one that may be called with anything.
func (p *Program) wideBounder() *bprover {
	if b, ok := p.facts["wide bounder"].(*bprover); ok {
		return b
	}
	b := &bprover{e: p.EngineStop("*", "wide"), invs: map[*ssa.BasicBlock][]lin{}, limit: 800, invBusy: map[*ssa.BasicBlock]bool{}, rets: map[*ssa.Function][]bret{}, retBusy: map[*ssa.Function]bool{}, memo: map[string]bool{}, busy: map[string]bool{}}
	b.e.prover = b
	b.e.api = map[*ssa.Function]bool{}
	for _, f := range p.ExportedAPI(apiPackages...) {
		b.e.api[f] = true
	}
	called := map[*ssa.Function]bool{}
	for _, f := range p.LibFuncs() {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					if g := x.Common().StaticCallee(); g != nil && g != f {
						called[g] = true
						if o := g.Origin(); o != nil {
							called[o] = true
						}
					}
				}
			}
		}
	}
	for _, f := range p.LibFuncs() {
		if f.Parent() == nil && !called[f] {
			b.e.api[f] = true
		}
	}
	p.facts["wide bounder"] = b
	return b
}

// asYouType: the function belongs to the as-you-type formatter, which the property leaves out.
func asYouType(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Signature.Recv() != nil {
		return strings.HasSuffix(fn.Signature.Recv().Type().String(), ".AsYouTypeFormatter")
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if strings.HasSuffix(rs.At(i).Type().String(), ".AsYouTypeFormatter") {
			return true
		}
	}
	return false
}

// condOn is the literal known on the edge out of a block.
func (c *fctx) condOn(b *ssa.BasicBlock, i int) (*term, bool, bool) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return nil, false, false
	}
	t, v := c.t(iff.Cond), i == 0
	for t.op == "not" {
		t, v = t.args[0], !v
	}
	return t, v, true
}

// domLits: the conditions that hold whenever the block is reached.
func (c *fctx) domLits(b *ssa.BasicBlock, into map[*term]bool) {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 {
			pr := d.Preds[0]
			for i, s := range pr.Succs {
				if s == d {
					if t, v, ok := c.condOn(pr, i); ok {
						into[t] = v
					}
				}
			}
			continue
		}
	}
}

func (p *bpoint) known(e *engine) *world {
	w := newWorld()
	put := func(l *term, v bool) {
		for l.op == "not" {
			l, v = l.args[0], !v
		}
		if l.isConst() {
			if v != (l == e.trueT) {
				w.lits[e.falseT] = true
			}
			return
		}
		if o, ok := w.lits[l]; ok && o != v {
			w.lits[e.falseT] = true
		}
		w.lits[l] = v
	}
	dom := map[*term]bool{}
	p.c.domLits(p.blk, dom)
	for l, v := range ordered(dom) {
		put(l, v)
	}
	if p.via >= 0 {
		if t, v, ok := p.c.condOn(p.blk, p.via); ok {
			put(t, v)
		}
	}
	for l, v := range ordered(p.lits) {
		if l == e.falseT && v {
			w.lits[e.falseT] = true
			continue
		}
		put(l, v)
	}
	// what has been dereferenced on the way is there
	for d := p.blk; d != nil; d = d.Idom() {
		for _, t := range p.c.derefd(d) {
			if d == p.blk && p.at != nil && t.at.Block() == d && (t.at == p.at || !before(t.at, p.at)) {
				continue
			}
			l := e.eq(t.x, e.nilT)
			if !l.isConst() {
				put(l, false)
			}
		}
	}
	return w
}

type derefAt struct {
	x  *term
	at ssa.Instruction
}

// derefd lists the pointers a block certainly uses.
func (c *fctx) derefd(b *ssa.BasicBlock) []derefAt {
	if c.deref == nil {
		c.deref = map[*ssa.BasicBlock][]derefAt{}
	}
	if r, ok := c.deref[b]; ok {
		return r
	}
	var out []derefAt
	use := func(v ssa.Value, in ssa.Instruction) {
		switch v.(type) {
		case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr:
			return
		}
		out = append(out, derefAt{c.t(v), in})
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			use(x.X, in)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				use(x.X, in)
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && inRepo(fnPkgPath(f)) {
				for i := range ordered(c.e.needs(f)) {
					if i < len(x.Call.Args) {
						use(x.Call.Args[i], in)
					}
				}
			}
		}
	}
	c.deref[b] = out
	return out
}

// needs: the parameters a function dereferences before it does anything else.
func (e *engine) needs(f *ssa.Function) map[int]bool {
	if r, ok := e.needed[f]; ok {
		return r
	}
	if e.needed == nil {
		e.needed = map[*ssa.Function]map[int]bool{}
	}
	r := map[int]bool{}
	e.needed[f] = r
	for _, in := range f.Blocks[0].Instrs {
		var v ssa.Value
		switch x := in.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op == token.MUL {
				v = x.X
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && inRepo(fnPkgPath(g)) {
				for i := range ordered(e.needs(g)) {
					if i < len(x.Call.Args) {
						for j, q := range f.Params {
							if q == x.Call.Args[i] {
								r[j] = true
							}
						}
					}
				}
			}
		}
		for j, q := range f.Params {
			if v == q {
				r[j] = true
			}
		}
	}
	return r
}

// inWorld: the facts of the world and the assumptions imply the goal.
func (b *bprover) inWorld(w *world, hyps []lin, goal bgoal) bool {
	if w.lits[b.e.falseT] {
		return true // impossible
	}
	b.steps++
	f := b.e.factset(b.e.canon(w))
	for _, h := range hyps {
		f.atLeast(h)
	}
	return goal.test(f, goal.ts) || f.proves(konst(-1))
}

// refuted: the facts contradict the goal.
func (b *bprover) refuted(w *world, hyps []lin, goal bgoal) bool {
	if goal.key != "ge" {
		return false
	}
	f := b.e.factset(b.e.canon(w))
	for _, h := range hyps {
		f.atLeast(h)
	}
	return f.proves(konst(-1).add(b.e.lin(goal.ts[0]), -1))
}

// replace rewrites terms, all at once. A version of memory may be replaced by another or, with
// entryVer, by memory as it was on entry.
func (e *engine) replace(t *term, with map[*term]*term, memo map[*term]*term) *term {
	if r := with[t]; r != nil {
		return r
	}
	if len(t.args) == 0 || t.op == "sk" {
		return t
	}
	if r := memo[t]; r != nil {
		return r
	}
	as := make([]*term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = e.replace(a, with, memo)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		r = e.remade(t, as, func(v *term) *term {
			if x := with[v]; x != nil {
				return x
			}
			return v
		})
		if r.typ == nil {
			r.typ = t.typ
		}
	}
	memo[t] = r
	return r
}

var memOps = map[string]int{"fld": 1, "get": 1, "elem": 2, "lookup": 2, "has": 2, "gload": 0, "cell": 1, "maplen": 1, "str": 1, "runestr": 1}

// remade is a term over other arguments and versions of memory.
func (e *engine) remade(t *term, as []*term, ver func(*term) *term) *term {
	if n, ok := memOps[t.op]; ok && len(t.args) == n+1 && t.args[n].op == "ver" {
		v := as[n]
		if v.op == "entryver" {
			v = nil
		}
		return e.mem(t.op, t.sym, v, as[:n]...)
	}
	if t.op == "call" {
		if vs := e.callVer[t]; vs != nil {
			f := e.fns[t.sym]
			n := len(f.Params) + len(f.FreeVars)
			if n <= len(as) {
				m := map[string]*term{}
				for k, v := range ordered(vs) {
					if x := ver(v); x.op != "entryver" {
						m[k] = x
					}
				}
				return e.callTerm(f, as[:n], func(k string) *term { return m[k] }, func() *term { return e.mk("call", t.sym, as...) })
			}
		}
	}
	return e.rebuild(t, as)
}

func (e *engine) replaceLin(l lin, with map[*term]*term) lin {
	r := konst(l.k)
	memo := map[*term]*term{}
	for t, c := range ordered(l.m) {
		r = r.add(e.lin(e.replace(t, with, memo)), c)
	}
	return r
}

func (e *engine) replaceLits(m map[*term]bool, with map[*term]*term) map[*term]bool {
	n := map[*term]bool{}
	memo := map[*term]*term{}
	for t, v := range ordered(m) {
		x := e.replace(t, with, memo)
		for x.op == "not" {
			x, v = x.args[0], !v
		}
		if x.isConst() {
			if v != (x == e.trueT) {
				n[e.falseT] = true
			}
			continue
		}
		if o, ok := n[x]; ok && o != v {
			n[e.falseT] = true
		}
		n[x] = v
	}
	return n
}

// phisIn lists the values of the function chosen by where control comes from.
func (c *fctx) phisIn(ts []*term) []*term {
	var out []*term
	seen := map[*term]bool{}
	var f func(t *term)
	f = func(t *term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "phi" && c.phis[t] != nil {
			out = append(out, t)
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	for _, t := range ts {
		f(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func atomsOf(l lin) []*term {
	var out []*term
	for t := range ordered(l.m) {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// prove shows the goal at the point.
func (b *bprover) prove(p bpoint, goal bgoal, depth int) bool {
	if b.steps > b.limit {
		b.short++
		return false
	}
	e := b.e
	w := p.known(e)
	for _, m := range p.with {
		w.lits = e.replaceLits(w.lits, m)
	}
	for l := range ordered(w.lits) {
		if e.ofNil(l) {
			w.lits[e.falseT] = true // a field of nothing was looked at
			break
		}
	}
	if ef := b.entry(p.c.fn); len(ef) > 0 && !p.entered {
		p.entered = true
		p.hyps = append(append([]lin{}, p.hyps...), ef...)
	}
	if b.inWorld(w, p.hyps, goal) {
		return true
	}
	if b.refuted(w, p.hyps, goal) {
		b.consider(p, w, p.hyps, goal)
		return false
	}
	if btrace {
		fmt.Println(strings.Repeat("  ", max(0, 12-depth)), fnName(p.c.fn), p.blk.Index, p.via, brief(fmt.Sprint(goal.ts)), "|", brief(w.String()))
	}
	if depth <= 0 {
		b.short++
		return false
	}
	// loops the goal depends on
	phis := p.c.phisIn(goal.ts)
	more := false
	done := map[*ssa.BasicBlock]bool{}
	hy := append([]lin{}, p.hyps...)
	var litTerms []*term
	for l := range ordered(w.lits) {
		litTerms = append(litTerms, l)
	}
	for _, ph := range append(append([]*term{}, phis...), p.c.phisIn(litTerms)...) {
		blk := p.c.phis[ph].Block()
		if p.c.loops[blk] == nil || done[blk] {
			continue
		}
		done[blk] = true
		for _, inv := range b.invariants(p.c, blk) {
			hy = append(hy, inv)
			more = true
		}
	}
	if more && b.inWorld(w, hy, goal) {
		return true
	}
	p.hyps = hy
	if b.consider(p, w, hy, goal) {
		return false
	}
	short := b.short
	// by cases over where a value comes from: the innermost first
	var best *ssa.BasicBlock
	pick := func(blk *ssa.BasicBlock) {
		if p.c.loops[blk] == nil && (best == nil || p.c.order[blk] > p.c.order[best]) {
			best = blk
		}
	}
	for _, ph := range phis {
		pick(p.c.phis[ph].Block())
	}
	vers := versIn(goal.ts)
	for _, v := range vers {
		if j := e.joins[v]; j != nil && j.c == p.c {
			pick(j.b)
		}
	}
	if best != nil && b.bySource(p, w, goal, best, depth) {
		return true
	}
	for _, x := range b.effectful(p.c, goal.ts) {
		if b.byCallee(p, w, goal, x, nil, depth) {
			return true
		}
	}
	// by cases over what a callee returns
	direct, assumed := b.callsIn(goal, w)
	for _, call := range direct {
		if b.byReturn(p, w, goal, call, depth) {
			return true
		}
	}
	// what a call or a write left behind
	for _, v := range vers {
		vi := e.vers[v]
		if vi == nil || vi.c != p.c {
			continue
		}
		switch x := vi.in.(type) {
		case *ssa.Call:
			if b.byCallee(p, w, goal, x, v, depth) {
				return true
			}
		case *ssa.Store:
			if b.byAlias(p, w, goal, x, v, depth) {
				return true
			}
		}
	}
	for _, x := range b.resultsIn(p.c, goal.ts) {
		if b.byCallee(p, w, goal, x, nil, depth) {
			return true
		}
	}
	if b.ofObject(p, goal) {
		return true
	}
	if b.short == short && b.considerAs(p, w, hy, goal, true) {
		return false
	}
	if b.quiet == 0 && b.firstRound(p, w, goal, depth) {
		return false
	}
	if !p.local && p.inside && b.atCall(p, goal, depth) {
		return true
	}
	// by cases over what the calls in the assumptions return, and over the way to the point
	q := p
	q.local = p.local || p.inside && overAll(goal.ts, p.c.fn)
	for _, call := range assumed {
		if b.byReturn(q, w, goal, call, depth) {
			return true
		}
	}
	if d := p.c.joinAbove(p.blk, p.split); d != nil {
		q.split = d
		if b.bySource(q, w, goal, d, depth) {
			return true
		}
	}
	return !p.inside && b.atCallers(p, w, goal, depth)
}

// ofNil: the term reads a field of nothing.
func (e *engine) ofNil(t *term) bool {
	if r, ok := e.nilReads[t]; ok {
		return r
	}
	if e.nilReads == nil {
		e.nilReads = map[*term]bool{}
	}
	e.nilReads[t] = false
	r := t.op == "fld" && len(t.args) > 0 && t.args[0] == e.nilT
	if t.op != "sk" && t.op != "old" {
		for _, a := range t.args {
			r = r || e.ofNil(a)
		}
	}
	e.nilReads[t] = r
	return r
}

// firstRound: the goal certainly fails the first time round a loop.
func (b *bprover) firstRound(p bpoint, w *world, goal bgoal, depth int) bool {
	e := b.e
	for _, ph := range p.c.phisIn(goal.ts) {
		blk := p.c.phis[ph].Block()
		l := p.c.loops[blk]
		if l == nil {
			continue
		}
		for i, pr := range blk.Preds {
			if l.blocks[pr] {
				continue
			}
			with := b.onEdge(p.c, blk, i)
			q := p
			q.blk, q.at, q.via = pr, nil, succIndex(pr, blk, i)
			q.lits = e.replaceLits(w.lits, with)
			q.hyps = nil
			q.with = append(append([]map[*term]*term{}, p.with...), with)
			memo := map[*term]*term{}
			b.prove(q, goal.mapped(func(t *term) *term { return e.replace(t, with, memo) }), depth-1)
			if b.found != "" {
				return true
			}
		}
	}
	return false
}

func overAll(ts []*term, fn *ssa.Function) bool {
	for _, t := range ts {
		if !overParams(t, fn) {
			return false
		}
	}
	return true
}

// versIn lists the versions of memory in terms, the latest made first.
func versIn(ts []*term) []*term {
	var out []*term
	seen := map[*term]bool{}
	var f func(t *term)
	f = func(t *term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "sk" || t.op == "old" {
			return
		}
		if t.op == "ver" {
			out = append(out, t)
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	for _, t := range ts {
		f(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id > out[j].id })
	return out
}

// joinAbove: the nearest block on every way to the point where ways meet, outside loop heads.
func (c *fctx) joinAbove(b, below *ssa.BasicBlock) *ssa.BasicBlock {
	for d := b; d != nil; d = d.Idom() {
		if below != nil {
			if d == below {
				below = nil
			}
			if below != nil || d == b {
				continue
			}
		}
		if len(d.Preds) > 1 {
			if c.loops[d] != nil {
				return nil
			}
			return d
		}
	}
	return nil
}

func (b *bprover) byReturn(p bpoint, w *world, goal bgoal, call *term, depth int) bool {
	e := b.e
	ws, ok := b.ways(w, call)
	if !ok {
		return false
	}
	for _, x := range ws {
		if x.lits[e.falseT] {
			continue
		}
		eqs := map[*term]*term{}
		for t, v := range ordered(x.lits) {
			if v && t.op == "ret" {
				eqs[t.args[0]] = t.args[1]
				delete(x.lits, t)
			}
		}
		q := p
		q.lits = e.replaceLits(x.lits, eqs)
		q.hyps = nil
		for _, h := range p.hyps {
			q.hyps = append(q.hyps, e.replaceLin(h, eqs))
		}
		q.with = append(append([]map[*term]*term{}, p.with...), eqs)
		memo := map[*term]*term{}
		if !b.prove(q, goal.mapped(func(t *term) *term { return e.replace(t, eqs, memo) }), depth-1) {
			return false
		}
	}
	return true
}

// onEdge is the meaning, before a block where ways meet, of the values and memory chosen there.
func (b *bprover) onEdge(c *fctx, blk *ssa.BasicBlock, i int) map[*term]*term {
	with := map[*term]*term{}
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t := c.t(ph); t.op == "phi" {
			with[t] = c.t(ph.Edges[i])
		}
	}
	for k, v := range ordered(c.inV[blk]) {
		if v == nil {
			continue
		}
		if j := b.e.joins[v]; j == nil || j.b != blk {
			continue
		}
		pv := c.outV[blk.Preds[i]][k]
		if pv == nil {
			pv = b.e.mk("entryver", "")
		}
		with[v] = pv
	}
	return with
}

// bySource proves the goal for each way control reaches a block where values meet.
func (b *bprover) bySource(p bpoint, w *world, goal bgoal, blk *ssa.BasicBlock, depth int) bool {
	e := b.e
	for i, pr := range blk.Preds {
		with := b.onEdge(p.c, blk, i)
		q := bpoint{c: p.c, blk: pr, via: succIndex(pr, blk, i), with: p.with, split: p.split, inside: p.inside, up: p.up, local: p.local}
		q.lits = e.replaceLits(w.lits, with)
		for _, h := range p.hyps {
			q.hyps = append(q.hyps, e.replaceLin(h, with))
		}
		memo := map[*term]*term{}
		if !b.prove(q, goal.mapped(func(t *term) *term { return e.replace(t, with, memo) }), depth-1) {
			return false
		}
	}
	return true
}

// resultsIn lists calls whose results, not named by the callee alone, the terms speak about.
func (b *bprover) resultsIn(c *fctx, ts []*term) []*ssa.Call {
	var out []*ssa.Call
	seen := map[*term]bool{}
	var f func(t *term)
	f = func(t *term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "sk" || t.op == "old" {
			return
		}
		if t.op == "op" {
			if x, ok := c.sites[t].(*ssa.Call); ok {
				if g := x.Call.StaticCallee(); g != nil && inRepo(fnPkgPath(g)) && g.Blocks != nil {
					out = append(out, x)
				}
			}
		}
		for _, a := range t.args {
			f(a)
		}
	}
	for _, t := range ts {
		f(t)
	}
	return out
}

// givesObject: the function returns an object it may have made.
func givesObject(g *ssa.Function) bool { return gives(g, map[*ssa.Function]bool{}) }

func gives(g *ssa.Function, busy map[*ssa.Function]bool) bool {
	if busy[g] || g.Blocks == nil || !inRepo(fnPkgPath(g)) {
		return false
	}
	busy[g] = true
	rs := g.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if _, ok := rs.At(i).Type().Underlying().(*types.Pointer); !ok {
			continue
		}
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if x.Heap && types.Identical(x.Type(), rs.At(i).Type()) {
						return true
					}
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && types.Identical(x.Type(), rs.At(i).Type()) && gives(f, busy) {
						return true
					}
				}
			}
		}
	}
	return false
}

// effectful lists the calls, of functions that write memory, whose results the terms speak about.
func (b *bprover) effectful(c *fctx, ts []*term) []*ssa.Call {
	var out []*ssa.Call
	seen := map[*term]bool{}
	var f func(t *term)
	f = func(t *term) {
		if seen[t] || t.op == "sk" || t.op == "old" {
			return
		}
		seen[t] = true
		if t.op == "call" {
			if g := b.e.fns[t.sym]; g != nil && g.Blocks != nil && inRepo(fnPkgPath(g)) {
				if m := b.e.mod[g]; m != nil && (m.any || len(m.writes) > 0 || givesObject(g)) {
					for _, blk := range c.fn.Blocks {
						for _, in := range blk.Instrs {
							if x, ok := in.(*ssa.Call); ok && x.Call.StaticCallee() == g && c.t(x) == t {
								out = append(out, x)
								return
							}
						}
					}
				}
			}
		}
		for _, a := range t.args {
			f(a)
		}
	}
	for _, t := range ts {
		f(t)
	}
	return out
}

// byCallee proves what holds after a call at every return of the callee.
func (b *bprover) byCallee(p bpoint, w *world, goal bgoal, x *ssa.Call, after *term, depth int) bool {
	e := b.e
	g := x.Call.StaticCallee()
	if g == nil || !inRepo(fnPkgPath(g)) || g.Blocks == nil || b.retBusy[g] {
		return false
	}
	// the memory after the call must be what the goal speaks of, not later
	if after == nil {
		for v, vi := range ordered(e.vers) {
			if vi.in == ssa.Instruction(x) {
				after = v
			}
		}
	}
	b.retBusy[g] = true
	defer delete(b.retBusy, g)
	c, gc := p.c, e.fctx(g)
	self := c.t(x)
	for _, blk := range g.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		memo := map[*term]*term{}
		var enter func(t *term) *term
		verOf := func(k string, v *term) *term {
			switch {
			case v == after && v != nil:
				x := gc.verAt(r, k)
				if x == nil {
					return e.mk("entryver", "")
				}
				return x
			case v == c.verAt(x, k):
				return e.mk("entryver", "")
			}
			return nil
		}
		enter1 := func(t *term) *term {
			if t == self && len(r.Results) == 1 {
				return gc.t(r.Results[0])
			}
			if t.op == "res" && t.args[0] == self {
				var i int
				fmt.Sscanf(t.sym, "%d", &i)
				if i < len(r.Results) {
					return gc.t(r.Results[i])
				}
			}
			if !t.isConst() {
				for i, a := range x.Call.Args {
					if i < len(g.Params) && c.t(a) == t {
						return gc.t(g.Params[i])
					}
				}
			}
			if t.op == "sk" || t.op == "old" || len(t.args) == 0 {
				if n, ok := memOps[t.op]; ok && n == 0 && verOf(t.sym, nil) == nil {
					return e.mk("old", "", t)
				}
				return t
			}
			if n, ok := memOps[t.op]; ok {
				var v *term
				if len(t.args) == n+1 {
					v = t.args[n]
				}
				nv := verOf(t.sym, v)
				if nv != nil && nv.op == "entryver" && n > 0 && mentions(t.args[0], self) {
					// an object the call gave: as it was left
					if x := gc.verAt(r, t.sym); x != nil {
						nv = x
					}
				}
				if nv == nil {
					o := e.mk("old", "", t)
					o.typ = t.typ
					return o
				}
				if nv.op == "entryver" {
					nv = nil
				}
				as := make([]*term, n)
				for i := range as {
					as[i] = enter(t.args[i])
				}
				return e.mem(t.op, t.sym, nv, as...)
			}
			if t.op == "call" {
				if f := e.fns[t.sym]; f != nil && inRepo(fnPkgPath(f)) && f.Blocks != nil {
					if m := e.mod[f]; m == nil || m.any || len(m.reads) > 0 {
						vs := e.callVer[t]
						nvs := map[string]*term{}
						for k := range ordered(m.reads) {
							nv := verOf(k, vs[k])
							if nv == nil {
								o := e.mk("old", "", t)
								o.typ = t.typ
								return o
							}
							if nv.op != "entryver" {
								nvs[k] = nv
							}
						}
						n := len(f.Params) + len(f.FreeVars)
						if n > len(t.args) {
							return e.mk("old", "", t)
						}
						as := make([]*term, n)
						for i := range as {
							as[i] = enter(t.args[i])
						}
						return e.callTerm(f, as, func(k string) *term { return nvs[k] }, func() *term { return e.mk("call", t.sym, as...) })
					}
				}
			}
			as := make([]*term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = enter(a)
				ch = ch || as[i] != a
			}
			if !ch {
				return t
			}
			n := e.rebuild(t, as)
			if n.typ == nil {
				n.typ = t.typ
			}
			return n
		}
		enter = func(t *term) *term {
			if m := memo[t]; m != nil {
				return m
			}
			n := enter1(t)
			memo[t] = n
			return n
		}
		q := bpoint{c: gc, blk: blk, at: r, via: -1, lits: map[*term]bool{}, inside: true, up: &bup{p, x}}
		put := func(l *term, v bool) {
			for l.op == "not" {
				l, v = l.args[0], !v
			}
			if l.isConst() {
				if v != (l == e.trueT) {
					q.lits[e.falseT] = true
				}
				return
			}
			if o, ok := q.lits[l]; ok && o != v {
				q.lits[e.falseT] = true
			}
			q.lits[l] = v
		}
		for l, v := range ordered(w.lits) {
			if l != e.falseT {
				put(enter(l), v)
			}
		}
		for i, a := range x.Call.Args {
			if t := c.t(a); i < len(g.Params) && t.isConst() {
				put(e.eq(gc.t(g.Params[i]), t), true)
			}
		}
		for _, h := range p.hyps {
			nh := konst(h.k)
			for t, k := range ordered(h.m) {
				nh = nh.add(e.lin(enter(t)), k)
			}
			q.hyps = append(q.hyps, nh)
		}
		if !b.prove(q, goal.mapped(enter), depth-1) {
			return false
		}
	}
	return true
}

// byAlias proves the goal after a write: the place it speaks of was written, or it was not.
func (b *bprover) byAlias(p bpoint, w *world, goal bgoal, st *ssa.Store, v *term, depth int) bool {
	e := b.e
	at := p.c.t(st.Addr)
	if at.op != "&fld" {
		return false
	}
	var m *term
	seen := map[*term]bool{}
	var f func(t *term)
	f = func(t *term) {
		if seen[t] || m != nil {
			return
		}
		seen[t] = true
		if (t.op == "fld" || t.op == "get") && len(t.args) == 2 && t.args[1] == v && t.sym == at.sym {
			m = t
			return
		}
		for _, a := range t.args {
			f(a)
		}
	}
	for _, t := range goal.ts {
		f(t)
	}
	if m == nil {
		return false
	}
	obj, base := m.args[0], at.args[0]
	for same := 0; same < 2; same++ {
		with := map[*term]*term{}
		q := p
		if same == 1 {
			if obj.isConst() {
				continue
			}
			with[obj] = base
		} else {
			with[m] = e.mem(m.op, m.sym, p.c.verAt(st, m.sym), obj)
		}
		memo := map[*term]*term{}
		q.lits = e.replaceLits(w.lits, with)
		q.with = append(append([]map[*term]*term{}, p.with...), with)
		q.hyps = nil
		for _, h := range p.hyps {
			q.hyps = append(q.hyps, e.replaceLin(h, with))
		}
		if same == 0 {
			if l := e.eq(obj, base); !l.isConst() {
				q.lits[l] = false
			}
		}
		if !b.prove(q, goal.mapped(func(t *term) *term { return e.replace(t, with, memo) }), depth-1) {
			return false
		}
	}
	return true
}

// succIndex: which way out of pr is the i-th way into blk.
func succIndex(pr, blk *ssa.BasicBlock, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		if blk.Preds[j] == pr {
			n++
		}
	}
	for j, s := range pr.Succs {
		if s == blk {
			if n == 0 {
				return j
			}
			n--
		}
	}
	return -1
}

// callsIn lists the calls of analysed functions the goal speaks about, and then those its
// assumptions speak about together with something of the goal.
func (b *bprover) callsIn(goal bgoal, w *world) (direct, assumed []*term) {
	var out []*term
	seen := map[*term]bool{}
	var f func(t *term)
	f = func(t *term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "sk" {
			return
		}
		for _, a := range t.args {
			f(a)
		}
		if t.op == "call" {
			if g := b.e.fns[t.sym]; g != nil && inRepo(fnPkgPath(g)) && g.Blocks != nil {
				out = append(out, t)
			}
		}
	}
	var as []*term
	for _, t := range goal.ts {
		if !t.isConst() {
			as = append(as, t)
		}
	}
	for _, t := range as {
		f(t)
	}
	// those with the fewest ways to return first
	sort.SliceStable(out, func(i, j int) bool {
		return b.returnCount(out[i]) < b.returnCount(out[j])
	})
	direct, out = out, nil
	leaves := map[*term]bool{}
	var lv func(t *term)
	lv = func(t *term) {
		if leaves[t] {
			return
		}
		switch t.op {
		case "const", "glob", "gload", "sum", "len", "ver":
			for _, a := range t.args {
				lv(a)
			}
			return
		}
		leaves[t] = true
		for _, a := range t.args {
			lv(a)
		}
	}
	for _, t := range as {
		lv(t)
	}
	var ls []*term
	for l := range ordered(w.lits) {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	for _, l := range ls {
		hit := false
		memo := map[*term]bool{}
		var has func(t *term) bool
		has = func(t *term) bool {
			if leaves[t] {
				return true
			}
			if memo[t] {
				return false
			}
			memo[t] = true
			for _, a := range t.args {
				if has(a) {
					return true
				}
			}
			return false
		}
		hit = len(as) == 0 || has(l)
		if hit {
			f(l)
		}
	}
	return direct[:min(8, len(direct))], out[:min(8, len(out))]
}

func (b *bprover) returnCount(call *term) int {
	n := 0
	for _, blk := range b.e.fns[call.sym].Blocks {
		if _, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			n++
		}
	}
	return n
}

// returnsOf lists how a function returns, in terms of its parameters.
func (b *bprover) returnsOf(fn *ssa.Function) ([]bret, bool) {
	if r, ok := b.rets[fn]; ok {
		return r, len(r) > 0
	}
	c := b.e.fctx(fn)
	var out []bret
	for _, blk := range fn.Blocks {
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		lits := map[*term]bool{}
		c.domLits(blk, lits)
		var rs []*term
		for _, v := range r.Results {
			rs = append(rs, c.t(v))
		}
		out = append(out, b.splitRet(c, blk, bret{lits, rs}, 4)...)
	}
	if len(out) > 24 {
		out = nil
	}
	b.rets[fn] = out
	return out, len(out) > 0
}

// splitRet takes apart results chosen by where control comes from.
func (b *bprover) splitRet(c *fctx, at *ssa.BasicBlock, r bret, depth int) []bret {
	if depth == 0 {
		return []bret{r}
	}
	for _, ph := range c.phisIn(r.res) {
		x := c.phis[ph]
		blk := x.Block()
		if c.loops[blk] != nil {
			continue
		}
		var out []bret
		for i, pr := range blk.Preds {
			with := map[*term]*term{}
			for _, in := range blk.Instrs {
				q, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if t := c.t(q); t.op == "phi" {
					with[t] = c.t(q.Edges[i])
				}
			}
			lits := b.e.replaceLits(r.lits, with)
			c.domLits(pr, lits)
			if t, v, ok := c.condOn(pr, succIndex(pr, blk, i)); ok {
				lits[t] = v
			}
			var rs []*term
			memo := map[*term]*term{}
			for _, t := range r.res {
				rs = append(rs, b.e.replace(t, with, memo))
			}
			out = append(out, b.splitRet(c, pr, bret{lits, rs}, depth-1)...)
		}
		return out
	}
	return []bret{r}
}

// ways splits a world by how a call returns.
func (b *bprover) ways(w *world, call *term) ([]*world, bool) {
	e := b.e
	f := e.fns[call.sym]
	if b.retBusy[f] {
		return nil, false
	}
	b.retBusy[f] = true
	rs, ok := b.returnsOf(f)
	b.retBusy[f] = false
	if !ok {
		return nil, false
	}
	vs := e.callVer[call]
	if vs == nil && len(call.args) > len(f.Params)+len(f.FreeVars) {
		return nil, false
	}
	ver := func(k string) *term { return vs[k] }
	var out []*world
	for _, r := range rs {
		n := w.clone()
		memo := map[*term]*term{}
		for l, v := range ordered(r.lits) {
			x := e.substM(l, f, call.args, ver, call, memo)
			for x.op == "not" {
				x, v = x.args[0], !v
			}
			if x.isConst() {
				if v != (x == e.trueT) {
					n.lits[e.falseT] = true
				}
				continue
			}
			if o, ok := n.lits[x]; ok && o != v {
				n.lits[e.falseT] = true
			}
			n.lits[x] = v
		}
		for i, t := range r.res {
			x := e.substM(t, f, call.args, ver, call, memo)
			c := call
			if len(r.res) > 1 {
				c = e.res(call, i)
			}
			n.lits[e.mk("ret", "", c, x)] = true
		}
		out = append(out, n)
	}
	return out, true
}

// atCallers proves the goal at every call of the function.
func (b *bprover) atCallers(p bpoint, w *world, goal bgoal, depth int) bool {
	e := b.e
	fn := p.c.fn
	for _, t := range goal.ts {
		if !overParams(t, fn) {
			return false
		}
	}
	cs, open := b.callSites(fn)
	if open {
		return false
	}
	key := fn.String() + "|" + goal.String()
	if b.busy[key] {
		return false
	}
	b.busy[key] = true
	defer delete(b.busy, key)
	for _, ci := range cs {
		g := ci.Parent()
		gc := e.fctx(g)
		var args []*term
		for _, a := range ci.Common().Args {
			args = append(args, gc.t(a))
		}
		if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
			for _, x := range mc.Bindings {
				args = append(args, gc.binding(x))
			}
		}
		memo := map[*term]*term{}
		ver := func(k string) *term { return gc.verAt(ci.(ssa.Instruction), k) }
		sub := func(t *term) *term { return e.substM(t, fn, args, ver, nil, memo) }
		q := bpoint{c: gc, blk: ci.Block(), at: ci.(ssa.Instruction), via: -1, lits: map[*term]bool{}}
		for l, v := range ordered(w.lits) {
			if overParams(l, fn) {
				x := sub(l)
				for x.op == "not" {
					x, v = x.args[0], !v
				}
				if !x.isConst() {
					q.lits[x] = v
				} else if v != (x == e.trueT) {
					q.lits[e.falseT] = true
				}
			}
		}
		if !b.prove(q, goal.mapped(sub), depth-1) {
			return false
		}
	}
	return true
}

// atCall proves the goal before the one call the function is looked at for.
func (b *bprover) atCall(p bpoint, goal bgoal, depth int) bool {
	e := b.e
	fn := p.c.fn
	if p.up == nil {
		return false
	}
	for _, t := range goal.ts {
		if !overParams(t, fn) {
			return false
		}
	}
	x := p.up.x
	q := p.up.p
	gc := q.c
	var args []*term
	for _, a := range x.Call.Args {
		args = append(args, gc.t(a))
	}
	memo := map[*term]*term{}
	ver := func(k string) *term { return gc.verAt(x, k) }
	q.blk, q.at, q.via, q.split, q.local = x.Block(), x, -1, nil, false
	return b.prove(q, goal.mapped(func(t *term) *term {
		t = e.substM(t, fn, args, ver, nil, memo)
		for _, m := range q.with {
			t = e.replace(t, m, map[*term]*term{})
		}
		return t
	}), depth-1)
}

// ofObject proves a goal about the fields of one object: it holds for every object of the type
// once made, and every write to the fields keeps it.
func (b *bprover) ofObject(p bpoint, goal bgoal) bool {
	fn := p.c.fn
	idx := -1
	fields := map[string]bool{}
	for _, t := range goal.ts {
		if !overFields(t, fn, &idx, fields) {
			return false
		}
	}
	if idx < 0 || len(fields) == 0 {
		return false
	}
	pt, ok := fn.Params[idx].Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(pt.Elem())
	if n == nil || n.Obj().Pkg() == nil || !inRepo(n.Obj().Pkg().Path()) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	nums := map[int]string{}
	for k := range ordered(fields) {
		f := k[strings.LastIndexByte(k, '.')+1:]
		if token.IsExported(f) {
			return false
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				nums[i] = k
				found = true
			}
		}
		if !found {
			return false
		}
	}
	self := b.e.mk("self", n.String())
	memo := map[*term]*term{}
	key := n.String()
	for _, t := range goal.ts {
		args := make([]*term, len(fn.Params))
		for i := range args {
			args[i] = self
		}
		key += fmt.Sprint("|", b.e.substM(t, fn, args, func(string) *term { return nil }, nil, memo).id)
	}
	key += goal.key
	if r, ok := b.objs[key]; ok {
		b.leanOn(key)
		return r
	}
	if b.objs == nil {
		b.objs = map[string]bool{}
	}
	back := b.mark()
	b.objs[key] = true // assumed while it is checked
	good := false
	leave := b.assume(key)
	b.quietly(func() {
		b.within(800, func() { good = b.checkObject(n, fn, idx, nums, goal) })
	})
	leave(good)
	if btrace {
		fmt.Println("OBJECT", good, n, goal.ts)
	}
	if !good {
		back()
		b.objs[key] = false
	}
	return good
}

// What is shown with the help of something still being checked stands only if that does. Each
// assumption in progress has a level; a result remembers the lowest level it leans on.
const solid = 1 << 30

func (b *bprover) assume(key any) func(good bool) {
	if b.lows == nil {
		b.lows, b.low = map[any]int{}, solid
	}
	level, save := b.level, b.low
	b.level++
	b.low = solid
	b.lows[key] = level
	return func(good bool) {
		b.level--
		mine := b.low
		if mine >= level {
			mine = solid
		}
		for k, l := range ordered(b.lows) {
			if l >= level && l < solid && good {
				b.lows[k] = mine
			}
		}
		b.lows[key] = mine
		b.low = min(save, mine)
	}
}

func (b *bprover) leanOn(key any) {
	if l, ok := b.lows[key]; ok && l < b.low {
		b.low = l
	}
}

// mark remembers what is established; the result takes back what was added since and leans on
// something unfinished.
func (b *bprover) mark() func() {
	invs, objs := map[*ssa.BasicBlock]bool{}, map[string]bool{}
	for h := range b.invs {
		invs[h] = true
	}
	for k := range b.objs {
		objs[k] = true
	}
	return func() {
		for h := range ordered(b.invs) {
			if !invs[h] && b.lows[h] < solid {
				delete(b.invs, h)
			}
		}
		for k := range ordered(b.objs) {
			if !objs[k] && b.lows[k] < solid {
				delete(b.objs, k)
			}
		}
	}
}

// within does something with its own allowance of steps.
func (b *bprover) within(limit int, f func()) {
	s, l := b.steps, b.limit
	b.steps, b.limit = 0, limit
	f()
	b.steps, b.limit = s, l
}

// overFields: the term speaks of fields of one parameter, as they are on entry.
func overFields(t *term, fn *ssa.Function, idx *int, fields map[string]bool) bool {
	switch t.op {
	case "const", "sum", "len", "nil":
	case "fld", "get":
		if len(t.args) == 1 && t.args[0].op == "param" {
			for i := range fn.Params {
				if t.args[0].sym == fmt.Sprintf("%s$%d", fn.String(), i) && (*idx == i || *idx < 0) {
					*idx = i
					fields[t.sym] = true
					return true
				}
			}
		}
		return false
	default:
		if len(t.args) == 0 {
			return t.isConst()
		}
		return false
	}
	for _, a := range t.args {
		if !overFields(a, fn, idx, fields) {
			return false
		}
	}
	return true
}

// holds: a value of the type holds one of the named type by value.
func holdsByValue(t types.Type, n *types.Named, depth int) bool {
	if depth > 6 {
		return true
	}
	if x := namedOf(t); x != nil && x.Obj() == n.Obj() {
		if _, ptr := t.(*types.Pointer); !ptr {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsByValue(u.Field(i).Type(), n, depth+1) {
				return true
			}
		}
	case *types.Array:
		return holdsByValue(u.Elem(), n, depth+1)
	case *types.Slice:
		return holdsByValue(u.Elem(), n, depth+1)
	case *types.Map:
		return holdsByValue(u.Elem(), n, depth+1)
	}
	return false
}

func (b *bprover) checkObject(n *types.Named, fn *ssa.Function, idx int, nums map[int]string, goal bgoal) bool {
	e := b.e
	is := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && namedOf(p.Elem()) != nil && namedOf(p.Elem()).Obj() == n.Obj()
	}
	try := func(c *fctx, in ssa.Instruction, obj *term) bool {
		args := make([]*term, len(fn.Params))
		for i := range args {
			args[i] = e.zero
		}
		args[idx] = obj
		memo := map[*term]*term{}
		g := goal.mapped(func(t *term) *term {
			return e.substM(t, fn, args, func(k string) *term { return c.verAt(in, k) }, nil, memo)
		})
		if e.allocs[obj] {
			// fields not written yet
			st := n.Underlying().(*types.Struct)
			with := map[*term]*term{}
			for i, k := range ordered(nums) {
				if c.verAt(in, k) != nil {
					continue
				}
				var z *term
				switch u := st.Field(i).Type().Underlying().(type) {
				case *types.Basic:
					if u.Info()&types.IsInteger != 0 {
						z = e.zero
					}
				case *types.Pointer, *types.Slice, *types.Interface, *types.Map:
					z = e.nilT
				}
				if z != nil {
					with[e.mem("fld", k, nil, obj)] = z
				}
			}
			m2 := map[*term]*term{}
			g = g.mapped(func(t *term) *term { return e.replace(t, with, m2) })
		}
		return b.prove(bpoint{c: c, blk: in.Block(), at: in, via: -1, lits: map[*term]bool{}}, g, 10)
	}
	for _, g := range e.p.LibFuncs() {
		if g.Blocks == nil {
			continue
		}
		var c *fctx
		for _, blk := range g.Blocks {
			for i, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					t := deref(x.Type())
					if m := namedOf(t); m != nil && m.Obj() == n.Obj() {
						if c == nil {
							c = e.fctx(g)
						}
						for _, u := range *x.Referrers() {
							switch u := u.(type) {
							case *ssa.FieldAddr, *ssa.DebugRef:
								continue
							case *ssa.UnOp:
								continue
							case *ssa.Store:
								if u.Addr == ssa.Value(x) {
									return false
								}
							}
							if !try(c, u, c.t(x)) {
								return false
							}
						}
					} else if holdsByValue(t, n, 0) {
						return false
					}
				case *ssa.MakeSlice:
					if holdsByValue(x.Type(), n, 0) {
						return false
					}
				case *ssa.MakeMap:
					if holdsByValue(x.Type(), n, 0) {
						return false
					}
				case *ssa.Store:
					if is(x.Addr.Type()) {
						return false
					}
				case *ssa.FieldAddr:
					if !is(x.X.Type()) || nums[x.Field] == "" {
						continue
					}
					_, fresh := x.X.(*ssa.Alloc)
					for _, u := range *x.Referrers() {
						switch u := u.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if u.Addr != ssa.Value(x) {
								return false
							}
							if fresh {
								continue
							}
							if c == nil {
								c = e.fctx(g)
							}
							var next ssa.Instruction
							for j, y := range u.Block().Instrs {
								if y == ssa.Instruction(u) {
									next = u.Block().Instrs[j+1]
								}
							}
							if !try(c, next, c.t(x.X)) {
								return false
							}
						default:
							return false
						}
					}
				}
				_ = i
			}
		}
	}
	for _, pkg := range ordered(e.p.SPkgs) {
		for _, m := range ordered(pkg.Members) {
			if g, ok := m.(*ssa.Global); ok && inRepo(pkg.Pkg.Path()) && holdsByValue(deref(g.Type()), n, 0) {
				return false
			}
		}
	}
	return true
}

// callSites lists the calls of a function, also those made through a parameter it is passed as.
func (b *bprover) callSites(fn *ssa.Function) ([]ssa.CallInstruction, bool) {
	if r, ok := b.sites[fn]; ok {
		return r, b.siteOpen[fn]
	}
	if b.sites == nil {
		b.sites, b.siteOpen = map[*ssa.Function][]ssa.CallInstruction{}, map[*ssa.Function]bool{}
	}
	e := b.e
	cs, open := e.callersOf(fn)
	if open && !e.isAPI(fn) && len(fn.FreeVars) == 0 {
		open = false
		for _, g := range e.p.LibFuncs() {
			for _, blk := range g.Blocks {
				for _, in := range blk.Instrs {
					uses := false
					var ops []*ssa.Value
					for _, o := range in.Operands(ops) {
						uses = uses || *o == ssa.Value(fn)
					}
					if !uses {
						continue
					}
					ci, ok := in.(*ssa.Call)
					if !ok {
						open = true
						continue
					}
					if ci.Call.Value == ssa.Value(fn) {
						continue
					}
					h := ci.Call.StaticCallee()
					if h == nil || h.Blocks == nil || !inRepo(fnPkgPath(h)) {
						open = true
						continue
					}
					for i, a := range ci.Call.Args {
						if a != ssa.Value(fn) {
							continue
						}
						for _, u := range *h.Params[i].Referrers() {
							switch u := u.(type) {
							case *ssa.DebugRef:
							case *ssa.Call:
								if u.Call.Value == ssa.Value(h.Params[i]) {
									cs = append(cs, u)
								} else {
									open = true
								}
							default:
								open = true
							}
						}
					}
				}
			}
		}
	}
	if b.skip != nil {
		var keep []ssa.CallInstruction
		for _, c := range cs {
			if !b.skip(c.Parent()) {
				keep = append(keep, c)
			}
		}
		cs = keep
	}
	b.sites[fn], b.siteOpen[fn] = cs, open
	return cs, open
}

// ---- loops -------------------------------------------------------------------------------------

// invariants finds facts about the values a loop changes that hold whenever its head is reached.
func (b *bprover) invariants(c *fctx, head *ssa.BasicBlock) []lin {
	if r, ok := b.invs[head]; ok {
		b.leanOn(head)
		return r
	}
	if b.invBusy[head] {
		return nil
	}
	b.invBusy[head] = true
	defer delete(b.invBusy, head)
	e := b.e
	l := c.loops[head]
	type phi struct {
		x *ssa.Phi
		t *term
	}
	var phis []phi
	for _, in := range head.Instrs {
		x, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t := c.t(x); t.op == "phi" {
			phis = append(phis, phi{x, t})
		}
	}
	// terms to compare with: bounds met in the loop's conditions, and the values on entry
	memo := map[*term]bool{}
	var tops []lin
	addTop := func(t lin) {
		for a := range ordered(t.m) {
			if c.variant(a, l, memo) {
				return
			}
		}
		for _, o := range tops {
			if linKey(o) == linKey(t) {
				return
			}
		}
		if len(tops) < 10 {
			tops = append(tops, t)
		}
	}
	var seqs []*term
	for _, blk := range c.fn.Blocks {
		if !l.blocks[blk] {
			continue
		}
		for _, in := range blk.Instrs {
			switch y := in.(type) {
			case *ssa.BinOp:
				switch y.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					if _, _, ok := intBits(y.X.Type()); ok {
						addTop(e.lin(c.t(y.X)))
						addTop(e.lin(c.t(y.Y)))
					}
				}
			case *ssa.Slice:
				seqs = append(seqs, c.t(y.X))
			case *ssa.IndexAddr:
				seqs = append(seqs, c.t(y.X))
			case *ssa.Index:
				seqs = append(seqs, c.t(y.X))
			case *ssa.Lookup:
				if isSeq(y.X.Type()) {
					seqs = append(seqs, c.t(y.X))
				}
			}
		}
	}
	for _, s := range seqs {
		addTop(e.lin(e.length(s)))
	}
	var cands []lin
	add := func(x lin) {
		if len(x.m) == 0 {
			return
		}
		for _, o := range cands {
			if linKey(o) == linKey(x) {
				return
			}
		}
		cands = append(cands, x)
	}
	for _, ph := range phis {
		self := lin{0, map[*term]int64{ph.t: 1}}
		if isSeq(ph.x.Type()) {
			self = e.lin(e.length(ph.t))
		} else if _, _, ok := intBits(ph.x.Type()); !ok {
			continue
		}
		for i, pr := range head.Preds {
			if l.blocks[pr] {
				continue
			}
			init := e.lin(c.t(ph.x.Edges[i]))
			if isSeq(ph.x.Type()) {
				init = e.lin(e.length(c.t(ph.x.Edges[i])))
			}
			add(self.add(init, -1))
			add(init.add(self, -1))
		}
		add(self)
		add(self.add(konst(1), 1))
		for _, t := range tops {
			add(t.add(self, -1))
			add(t.add(self, -1).add(konst(1), 1))
			add(t.add(self, -1).add(konst(1), -1))
			add(self.add(t, -1))
		}
		// two values that move together
		for _, o := range phis {
			if o.t == ph.t {
				continue
			}
			os := lin{0, map[*term]int64{o.t: 1}}
			if isSeq(o.x.Type()) {
				os = e.lin(e.length(o.t))
			} else if _, _, ok := intBits(o.x.Type()); !ok {
				continue
			}
			add(self.add(os, -1))
			if o.t.id > ph.t.id {
				for i, pr := range head.Preds {
					if l.blocks[pr] {
						continue
					}
					ia, ib := e.lin(c.t(ph.x.Edges[i])), e.lin(c.t(o.x.Edges[i]))
					if isSeq(ph.x.Type()) {
						ia = e.lin(e.length(c.t(ph.x.Edges[i])))
					}
					if isSeq(o.x.Type()) {
						ib = e.lin(e.length(c.t(o.x.Edges[i])))
					}
					for _, s := range []int64{1, -1} {
						d := self.add(os, s).add(ia.add(ib, s), -1)
						add(d)
						add(konst(0).add(d, -1))
					}
				}
			}
		}
	}
	// three values that move together
	var ints []phi
	for _, ph := range phis {
		if _, _, ok := intBits(ph.x.Type()); ok {
			ints = append(ints, ph)
		}
	}
	if len(ints) <= 4 {
		for _, x := range ints {
			for j, y := range ints {
				for _, z := range ints[j+1:] {
					if x.t == y.t || x.t == z.t {
						continue
					}
					for i, pr := range head.Preds {
						if l.blocks[pr] {
							continue
						}
						in := func(q phi) lin { return e.lin(c.t(q.x.Edges[i])) }
						me := func(q phi) lin { return lin{0, map[*term]int64{q.t: 1}} }
						d := me(x).add(me(y), -1).add(me(z), -1).add(in(x).add(in(y), -1).add(in(z), -1), -1)
						add(d)
						add(konst(0).add(d, -1))
					}
				}
			}
		}
	}
	if len(cands) > 120 {
		cands = cands[:120]
	}
	steps, limit := b.steps, b.limit
	b.steps, b.limit = 0, 3000
	defer func() { b.steps, b.limit = steps, limit }()
	settled := false
	leave := b.assume(head)
	defer func() { leave(true) }()
	b.quiet++
	defer func() { b.quiet-- }()
	for round := 0; round < 30 && len(cands) > 0 && !settled; round++ {
		var keep []lin
		b.invs[head] = cands // assumed while it is checked
		back := b.mark()
		for _, cd := range cands {
			ok := true
			for i, pr := range head.Preds {
				with := b.onEdge(c, head, i)
				q := bpoint{c: c, blk: pr, via: succIndex(pr, head, i), lits: map[*term]bool{}, inside: true}
				d := 1
				if l.blocks[pr] {
					q.hyps = append(q.hyps, cands...)
					d = 3
				}
				g := atLeastZero(e, e.replaceLin(cd, with))
				r := false
				if l := e.lin(g.ts[0]); len(l.m) > 0 || l.k >= 0 {
					r = b.prove(q, g, d)
				}
				if !r && !l.blocks[pr] && overParams(g.ts[0], c.fn) && !g.ts[0].isConst() {
					b.within(60, func() {
						q.inside = false
						r = b.prove(q, g, 4)
					})
				}
				if !r {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, cd)
			}
		}
		if len(keep) == len(cands) {
			settled = true
		} else {
			back() // what was shown with the help of the others
		}
		cands = keep
	}
	if !settled {
		cands = nil
	}
	b.invs[head] = cands
	return cands
}

// ---- places ------------------------------------------------------------------------------------

type bsite struct {
	fn    *ssa.Function
	in    ssa.Instruction
	what  string
	goals []lin
	text  []string
}

// boundSites lists the places of a function where an index or slice can be out of range.
func (b *bprover) boundSites(fn *ssa.Function) []bsite {
	e := b.e
	c := e.fctx(fn)
	var out []bsite
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			s := bsite{fn: fn, in: in}
			add := func(l lin, text string) {
				if len(l.m) == 0 && l.k >= 0 {
					return
				}
				s.goals = append(s.goals, l)
				s.text = append(s.text, text)
			}
			index := func(x, i ssa.Value) {
				var n lin
				if arr := arrayLen(x.Type()); arr >= 0 {
					n = konst(arr)
				} else {
					n = e.lin(e.length(c.t(x)))
				}
				it := e.lin(c.t(i))
				if _, signed, ok := intBits(i.Type()); !ok || signed {
					add(it, "index not negative")
				}
				add(n.add(it, -1).add(konst(1), -1), "index below length")
			}
			switch x := in.(type) {
			case *ssa.IndexAddr:
				s.what = "index"
				index(x.X, x.Index)
			case *ssa.Index:
				s.what = "index"
				index(x.X, x.Index)
			case *ssa.Lookup:
				if !isSeq(x.X.Type()) {
					continue
				}
				s.what = "index"
				index(x.X, x.Index)
			case *ssa.Slice:
				s.what = "slice"
				var n lin
				if arr := arrayLen(x.X.Type()); arr >= 0 {
					n = konst(arr)
				} else {
					n = e.lin(e.length(c.t(x.X)))
				}
				lo, hi := konst(0), n
				if x.Low != nil {
					lo = e.lin(c.t(x.Low))
					add(lo, "start not negative")
				}
				if x.High != nil {
					hi = e.lin(c.t(x.High))
					add(n.add(hi, -1), "end within length")
				}
				add(hi.add(lo, -1), "start not after end")
			default:
				continue
			}
			if len(s.goals) > 0 {
				out = append(out, s)
			}
		}
	}
	return out
}

func arrayLen(t typesType) int64 { return arrLen(t) }
