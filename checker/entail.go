package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Questions asked of worlds.

// canoniser maps terms to representatives under the equalities a world knows.
type canoniser struct {
	e    *engine
	w    *world
	up   map[*term]*term
	memo map[*term]*term
	busy map[*term]bool
}

func (e *engine) canon(w *world) *canoniser {
	c := &canoniser{e: e, w: w, up: map[*term]*term{}}
	var eqs [][2]*term
	var ks []*term
	for l, v := range ordered(w.lits) {
		if v && l.op == "eq" {
			ks = append(ks, l)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, l := range ks {
		eqs = append(eqs, [2]*term{l.args[0], l.args[1]})
	}
	for round := 0; round < 5; round++ {
		c.memo, c.busy = map[*term]*term{}, map[*term]bool{}
		ch := false
		pairs := eqs
		nested := map[int]bool{}
		if round > 0 {
			pairs = nil
			for _, q := range eqs {
				pairs = append(pairs, q)
				for _, t := range q {
					if x := c.inner(t); x != t && c.find(x) != c.find(t) {
						nested[len(pairs)] = true
						pairs = append(pairs, [2]*term{x, t})
					}
				}
			}
		}
		for i, q := range pairs {
			a, b := c.find(q[0]), c.find(q[1])
			if a == b {
				continue
			}
			if rank(b) < rank(a) || rank(b) == rank(a) && !nested[i] && (b.n < a.n || b.n == a.n && b.id < a.id) {
				a, b = b, a
			}
			if mentions(a, b) { // b is part of a: would not be well founded
				a, b = b, a
				if mentions(a, b) {
					continue
				}
			}
			c.up[b] = a
			ch = true
		}
		if !ch {
			break
		}
	}
	c.memo, c.busy = map[*term]*term{}, map[*term]bool{}
	return c
}

func rank(t *term) int {
	switch t.op {
	case "const":
		return 0
	case "lookup":
		return 1
	case "param", "free":
		return 2
	case "len", "conv":
		return 3
	case "gload", "get", "fld":
		return 3
	case "elem":
		return 4
	case "call", "res":
		return 6
	case "sk", "op", "phi", "prev":
		return 7
	}
	return 5
}

func (c *canoniser) find(t *term) *term {
	for i := 0; i < 100; i++ {
		u := c.up[t]
		if u == nil {
			return t
		}
		t = u
	}
	return t
}

func (c *canoniser) of(t *term) *term {
	if r := c.memo[t]; r != nil {
		return r
	}
	if c.busy[t] {
		return t
	}
	c.busy[t] = true
	r := c.find(c.e.bound(t, c.w))
	if len(r.args) > 0 {
		as := make([]*term, len(r.args))
		ch := false
		for i, a := range r.args {
			as[i] = c.of(a)
			ch = ch || as[i] != a
		}
		if ch {
			x := c.e.rebuild(r, as)
			r = c.find(x)
		}
	}
	delete(c.busy, t)
	c.memo[t] = r
	return r
}

// inner rewrites the parts of a term, not the term as a whole.
func (c *canoniser) inner(t *term) *term {
	if len(t.args) == 0 {
		return t
	}
	as := make([]*term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = c.of(a)
		ch = ch || as[i] != a
	}
	if !ch {
		return t
	}
	return c.e.rebuild(t, as)
}

func (c *canoniser) same(a, b *term) bool { return a == b || c.of(a) == c.of(b) }

// holds: the world says the literal, up to equalities.
func (c *canoniser) holds(g *term, val bool) bool {
	for g.op == "not" {
		g, val = g.args[0], !val
	}
	if v, ok := c.w.lits[g]; ok && v == val {
		return true
	}
	cg := c.of(g)
	if cg == c.e.trueT || cg == c.e.falseT {
		return (cg == c.e.trueT) == val
	}
	for cg.op == "not" {
		cg, val = cg.args[0], !val
	}
	for l, v := range ordered(c.w.lits) {
		if v == val && l.op == cg.op && c.of(l) == cg {
			return true
		}
	}
	return false
}

// at gives the worlds at an instruction.
func (c *fctx) at(in ssa.Instruction) []*world { return c.run().in[in.Block()] }

// callersOf lists the calls of a function, and whether it can also be entered from outside the
// analysed code or through a function value.
func (e *engine) callersOf(fn *ssa.Function) ([]ssa.CallInstruction, bool) {
	if e.callers == nil {
		e.callers = map[*ssa.Function][]ssa.CallInstruction{}
		e.open = map[*ssa.Function]bool{}
		for _, g := range e.p.LibFuncs() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					ci, isCall := in.(ssa.CallInstruction)
					var callee *ssa.Function
					if isCall {
						callee = ci.Common().StaticCallee()
						if callee != nil {
							e.callers[callee] = append(e.callers[callee], ci)
						}
					}
					var ops []*ssa.Value
					for _, o := range in.Operands(ops) {
						f, ok := (*o).(*ssa.Function)
						if !ok {
							continue
						}
						if isCall && ci.Common().Value == ssa.Value(f) && countOperand(ci, f) == 1 {
							continue
						}
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
							only := true
							for _, r := range *mc.Referrers() {
								if rc, ok := r.(ssa.CallInstruction); !ok || rc.Common().Value != ssa.Value(mc) {
									if _, dbg := r.(*ssa.DebugRef); !dbg {
										only = false
									}
								}
							}
							if only {
								continue
							}
						}
						e.open[f] = true
					}
				}
			}
		}
	}
	return e.callers[fn], e.open[fn] || e.isAPI(fn)
}

func countOperand(ci ssa.CallInstruction, f *ssa.Function) int {
	n := 0
	var ops []*ssa.Value
	for _, o := range ci.(ssa.Instruction).Operands(ops) {
		if *o == ssa.Value(f) {
			n++
		}
	}
	return n
}

// goal is a condition to be shown at an instruction.
type goal struct {
	terms []*term // any of these literals, true
	ok    func(c *fctx, cn *canoniser, terms []*term) bool
}

// unproved is where a condition could not be shown.
type unproved struct {
	fn    *ssa.Function
	at    ssa.Instruction
	terms []*term
	why   string
	trail []string
}

// prove shows a condition over terms at an instruction, there or in all callers.
func (e *engine) prove(fn *ssa.Function, at ssa.Instruction, terms []*term, ok func(c *fctx, cn *canoniser, terms []*term) bool, depth int, trail []string) []unproved {
	c := e.fctx(fn)
	ws := c.at(at)
	all := true
	var badW *world
	for _, w := range ws {
		if good, b := e.entails(w, func(cn *canoniser) bool { return ok(c, cn, terms) }); !good {
			all, badW = false, b
			break
		}
	}
	if all {
		return nil
	}
	if os.Getenv("PHDEBUG") != "" {
		fmt.Fprintln(os.Stderr, "UNPROVED in", fnName(fn), brief(fmt.Sprint(terms)), "\n    ", brief(badW.String()))
	}
	fail := func(why string) []unproved { return []unproved{{fn, at, terms, why, trail}} }
	if depth > 6 {
		return fail("call chain too deep")
	}
	// which terms can be stated at the callers
	for _, t := range terms {
		if !overParams(t, fn) {
			return fail("depends on a local value")
		}
	}
	cs, open := e.callersOf(fn)
	if open {
		return fail("can be called from outside")
	}
	if len(cs) == 0 {
		return nil // not called
	}
	var out []unproved
	for _, ci := range cs {
		g := ci.Parent()
		gc := e.fctx(g)
		var args []*term
		for _, a := range ci.Common().Args {
			args = append(args, gc.t(a))
		}
		if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				args = append(args, gc.t(b))
			}
		}
		var ts []*term
		memo := map[*term]*term{}
		for _, t := range terms {
			ts = append(ts, e.substM(t, fn, args, func(k string) *term { return gc.verAt(ci.(ssa.Instruction), k) }, nil, memo))
		}
		out = append(out, e.prove(g, ci.(ssa.Instruction), ts, ok, depth+1, append(append([]string{}, trail...), fnName(g)))...)
	}
	return out
}

// overParams: the term is about the function's parameters and memory on entry only.
func overParams(t *term, fn *ssa.Function) bool {
	switch t.op {
	case "phi", "op", "ver", "prev", "sk", "append":
		return false
	case "param", "free":
		return strings.HasPrefix(t.sym, fn.String()+"$")
	}
	for _, a := range t.args {
		if !overParams(a, fn) {
			return false
		}
	}
	return true
}

func (e *engine) fnNamed(name string) *ssa.Function {
	for _, fn := range e.p.LibFuncs() {
		if fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Name() == name && fn.Pkg.Pkg.Path() == modPath {
			return fn
		}
	}
	return nil
}

func shortTerm(t *term) string {
	s := t.String()
	s = strings.ReplaceAll(s, modPath+".", "")
	s = strings.ReplaceAll(s, modPath, "")
	if len(s) > 200 {
		s = s[:200] + "…"
	}
	return s
}

var _ = fmt.Sprint

// isAPI: the function may be called from outside.
func (e *engine) isAPI(fn *ssa.Function) bool {
	if e.api != nil {
		return e.api[fn]
	}
	return e.p.isPublic(fn)
}

// isPublic: the function is part of the library's interface.
func (p *Program) isPublic(fn *ssa.Function) bool {
	m, ok := p.facts["public"].(map[*ssa.Function]bool)
	if !ok {
		m = map[*ssa.Function]bool{}
		for _, f := range p.ExportedAPI(append(append([]string{}, apiPackages...), modPath+"/metadata")...) {
			m[f] = true
		}
		p.facts["public"] = m
	}
	return m[fn]
}

// Named finds a named type.
func (p *Program) Named(pkg, name string) *types.Named {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return namedOf(o.Type())
}
