package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Entailment by cases: when a world does not say a condition outright, the results of calls it
// mentions are taken apart again into the ways the callee can return them.

type retCase struct {
	w   *world
	res []*term
	at  *ssa.Return
}

// cases lists, without merging, the ways result idx of a function is of a class.
func (c *fctx) cases(idx int, cls string) []retCase {
	var out []retCase
	for _, r := range c.returns() {
		if idx >= len(r.res) {
			continue
		}
		for _, w := range c.e.class(r.w, r.res[idx], cls, nil) {
			rs := make([]*term, len(r.res))
			for i, t := range r.res {
				rs[i] = c.e.bound(t, w)
			}
			out = append(out, retCase{w, rs, r.at})
		}
	}
	return out
}

// entails: the condition holds in the world, if need be by cases. The first case in which it could
// not be shown is returned otherwise.
func (e *engine) entails(w *world, ok func(cn *canoniser) bool) (bool, *world) {
	budget := 400
	defer func(a bool) { e.asking = a }(e.asking)
	e.asking = true
	return e.entails1(w, ok, map[*term]bool{}, 5, &budget)
}

func (e *engine) entails1(w *world, ok func(cn *canoniser) bool, done map[*term]bool, depth int, budget *int) (bool, *world) {
	*budget--
	if ok(e.canon(w)) {
		return true, nil
	}
	if depth == 0 || *budget <= 0 {
		return false, w
	}
	var ks []*term
	for l, v := range ordered(w.lits) {
		if done[l] {
			continue
		}
		switch l.op {
		case "call", "res":
			f := e.fns[l.sym]
			if v || l.op == "call" && f != nil {
				ks = append(ks, l)
			}
		case "eq", "lt":
			for _, a := range l.args {
				if a.op == "len" {
					a = a.args[0]
				}
				if a.op == "call" || a.op == "res" {
					ks = append(ks, l)
					break
				}
			}
		}
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].n != ks[j].n {
			return ks[i].n < ks[j].n
		}
		return ks[i].id < ks[j].id
	})
	type option struct {
		l  *term
		ws []*world
	}
	var split []option
	for _, call := range e.pending(w) {
		if done[call] {
			continue
		}
		ws, known := e.expandAny(w, call)
		if !known {
			continue
		}
		if len(ws) == 0 {
			return true, nil
		}
		if len(ws) == 1 {
			d := clone(done)
			d[call] = true
			return e.entails1(ws[0], ok, d, depth, budget)
		}
		split = append(split, option{call, ws})
	}
	for _, l := range ks {
		ws := e.expand(w, l, w.lits[l])
		var more []*world
		for _, x := range ws {
			if len(x.lits) > len(w.lits) {
				more = append(more, x)
			}
		}
		if len(ws) == 0 {
			return true, nil // impossible
		}
		if len(more) == 0 {
			continue
		}
		if len(ws) == 1 {
			// no choice: simply more facts
			d := clone(done)
			d[l] = true
			return e.entails1(ws[0], ok, d, depth, budget)
		}
		if len(more) == len(ws) {
			split = append(split, option{l, ws})
		}
	}
	var bad *world
	for _, o := range split {
		d := clone(done)
		d[o.l] = true
		all := true
		for _, x := range o.ws {
			if good, b := e.entails1(x, ok, d, depth-1, budget); !good {
				all, bad = false, b
				break
			}
			if *budget <= 0 {
				all = false
				break
			}
		}
		if all {
			return true, nil
		}
		if *budget <= 0 {
			break
		}
	}
	if bad == nil {
		bad = w
	}
	return false, bad
}

// pending lists the calls of analysed functions, inside facts about matches and lists, whose
// result is not known to equal anything else.
func (e *engine) pending(w *world) []*term {
	type visit struct {
		t   *term
		key bool
	}
	seen := map[visit]bool{}
	var out []*term
	known := map[*term]bool{}
	for l, v := range ordered(w.lits) {
		if v && l.op == "eq" {
			known[l.args[0]], known[l.args[1]] = true, true
		}
	}
	var f func(t *term, key bool)
	f = func(t *term, key bool) {
		if seen[visit{t, key}] {
			return
		}
		seen[visit{t, key}] = true
		for i, a := range t.args {
			f(a, t.op == "lookup" && i == 1 || t.op == "call" && e.yieldsPointer(t))
		}
		if t.op == "call" && !known[t] {
			g := e.fns[t.sym]
			if g == nil || !inRepo(fnPkgPath(g)) || g.Blocks == nil || len(t.args) != len(g.Params) || g.Signature.Results().Len() != 1 || e.p.isGenerated(g) {
				return
			}
			rt := g.Signature.Results().At(0).Type()
			if _, ptr := rt.Underlying().(*types.Pointer); ptr || key && isString(rt) {
				out = append(out, t)
			}
		}
	}
	for l, v := range ordered(w.lits) {
		if v && (l.op == "Full" || l.op == "EOM" || l.op == "Member") {
			f(l, false)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// yieldsPointer tells whether the first result of a call of an analysed function is a pointer:
// what it points to was then looked up with the arguments as the key.
func (e *engine) yieldsPointer(call *term) bool {
	g := e.fns[call.sym]
	if g == nil || !inRepo(fnPkgPath(g)) || g.Signature.Results().Len() == 0 {
		return false
	}
	_, ptr := g.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
	return ptr
}

// expandAny splits a world by the ways a call can return.
func (e *engine) expandAny(w *world, call *term) ([]*world, bool) {
	f := e.fns[call.sym]
	key := "any|" + f.String()
	if s := e.sums[key]; s != nil && s.busy || e.stop[call.sym] || e.stop["*"] {
		return nil, false
	}
	s := e.sums[key]
	if s == nil {
		s = &summary{busy: true}
		e.sums[key] = s
		c := e.fctx(f)
		for _, r := range c.cases(0, "any") {
			s.worlds = append(s.worlds, e.export(c, r.w))
			s.res = append(s.res, r.res)
		}
		s.busy = false
	}
	if len(s.worlds) == 0 || len(s.worlds) > 64 {
		return nil, false
	}
	ver := func(string) *term { return nil }
	var out []*world
	for i, sw := range s.worlds {
		n := w.clone()
		memo := map[*term]*term{}
		ok := true
		var ks []*term
		for l := range ordered(sw.lits) {
			ks = append(ks, l)
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a].id < ks[b].id })
		for _, l := range ks {
			if !e.put(n, e.substM(l, f, call.args, ver, call, memo), sw.lits[l]) {
				ok = false
				break
			}
		}
		if ok && e.put(n, e.eq(call, e.substM(s.res[i][0], f, call.args, ver, call, memo)), true) {
			out = append(out, n)
		}
	}
	return out, true
}

func clone(m map[*term]bool) map[*term]bool {
	n := make(map[*term]bool, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func init() {
	dumps["cases"] = func(p *Program, a []string) {
		e := p.Engine()
		for _, fn := range p.Funcs {
			if fn.Name() != a[0] {
				continue
			}
			for _, rc := range e.fctx(fn).cases(0, a[1]) {
				fmt.Println("RES", rc.res)
				fmt.Println("   ", brief(rc.w.String()))
			}
		}
	}
}
