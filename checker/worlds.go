package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Worlds: what is known to hold at a point, as a disjunction of conjunctions of literals, computed
// by forward dataflow from branch conditions and from summaries of the functions called in them.

type world struct {
	lits map[*term]bool  // boolean term -> truth value
	bind map[*term]*term // join values -> the alternative that reached here
}

func newWorld() *world { return &world{map[*term]bool{}, map[*term]*term{}} }

func (w *world) clone() *world {
	n := &world{make(map[*term]bool, len(w.lits)), make(map[*term]*term, len(w.bind))}
	for k, v := range w.lits {
		n.lits[k] = v
	}
	for k, v := range w.bind {
		n.bind[k] = v
	}
	return n
}

func (w *world) key() string {
	var s []string
	for k, v := range ordered(w.lits) {
		if v {
			s = append(s, fmt.Sprintf("%d", k.id))
		} else {
			s = append(s, fmt.Sprintf("-%d", k.id))
		}
	}
	for k, v := range ordered(w.bind) {
		s = append(s, fmt.Sprintf("%d=%d", k.id, v.id))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func (w *world) String() string {
	var s []string
	for k, v := range ordered(w.lits) {
		if v {
			s = append(s, k.String())
		} else {
			s = append(s, "!"+k.String())
		}
	}
	for k, v := range ordered(w.bind) {
		s = append(s, k.String()+" := "+v.String())
	}
	sort.Strings(s)
	return strings.Join(s, "\n    ")
}

type summary struct {
	worlds []*world // over the function's parameters; result terms in res
	res    [][]*term
	busy   bool
}

const (
	maxWorlds  = 24
	maxSummary = 12
	maxLits    = 400
)

// bound rewrites a term with the bindings of a world.
func (e *engine) bound(t *term, w *world) *term {
	if len(w.bind) == 0 {
		return t
	}
	memo := map[*term]*term{}
	var f func(t *term, d int) *term
	f = func(t *term, d int) *term {
		if len(t.args) == 0 || d > 40 {
			if b := w.bind[t]; b != nil && d <= 40 {
				return f(b, d+1)
			}
			return t
		}
		if r := memo[t]; r != nil {
			return r
		}
		if b := w.bind[t]; b != nil {
			return f(b, d+1)
		}
		var as []*term
		ch := false
		for i, a := range t.args {
			x := f(a, d+1)
			if x != a && !ch {
				ch = true
				as = append([]*term{}, t.args...)
			}
			if ch {
				as[i] = x
			}
		}
		r := t
		if ch {
			r = e.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return f(t, 0)
}

// rebuild makes the same term over other arguments, in normal form.
func (e *engine) rebuild(t *term, as []*term) *term {
	switch t.op {
	case "not":
		return e.not(as[0])
	case "eq":
		return e.eq(as[0], as[1])
	case "lt":
		return e.lt(as[0], as[1], true)
	case "cat":
		r := as[0]
		for _, a := range as[1:] {
			r = e.cat(r, a)
		}
		return r
	case "len":
		return e.length(as[0])
	case "sum":
		l := e.lin(t)
		r := lin{l.k, map[*term]int64{}}
		for i, a := range t.args {
			la := e.lin(a2(as, i))
			c := l.m[a]
			x := lin{la.k * c, map[*term]int64{}}
			for y, k := range la.m {
				x.m[y] = k * c
			}
			r = r.add(x, 1)
		}
		return e.unlin(r)
	case "slice":
		if len(as) == 3 {
			if as[1] == e.zero && as[2] == e.length(as[0]) {
				return as[0]
			}
			return e.slice(as[0], as[1], as[2])
		}
	case "idx":
		return e.idx(as[0], as[1])
	case "off":
		return e.off(as[0], as[1])
	case "fld", "get", "cell":
		if len(as) == 2 && as[1].op == "ver" {
			return e.mem(t.op, t.sym, as[1], as[0])
		}
	case "elem":
		if len(as) == 3 && as[2].op == "ver" {
			return e.mem(t.op, t.sym, as[2], as[0], as[1])
		}
	case "sel":
		return e.sel(t.sym, as[0])
	case "&elem":
		return e.elemAddr(t.sym, as[0], as[1])
	case "call":
		if t.sym == "(*regexp.Regexp).String" && as[0].op == "regexp" {
			return as[0].args[0]
		}
	case "conv":
		if as[0].isConst() {
			return as[0]
		}
	}
	r := e.mk(t.op, t.sym, as...)
	if r.typ == nil {
		r.typ = t.typ
	}
	return r
}

func a2(as []*term, i int) *term { return as[i] }

// subst instantiates a callee's term at a call: parameters become arguments, memory on entry becomes
// memory at the call, and local unknowns are named after the call.
func (e *engine) subst(t *term, f *ssa.Function, args []*term, ver func(string) *term, site *term) *term {
	return e.substM(t, f, args, ver, site, map[*term]*term{})
}

func (e *engine) substM(t *term, f *ssa.Function, args []*term, ver func(string) *term, site *term, memo map[*term]*term) *term {
	if r := memo[t]; r != nil {
		return r
	}
	r := e.subst1(t, f, args, ver, site, memo)
	if r.typ == nil {
		r.typ = t.typ
	}
	memo[t] = r
	return r
}

func (e *engine) subst1(t *term, f *ssa.Function, args []*term, ver func(string) *term, site *term, memo map[*term]*term) *term {
	name := f.String()
	switch t.op {
	case "const", "glob", "func":
		return t
	case "param":
		if strings.HasPrefix(t.sym, name+"$") {
			var i int
			fmt.Sscanf(t.sym[len(name)+1:], "%d", &i)
			if i < len(args) {
				return args[i]
			}
		}
		return t
	case "free":
		if strings.HasPrefix(t.sym, name+"$") {
			var i int
			fmt.Sscanf(t.sym[len(name)+1:], "%d", &i)
			if j := len(f.Params) + i; j < len(args) {
				return args[j]
			}
		}
		return e.local(t, site)
	case "phi", "op", "ver", "prev":
		return e.local(t, site)
	case "sk":
		if site == nil {
			return t
		}
		return e.local(t, site)
	}
	as := make([]*term, len(t.args))
	for i, a := range t.args {
		as[i] = e.substM(a, f, args, ver, site, memo)
	}
	switch t.op {
	case "fld", "get", "elem", "lookup", "has", "gload", "cell", "maplen", "str", "runestr":
		arity := map[string]int{"fld": 1, "get": 1, "elem": 2, "lookup": 2, "has": 2, "gload": 0, "cell": 1, "maplen": 1, "str": 1, "runestr": 1}[t.op]
		if len(t.args) == arity {
			return e.mem(t.op, t.sym, ver(t.sym), as...)
		}
	case "append":
		if site != nil {
			return e.mk("append", t.sym+"/"+fmt.Sprint(site.id), as...)
		}
	case "call":
		g := e.fns[t.sym]
		if g != nil && inRepo(fnPkgPath(g)) && g.Blocks != nil {
			n := len(g.Params) + len(g.FreeVars)
			if len(as) >= n {
				m := e.mod[g]
				if len(as) == n {
					return e.callTerm(g, as, ver, func() *term { return e.mk("call", t.sym, as...) })
				}
				_ = m
			}
		}
	}
	return e.rebuild(t, as)
}

func (e *engine) local(t, site *term) *term {
	if site == nil {
		return t
	}
	r := e.mk("sk", "", site, t)
	if r.typ == nil {
		r.typ = t.typ
	}
	return r
}

// ---- adding facts -----------------------------------------------------------------------------

// put records one literal and what follows from it directly; false means the world is impossible.
func (e *engine) put(w *world, t *term, val bool) bool {
	for t.op == "not" {
		t, val = t.args[0], !val
	}
	if t == e.trueT || t == e.falseT {
		return (t == e.trueT) == val
	}
	if old, ok := w.lits[t]; ok {
		return old == val
	}
	if len(w.lits) >= maxLits && t.op != "Full" && t.op != "Member" && t.op != "EOM" {
		return true
	}
	w.lits[t] = val
	switch t.op {
	case "eq":
		a, b := t.args[0], t.args[1]
		if val {
			for i := 0; i < 2; i++ {
				if c := b; c.isConst() {
					// a different constant is excluded
					for o, ov := range ordered(w.lits) {
						if ov && o != t && o.op == "eq" {
							if o.args[0] == a && o.args[1].isConst() || o.args[1] == a && o.args[0].isConst() {
								return false
							}
						}
					}
				}
				if a.op == "elem" {
					e.put(w, e.mk("Member", "", b, a.args[0]), true)
				}
				if a.op == "idx" && a.args[0].op == "call" && len(a.args[0].args) == 2 && a.args[0].sym == "(*regexp.Regexp).FindStringIndex" {
					e.fullFromIndex(w, a.args[0])
				}
				if a.op == "elem" && a.args[0].op == "call" && a.args[0].sym == "(*regexp.Regexp).FindStringIndex" {
					e.fullFromIndex(w, a.args[0])
				}
				a, b = b, a
			}
			if l, z := t.args[0], t.args[1]; l.op == "len" && z == e.zero || z.op == "len" && l == e.zero {
				if z.op == "len" {
					l = z
				}
				e.put(w, e.mk("EOM", "", e.mk("any", ""), l.args[0]), true)
			}
			// a known value decides comparisons
			if !e.decided(w, t) {
				return false
			}
		}
	case "lt":
		a, b := t.args[0], t.args[1]
		if !val && a == e.zero && b.op == "len" { // len <= 0
			e.put(w, e.mk("EOM", "", e.mk("any", ""), b.args[0]), true)
		}
		if val && b == e.one && a.op == "len" {
			e.put(w, e.mk("EOM", "", e.mk("any", ""), a.args[0]), true)
		}
		if !val && b == e.zero && a.op == "call" && strings.HasPrefix(a.sym, "slices.Index") && !strings.HasPrefix(a.sym, "slices.IndexFunc") && len(a.args) >= 2 {
			e.put(w, e.mk("Member", "", a.args[1], a.args[0]), true)
		}
		if val && b == e.num(-1) && false {
			return false
		}
	case "Member":
		if val {
			e.put(w, e.mk("EOM", "", t.args...), true)
		}
	case "call":
		if !val {
			break
		}
		switch t.sym {
		case "(*regexp.Regexp).MatchString":
			e.fullMatch(w, t.args[0], t.args[1])
		case "(*regexp.Regexp).Match":
			if len(t.args) >= 2 && t.args[1].op == "bytes" {
				e.fullMatch(w, t.args[0], t.args[1].args[0])
			}
		default:
			if strings.HasPrefix(t.sym, "slices.Contains") && !strings.HasPrefix(t.sym, "slices.ContainsFunc") && len(t.args) >= 2 {
				e.put(w, e.mk("Member", "", t.args[1], t.args[0]), true)
			}
		}
	}
	return true
}

// fullMatch: the pattern re matched s; if re is anchored at both ends around P, P matches all of s.
func (e *engine) fullMatch(w *world, re, s *term) {
	if re.op != "regexp" {
		return
	}
	p := re.args[0]
	if p.op != "cat" || len(p.args) < 2 {
		return
	}
	first, ok1 := p.args[0].strConst()
	last, ok2 := p.args[len(p.args)-1].strConst()
	if !ok1 || !ok2 {
		return
	}
	var mid *term
	switch {
	case (first == "^(?:" || first == "^(" || first == "\\A(?:") && (last == ")$" || last == ")\\z"):
		ms := p.args[1 : len(p.args)-1]
		if len(ms) == 1 {
			mid = ms[0]
		} else if len(ms) > 1 {
			mid = e.mk("cat", "", ms...)
		}
	}
	if mid != nil {
		e.put(w, e.mk("Full", "", mid, s), true)
	}
}

// fullFromIndex: a match found at 0 and ending at the length of the text covers it.
func (e *engine) fullFromIndex(w *world, call *term) {
	re, s := call.args[0], call.args[1]
	if re.op != "regexp" {
		return
	}
	at := func(i int64, v *term) bool {
		for l, val := range ordered(w.lits) {
			if !val || l.op != "eq" {
				continue
			}
			for k := 0; k < 2; k++ {
				a, b := l.args[k], l.args[1-k]
				if (a.op == "elem" || a.op == "idx") && a.args[0] == call && a.args[1] == e.num(i) && b == v {
					return true
				}
			}
		}
		return false
	}
	if at(0, e.zero) && at(1, e.length(s)) {
		e.put(w, e.mk("Full", "", re.args[0], s), true)
	}
}

// decided checks literals over a term that now equals a constant.
func (e *engine) decided(w *world, eq *term) bool {
	x, c := eq.args[0], eq.args[1]
	if !c.isConst() {
		x, c = c, x
	}
	n, ok := c.intConst()
	if !ok {
		return true
	}
	for l, v := range ordered(w.lits) {
		if l.op != "lt" {
			continue
		}
		a, aok := l.args[0].intConst()
		b, bok := l.args[1].intConst()
		if l.args[0] == x && bok && (n < b) != v {
			return false
		}
		if l.args[1] == x && aok && (a < n) != v {
			return false
		}
	}
	return true
}

// assume adds a condition to a world; the result is a disjunction.
func (e *engine) assume(w *world, t *term, val bool) []*world {
	for t.op == "not" {
		t, val = t.args[0], !val
	}
	raw := t
	t = e.bound(raw, w)
	for t.op == "not" {
		t, val = t.args[0], !val
		raw = nil
	}
	if t == e.trueT || t == e.falseT {
		if (t == e.trueT) != val {
			return nil
		}
		return []*world{w}
	}
	if old, ok := w.lits[t]; ok {
		if old != val {
			return nil
		}
		return []*world{w}
	}
	n := w.clone()
	if raw != nil && raw != t && raw.op != "not" {
		if !e.put(n, raw, val) {
			return nil
		}
	}
	if !e.put(n, t, val) {
		return nil
	}
	return e.expand(n, t, val)
}

// aboutChar: a question about one character.
func aboutChar(f *ssa.Function) bool {
	s := f.Signature
	if s.Params().Len() != 1 || s.Recv() != nil || s.Results().Len() != 1 {
		return false
	}
	p, ok1 := s.Params().At(0).Type().Underlying().(*types.Basic)
	r, ok2 := s.Results().At(0).Type().Underlying().(*types.Basic)
	return ok1 && ok2 && (p.Kind() == types.Int32 || p.Kind() == types.Uint8) && r.Kind() == types.Bool
}

// witness: a list that contains an element with a property has an element for which the function
// given says so.
func (e *engine) witness(t *term, val bool) *term {
	var call *term
	switch {
	case t.op == "call" && val && strings.HasPrefix(t.sym, "slices.ContainsFunc"):
		call = t
	case t.op == "lt" && !val && t.args[1] == e.zero && t.args[0].op == "call" && strings.HasPrefix(t.args[0].sym, "slices.IndexFunc"):
		call = t.args[0]
	}
	if call == nil || len(call.args) < 2 || len(call.args) > 3 {
		return nil
	}
	cl := call.args[1]
	if cl.op != "closure" && cl.op != "func" {
		return nil
	}
	g := e.fns[cl.sym]
	if g == nil || len(g.Params) != 1 || g.Blocks == nil || !inRepo(fnPkgPath(g)) {
		return nil
	}
	for _, fv := range g.FreeVars {
		if e.setOnce(fv) == nil {
			return nil
		}
	}
	var ver *term
	if len(call.args) == 3 {
		ver = call.args[2]
	}
	i := e.mk("sk", "", call, e.one)
	el := e.mem("elem", elemKey(g.Params[0].Type()), ver, call.args[0], i)
	none := false
	r := e.callTerm(g, append([]*term{el}, cl.args...), func(string) *term { return nil }, func() *term { none = true; return e.trueT })
	if none {
		return nil
	}
	return r
}

// expand adds what a callee's result tells about its arguments.
func (e *engine) expand(w *world, t *term, val bool) []*world {
	if f := e.witness(t, val); f != nil {
		return e.assume(w, f, true)
	}
	if t.op == "anyof" {
		if !val {
			ws := []*world{w}
			for _, a := range t.args {
				var out []*world
				for _, x := range ws {
					out = append(out, e.assume(x, a, false)...)
				}
				ws = out
			}
			return ws
		}
		var out []*world
		for _, a := range t.args {
			out = append(out, e.assume(w, a, true)...)
		}
		return out
	}
	call, idx, cls, rhs := t, 0, "", (*term)(nil)
	switch {
	case t.op == "call" || t.op == "res":
		cls = "true"
		if !val {
			cls = "false"
		}
	case t.op == "eq":
		for k := 0; k < 2; k++ {
			a, b := t.args[k], t.args[1-k]
			if (a.op == "call" || a.op == "res") && b.isConst() {
				call, rhs = a, b
				if b == e.nilT {
					cls = "nil"
					if !val {
						cls = "nonnil"
					}
				} else if val {
					cls = "=" + b.sym
				} else {
					cls = "!" + b.sym
				}
			}
			if a.op == "len" && (a.args[0].op == "call" || a.args[0].op == "res") && b == e.zero && a.args[0].typ != nil && isString(a.args[0].typ) {
				call = a.args[0]
				cls = "=\"\""
				if !val {
					cls = "!\"\""
				}
			}
		}
		if cls == "" && val {
			// equal to another call's result: nothing more
			return []*world{w}
		}
	case t.op == "lt":
		for k := 0; k < 2; k++ {
			a, b := t.args[k], t.args[1-k]
			if a.op == "len" && (a.args[0].op == "call" || a.args[0].op == "res") && a.args[0].typ != nil && isString(a.args[0].typ) && b == e.zero && k == 1 {
				call = a.args[0] // 0 < len(call)
				cls = "!\"\""
				if !val {
					cls = "=\"\""
				}
			}
		}
	}
	if cls == "" {
		return []*world{w}
	}
	_ = rhs
	if call.op == "res" {
		fmt.Sscanf(call.sym, "%d", &idx)
		call = call.args[0]
	}
	if call.op != "call" {
		return []*world{w}
	}
	f := e.fns[call.sym]
	if f == nil || e.stop[call.sym] || e.stop["*"] || !inRepo(fnPkgPath(f)) || f.Blocks == nil || len(call.args) < len(f.Params) {
		return []*world{w}
	}
	if !e.asking && aboutChar(f) {
		return []*world{w} // taken apart when it matters
	}
	s := e.summary(f, idx, cls)
	if s == nil {
		return []*world{w}
	}
	vers := call.args[len(f.Params)+min(len(f.FreeVars), len(call.args)-len(f.Params)):]
	if len(vers) > 0 {
		// memory differs from entry: only literals that do not read memory can be used
		return []*world{w}
	}
	args := call.args
	var out []*world
	for i, sw := range s.worlds {
		n := w.clone()
		ok := true
		memo := map[*term]*term{}
		ver := func(string) *term { return nil }
		var ks []*term
		for l := range ordered(sw.lits) {
			ks = append(ks, l)
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a].id < ks[b].id })
		for _, l := range ks {
			if !e.put(n, e.substM(l, f, args, ver, call, memo), sw.lits[l]) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if idx < len(s.res[i]) && s.res[i][idx] != nil {
			r := e.substM(s.res[i][idx], f, args, ver, call, memo)
			cr := call
			if f.Signature.Results().Len() > 1 {
				cr = e.res(call, idx)
			}
			if !r.isConst() || cls[0] == '!' {
				if !e.put(n, e.eq(cr, r), true) {
					continue
				}
			}
		}
		for j, rt := range s.res[i] {
			if j != idx && rt != nil {
				r := e.substM(rt, f, args, ver, call, memo)
				if !e.put(n, e.eq(e.res(call, j), r), true) {
					ok = false
				}
			}
		}
		if ok {
			out = append(out, n)
		}
	}
	return e.reduce(out, maxWorlds)
}

// ---- joining ---------------------------------------------------------------------------------

// mergeW is what holds in both worlds.
func (e *engine) mergeW(a, b *world) *world {
	e.closeBind(a)
	e.closeBind(b)
	n := newWorld()
	anyT := e.mk("any", "")
	for k, v := range ordered(a.lits) {
		if bv, ok := b.lits[k]; ok && bv == v {
			n.lits[k] = v
		} else if k.op == "EOM" && v {
			if k.args[0] != anyT && b.lits[e.mk("EOM", "", anyT, k.args[1])] {
				n.lits[k] = true
			}
		}
	}
	for k, v := range ordered(b.lits) {
		if k.op == "EOM" && v && k.args[0] != anyT && a.lits[e.mk("EOM", "", anyT, k.args[1])] {
			n.lits[k] = true
		}
	}
	for k, v := range ordered(a.bind) {
		if b.bind[k] == v {
			n.bind[k] = v
		}
	}
	return n
}

// closeBind states what is known about an alternative also of the join value it became.
func (e *engine) closeBind(w *world) {
	if len(w.bind) == 0 {
		return
	}
	inv := map[*term]*term{}
	for k, v := range ordered(w.bind) {
		if !v.isConst() && v.op != "phi" || v.op == "phi" {
			if !v.isConst() {
				inv[v] = k
			}
		}
	}
	if len(inv) == 0 {
		return
	}
	memo := map[*term]*term{}
	var f func(t *term) *term
	f = func(t *term) *term {
		if r := inv[t]; r != nil {
			return r
		}
		if r := memo[t]; r != nil {
			return r
		}
		memo[t] = t
		if len(t.args) == 0 {
			return t
		}
		var as []*term
		for i, a := range t.args {
			x := f(a)
			if x != a {
				if as == nil {
					as = append([]*term{}, t.args...)
				}
				as[i] = x
			}
		}
		if as == nil {
			return t
		}
		r := e.rebuild(t, as)
		memo[t] = r
		return r
	}
	add := map[*term]bool{}
	for l, v := range ordered(w.lits) {
		if r := f(l); r != l {
			x, val := r, v
			for x.op == "not" {
				x, val = x.args[0], !val
			}
			if !x.isConst() {
				add[x] = val
			}
		}
	}
	for l, v := range ordered(add) {
		if _, ok := w.lits[l]; !ok {
			w.lits[l] = v
		}
	}
}

// reduce removes worlds implied by weaker ones and merges until at most max are left.
func (e *engine) reduce(ws []*world, max int) []*world {
	seen := map[string]bool{}
	var out []*world
	for _, w := range ws {
		k := w.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, w)
		}
	}
	ws = out
	if len(ws) > 1 {
		sort.SliceStable(ws, func(i, j int) bool { return len(ws[i].lits)+len(ws[i].bind) < len(ws[j].lits)+len(ws[j].bind) })
		out = nil
		for _, w := range ws {
			sub := false
			for _, o := range out {
				if weaker(o, w) {
					sub = true
					break
				}
			}
			if !sub {
				out = append(out, w)
			}
		}
		ws = out
	}
	for len(ws) > max {
		bi, bj, best := 0, 1, -1<<30
		for i := 0; i < len(ws); i++ {
			for j := i + 1; j < len(ws); j++ {
				score := -e.loss(ws[i], ws[j])
				for k, v := range ordered(ws[i].bind) {
					if o := ws[j].bind[k]; o != v {
						score -= 15
						if o != nil && o.isConst() && v.isConst() {
							score -= 40
						}
					}
				}
				if score > best {
					bi, bj, best = i, j, score
				}
			}
		}
		m := e.mergeW(ws[bi], ws[bj])
		ws = append(append(append([]*world{}, ws[:bi]...), ws[bi+1:bj]...), ws[bj+1:]...)
		ws = append(ws, m)
		if len(ws) > 1 {
			kept := ws[:0:0]
			for i, w := range ws {
				sub := false
				for j, o := range ws {
					if i != j && weaker(o, w) && (!weaker(w, o) || j < i) {
						sub = true
						break
					}
				}
				if !sub {
					kept = append(kept, w)
				}
			}
			ws = kept
		}
	}
	return ws
}

// loss measures what merging two worlds forgets.
func (e *engine) loss(a, b *world) int {
	anyT := e.mk("any", "")
	n := 0
	one := func(a, b *world) {
		for k, v := range ordered(a.lits) {
			if ov, ok := b.lits[k]; ok && ov == v {
				continue
			}
			switch k.op {
			case "EOM":
				if !v {
					n++
				} else if k.args[0] != anyT && b.lits[e.mk("EOM", "", anyT, k.args[1])] {
				} else if k.args[0] == anyT {
					n += 2
				} else {
					n += 20
				}
			case "Full":
				if v {
					n += 20
				}
			case "eq", "Member":
				if v {
					n += 2
				} else {
					n++
				}
			default:
				if v {
					n += 2
				} else {
					n++
				}
			}
		}
	}
	one(a, b)
	one(b, a)
	return n
}

// weaker: everything a says, b says too.
func weaker(a, b *world) bool {
	if len(a.lits) > len(b.lits) || len(a.bind) > len(b.bind) {
		return false
	}
	for k, v := range ordered(a.lits) {
		if bv, ok := b.lits[k]; !ok || bv != v {
			return false
		}
	}
	for k, v := range ordered(a.bind) {
		if b.bind[k] != v {
			return false
		}
	}
	return true
}

// ---- dataflow --------------------------------------------------------------------------------

type flow struct {
	in map[*ssa.BasicBlock][]*world
}

// variant: the term changes from one iteration of the loop to the next.
func (c *fctx) variant(t *term, l *natLoop, memo map[*term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	r := false
	if b := c.e.defs[t]; b != nil && l.blocks[b] {
		r = true
	}
	if !r {
		for _, a := range t.args {
			if c.variant(a, l, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

// edge gives the worlds that flow from b to its i-th successor.
func (c *fctx) edge(b *ssa.BasicBlock, ws []*world, i int) []*world {
	e := c.e
	var out []*world
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && len(b.Succs) == 2 {
		if b.Succs[0] == b.Succs[1] {
			out = ws
		} else {
			t := c.t(iff.Cond)
			for _, w := range ws {
				for _, u := range c.unroll(b, t, i == 0, w) {
					out = append(out, e.assume(u, t, i == 0)...)
				}
			}
		}
	} else {
		out = ws
	}
	s := b.Succs[i]
	// which predecessor slot this edge is
	slot := -1
	for k, p := range s.Preds {
		if p == b {
			if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
				// two edges to the same block
				cnt := 0
				for kk, pp := range s.Preds {
					if pp == b {
						if cnt == i {
							slot = kk
						}
						cnt++
					}
				}
				break
			}
			slot = k
			break
		}
	}
	loop := c.loops[s]
	back := loop != nil && s.Dominates(b)
	var res []*world
	if back {
		// a yes or no that the loop carries: the two cases apart
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if bt, ok := ph.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsBoolean == 0 || c.t(ph).op != "phi" {
				continue
			}
			var more []*world
			for _, w := range out {
				vt := e.bound(c.t(ph.Edges[slot]), w)
				if vt.isConst() || vt == c.t(ph) {
					more = append(more, w)
					continue
				}
				more = append(more, e.assume(w, vt, true)...)
				more = append(more, e.assume(w, vt, false)...)
			}
			if len(more) <= 4*maxWorlds {
				out = more
			}
		}
	}
	for _, w := range out {
		n := w.clone()
		binds := map[*term]*term{}
		news := false
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			pt := c.t(ph)
			if pt.op != "phi" {
				continue
			}
			raw := c.t(ph.Edges[slot])
			vt := e.bound(raw, w)
			if loop != nil && !vt.isConst() {
				if v, ok := w.lits[vt]; ok && (vt.op == "call" || vt.op == "eq" || vt.op == "lt" || vt.op == "res") {
					vt = e.falseT
					if v {
						vt = e.trueT
					}
				}
			}
			counts := loop != nil && c.counts(ph, pt)
			if loop != nil && (!vt.isConst() || counts && c.trips(loop) == 0) {
				delete(binds, pt)
				continue
			}
			binds[pt] = vt
			if !counts && raw != pt && w.bind[pt] != vt {
				news = true
			}
		}
		if back {
			e.closeBind(n)
			memo := map[*term]bool{}
			keep := map[*term]bool{}
			if news {
				// what was known about this iteration is still known of an earlier one
				old := map[*term]*term{}
				for l, v := range ordered(n.lits) {
					if c.ofPrev(l, loop) {
						delete(n.lits, l)
						continue
					}
					if c.variant(l, loop, memo) {
						if o := c.prev(l, loop, old, memo); o != nil {
							keep[o] = v
						}
					}
				}
			}
			for l := range ordered(n.lits) {
				if c.variant(l, loop, memo) {
					delete(n.lits, l)
				}
			}
			for l, v := range keep {
				n.lits[l] = v
			}
			for k, v := range ordered(n.bind) {
				if c.variant(k, loop, memo) || c.variant(v, loop, memo) {
					delete(n.bind, k)
				}
			}
		}
		for k := range ordered(n.lits) {
			// literals about the join values themselves are from an earlier visit
			if loop != nil {
				for pt := range ordered(binds) {
					if mentions(k, pt) {
						delete(n.lits, k)
						break
					}
				}
			}
		}
		for k, v := range ordered(binds) {
			n.bind[k] = v
			if v.isConst() && k.typ != nil {
				if bt, ok := k.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
					n.lits[k] = v == e.trueT
				} else {
					q := e.eq(k, v)
					val := true
					for q.op == "not" {
						q, val = q.args[0], !val
					}
					if !q.isConst() {
						n.lits[q] = val
					}
				}
			}
		}
		res = append(res, n)
	}
	return res
}

// prev names the value a term had in an earlier iteration of a loop.
func (c *fctx) prev(t *term, l *natLoop, done map[*term]*term, memo map[*term]bool) *term {
	if !c.variant(t, l, memo) {
		return t
	}
	if r := done[t]; r != nil {
		return r
	}
	e := c.e
	var r *term
	if b := e.defs[t]; b != nil && l.blocks[b] || len(t.args) == 0 {
		r = e.mk("prev", fmt.Sprintf("%s#%d/%d", c.name, l.head.Index, t.id))
		if r.typ == nil {
			r.typ = t.typ
		}
	} else {
		as := make([]*term, len(t.args))
		for i, x := range t.args {
			as[i] = c.prev(x, l, done, memo)
		}
		r = e.rebuild(t, as)
	}
	done[t] = r
	return r
}

// ofPrev: the term is about an earlier iteration of the loop.
func (c *fctx) ofPrev(t *term, l *natLoop) bool {
	if t.op == "prev" && strings.HasPrefix(t.sym, fmt.Sprintf("%s#%d/", c.name, l.head.Index)) {
		return true
	}
	for _, a := range t.args {
		if c.ofPrev(a, l) {
			return true
		}
	}
	return false
}

// trips gives how often a counted loop with a small constant bound comes to its head, 0 if unknown.
func (c *fctx) trips(l *natLoop) int {
	b := l.head
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	cond := c.t(iff.Cond)
	if cond.op != "lt" {
		return 0
	}
	n, ok := cond.args[1].intConst()
	if !ok {
		return 0
	}
	pt, k, start, ok := c.counter(b, cond)
	if !ok || pt == nil || start+k >= n || n-start-k > 12 {
		return 0
	}
	return int(n-start-k) + 1
}

// counter: the join value, plus what, that a condition at the head of a loop limits, and where it
// starts.
func (c *fctx) counter(b *ssa.BasicBlock, cond *term) (*term, int64, int64, bool) {
	e := c.e
	li := e.lin(cond.args[0])
	if len(li.m) != 1 {
		return nil, 0, 0, false
	}
	var pt *term
	for t, k := range ordered(li.m) {
		if k != 1 {
			return nil, 0, 0, false
		}
		pt = t
	}
	ph := c.phis[pt]
	if ph == nil || ph.Block() != b {
		return nil, 0, 0, false
	}
	start, found := int64(0), false
	for i, ed := range ph.Edges {
		if b.Dominates(b.Preds[i]) {
			le := e.lin(c.t(ed))
			if le.k != 1 || len(le.m) != 1 || le.m[pt] != 1 {
				return nil, 0, 0, false
			}
			continue
		}
		k, ok := c.t(ed).intConst()
		if !ok || found && k != start {
			return nil, 0, 0, false
		}
		start, found = k, true
	}
	return pt, li.k, start, found
}

// counts: the join value of a loop goes up or down by a constant on some way round.
func (c *fctx) counts(ph *ssa.Phi, pt *term) bool {
	for i, ed := range ph.Edges {
		if ph.Block().Dominates(ph.Block().Preds[i]) {
			l := c.e.lin(c.t(ed))
			if l.k != 0 && len(l.m) == 1 && l.m[pt] == 1 {
				return true
			}
		}
	}
	return false
}

// unroll splits a world by the iteration of a counted loop with a small constant bound.
func (c *fctx) unroll(b *ssa.BasicBlock, cond *term, val bool, w *world) []*world {
	e := c.e
	l := c.loops[b]
	if l == nil || !val || cond.op != "lt" {
		return []*world{w}
	}
	n, ok := e.bound(cond.args[1], w).intConst()
	if !ok || n > 24 {
		return []*world{w}
	}
	pt, lk, start, ok := c.counter(b, cond)
	if !ok {
		return []*world{w}
	}
	if _, done := w.bind[pt]; done {
		return []*world{w}
	}
	var out []*world
	for v := start; v+lk < n; v++ {
		u := w.clone()
		for k := range ordered(u.lits) {
			if mentions(k, pt) {
				delete(u.lits, k)
			}
		}
		u.bind[pt] = e.num(v)
		out = append(out, u)
	}
	return out
}

func mentions(t, x *term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

func (c *fctx) run() *flow {
	if c.flow != nil {
		return c.flow
	}
	f := &flow{in: map[*ssa.BasicBlock][]*world{}}
	c.flow = f
	e := c.e
	defer func(a bool) { e.asking = a }(e.asking)
	e.asking = false
	contrib := map[*ssa.BasicBlock]map[string][]*world{}
	entry := []*world{newWorld()}
	entry = e.entryFacts(c, entry)
	visits := map[*ssa.BasicBlock]int{}
	f.in[c.rpo[0]] = entry
	dirty := map[*ssa.BasicBlock]bool{c.rpo[0]: true}
	keyOf := map[*ssa.BasicBlock]string{}
	for round := 0; round < 60 && len(dirty) > 0; round++ {
		for _, b := range c.rpo {
			if !dirty[b] {
				continue
			}
			delete(dirty, b)
			visits[b]++
			ws := f.in[b]
			for i, s := range b.Succs {
				o := c.edge(b, ws, i)
				k := fmt.Sprintf("%d.%d", b.Index, i)
				if contrib[s] == nil {
					contrib[s] = map[string][]*world{}
				}
				contrib[s][k] = o
				var all []*world
				if s == c.rpo[0] {
					all = append(all, entry...)
				}
				for _, p := range s.Preds {
					for j := range p.Succs {
						if p.Succs[j] == s {
							kk := fmt.Sprintf("%d.%d", p.Index, j)
							if x, ok := contrib[s][kk]; ok {
								all = append(all, x...)
								if len(p.Succs) == 2 && p.Succs[0] == p.Succs[1] {
									continue
								}
							}
						}
					}
				}
				if c.loops[s] == nil {
					all = e.reduce(cloneAll(all), maxWorlds)
				} else if visits[s] <= 6 {
					all = e.reduce(cloneAll(all), 6+c.trips(c.loops[s]))
				} else {
					// one world for each choice of constants for the join values; only ever weaken
					all = e.widen(append(cloneAll(all), cloneAll(f.in[s])...), 8+c.trips(c.loops[s]))
				}
				ks := ""
				for _, w := range all {
					ks += w.key() + "|"
				}
				if ks != keyOf[s] || f.in[s] == nil && len(all) > 0 {
					keyOf[s] = ks
					f.in[s] = all
					dirty[s] = true
				}
			}
		}
	}
	if len(dirty) > 0 {
		if os.Getenv("PHDEBUG") != "" {
			fmt.Fprintln(os.Stderr, "no fixpoint:", c.name)
		}
		// give up: nothing is known
		for _, b := range c.rpo {
			f.in[b] = []*world{newWorld()}
		}
	}
	return f
}

// widen merges worlds that bind the same join values to the same constants, or all of them if there
// are many such choices.
func (e *engine) widen(ws []*world, max int) []*world {
	groups := map[string]*world{}
	var order []string
	for _, w := range ws {
		var ks []string
		for k, v := range ordered(w.bind) {
			if v.isConst() {
				ks = append(ks, fmt.Sprintf("%d=%d", k.id, v.id))
			}
		}
		sort.Strings(ks)
		key := strings.Join(ks, " ")
		if g := groups[key]; g != nil {
			groups[key] = e.mergeW(g, w)
		} else {
			groups[key] = w
			order = append(order, key)
		}
	}
	if len(order) > max {
		m := groups[order[0]]
		for _, k := range order[1:] {
			m = e.mergeW(m, groups[k])
		}
		return []*world{m}
	}
	var out []*world
	for _, k := range order {
		out = append(out, groups[k])
	}
	return e.reduce(out, max)
}

func cloneAll(ws []*world) []*world {
	out := make([]*world, len(ws))
	for i, w := range ws {
		out[i] = w.clone()
	}
	return out
}

// entryFacts: nothing is assumed about parameters, unless a check asks what follows if something is.
func (e *engine) entryFacts(c *fctx, ws []*world) []*world {
	for _, f := range e.given[c.fn] {
		var out []*world
		for _, w := range ws {
			out = append(out, e.assume(w, f, true)...)
		}
		ws = out
	}
	return ws
}

// returns gives, for every way of returning, the world and the result terms.
type retWorld struct {
	w   *world
	res []*term
	at  *ssa.Return
}

func (c *fctx) returns() []retWorld {
	f := c.run()
	var out []retWorld
	for _, b := range c.rpo {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, w := range f.in[b] {
			var rs []*term
			for _, v := range r.Results {
				rs = append(rs, c.e.bound(c.t(v), w))
			}
			out = append(out, retWorld{w, rs, r})
		}
	}
	return out
}

// class restricts a way of returning to those whose result is of a class.
func (e *engine) class(w *world, r *term, cls string, typ types.Type) []*world {
	switch cls {
	case "any":
		return []*world{w}
	case "true":
		return e.assume(w, r, true)
	case "false":
		return e.assume(w, r, false)
	case "nil":
		return e.assume(w, e.eq(r, e.nilT), true)
	case "nonnil":
		return e.assume(w, e.eq(r, e.nilT), false)
	}
	k := e.mk("const", cls[1:])
	return e.assume(w, e.eq(r, k), cls[0] == '=')
}

// summary: the worlds in which result idx of f is of the class, over f's parameters.
func (e *engine) summary(f *ssa.Function, idx int, cls string) *summary {
	key := f.String() + "|" + fmt.Sprint(idx) + "|" + cls
	if s := e.sums[key]; s != nil {
		if s.busy {
			return nil
		}
		return s
	}
	if e.p.isGenerated(f) {
		return nil
	}
	s := &summary{busy: true}
	e.sums[key] = s
	c := e.fctx(f)
	if c.flow == nil {
		// an analysis of this function already under way cannot use its own result
		e.sums[key] = s
	}
	type wr struct {
		w *world
		r []*term
	}
	var got []wr
	for _, r := range c.returns() {
		if idx >= len(r.res) {
			continue
		}
		for _, w := range e.class(r.w, r.res[idx], cls, nil) {
			rs := make([]*term, len(r.res))
			for i, t := range r.res {
				rs[i] = e.bound(t, w)
			}
			got = append(got, wr{e.export(c, w), rs})
		}
	}
	// keep result terms only where merging leaves them unambiguous
	var ws []*world
	for _, g := range got {
		n := g.w
		for i, t := range g.r {
			n.bind[e.mk("ret", fmt.Sprint(i))] = t
		}
		ws = append(ws, n)
	}
	ws = e.reduce(ws, maxSummary)
	for _, w := range ws {
		rs := make([]*term, f.Signature.Results().Len())
		for i := range rs {
			k := e.mk("ret", fmt.Sprint(i))
			if t := w.bind[k]; t != nil {
				rs[i] = t
			}
			delete(w.bind, k)
		}
		s.worlds = append(s.worlds, w)
		s.res = append(s.res, rs)
	}
	s.busy = false
	return s
}

// export rewrites a world without bindings.
func (e *engine) export(c *fctx, w *world) *world {
	n := newWorld()
	for l, v := range ordered(w.lits) {
		x := e.bound(l, w)
		val := v
		for x.op == "not" {
			x, val = x.args[0], !val
		}
		if !x.isConst() {
			n.lits[x] = val
		}
		if l != x && !hasPhi(l) {
			n.lits[l] = v
		}
	}
	return n
}

func hasPhi(t *term) bool { return hasOp(t, "phi", map[*term]bool{}) }

func init() {
	dumps["sum"] = func(p *Program, a []string) {
		e := p.Engine()
		for _, fn := range p.Funcs {
			if fn.Name() != a[0] {
				continue
			}
			s := e.summary(fn, 0, a[1])
			if s == nil {
				fmt.Println("none")
				continue
			}
			for i, w := range s.worlds {
				fmt.Println("WORLD", fnName(fn), s.res[i])
				fmt.Println("   ", w)
			}
		}
	}
	dumps["worlds"] = func(p *Program, a []string) {
		e := p.Engine()
		for _, fn := range p.Funcs {
			if fn.Name() != a[0] {
				continue
			}
			c := e.fctx(fn)
			f := c.run()
			for _, b := range c.rpo {
				fmt.Println("BLOCK", b.Index, b.Comment, len(f.in[b]))
				for _, w := range f.in[b] {
					fmt.Println("  --", w)
				}
			}
		}
	}
}

func init() {
	dumps["mods"] = func(p *Program, a []string) {
		e := p.Engine()
		for _, fn := range p.Funcs {
			if len(a) > 0 && fn.Name() != a[0] {
				continue
			}
			m := e.mod[fn]
			fmt.Println(fnName(fn), m.any, len(m.reads), sortedKeys(m.writes))
		}
	}
}
