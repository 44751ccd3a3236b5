package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: matches found in a text are exact, within it, in order and apart.

func init() { checks["C16"] = checkMatches }

type matchCheck struct {
	p *Program
	r *Report
	b *bprover
	e *engine
	// the matches' type and its accessors
	typ             *types.Named
	start, end, raw *ssa.Function
	texts           map[any]bool // parameters and fields that always hold the searched text
	open            []string
	low             map[string]int
	lowWhy          map[string]string
}

func checkMatches(p *Program, r *Report) {
	r.Rule("Wherever a match is made, the values its accessors will give for start, end and raw string are shown to satisfy, for the searched text: 0 <= start, end <= length of the text, end = start + length of the raw string, and the raw string is the part of the text that begins at start. The values are never changed afterwards. Each search for a further match starts at or after the end of the one before, and what a search finds starts at or after the place it was given.")
	m := &matchCheck{p: p, r: r, b: p.bounder()}
	m.e = m.b.e
	m.anchor()
	if m.typ == nil {
		return
	}
	m.findTexts()
	m.made()
	m.kept()
	m.order()
	r.Coverage["left open"] = m.open
	r.Assume("Counts of bytes do not overflow.")
	r.Assume("The text between two places, given that the raw string was cut from the text there, is the raw string (texts do not change).")
}

func (m *matchCheck) anchor() {
	for _, fn := range m.p.LibFuncs() {
		rv := fn.Signature.Recv()
		if rv == nil || fnPkgPath(fn) != modPath {
			continue
		}
		n := namedOf(derefType(rv.Type()))
		if n == nil || n.Obj().Name() != "PhoneNumberMatch" || fn.Synthetic != "" {
			continue
		}
		m.typ = n
		switch fn.Name() {
		case "Start":
			m.start = fn
		case "End":
			m.end = fn
		case "RawString":
			m.raw = fn
		}
	}
	if m.typ == nil || m.start == nil || m.end == nil || m.raw == nil {
		m.typ = nil
		m.r.Failf("anchor", "PhoneNumberMatch", "-", "the type of matches or its accessors are missing")
	}
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func typeMentions(t types.Type, n *types.Named, depth int) bool {
	if depth > 6 {
		return false
	}
	if t == types.Type(n) {
		return true
	}
	if x, ok := t.(*types.Named); ok && x.TypeArgs() != nil {
		for i := 0; i < x.TypeArgs().Len(); i++ {
			if typeMentions(x.TypeArgs().At(i), n, depth+1) {
				return true
			}
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			if typeMentions(x.At(i).Type(), n, depth+1) {
				return true
			}
		}
	case *types.Pointer:
		return typeMentions(x.Elem(), n, depth+1)
	case *types.Slice:
		return typeMentions(x.Elem(), n, depth+1)
	case *types.Chan:
		return typeMentions(x.Elem(), n, depth+1)
	case *types.Signature:
		for i := 0; i < x.Params().Len(); i++ {
			if typeMentions(x.Params().At(i).Type(), n, depth+1) {
				return true
			}
		}
		for i := 0; i < x.Results().Len(); i++ {
			if typeMentions(x.Results().At(i).Type(), n, depth+1) {
				return true
			}
		}
	}
	return false
}

// findTexts finds the parameters and fields that only ever hold the text a search was asked for.
func (m *matchCheck) findTexts() {
	m.texts = map[any]bool{}
	var params []*ssa.Parameter
	stores := map[string][]ssa.Value{}
	var fns []*ssa.Function
	for _, fn := range m.p.LibFuncs() {
		if fnPkgPath(fn) != modPath || fn.Blocks == nil || m.b.skip(fn) || m.p.isGenerated(fn) {
			continue
		}
		fns = append(fns, fn)
		given := false
		for _, p := range fn.Params {
			if !isText(p.Type()) {
				continue
			}
			if m.e.isAPI(fn) {
				// the text is the first text a searching function is given
				if !given && fn.Signature.Recv() == nil && typeMentions(fn.Signature.Results(), m.typ, 0) {
					m.texts[p] = true
				}
				given = true
				continue
			}
			m.texts[p] = true
			params = append(params, p)
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				if st, ok := in.(*ssa.Store); ok && isText(st.Val.Type()) {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa)
						stores[k] = append(stores[k], st.Val)
						m.texts[k] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, p := range params {
			if !m.texts[p] {
				continue
			}
			cs, open := m.b.callSites(p.Parent())
			ok := !open && len(cs) > 0
			for _, ci := range cs {
				i := paramIndex(p)
				ok = ok && i < len(ci.Common().Args) && m.isText(ci.Common().Args[i], 0)
			}
			if !ok {
				m.texts[p], changed = false, true
			}
		}
		for k, vs := range ordered(stores) {
			if !m.texts[k] {
				continue
			}
			for _, v := range vs {
				if !m.isText(v, 0) {
					m.texts[k], changed = false, true
				}
			}
		}
	}
	n := 0
	for _, v := range ordered(m.texts) {
		if v {
			n++
		}
	}
	m.r.Count("places that hold the searched text", n)
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func fieldKey(fa *ssa.FieldAddr) string {
	n := namedOf(derefType(fa.X.Type()))
	if n == nil || n.Obj().Pkg() == nil {
		return "?"
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + n.Underlying().(*types.Struct).Field(fa.Field).Name()
}

// bound gives the values a captured variable has.
func (m *matchCheck) bound(f *ssa.FreeVar) (out []ssa.Value) {
	fn := f.Parent()
	i := -1
	for j, g := range fn.FreeVars {
		if g == f {
			i = j
		}
	}
	if fn.Parent() == nil || i < 0 {
		return nil
	}
	for _, blk := range fn.Parent().Blocks {
		for _, in := range blk.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				out = append(out, mc.Bindings[i])
			}
		}
	}
	return
}

func (m *matchCheck) isText(v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	all := func(vs []ssa.Value) bool {
		for _, v := range vs {
			if !m.isText(v, depth+1) {
				return false
			}
		}
		return len(vs) > 0
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return m.texts[x]
	case *ssa.FreeVar:
		return all(m.bound(x))
	case *ssa.Phi:
		return all(x.Edges)
	case *ssa.Alloc:
		if o := m.e.setOnce(x); o != nil {
			return m.isText(o, depth+1)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			return m.texts[fieldKey(a)]
		case *ssa.FreeVar, *ssa.Alloc:
			return m.isText(x.X, depth+1)
		}
	case *ssa.ChangeType:
		return m.isText(x.X, depth+1)
	}
	return false
}

// value is what an accessor gives for a match, at a place.
func (m *matchCheck) value(acc *ssa.Function, obj *term, ver func(string) *term) *term {
	rs, ok := m.b.returnsOf(acc)
	if !ok || len(rs) != 1 || len(rs[0].res) != 1 || !overParams(rs[0].res[0], acc) {
		return nil
	}
	return m.e.substM(rs[0].res[0], acc, []*term{obj}, ver, nil, map[*term]*term{})
}

// made looks at every place a match is made.
func (m *matchCheck) made() {
	e := m.e
	for _, fn := range m.p.LibFuncs() {
		if fn.Blocks == nil || m.b.skip(fn) {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || namedOf(derefType(al.Type())) != m.typ {
					continue
				}
				if _, ptr := derefType(al.Type()).Underlying().(*types.Pointer); ptr {
					continue
				}
				c := e.fctx(fn)
				used := false
				for _, u := range m.leaves(al) {
					used = true
					m.r.Count("matches made", 1)
					ver := func(k string) *term { return c.verAt(u, k) }
					obj := c.t(al)
					s, en, raw := m.value(m.start, obj, ver), m.value(m.end, obj, ver), m.value(m.raw, obj, ver)
					if s == nil || en == nil || raw == nil {
						m.open = append(m.open, m.p.InstrPos(u)+" "+fnName(fn)+": the accessors of matches are not simple")
						continue
					}
					q := bpoint{c: c, blk: u.Block(), at: u, via: -1, lits: map[*term]bool{}}
					m.place(q, [3]*term{s, en, raw}, 0)
				}
				_ = used
			}
		}
	}
	m.r.Require("matches made", 1)
}

// leaves lists where a new match is handed on.
func (m *matchCheck) leaves(al *ssa.Alloc) (out []ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value)
	f = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.FieldAddr, *ssa.DebugRef, *ssa.BinOp:
			case *ssa.Phi:
				f(x)
			case *ssa.Store:
				if x.Val == v {
					out = append(out, x)
				}
			default:
				out = append(out, u)
			}
		}
	}
	f(al)
	return
}

// place shows that a match with the given start, end and raw string is exact.
func (m *matchCheck) place(q bpoint, v [3]*term, depth int) {
	e := m.e
	fn := q.c.fn
	where := m.p.InstrPos(q.at) + " " + fnName(fn)
	var texts []*term
	add := func(v ssa.Value) {
		if isText(v.Type()) {
			if m.isText(v, 0) {
				texts = append(texts, q.c.t(v))
			}
			return
		}
		for _, k := range textFields(v.Type()) {
			if m.texts[k] {
				t := e.mem("fld", k, q.c.verAt(q.at, k), q.c.t(v))
				t.typ = types.Typ[types.String]
				texts = append(texts, t)
			}
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	// local names for the text or for what holds it
	for d := q.blk; d != nil && len(texts) == 0; d = d.Idom() {
		for _, in := range d.Instrs {
			if d == q.blk && !before(in, q.at) {
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				switch v.(type) {
				case *ssa.Call, *ssa.UnOp, *ssa.Alloc:
					add(v)
				}
			}
		}
	}
	if len(texts) == 0 {
		over := depth < 6
		for _, t := range v {
			over = over && overParams(t, fn)
		}
		cs, open := m.b.callSites(fn)
		if !over || open || len(cs) == 0 {
			if len(cs) == 0 && !open && !e.isAPI(fn) {
				return // never called
			}
			m.open = append(m.open, where+": the searched text is not at hand where a match is made")
			return
		}
		for _, ci := range cs {
			in := ci.(ssa.Instruction)
			gc := e.fctx(ci.Parent())
			var args []*term
			for _, a := range ci.Common().Args {
				args = append(args, gc.t(a))
			}
			var n [3]*term
			memo := map[*term]*term{}
			for i := range v {
				n[i] = e.substM(v[i], fn, args, func(k string) *term { return gc.verAt(in, k) }, nil, memo)
			}
			m.place(bpoint{c: gc, blk: in.Block(), at: in, via: -1, lits: map[*term]bool{}}, n, depth+1)
		}
		return
	}
	m.r.Count("places of matches in texts shown", 1)
	best := ""
	var first string
	for _, t := range texts {
		bad, why := m.exact(q, t, v)
		if bad == "" {
			m.r.Ok("%s: the match is the part of the text it says it is", where)
			return
		}
		if first == "" {
			first = bad
		}
		if why == "" {
			why = m.misplaced(q, t, v)
		}
		if why != "" && best == "" {
			best = bad + ": " + why
		}
	}
	if best != "" {
		m.r.Failf("exact", fnName(fn), m.p.InstrPos(q.at), "the match made here need not be the part of the text it says it is: not shown that %s", cut(best, 500))
		return
	}
	m.open = append(m.open, where+": not shown that "+first)
}

// exact shows the four facts, or gives the first that fails.
func (m *matchCheck) exact(q bpoint, text *term, v [3]*term) (bad, why string) {
	e := m.e
	s, en, raw := e.lin(v[0]), e.lin(v[1]), v[2]
	off := e.lin(e.off(text, raw))
	for _, g := range []struct {
		l    lin
		name string
	}{
		{off.add(s, -1), "the raw string begins at start"},
		{s.add(off, -1), "the raw string begins at start"},
		{en.add(s, -1).add(e.lin(e.length(raw)), -1), "end is start and the length of the raw string"},
		{s.add(e.lin(e.length(raw)), 1).add(en, -1), "end is start and the length of the raw string"},
		{s, "start is not negative"},
		{e.lin(e.length(text)).add(en, -1), "end is within the text"},
	} {
		if ok, why := m.b.decide(q, atLeastZero(e, g.l)); !ok {
			return g.name, why
		}
	}
	return "", ""
}

// kept: what the accessors read is written only while the match is made.
func (m *matchCheck) kept() {
	for _, fn := range m.p.LibFuncs() {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(derefType(fa.X.Type())) != m.typ {
					continue
				}
				m.r.Count("writes to the fields of matches", 1)
				al, ok := fa.X.(*ssa.Alloc)
				if ok {
					good := true
					for _, u := range m.leaves(al) {
						good = good && !mayFollow(u, st, al)
					}
					if good {
						m.r.Ok("%s: written while the match is made", m.p.InstrPos(st))
						continue
					}
				}
				name := m.typ.Underlying().(*types.Struct).Field(fa.Field).Name()
				if m.readBy(name) {
					m.r.Failf("kept", fnName(fn), m.p.InstrPos(st), "the field %s of a match is changed after the match was made", name)
				}
			}
		}
	}
}

func (m *matchCheck) readBy(field string) bool {
	for _, acc := range []*ssa.Function{m.start, m.end, m.raw} {
		for _, blk := range acc.Blocks {
			for _, in := range blk.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldKey(fa), "."+field) {
					return true
				}
			}
		}
	}
	return false
}

// ---- order -------------------------------------------------------------------------------------

// order: what is handed to the caller comes from searches that go on where the last match ended.
func (m *matchCheck) order() {
	m.low = map[string]int{}
	for _, fn := range m.p.LibFuncs() {
		if fn.Blocks == nil || m.b.skip(fn) || fnPkgPath(fn) != modPath {
			continue
		}
		api := fn
		for api.Parent() != nil {
			api = api.Parent()
		}
		if !m.e.isAPI(api) || !typeMentions(api.Signature.Results(), m.typ, 0) {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if x.Call.StaticCallee() != nil || x.Call.IsInvoke() {
						continue
					}
					for _, a := range x.Call.Args {
						if m.isMatch(a.Type()) {
							m.r.Count("places matches are handed over", 1)
							m.source(a, map[ssa.Value]bool{})
						}
					}
				case *ssa.Return:
					for _, a := range x.Results {
						if m.isMatch(a.Type()) {
							m.r.Count("places matches are handed over", 1)
							m.source(a, map[ssa.Value]bool{})
						}
					}
				}
			}
		}
	}
	m.r.Require("places matches are handed over", 1)
}

func (m *matchCheck) isMatch(t types.Type) bool {
	return namedOf(derefType(t)) == m.typ
}

func (m *matchCheck) leave(v ssa.Value, text string) {
	where := fnName(v.Parent())
	if in, ok := v.(ssa.Instruction); ok {
		where = m.p.InstrPos(in) + " " + where
	}
	m.open = append(m.open, where+": "+text)
}

// source follows a match back to the search that found it.
func (m *matchCheck) source(v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			m.source(e, seen)
		}
		return
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil || g.Blocks == nil || !inRepo(fnPkgPath(g)) {
			break
		}
		for _, p := range g.Params {
			if isInt(p.Type()) {
				m.search(x, g)
				return
			}
		}
		for _, blk := range g.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
				for _, a := range ret.Results {
					if m.isMatch(a.Type()) {
						m.source(a, seen)
					}
				}
			}
		}
		return
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && g.Blocks != nil && inRepo(fnPkgPath(g)) {
				for _, blk := range g.Blocks {
					if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
						m.source(ret.Results[x.Index], seen)
					}
				}
				return
			}
		}
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		if !ok || x.Op != token.MUL {
			break
		}
		k := fieldKey(fa)
		for _, fn := range m.p.LibFuncs() {
			for _, blk := range fn.Blocks {
				for _, in := range blk.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if f2, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(f2) == k {
							m.source(st.Val, seen)
						}
					}
				}
			}
		}
		return
	}
	m.leave(v, "it is not clear which search a match comes from")
}

// after: every match g returns starts at or after its i-th parameter. 1 shown, 2 not shown, 3 certainly not.
func (m *matchCheck) after(g *ssa.Function, i int) (int, string) {
	key := fmt.Sprintf("%s %d", g, i)
	if v, ok := m.low[key]; ok {
		return v, m.lowWhy[key]
	}
	m.low[key] = 1 // by induction over the calls made
	c := m.e.fctx(g)
	pt := m.e.lin(c.t(g.Params[i]))
	res, text := 1, ""
	worse := func(n int, why string) {
		if n > res {
			res, text = n, why
		}
	}
	atLeast := func(l lin, blk *ssa.BasicBlock, at ssa.Instruction) (bool, string) {
		q := bpoint{c: c, blk: blk, at: at, via: -1, lits: map[*term]bool{}}
		ok, why := m.b.decide(q, atLeastZero(m.e, l.add(pt, -1)))
		if !ok && why == "" {
			why = m.ignores(q, l.add(pt, -1), c.t(g.Params[i]))
		}
		return ok, why
	}
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value)
	f = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
		case *ssa.Phi:
			for _, e := range x.Edges {
				f(e)
			}
		case *ssa.Alloc:
			for _, u := range m.leaves(x) {
				s := m.value(m.start, c.t(x), func(k string) *term { return c.verAt(u, k) })
				if s == nil {
					worse(2, "")
					continue
				}
				if ok, why := atLeast(m.e.lin(s), u.Block(), u); !ok {
					if why != "" {
						worse(3, why)
					}
					worse(2, "")
				}
			}
		case *ssa.Call:
			h := x.Call.StaticCallee()
			if h == nil || h.Blocks == nil || !inRepo(fnPkgPath(h)) {
				worse(2, "")
				return
			}
			best, why, some := 3, "", false
			for j, p := range h.Params {
				if !isInt(p.Type()) || j >= len(x.Call.Args) {
					continue
				}
				some = true
				n, w := m.after(h, j)
				if n == 1 {
					if ok, y := atLeast(m.e.lin(c.t(x.Call.Args[j])), x.Block(), x); !ok {
						if n, w = 2, y; y != "" {
							n, w = 3, m.p.InstrPos(x)+" "+y
						}
					}
				}
				if n < best {
					best = n
				}
				if w != "" {
					why = w
				}
			}
			if !some {
				best = 2
			}
			worse(best, why)
		default:
			worse(2, "")
		}
	}
	for _, blk := range g.Blocks {
		if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			for _, a := range ret.Results {
				if m.isMatch(a.Type()) {
					f(a)
				}
			}
		}
	}
	m.low[key] = res
	if m.lowWhy == nil {
		m.lowWhy = map[string]string{}
	}
	m.lowWhy[key] = text
	return res, text
}

// search looks at one search for a further match.
func (m *matchCheck) search(x *ssa.Call, g *ssa.Function) {
	m.r.Count("searches for a further match", 1)
	where := m.p.InstrPos(x)
	best, why, idx := 3, "", -1
	for i, p := range g.Params {
		if !isInt(p.Type()) || i >= len(x.Call.Args) {
			continue
		}
		n, w := m.after(g, i)
		if n < best || idx < 0 {
			best, idx, why = n, i, w
		}
	}
	switch best {
	case 2:
		m.leave(x, "not shown that "+fnName(g)+" finds nothing before the place it is given")
		return
	case 3:
		m.r.Failf("order", fnName(g), m.p.Pos(g.Pos()), "a match may be found before the place the search begins: %s", cut(why, 400))
		return
	}
	m.r.Ok("%s: %s finds nothing before the place it is given", where, fnName(g))
	ld, ok := x.Call.Args[idx].(*ssa.UnOp)
	if ok && ld.Op == token.MUL {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok {
			m.byField(x, ld, fa)
			return
		}
	}
	if ph, ok := x.Call.Args[idx].(*ssa.Phi); ok {
		m.byLoop(x, ph)
		return
	}
	m.leave(x, "not shown where the search begins")
}

func (m *matchCheck) ends(c *fctx, x *ssa.Call, at ssa.Instruction) *term {
	return m.value(m.end, c.t(x), func(k string) *term { return c.verAt(at, k) })
}

func (m *matchCheck) verdict(x *ssa.Call, at ssa.Instruction, ok bool, why, text string) {
	switch {
	case ok:
		m.r.Ok("%s: %s", m.p.InstrPos(at), text)
	case why != "":
		m.r.Failf("order", fnName(x.Parent()), m.p.InstrPos(at), "not shown that %s: %s", text, cut(why, 400))
	default:
		m.open = append(m.open, m.p.InstrPos(at)+" "+fnName(x.Parent())+": not shown that "+text)
	}
}

// byField: the place to go on from is kept in a field.
func (m *matchCheck) byField(x *ssa.Call, ld *ssa.UnOp, fa *ssa.FieldAddr) {
	e := m.e
	h := x.Parent()
	c := e.fctx(h)
	key := fieldKey(fa)
	obj := c.t(fa.X)
	if c.inLoop(x.Block()) {
		m.leave(x, "the search is inside a loop")
		return
	}
	place := func(at ssa.Instruction) *term {
		t := e.mem("fld", key, c.verAt(at, key), obj)
		if t.typ == nil {
			t.typ = types.Typ[types.Int]
		}
		return t
	}
	was := e.lin(c.t(ld))
	for _, blk := range h.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || blk != x.Block() && !mayFollow(x, ret, nil) {
			continue
		}
		end := m.ends(c, x, ret)
		if end == nil {
			m.leave(x, "the end of a match is not simple")
			return
		}
		found := e.eq(c.t(x), e.nilT)
		q := bpoint{c: c, blk: blk, at: ret, via: -1, lits: map[*term]bool{found: false}}
		ok, why := m.passing(q, x, was, atLeastZero(e, e.lin(place(ret)).add(e.lin(end), -1)))
		m.verdict(x, ret, ok, why, "after a match the next search begins at or after its end")
		q.lits = map[*term]bool{found: true}
		ok, why = m.passing(q, x, was, atLeastZero(e, e.lin(place(ret)).add(was, -1)))
		m.verdict(x, ret, ok, why, "the next search does not begin before this one")
	}
	for _, fn := range m.p.LibFuncs() {
		if fn == h {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				f2, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldKey(f2) != key {
					continue
				}
				if _, ok := f2.X.(*ssa.Alloc); ok {
					continue
				}
				fc := e.fctx(fn)
				old := e.mem("fld", key, fc.verAt(st, key), fc.t(f2.X))
				ok, why := m.b.decide(bpoint{c: fc, blk: blk, at: st, via: -1, lits: map[*term]bool{}}, atLeastZero(e, e.lin(fc.t(st.Val)).add(e.lin(old), -1)))
				m.verdict(x, st, ok, why, "the place to go on from never moves back")
			}
		}
	}
}

// passing decides a goal at a place for the ways that pass the search.
func (m *matchCheck) passing(q bpoint, x *ssa.Call, old lin, goal bgoal) (bool, string) {
	c := q.c
	if x.Block().Dominates(q.blk) {
		ok, why := m.b.decide(q, goal)
		if !ok && why == "" {
			why = m.comesBefore(q, x, old, m.e.lin(goal.ts[0]))
		}
		return ok, why
	}
	// the ways that pass the search come together with others before the place
	j := q.blk
	for len(j.Preds) == 1 {
		j = j.Preds[0]
	}
	okAll, whyAll := true, ""
	for i, p := range j.Preds {
		if p != x.Block() && !mayFollow(x, p.Instrs[len(p.Instrs)-1], nil) {
			continue
		}
		edge := m.b.onEdge(c, j, i)
		via := 0
		for k, s := range p.Succs {
			if s == j {
				via = k
			}
		}
		n := q
		n.blk, n.at, n.via = p, p.Instrs[len(p.Instrs)-1], via
		n.lits = q.lits
		g := goal.mapped(func(t *term) *term { return m.e.replace(t, edge, map[*term]*term{}) })
		ok, why := m.passing(n, x, old, g)
		if !ok {
			okAll = false
			if why != "" {
				whyAll = why
			}
		}
	}
	return okAll, whyAll
}

// byLoop: the place to go on from is a loop variable.
func (m *matchCheck) byLoop(x *ssa.Call, ph *ssa.Phi) {
	e := m.e
	c := e.fctx(x.Parent())
	for i, v := range ph.Edges {
		pr := ph.Block().Preds[i]
		last := pr.Instrs[len(pr.Instrs)-1]
		if pr != x.Block() && !mayFollow(x, last, nil) {
			continue
		}
		end := m.ends(c, x, last)
		if end == nil {
			m.leave(x, "the end of a match is not simple")
			return
		}
		via := 0
		for k, s := range pr.Succs {
			if s == ph.Block() {
				via = k
			}
		}
		q := bpoint{c: c, blk: pr, at: last, via: via, lits: map[*term]bool{e.eq(c.t(x), e.nilT): false}}
		ok, why := m.passing(q, x, e.lin(c.t(ph)), atLeastZero(e, e.lin(c.t(v)).add(e.lin(end), -1)))
		m.verdict(x, last, ok, why, "after a match the next search begins at or after its end")
		q.lits = map[*term]bool{e.eq(c.t(x), e.nilT): true}
		ok, why = m.passing(q, x, e.lin(c.t(ph)), atLeastZero(e, e.lin(c.t(v)).add(e.lin(c.t(ph)), -1)))
		m.verdict(x, last, ok, why, "the next search does not begin before this one")
	}
}

// ---- what is certainly wrong -------------------------------------------------------------------

// misplaced says why the match certainly need not be where it says: going back over the calls that
// lead here, what was cut from the text and what was added to the place do not agree.
func (m *matchCheck) misplaced(q bpoint, text *term, v [3]*term) string {
	e := m.e
	begins := e.lin(e.off(text, v[2])).add(e.lin(v[0]), -1)
	ends := e.lin(v[1]).add(e.lin(v[0]), -1).add(e.lin(e.length(v[2])), -1)
	if why := m.differs(q, begins, 0, false); why != "" {
		return "the raw string begins elsewhere: " + why
	}
	if why := m.differs(q, ends, 0, false); why != "" {
		return "its end lies elsewhere: " + why
	}
	return ""
}

// given simplifies by what is known of the parameters: the part of the text given begins at the place given.
func (m *matchCheck) given(fn *ssa.Function, l lin) lin {
	facts := m.b.entry(fn)
	for _, f := range facts {
		both := false
		for _, g := range facts {
			d := f.add(g, 1)
			both = both || d.k == 0 && len(d.m) == 0
		}
		if !both {
			continue
		}
		for t, k := range ordered(f.m) {
			if t.op == "off" && l.m[t] != 0 && (k == 1 || k == -1) {
				l = l.add(f, -k*l.m[t])
				break
			}
		}
	}
	return l
}

// differs says why a difference that should be nothing certainly can be something.
func (m *matchCheck) differs(q bpoint, l lin, depth int, joined bool) string {
	e, c := m.e, q.c
	if depth > 12 {
		return ""
	}
	l = m.given(c.fn, l)
	if os.Getenv("PHJ") != "" {
		fmt.Println("DIFF", depth, fnName(c.fn), m.p.InstrPos(q.at), shortTerm(e.unlin(l)))
	}
	if len(l.m) == 0 {
		if l.k != 0 {
			return fmt.Sprintf("%s is off by %d", m.p.InstrPos(q.at), l.k)
		}
		return ""
	}
	// values that depend on where control comes from
	var terms, apart []*term
	for t := range ordered(l.m) {
		terms = append(terms, t)
		if !m.anything(t) {
			apart = append(apart, t)
		}
	}
	// parts cut by functions of the library
	for _, t := range terms {
		if t.op != "off" || t.args[1].op != "call" {
			continue
		}
		call := t.args[1]
		g := e.fns[call.sym]
		if g == nil || g.Blocks == nil {
			continue
		}
		rs, ok := m.b.returnsOf(g)
		if !ok || len(g.Params) > len(call.args) {
			return ""
		}
		for _, r := range rs {
			if len(r.res) != 1 || !overParams(r.res[0], g) {
				return ""
			}
			res := e.substM(r.res[0], g, call.args[:len(g.Params)], func(string) *term { return nil }, nil, map[*term]*term{})
			n := l.add(e.lin(t), -l.m[t]).add(e.lin(e.off(t.args[0], res)), l.m[t])
			if why := m.differs(q, n, depth+1, joined); why != "" {
				return why
			}
		}
		return ""
	}
	for _, ph := range c.phisIn(apart) {
		p := c.phis[ph]
		if p == nil {
			return ""
		}
		if joined {
			return ""
		}
		head := isLoopHead(p.Block())
		for i, pr := range p.Block().Preds {
			if head && p.Block().Dominates(pr) {
				continue // the first time round will do
			}
			n := q
			n.lits = map[*term]bool{}
			for l, v := range q.lits {
				n.lits[l] = v
			}
			c.domLits(pr, n.lits)
			if head {
				n.lits = e.replaceLits(n.lits, m.b.onEdge(c, p.Block(), i))
			}
			if why := m.differs(n, e.replaceLin(l, m.b.onEdge(c, p.Block(), i)), depth+1, true); why != "" {
				return why
			}
		}
		return ""
	}
	toCallers := false
	mine := map[*term]bool{}
	for _, t := range terms {
		switch {
		case m.anything(t):
		case t.op == "off" && t.args[1].op == "call":
			// made by a function outside the library, not cut by it
		case t.op == "param" || t.op == "len" && overParams(t, c.fn) || t.op == "off" && t.args[1].op == "param":
			if !e.isAPI(c.fn) {
				toCallers = true
			}
		default:
			return ""
		}
		mine[t] = true
	}
	free := false
	for _, t := range terms {
		free = free || m.anything(t) || t.op == "off" && t.args[1].op == "call"
	}
	if free || !toCallers {
		lits := map[*term]bool{}
		c.domLits(q.blk, lits)
		for t, v := range q.lits {
			lits[t] = v
		}
		for t, v := range ordered(lits) {
			if v && t.op == "eq" && speaksOf(t, mine) {
				return ""
			}
		}
		return fmt.Sprintf("at %s %s is not zero", m.p.InstrPos(q.at), cut(shortTerm(e.unlin(l)), 200))
	}
	cs, open := m.b.callSites(c.fn)
	if open {
		return ""
	}
	for _, ci := range cs {
		in := ci.(ssa.Instruction)
		gc := e.fctx(ci.Parent())
		var args []*term
		for _, a := range ci.Common().Args {
			args = append(args, gc.t(a))
		}
		memo := map[*term]*term{}
		n := konst(l.k)
		for t, k := range ordered(l.m) {
			s := e.substM(t, c.fn, args, func(k string) *term { return gc.verAt(in, k) }, nil, memo)
			if s.op == "off" {
				s = e.off(s.args[0], s.args[1])
			}
			n = n.add(e.lin(s), k)
		}
		if why := m.differs(bpoint{c: gc, blk: in.Block(), at: in, via: -1, lits: map[*term]bool{}}, n, depth+1, false); why != "" {
			return why
		}
	}
	return ""
}

// ignores: a place that has nothing to do with the one it should be at or after.
func (m *matchCheck) ignores(q bpoint, l lin, p *term) string {
	if l.m[p] >= 0 {
		return ""
	}
	mine := map[*term]bool{}
	for t := range ordered(l.m) {
		if t != p && (!m.anything(t) || speaksOf(t, map[*term]bool{p: true}) && t.op != "elem") {
			return ""
		}
		mine[t] = true
	}
	lits := map[*term]bool{}
	q.c.domLits(q.blk, lits)
	for t := range ordered(lits) {
		if (t.op == "eq" || t.op == "lt") && speaksOf(t, mine) && t.args[0] != m.e.nilT && t.args[1] != m.e.nilT && !(t.op == "lt" && t.args[0].isConst()) {
			if t.op == "lt" && len(l.m) == 1 && lits[t] && t.args[0] == p {
				continue // not at the end yet
			}
			return ""
		}
	}
	return "at " + m.p.InstrPos(q.at) + " it may be before"
}

// anything: a place found by matching, or a count; nothing ties it to another one.
func (m *matchCheck) anything(t *term) bool {
	switch t.op {
	case "elem":
		x := t
		for x.op == "elem" {
			x = x.args[0]
		}
		return t.args[1].isConst() && x.op == "call" && strings.HasPrefix(x.sym, "(*regexp.Regexp).Find")
	case "len":
		x := t.args[0]
		return x.op == "call" || x.op == "conv" || x.op == "runes"
	case "call":
		return modelled(t.sym)
	case "fld":
		// a place kept in a structure that calls change
		if t.typ != nil && !isInt(t.typ) {
			return false
		}
		return m.varies(t.sym)
	}
	return false
}

// varies: the field is given other values than constants.
func (m *matchCheck) varies(key string) bool {
	for _, fn := range m.p.LibFuncs() {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldKey(fa) == key && isInt(st.Val.Type()) {
						if _, ok := st.Val.(*ssa.Const); !ok {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// before says why the goal of an order certainly fails: with some values of where the search began,
// where the match was found and how long it is.
func (m *matchCheck) comesBefore(q bpoint, x *ssa.Call, old lin, l lin) string {
	e, c := m.e, q.c
	s := m.value(m.start, c.t(x), func(k string) *term { return c.verAt(q.at, k) })
	raw := m.value(m.raw, c.t(x), func(k string) *term { return c.verAt(q.at, k) })
	if s == nil || raw == nil || len(old.m) != 1 || old.k != 0 {
		return ""
	}
	var was *term
	for t := range old.m {
		was = t
	}
	n := e.length(raw)
	lits := map[*term]bool{}
	c.domLits(q.blk, lits)
	for t, v := range q.lits {
		lits[t] = v
	}
	if x.Block().Dominates(q.blk) {
		lits[e.eq(c.t(x), e.nilT)] = q.lits[e.eq(c.t(x), e.nilT)]
	}
	about := map[*term]bool{s: true, n: true, was: true}
	goal := e.unlin(l)
	if os.Getenv("PHJ") != "" {
		fmt.Println("ORDER", shortTerm(goal), "was", shortTerm(was), "start", shortTerm(s), "len", shortTerm(n))
		for t, v := range lits {
			fmt.Println("   LIT", v, shortTerm(t))
		}
	}
	for _, o := range []int64{0, 3} {
		for _, d := range []int64{0, 4} {
		next:
			for _, k := range []int64{1, 7} {
				env := map[*term]int64{was: o, s: o + d, n: k}
				v, ok := evalTerm(e, goal, env)
				if !ok {
					return ""
				}
				if v >= 0 {
					continue
				}
				for t, truth := range ordered(lits) {
					if !speaksOf(t, about) || t.op == "eq" && (t.args[0] == e.nilT || t.args[1] == e.nilT) {
						continue
					}
					if len(t.args) != 2 {
						return ""
					}
					a, ok1 := evalTerm(e, t.args[0], env)
					b, ok2 := evalTerm(e, t.args[1], env)
					if !ok1 || !ok2 {
						return ""
					}
					switch t.op {
					case "lt":
						if (a < b) != truth {
							continue next
						}
					case "eq":
						if (a == b) != truth {
							continue next
						}
					default:
						return ""
					}
				}
				return fmt.Sprintf("for instance where the search began at %d and found %d bytes at %d", o, k, o+d)
			}
		}
	}
	return ""
}

// runesOf: the term counts the characters of a text.
func runesOf(t *term) *term {
	switch {
	case t.op == "len" && t.args[0].op == "runes":
		return t.args[0].args[0]
	case t.op == "call" && len(t.args) > 0 && (t.sym == "unicode/utf8.RuneCountInString" || t.sym == "unicode/utf8.RuneCount"):
		return t.args[0]
	}
	return nil
}

func evalTerm(e *engine, t *term, env map[*term]int64) (int64, bool) {
	if v, ok := env[t]; ok {
		return v, true
	}
	if v, ok := t.intConst(); ok {
		return v, true
	}
	if x := runesOf(t); x != nil {
		// characters of three bytes
		k, ok := evalTerm(e, e.length(x), env)
		return (k + 2) / 3, ok
	}
	switch t.op {
	case "max", "min":
		a, ok1 := evalTerm(e, t.args[0], env)
		b, ok2 := evalTerm(e, t.args[1], env)
		if t.op == "max" {
			return max(a, b), ok1 && ok2
		}
		return min(a, b), ok1 && ok2
	}
	l := e.lin(t)
	if l.m[t] != 0 {
		return 0, false
	}
	r := l.k
	for a, k := range l.m {
		v, ok := evalTerm(e, a, env)
		if !ok {
			return 0, false
		}
		r += k * v
	}
	return r, true
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}
