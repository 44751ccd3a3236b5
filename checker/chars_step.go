package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// asBytes: the bytes of characters; asRunes: the characters bytes can make up.
func asBytes(s iset) iset {
	out := s.and(iset{{0, 127}})
	if len(s.and(iset{{128, unicode.MaxRune}})) > 0 {
		out = out.or(iset{{128, 255}})
	}
	return out
}

func asRunes(s iset) iset {
	out := s.and(iset{{0, 127}})
	if len(s.and(iset{{128, 255}})) > 0 {
		out = out.or(iset{{128, unicode.MaxRune}})
	}
	return out
}

// encoded: what is written for a character; what is none is replaced.
func encoded(s iset) iset {
	out := s.and(anyRune)
	if len(s.and(anyRune.not())) > 0 {
		out = out.or(iset{{0xFFFD, 0xFFFD}})
	}
	return out
}

func elemKind(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return "byte"
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Byte:
				return "byte"
			case types.Int32:
				return "rune"
			}
		}
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return elemKind(types.NewSlice(a.Elem()))
		}
	case *types.Array:
		return elemKind(types.NewSlice(u.Elem()))
	}
	return ""
}

func elemsOf(v *cval, kind string) *cval {
	s := v.all()
	if kind == "byte" {
		s = asBytes(s)
	}
	return &cval{k: "int", set: s, unk: v.unk}
}

func (c *chars) zero(t types.Type) *cval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&(types.IsBoolean|types.IsInteger) != 0:
			return intv(iset{{0, 0}})
		case u.Info()&types.IsString != 0:
			return textv("", nil)
		}
	case *types.Slice:
		if elemKind(t) != "" {
			return textv("", nil)
		}
		return &cval{k: "nil"}
	case *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return &cval{k: "nil"}
	}
	return topv
}

// load reads what an address holds.
func (c *chars) load(s *cstate, a *cval, t types.Type) *cval {
	switch a.k {
	case "msg":
		if a.fld == "" {
			return a
		}
		if v, ok := c.msg[a.fld]; ok {
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
				return &cval{k: "msgp", fld: a.fld}
			}
			return v
		}
		return c.topOf(t, true)
	case "msgp":
		if v, ok := c.msg[a.fld]; ok {
			return v
		}
		return c.topOf(t, true)
	case "glob":
		if strings.HasPrefix(a.g, "unicode.") {
			if charTable(a.g) != nil {
				return &cval{k: "table", g: a.g}
			}
		}
		return c.global(a.g, t)
	case "elem":
		return a.vals
	case "ptr":
		key := hk(a.obj, a.fld)
		if v := s.heap[key]; v != nil {
			if i := strings.LastIndexByte(a.fld, '['); i >= 0 && strings.HasSuffix(a.fld, "]") {
				if w := s.heap[hk(a.obj, a.fld[:i]+"[*]")]; w != nil {
					return cjoin(v, w)
				}
			}
			return v
		}
		if strings.HasSuffix(a.fld, "[*]") {
			pre := hk(a.obj, strings.TrimSuffix(a.fld, "*]"))
			var r *cval
			for _, k := range orderedKeys(s.heap) {
				if strings.HasPrefix(k, pre) && strings.Count(k[len(pre):], "]") == 1 && strings.HasSuffix(k, "]") {
					r = cjoin(r, s.heap[k])
				}
			}
			if r != nil {
				return r
			}
		}
		if i := strings.LastIndexByte(a.fld, '['); i >= 0 && strings.HasSuffix(a.fld, "]") {
			if w := s.heap[hk(a.obj, a.fld[:i]+"[*]")]; w != nil {
				return cjoin(c.zero(t), w)
			}
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			return &cval{k: "copy", obj: a.obj, fld: a.fld, g: fmt.Sprint(st.NumFields())}
		}
		if s.heap[hk(a.obj, "#new")] != nil {
			return c.zero(t)
		}
	}
	return c.topOf(t, true)
}

func orderedKeys(h cheap) []string { return sortedKeys(h) }

// store writes what an address holds.
func (c *chars) store(s *cstate, a *cval, v *cval, strong bool) {
	switch a.k {
	case "ptr":
		if v.k == "copy" {
			pre := hk(v.obj, v.fld)
			for _, k := range orderedKeys(s.heap) {
				if strings.HasPrefix(k, pre) && !strings.HasPrefix(k[len(pre):], "#") {
					s.heap[hk(a.obj, a.fld)+k[len(pre):]] = s.heap[k]
				}
			}
			return
		}
		key := hk(a.obj, a.fld)
		if strings.Contains(a.fld, "[*]") || !strong {
			old := s.heap[key]
			if old == nil {
				old = v
			}
			s.heap[key] = cjoin(old, v)
			return
		}
		s.heap[key] = v
	case "top":
		// what is not understood could be anything reachable; what it changes is not followed
	}
}

// global is what a variable of a package holds.
func (c *chars) global(name string, t types.Type) *cval {
	if v, ok := c.globs[name]; ok {
		return v
	}
	r := c.topOf(t, true)
	var g *ssa.Global
	for _, p := range ordered(c.p.SPkgs) {
		for _, m := range ordered(p.Members) {
			if x, ok := m.(*ssa.Global); ok && x.String() == name {
				g = x
			}
		}
	}
	c.globs[name] = r
	if g == nil {
		return r
	}
	// the only store
	var st *ssa.Store
	n := 0
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Store); ok && x.Addr == ssa.Value(g) {
					st = x
					n++
				}
			}
		}
	}
	if n == 0 {
		c.globs[name] = c.zero(t)
		return c.globs[name]
	}
	if n != 1 {
		return r
	}
	switch x := st.Val.(type) {
	case *ssa.Const:
		r = constVal(x)
	case *ssa.MakeMap:
		r = c.mapOf(g, x)
	case *ssa.Convert:
		if k, ok := x.X.(*ssa.Const); ok && isText(x.Type()) {
			r = constVal(k)
		}
	}
	c.globs[name] = r
	return r
}

// mapOf gathers what a map of a package holds.
func (c *chars) mapOf(g *ssa.Global, mk *ssa.MakeMap) *cval {
	m := &cval{k: "map", g: g.String()}
	type pair struct{ k, v ssa.Value }
	var ps []pair
	collect := func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.MapUpdate:
				ps = append(ps, pair{x.Key, x.Value})
			case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.Store:
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "delete") {
					continue
				}
				if f := x.Call.StaticCallee(); f != nil && inRepo(pkgPathOf(f)) {
					for i, a := range x.Call.Args {
						if a == v && (i >= len(f.Params) || writesMap(f, f.Params[i], 0)) {
							m.unk = true
						}
					}
					continue
				}
				m.unk = true
			default:
				m.unk = true
			}
		}
	}
	collect(mk)
	for _, f := range c.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == ssa.Value(g) {
					collect(u)
				}
			}
		}
	}
	for _, p := range ps {
		k, ok := p.k.(*ssa.Const)
		v, ok2 := p.v.(*ssa.Const)
		if !ok || !ok2 {
			m.unk = true
			continue
		}
		kv, vv := constVal(k), constVal(v)
		if kv.k == "int" {
			m.keys = m.keys.or(kv.set)
			m.pairs = append(m.pairs, [2]*cval{kv, vv})
		}
		m.vals = cjoin(m.vals, vv)
	}
	return m
}

func writesMap(f *ssa.Function, p *ssa.Parameter, depth int) bool {
	if depth > 5 || p.Referrers() == nil {
		return true
	}
	for _, r := range *p.Referrers() {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			g := x.Call.StaticCallee()
			if g == nil || len(g.Blocks) == 0 {
				return true
			}
			for i, a := range x.Call.Args {
				if a == ssa.Value(p) && writesMap(g, g.Params[i], depth+1) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// look is reading from a map.
func (c *chars) look(m, idx *cval, x *ssa.Lookup) *cval {
	elem := x.X.Type().Underlying().(*types.Map).Elem()
	zero := c.zero(elem)
	var vals *cval
	var keys iset
	if m.k == "map" && idx.k == "int" && m.pairs != nil {
		for _, p := range m.pairs {
			if len(p[0].set.and(idx.set)) > 0 {
				keys = keys.or(p[0].set)
				vals = cjoin(vals, p[1])
			}
		}
	} else if m.k == "map" {
		vals = m.vals
	}
	if m.k != "map" || m.unk {
		t := c.topOf(elem, true)
		if !x.CommaOk {
			return t
		}
		return &cval{k: "tuple", outs: []cout{{vals: []*cval{t, intv(boolT)}}, {vals: []*cval{zero, intv(boolF)}}}}
	}
	t := &cval{k: "tuple", unk: idx.unk}
	if vals != nil {
		v := *vals
		v.unk = v.unk || idx.unk
		o := cout{vals: []*cval{&v, intv(boolT)}}
		if keys != nil {
			o.args = []*cval{intv(keys)}
		}
		t.outs = append(t.outs, o)
	}
	miss := cout{vals: []*cval{zero, intv(boolF)}}
	if keys != nil {
		miss.args = []*cval{intv(keys.not())}
	}
	if vals == nil || idx.k != "int" || !idx.set.within(keys) {
		t.outs = append(t.outs, miss)
	}
	if !x.CommaOk {
		return extract(t, 0)
	}
	return t
}

// alloc makes an object; its number depends only on where it is made.
func (c *chars) alloc(x ssa.Instruction) int {
	k := fmt.Sprintf("%s/%p", c.ctx, x)
	if n, ok := c.made[k]; ok {
		return n
	}
	c.objs++
	c.made[k] = c.objs
	return c.objs
}

// step follows one instruction; false if nothing comes after it.
func (c *chars) step(s *cstate, in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
		panic(charsGiveUp{"a form not followed in " + fnName(in.Parent())})
	case *ssa.Alloc:
		o := c.alloc(x)
		elem := x.Type().Underlying().(*types.Pointer).Elem()
		again := s.heap[hk(o, "#new")] != nil
		if again { // a new one in each round of a loop
			for _, k := range orderedKeys(s.heap) {
				if strings.HasPrefix(k, fmt.Sprint(o)+".") || strings.HasPrefix(k, fmt.Sprint(o)+"[") || k == fmt.Sprint(o) || strings.HasPrefix(k, fmt.Sprint(o)+"#") {
					delete(s.heap, k)
				}
			}
		}
		s.heap[hk(o, "#new")] = intv(boolT)
		_ = elem
		s.env[x] = &cval{k: "ptr", obj: o}
	case *ssa.Store:
		a := c.val(s, x.Addr)
		v := c.val(s, x.Val)
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok && a.k == "elem" {
			c.storeElem(s, ia.X, v, elemKind(ia.X.Type()), 0)
			return true
		}
		c.store(s, a, v, true)
	case *ssa.MapUpdate:
		// local maps are not followed
		if m := c.val(s, x.Map); m.k == "map" {
			n := *m
			n.unk = true
			s.env[x.Map] = &n
		}
	case ssa.Value:
		v := c.eval(s, x)
		if v == nil {
			return false
		}
		s.env[x] = v
	default:
		panic(charsGiveUp{fmt.Sprintf("%T", in)})
	}
	return true
}

// storeElem adds a value to the text behind a slice.
func (c *chars) storeElem(s *cstate, x ssa.Value, v *cval, kind string, depth int) {
	cur := c.val(s, x)
	if cur.k == "text" && v.k == "int" {
		set := v.set
		if kind == "byte" {
			set = asRunes(set)
		}
		n := textv("", cur.all().or(set))
		n.unk = cur.unk || v.unk
		s.env[x] = n
	}
	if depth > 4 {
		return
	}
	switch y := x.(type) {
	case *ssa.Slice:
		if _, ok := y.X.Type().Underlying().(*types.Pointer); !ok {
			c.storeElem(s, y.X, v, kind, depth+1)
		} else if a := c.val(s, y.X); a.k == "ptr" {
			c.store(s, &cval{k: "ptr", obj: a.obj, fld: a.fld + "[*]"}, v, false)
		}
	case *ssa.ChangeType:
		c.storeElem(s, y.X, v, kind, depth+1)
	case *ssa.UnOp:
		if y.Op == token.MUL {
			a := c.val(s, y.X)
			if n := s.env[x]; n != nil {
				c.store(s, a, n, false)
			}
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			if _, ok := e.(*ssa.Phi); !ok && e != x {
				if s.env[e] != nil {
					c.storeElem(s, e, v, kind, depth+2)
				}
			}
		}
	}
}

func shift(a iset, by int64) iset {
	var out iset
	for _, x := range a {
		lo, hi := x.lo, x.hi
		if lo > minI {
			lo += by
		}
		if hi < maxI {
			hi += by
		}
		out = append(out, span{lo, hi})
	}
	return norms(out)
}

func hull(a iset) (int64, int64, bool) {
	if len(a) == 0 {
		return 0, 0, false
	}
	return a[0].lo, a[len(a)-1].hi, true
}

func (c *chars) binop(s *cstate, x *ssa.BinOp) *cval {
	a, b := c.val(s, x.X), c.val(s, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		r := &cval{k: "int"}
		t, f := s.clone(), s.clone()
		if c.compare(t, x, true) {
			r.set = r.set.or(boolT)
		}
		if c.compare(f, x, false) {
			r.set = r.set.or(boolF)
		}
		r.unk = a.unk || b.unk
		return r
	}
	if isText(x.Type()) && x.Op == token.ADD {
		return ccat(a, b)
	}
	if a.k != "int" || b.k != "int" {
		return c.topOf(x.Type(), true)
	}
	unk := a.unk || b.unk
	al, ah, ok := hull(a.set)
	bl, bh, ok2 := hull(b.set)
	if !ok || !ok2 {
		return &cval{k: "int", unk: unk}
	}
	full := c.topOf(x.Type(), unk)
	within := func(r iset) *cval {
		if full.k == "int" && !r.within(full.set) {
			return full // it can wrap around
		}
		return &cval{k: "int", set: r, unk: unk}
	}
	sum := func(a, b int64) int64 {
		if a <= minI || b <= minI {
			return minI
		}
		if a >= maxI || b >= maxI {
			return maxI
		}
		return max(min(a+b, maxI), minI)
	}
	switch x.Op {
	case token.ADD:
		switch {
		case bl == bh:
			return within(shift(a.set, bl))
		case al == ah:
			return within(shift(b.set, al))
		}
		return within(iset{{sum(al, bl), sum(ah, bh)}})
	case token.SUB:
		if bl == bh {
			return within(shift(a.set, -bl))
		}
		if w := c.offset(x); w >= 0 {
			return intv(iset{{0, w}})
		}
		return within(iset{{sum(al, -bh), sum(ah, -bl)}})
	case token.REM:
		if bl == bh && bl > 0 {
			if al >= 0 && ah < bl {
				return a
			}
			if al >= 0 || c.notNegative(x) {
				return &cval{k: "int", set: iset{{0, bl - 1}}, unk: unk}
			}
			return &cval{k: "int", set: iset{{1 - bl, bl - 1}}, unk: true}
		}
	case token.QUO:
		if bl == bh && bl > 0 && al >= 0 {
			return &cval{k: "int", set: iset{{al / bl, ah / bl}}, unk: unk}
		}
	case token.MUL:
		if al >= 0 && bl >= 0 && ah < 1<<30 && bh < 1<<30 {
			return within(iset{{al * bl, ah * bh}})
		}
	case token.AND:
		if bl == bh && bl >= 0 {
			return &cval{k: "int", set: iset{{0, bl}}, unk: true}
		}
		if al == ah && al >= 0 {
			return &cval{k: "int", set: iset{{0, al}}, unk: true}
		}
	case token.OR:
		if al == ah && bl == bh {
			return intv(iset{{al | bl, al | bl}})
		}
	}
	return c.topOf(x.Type(), true)
}

// tableOf is one of the standard tables of characters.
func charTable(name string) *unicode.RangeTable {
	n := strings.TrimPrefix(name, "unicode.")
	if t, ok := unicode.Categories[n]; ok {
		return t
	}
	if t, ok := unicode.Properties[n]; ok {
		return t
	}
	if t, ok := unicode.Scripts[n]; ok {
		return t
	}
	for long, short := range map[string]string{"Digit": "Nd", "Number": "N", "Letter": "L", "Upper": "Lu", "Lower": "Ll", "Space": "Z", "Punct": "P", "Symbol": "S", "Mark": "M", "Other": "C"} {
		if n == long {
			return unicode.Categories[short]
		}
	}
	return nil
}

// part: the value is a bound of an entry of a table of characters, found at base.
func part(v ssa.Value) (base ssa.Value, field string, ok bool) {
	for {
		cv, is := v.(*ssa.Convert)
		if !is {
			break
		}
		v = cv.X
	}
	var st types.Type
	i := 0
	switch x := v.(type) {
	case *ssa.Field:
		base, st, i = x.X, x.X.Type(), x.Field
		if u, is := base.(*ssa.UnOp); is {
			base = u.X
		}
	case *ssa.UnOp:
		fa, is := x.X.(*ssa.FieldAddr)
		if !is {
			return nil, "", false
		}
		base, st, i = fa.X, deref(fa.X.Type()), fa.Field
	default:
		return nil, "", false
	}
	if n := st.String(); n != "unicode.Range16" && n != "unicode.Range32" {
		return nil, "", false
	}
	return base, st.Underlying().(*types.Struct).Field(i).Name(), true
}

// offset: how far a character can be from the start of the table's entry it is in, or -1.
func (c *chars) offset(x *ssa.BinOp) int64 {
	base, f, ok := part(x.Y)
	if !ok || f != "Lo" {
		return -1
	}
	// the entry's table
	at := base
	if al, ok := at.(*ssa.Alloc); ok {
		var st *ssa.Store
		for _, r := range *al.Referrers() {
			if y, ok := r.(*ssa.Store); ok && y.Addr == ssa.Value(al) {
				if st != nil {
					return -1
				}
				st = y
			}
		}
		if st == nil {
			return -1
		}
		u, ok := st.Val.(*ssa.UnOp)
		if !ok {
			return -1
		}
		at = u.X
	}
	ia, ok := at.(*ssa.IndexAddr)
	if !ok {
		return -1
	}
	ld, ok := ia.X.(*ssa.UnOp)
	if !ok {
		return -1
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return -1
	}
	gl, ok := fa.X.(*ssa.UnOp)
	if !ok {
		return -1
	}
	g, ok := gl.X.(*ssa.Global)
	if !ok {
		return -1
	}
	t := charTable(g.String())
	if t == nil || !strings.HasPrefix(g.String(), "unicode.") {
		return -1
	}
	w := int64(0)
	if fa.Field == 0 {
		for _, r := range t.R16 {
			w = max(w, int64(r.Hi)-int64(r.Lo))
		}
	} else {
		for _, r := range t.R32 {
			w = max(w, int64(r.Hi)-int64(r.Lo))
		}
	}
	if v, ok := c.nonneg[x]; ok {
		if v {
			return w
		}
		return -1
	}
	c.nonneg[x] = false
	e := c.b.e
	fc := e.fctx(x.Parent())
	shown := func(l lin) bool {
		ok, _ := c.b.decide(bpoint{c: fc, blk: x.Block(), at: x, via: -1, lits: map[*term]bool{}}, atLeastZero(e, l))
		return ok
	}
	if !shown(e.lin(fc.t(x.X)).add(e.lin(fc.t(x.Y)), -1)) {
		return -1
	}
	for _, b := range x.Parent().Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !b.Dominates(x.Block()) {
				continue
			}
			if bs, f, ok := part(v); ok && f == "Hi" && bs == base {
				if shown(e.lin(fc.t(v)).add(e.lin(fc.t(x.X)), -1)) {
					c.nonneg[x] = true
					return w
				}
			}
		}
	}
	return -1
}

// notNegative asks the bounds prover about a dividend.
func (c *chars) notNegative(x *ssa.BinOp) bool {
	if v, ok := c.nonneg[x]; ok {
		return v
	}
	fc := c.b.e.fctx(x.Parent())
	ok, _ := c.b.decide(bpoint{c: fc, blk: x.Block(), at: x, via: -1, lits: map[*term]bool{}}, atLeastZero(c.b.e, c.b.e.lin(fc.t(x.X))))
	c.nonneg[x] = ok
	return ok
}

func (c *chars) eval(s *cstate, v ssa.Value) *cval {
	switch x := v.(type) {
	case *ssa.BinOp:
		return c.binop(s, x)
	case *ssa.UnOp:
		a := c.val(s, x.X)
		switch x.Op {
		case token.NOT:
			if a.k == "int" {
				r := &cval{k: "int", unk: a.unk}
				if a.set.has(0) {
					r.set = r.set.or(boolT)
				}
				if a.set.has(1) {
					r.set = r.set.or(boolF)
				}
				return r
			}
		case token.SUB:
			if lo, hi, ok := hull(a.set); ok && a.k == "int" {
				return &cval{k: "int", set: iset{{-hi, -lo}}, unk: a.unk}
			}
		case token.MUL:
			if a.k == "nil" {
				return nil
			}
			return c.load(s, a, x.Type())
		}
		return c.topOf(x.Type(), true)
	case *ssa.FieldAddr:
		a := c.val(s, x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		switch a.k {
		case "nil":
			return nil
		case "ptr":
			return &cval{k: "ptr", obj: a.obj, fld: a.fld + "." + st.Field(x.Field).Name()}
		case "msg":
			return &cval{k: "msg", fld: st.Field(x.Field).Name()}
		}
		return topv
	case *ssa.Field:
		a := c.val(s, x.X)
		if a.k == "copy" {
			st := x.X.Type().Underlying().(*types.Struct)
			return c.load(s, &cval{k: "ptr", obj: a.obj, fld: a.fld + "." + st.Field(x.Field).Name()}, x.Type())
		}
		return c.topOf(x.Type(), true)
	case *ssa.IndexAddr:
		a := c.val(s, x.X)
		switch a.k {
		case "text":
			if len(a.all()) == 0 && !a.unk {
				if a.fld != "fresh" {
					return nil
				}
			}
			e := elemsOf(a, elemKind(x.X.Type()))
			if i := c.val(s, x.Index); i.k == "int" && !a.unk {
				if lo, hi, ok := hull(i.set); ok && lo == hi && lo >= 0 && int(lo) < len(a.pre) && a.pre[lo] < 128 {
					e = intv(iset{{int64(a.pre[lo]), int64(a.pre[lo])}})
				}
			}
			return &cval{k: "elem", vals: e}
		case "ptr":
			path := "[*]"
			if i := c.val(s, x.Index); i.k == "int" {
				if lo, hi, ok := hull(i.set); ok && lo == hi {
					path = fmt.Sprintf("[%d]", lo)
				}
			}
			return &cval{k: "ptr", obj: a.obj, fld: a.fld + path}
		case "nil":
			return nil
		}
		return topv
	case *ssa.Index:
		return c.elemAt(s, x.X, x.Index, x.Type())
	case *ssa.Lookup:
		if isText(x.X.Type()) {
			return c.elemAt(s, x.X, x.Index, x.Type())
		}
		r := c.look(c.val(s, x.X), c.val(s, x.Index), x)
		return r
	case *ssa.Slice:
		return c.slice(s, x)
	case *ssa.MakeSlice:
		if elemKind(x.Type()) != "" {
			r := textv("", iset{{0, 0}})
			if l := c.val(s, x.Len); l.k == "int" && l.set.within(iset{{0, 0}}) {
				return textv("", nil)
			}
			_, most, _ := hull(c.val(s, x.Len).set)
			if c.filled(x) {
				r = textv("", nil)
				r.fld = "fresh"
			} else if n, ok := c.copied(s, x); ok {
				if n >= most {
					r = textv("", nil)
					r.fld = "fresh"
				}
			} else if c.written(x) {
				r.unk = true
			}
			return r
		}
		o := c.alloc(x)
		s.heap[hk(o, "#new")] = intv(boolT)
		return &cval{k: "ptr", obj: o}
	case *ssa.Convert:
		return c.convert(c.val(s, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		return c.val(s, x.X)
	case *ssa.MakeInterface:
		return c.val(s, x.X)
	case *ssa.ChangeInterface:
		return c.val(s, x.X)
	case *ssa.MakeClosure:
		r := &cval{k: "fn", fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			r.bind = append(r.bind, c.val(s, b))
		}
		return r
	case *ssa.MakeMap:
		return topv
	case *ssa.Extract:
		t := c.val(s, x.Tuple)
		if t.k == "tuple" {
			return extract(t, x.Index)
		}
		return c.topOf(x.Type(), true)
	case *ssa.Range:
		if isText(x.X.Type()) {
			return c.val(s, x.X)
		}
		return topv
	case *ssa.Next:
		a := c.val(s, x.Iter)
		if x.IsString && a.k == "text" {
			t := &cval{k: "tuple"}
			if len(a.all()) > 0 || a.unk {
				set := a.all()
				if a.unk {
					set = set.or(iset{})
				}
				t.outs = append(t.outs, cout{vals: []*cval{intv(boolT), intv(iset{{0, maxI}}), {k: "int", set: set, unk: a.unk}}})
			}
			t.outs = append(t.outs, cout{vals: []*cval{intv(boolF), intv(iset{{0, 0}}), intv(iset{{0, 0}})}})
			return t
		}
		tt := x.Type().(*types.Tuple)
		o := cout{vals: []*cval{intv(anyBool)}}
		for i := 1; i < tt.Len(); i++ {
			o.vals = append(o.vals, c.topOf(tt.At(i).Type(), true))
		}
		return &cval{k: "tuple", outs: []cout{o}}
	case *ssa.Call:
		return c.call(s, x)
	}
	return c.topOf(v.Type(), true)
}

func (c *chars) elemAt(s *cstate, x, i ssa.Value, t types.Type) *cval {
	a := c.val(s, x)
	if a.k != "text" {
		return c.topOf(t, true)
	}
	if iv := c.val(s, i); iv.k == "int" {
		if lo, hi, ok := hull(iv.set); ok && lo == hi && lo >= 0 && int(lo) < len(a.pre) && a.pre[lo] < 128 {
			return intv(iset{{int64(a.pre[lo]), int64(a.pre[lo])}})
		}
	}
	if len(a.all()) == 0 && !a.unk {
		return nil
	}
	return elemsOf(a, "byte")
}

func (c *chars) slice(s *cstate, x *ssa.Slice) *cval {
	a := c.val(s, x.X)
	if _, isArr := x.X.Type().Underlying().(*types.Pointer); isArr {
		if a.k != "ptr" {
			return c.topOf(x.Type(), true)
		}
		kind := elemKind(x.X.Type())
		if kind == "" {
			return a
		}
		arr := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if arr.Len() == 0 {
			return textv("", nil)
		}
		// in order where every element is known
		r := textv("", nil)
		for i := int64(0); i < arr.Len() && arr.Len() <= 64; i++ {
			e := c.load(s, &cval{k: "ptr", obj: a.obj, fld: a.fld + fmt.Sprintf("[%d]", i)}, arr.Elem())
			if e.k != "int" {
				return c.topOf(x.Type(), true)
			}
			r = ccat(r, oneRune(e, kind))
		}
		if arr.Len() > 64 {
			e := c.load(s, &cval{k: "ptr", obj: a.obj, fld: a.fld + "[*]"}, arr.Elem())
			r = textv("", e.set)
			r.unk = true
		}
		if hi := x.High; hi != nil {
			if h := c.val(s, hi); h.k == "int" && h.set.within(iset{{0, 0}}) {
				return textv("", nil)
			}
		}
		if x.Low != nil || x.High != nil {
			return &cval{k: "text", set: r.all(), unk: true}
		}
		return r
	}
	if a.k != "text" {
		return c.topOf(x.Type(), true)
	}
	r := *a
	r.fld = ""
	if x.High != nil {
		h := c.val(s, x.High)
		lo, hi, ok := hull(h.set)
		switch {
		case h.k == "int" && ok && lo == hi && lo == 0:
			r = *textv("", nil)
		case h.k == "int" && ok && lo == hi && int(lo) <= len(r.pre) && lo > 0:
			r.pre, r.set = r.pre[:lo], nil
		case h.k == "int" && ok && lo >= int64(len(r.pre)):
		default:
			n := 0
			if h.k == "int" && ok && lo > 0 {
				n = int(lo)
			}
			n = min(n, len(r.pre))
			r.set = runesOfStr(r.pre[n:]).or(r.set)
			r.pre = r.pre[:n]
		}
	}
	if x.Low != nil {
		l := c.val(s, x.Low)
		lo, hi, ok := hull(l.set)
		switch {
		case l.k == "int" && ok && lo == hi && int(lo) <= len(r.pre) && lo >= 0:
			r.pre = r.pre[lo:]
		case l.k == "int" && ok && lo >= int64(len(r.pre)):
			r.pre = ""
		default:
			r.set = r.all()
			r.pre = ""
		}
	}
	return &r
}

func oneRune(e *cval, kind string) *cval {
	lo, hi, ok := hull(e.set)
	if ok && lo == hi && !e.unk && lo >= 0 && (kind == "byte" && lo < 128 || kind == "rune" && lo <= unicode.MaxRune) {
		return textv(string(rune(lo)), nil)
	}
	set := encoded(e.set)
	if kind == "byte" {
		set = asRunes(e.set)
	}
	return &cval{k: "text", set: set, unk: e.unk}
}

func (c *chars) convert(a *cval, from, to types.Type) *cval {
	if isText(to) || elemKind(to) != "" {
		if a.k == "text" {
			r := *a
			if elemKind(from) == "rune" {
				r.set = encoded(r.set)
			}
			return &r
		}
		if a.k == "nil" {
			return textv("", nil)
		}
		if a.k == "int" && isText(to) {
			return oneRune(a, "rune")
		}
		return c.topOf(to, true)
	}
	if a.k == "int" {
		full := c.topOf(to, a.unk)
		if full.k != "int" {
			return full
		}
		_, hi, _ := hull(a.set)
		if fb, ok := from.Underlying().(*types.Basic); ok && (fb.Kind() == types.Uint64 || fb.Kind() == types.Uint || fb.Kind() == types.Uintptr) && hi >= maxI {
			if tb, ok := to.Underlying().(*types.Basic); ok && tb.Info()&types.IsUnsigned == 0 {
				return full // the upper half becomes negative
			}
		}
		if a.set.within(full.set) {
			return a
		}
		if lo, hi, ok := hull(full.set); ok && lo == 0 && hi == 255 {
			// the low byte
			var out iset
			for _, x := range a.set {
				if x.hi-x.lo >= 255 {
					return full
				}
				for v := x.lo; v <= x.hi; v++ {
					b := v & 255
					out = append(out, span{b, b})
				}
			}
			return &cval{k: "int", set: norms(out), unk: a.unk}
		}
		return full
	}
	return c.topOf(to, true)
}

// written: something is stored into a slice other than by following it here.
func (c *chars) written(x *ssa.MakeSlice) bool {
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.IndexAddr, *ssa.Phi, *ssa.Slice, *ssa.Store:
			return true
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" || b.Name() == "append" {
					continue
				}
				return true
			}
			if f := y.Call.StaticCallee(); f != nil && (extName(f) == "(*github.com/nyaruka/phonenumbers/internal/stringbuilder.Builder).Write") {
				continue
			}
			return true
		}
	}
	return false
}

// copied: all that is written into a slice is the beginning, from a text of known length, before
// anything is read.
func (c *chars) copied(s *cstate, x *ssa.MakeSlice) (n int64, ok bool) {
	var cp *ssa.Call
	for _, r := range *x.Referrers() {
		if y, is := r.(*ssa.Call); is {
			if b, is := y.Call.Value.(*ssa.Builtin); is && b.Name() == "copy" && y.Call.Args[0] == ssa.Value(x) {
				if v := c.val(s, y.Call.Args[1]); v.k == "text" && !v.unk && len(v.set) == 0 && cp == nil {
					cp, n = y, int64(len(v.pre))
					continue
				}
			}
		}
	}
	if cp == nil {
		return 0, false
	}
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.IndexAddr, *ssa.Phi, *ssa.Slice:
			return 0, false
		case *ssa.Call:
			if b, is := y.Call.Value.(*ssa.Builtin); is && (b.Name() == "len" || y == cp) {
				continue
			}
			if !cp.Block().Dominates(y.Block()) {
				return 0, false
			}
		}
	}
	return n, true
}

// filled: a loop over the whole slice stores to every element before anything else reads it.
func (c *chars) filled(x *ssa.MakeSlice) bool {
	for _, r := range *x.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		var st *ssa.Store
		for _, q := range *ia.Referrers() {
			if y, ok := q.(*ssa.Store); ok && y.Addr == ssa.Value(ia) {
				st = y
			}
		}
		if st == nil {
			continue
		}
		head := loopHead(st.Block())
		if head == nil || !startsAtZero(ia.Index, head) {
			continue
		}
		// the only way out of the loop is at the head, when the index has reached the length
		iff, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
		if !ok || !c.reaches(iff.Cond, ia.Index, x) {
			continue
		}
		inLoop := loopBody(head)
		if !inLoop[head.Succs[0]] || inLoop[head.Succs[1]] {
			continue
		}
		good := true
		for b := range ordered(inLoop) {
			for _, t := range b.Succs {
				if !inLoop[t] && b != head {
					good = false
				}
				if t == head && !st.Block().Dominates(b) {
					good = false
				}
			}
			if len(b.Succs) == 0 {
				good = false
			}
		}
		exit := head.Succs[1]
		for _, q := range *x.Referrers() {
			switch y := q.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Call:
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
			}
			if q == ssa.Instruction(ia) {
				continue
			}
			if !exit.Dominates(q.Block()) {
				good = false
			}
		}
		if len(exit.Preds) != 1 {
			good = false
		}
		if good {
			return true
		}
	}
	return false
}

// natLoop is the body of the loop with a head.
func loopBody(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{head: true}
	var work []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in
}

// loopHead is the head of the innermost loop around a block.
func loopHead(b *ssa.BasicBlock) *ssa.BasicBlock {
	for d := b; d != nil; d = d.Idom() {
		for _, p := range d.Preds {
			if d.Dominates(p) && loopBody(d)[b] {
				return d
			}
		}
	}
	return nil
}

// startsAtZero: the index counts 0, 1, 2 ... in the loop.
func startsAtZero(i ssa.Value, head *ssa.BasicBlock) bool {
	first := int64(0)
	ph, ok := i.(*ssa.Phi)
	if !ok {
		bo, ok := i.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.Block() != head || !isConstInt(bo.Y, 1) {
			return false
		}
		ph, ok = bo.X.(*ssa.Phi)
		if !ok {
			return false
		}
		first = -1
	}
	if ph.Block() != head {
		return false
	}
	for j, e := range ph.Edges {
		if head.Dominates(head.Preds[j]) {
			if first == -1 && e == i {
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || first == -1 || bo.Op != token.ADD || bo.X != ssa.Value(ph) || !isConstInt(bo.Y, 1) {
				return false
			}
			continue
		}
		if !isConstInt(e, first) {
			return false
		}
	}
	return true
}

func isConstInt(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	m, ok := constant.Int64Val(k.Value)
	return ok && m == n
}

// reaches: the condition says that the index is below the slice's length.
func (c *chars) reaches(cond, i ssa.Value, x *ssa.MakeSlice) bool {
	bo, ok := cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS && bo.Op != token.NEQ || bo.X != i {
		return false
	}
	if bo.Y == x.Len {
		return true
	}
	if call, ok := bo.Y.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && call.Call.Args[0] == ssa.Value(x) {
			return true
		}
	}
	if cv, ok := x.Len.(*ssa.Convert); ok && cv.X == bo.Y {
		return true
	}
	return false
}
