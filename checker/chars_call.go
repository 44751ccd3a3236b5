package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// mapRunes is the image of a set of characters.
func mapRunes(s iset, f func(rune) rune) iset {
	var out iset
	for _, a := range s.and(anyRune) {
		for r := a.lo; r <= a.hi; r++ {
			v := int64(f(rune(r)))
			if k := len(out); k > 0 && out[k-1].hi == v-1 {
				out[k-1].hi = v
			} else if k == 0 || out[k-1].hi != v || out[k-1].lo > v {
				out = append(out, span{v, v})
			}
		}
	}
	return norms(out)
}

func runesWhere(f func(rune) bool) iset {
	var out iset
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if f(r) {
			if k := len(out); k > 0 && out[k-1].hi == int64(r)-1 {
				out[k-1].hi = int64(r)
			} else {
				out = append(out, span{int64(r), int64(r)})
			}
		}
	}
	return out
}

// charTest: a call that asks about one character, and the characters of which it is true.
func (c *chars) charTest(s *cstate, x *ssa.Call) (arg ssa.Value, set iset, ok bool) {
	f := x.Call.StaticCallee()
	if f == nil {
		return nil, nil, false
	}
	n := extName(f)
	var t func(rune) bool
	switch n {
	case "unicode.IsDigit":
		t = unicode.IsDigit
	case "unicode.IsNumber":
		t = unicode.IsNumber
	case "unicode.IsLetter":
		t = unicode.IsLetter
	case "unicode.IsSpace":
		t = unicode.IsSpace
	case "unicode.IsUpper":
		t = unicode.IsUpper
	case "unicode.IsLower":
		t = unicode.IsLower
	case "unicode.Is", "unicode.In":
		i, j := 1, 0
		if n == "unicode.In" {
			i, j = 0, 1
		}
		tv := c.val(s, x.Call.Args[j])
		var ts []*cval
		if tv.k == "table" {
			ts = append(ts, tv)
		} else if tv.k == "ptr" {
			for k := 0; s.heap[hk(tv.obj, tv.fld+fmt.Sprintf("[%d]", k))] != nil; k++ {
				ts = append(ts, s.heap[hk(tv.obj, tv.fld+fmt.Sprintf("[%d]", k))])
			}
		}
		var set iset
		for _, t := range ts {
			if t.k != "table" {
				return nil, nil, false
			}
			if c.tests[t.g] == nil {
				rt := charTable(t.g)
				c.tests[t.g] = runesWhere(func(r rune) bool { return unicode.Is(rt, r) })
			}
			set = set.or(c.tests[t.g])
		}
		return x.Call.Args[i], set, len(ts) > 0
	case "strings.ContainsRune":
		v := c.val(s, x.Call.Args[0])
		if v.k == "text" && !v.unk && len(v.set) == 0 {
			return x.Call.Args[1], runesOfStr(v.pre), true
		}
		return nil, nil, false
	}
	if t == nil {
		return nil, nil, false
	}
	if v, ok := c.tests[n]; ok {
		return x.Call.Args[0], v, true
	}
	// sets with many parts are kept exact here
	c.tests[n] = runesWhere(t)
	return x.Call.Args[0], c.tests[n], true
}

func (c *chars) results(sig *types.Signature, unk bool) *cval {
	rs := sig.Results()
	if rs.Len() == 1 {
		return c.topOf(rs.At(0).Type(), unk)
	}
	o := cout{}
	for i := 0; i < rs.Len(); i++ {
		o.vals = append(o.vals, c.topOf(rs.At(i).Type(), unk))
	}
	return &cval{k: "tuple", outs: []cout{o}}
}

func tupleOf(vals ...*cval) *cval { return &cval{k: "tuple", outs: []cout{{vals: vals}}} }

var nilv = &cval{k: "nil"}

// inline follows a call into a function of the repository.
func (c *chars) inline(s *cstate, x *ssa.Call, f *ssa.Function, args, bind []*cval) *cval {
	if c.stack[f] > 0 || c.depth > 14 || len(f.Blocks) == 0 {
		c.cut("call of " + fnName(f))
		c.havoc(s, x, args)
		return c.results(f.Signature, true)
	}
	old := c.ctx
	if x != nil {
		c.ctx = fmt.Sprintf("%s/%p", c.ctx, x)
	}
	outs := c.run(f, args, bind, s.heap)
	c.ctx = old
	if len(outs) == 0 {
		return nil
	}
	heap := cheap{}
	for _, o := range outs {
		for k, v := range o.heap {
			if w, ok := heap[k]; ok {
				heap[k] = cjoin(w, v)
			} else {
				heap[k] = v
			}
		}
	}
	s.heap = heap
	t := &cval{k: "tuple"}
	for _, o := range outs {
		o.heap = nil
		t.outs = append(t.outs, o)
	}
	rs := f.Signature.Results()
	if rs.Len() == 1 {
		if x != nil {
			if b, ok := rs.At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				s.env[outsOf{x}] = t
			}
		}
		return extract(t, 0)
	}
	return t
}

// havoc: what the call is given may be changed in a way that is not followed.
func (c *chars) havoc(s *cstate, x *ssa.Call, args []*cval) {
	for i, a := range args {
		switch a.k {
		case "ptr":
			pre := fmt.Sprint(a.obj)
			for _, k := range orderedKeys(s.heap) {
				if strings.HasPrefix(k, pre) && len(k) > len(pre) && strings.ContainsRune(".[", rune(k[len(pre)])) || k == pre || k == pre+"#text" {
					v := *s.heap[k]
					switch v.k {
					case "text":
						s.heap[k] = &cval{k: "text", set: anyRune, unk: true}
					case "int":
						s.heap[k] = &cval{k: "int", set: anyInt, unk: true}
					default:
						s.heap[k] = topv
					}
				}
			}
			delete(s.heap, pre+"#new")
		case "text":
			if x == nil || i >= len(x.Call.Args) {
				continue
			}
			if kind := elemKind(x.Call.Args[i].Type()); kind != "" && !isText(x.Call.Args[i].Type()) {
				c.storeElem(s, x.Call.Args[i], &cval{k: "int", set: iset{{0, 255}}, unk: true}, kind, 0)
			}
		}
	}
}

func (c *chars) call(s *cstate, x *ssa.Call) *cval {
	var args []*cval
	for _, a := range x.Call.Args {
		args = append(args, c.val(s, a))
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		return c.builtin(s, x, b.Name(), args)
	}
	if x.Call.IsInvoke() {
		c.havoc(s, x, append(args, c.val(s, x.Call.Value)))
		return c.results(x.Call.Signature(), true)
	}
	f := x.Call.StaticCallee()
	var bind []*cval
	fv := c.val(s, x.Call.Value)
	if fv.k == "fn" {
		f, bind = fv.fn, fv.bind
	}
	if f == nil {
		c.havoc(s, x, args)
		return c.results(x.Call.Signature(), true)
	}
	if len(args) > 0 && args[0].k == "msg" && args[0].fld == "" && f.Signature.Recv() != nil && strings.HasPrefix(f.Name(), "Get") {
		if v, ok := c.msg[f.Name()[3:]]; ok {
			return v
		}
	}
	if v, ok := c.model(s, x, extName(f), args); ok {
		return v
	}
	if inRepo(pkgPathOf(f)) && len(f.Blocks) > 0 {
		return c.inline(s, x, f, args, bind)
	}
	if a, set, ok := c.charTest(s, x); ok {
		// answered exactly where the characters are on one side
		if v := c.val(s, a); v.k == "int" {
			if v.set.within(set) {
				return &cval{k: "int", set: boolT, unk: v.unk}
			}
			if len(v.set.and(set)) == 0 {
				return &cval{k: "int", set: boolF, unk: v.unk}
			}
			return &cval{k: "int", set: anyBool, unk: v.unk}
		}
	}
	c.cut("call of " + extName(f))
	c.havoc(s, x, args)
	return c.results(f.Signature, true)
}

func pkgPathOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if ob := f.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	return ""
}

func (c *chars) builtin(s *cstate, x *ssa.Call, name string, args []*cval) *cval {
	switch name {
	case "panic":
		return nil
	case "len", "cap":
		if args[0].k == "text" {
			hi := int64(maxI)
			if len(args[0].set) == 0 && !args[0].unk && args[0].fld != "fresh" {
				hi = int64(len(args[0].pre))
			}
			return intv(iset{{int64(len(args[0].pre)), hi}})
		}
		if args[0].k == "nil" {
			return intv(iset{{0, 0}})
		}
		return &cval{k: "int", set: iset{{0, maxI}}, unk: args[0].k == "top"}
	case "append":
		if elemKind(x.Type()) == "" {
			return topv
		}
		if len(args) == 1 {
			return args[0]
		}
		a, b := args[0], args[1]
		if a.k == "nil" {
			a = textv("", nil)
		}
		if b.k == "nil" {
			b = textv("", nil)
		}
		return ccat(a, b)
	case "copy":
		if args[1].k == "text" || args[1].k == "nil" {
			k := elemKind(x.Call.Args[0].Type())
			c.storeElem(s, x.Call.Args[0], elemsOf(args[1], k), k, 0)
		} else {
			c.havoc(s, x, args[:1])
		}
		return intv(iset{{0, maxI}})
	case "min", "max":
		var lo, hi int64
		unk := false
		for i, a := range args {
			l, h, ok := hull(a.set)
			if a.k != "int" || !ok {
				return c.topOf(x.Type(), true)
			}
			unk = unk || a.unk
			if i == 0 {
				lo, hi = l, h
			} else if name == "min" {
				lo, hi = min(lo, l), min(hi, h)
			} else {
				lo, hi = max(lo, l), max(hi, h)
			}
		}
		return &cval{k: "int", set: iset{{lo, hi}}, unk: unk}
	case "recover":
		return nilv
	}
	c.havoc(s, x, args)
	if x.Type() == nil {
		return topv
	}
	return c.topOf(x.Type(), true)
}

func formatted(v *cval, base *cval, unsigned bool) *cval {
	r := &cval{k: "text", set: digits}
	if base != nil {
		if lo, hi, ok := hull(base.set); !ok || base.k != "int" || lo != hi || lo > 10 {
			r.set = r.set.or(iset{{'a', 'z'}})
			if ok && lo == hi && lo <= 36 {
				r.set = digits.or(iset{{'a', 'a' + lo - 11}})
			}
		}
	}
	if v.k != "int" {
		r.set = r.set.or(iset{{'-', '-'}})
		r.unk = true
		return r
	}
	lo, hi, ok := hull(v.set)
	if !ok {
		return r
	}
	if lo == hi && lo >= 0 && lo < 10 && !v.unk {
		return textv(fmt.Sprint(lo), nil)
	}
	if lo < 0 && !unsigned {
		r.set = r.set.or(iset{{'-', '-'}})
		r.unk = v.unk
	}
	return r
}

func anyOf(v *cval) *cval {
	if v.k == "nil" {
		return textv("", nil)
	}
	if v.k != "text" {
		return &cval{k: "text", set: anyRune, unk: true}
	}
	return &cval{k: "text", set: v.all(), unk: v.unk}
}

// model gives the meaning of the standard library's functions on texts.
func (c *chars) model(s *cstate, x *ssa.Call, n string, a []*cval) (*cval, bool) {
	text := func(i int) *cval {
		if i >= len(a) || a[i].k == "nil" {
			return textv("", nil)
		}
		if a[i].k != "text" {
			return &cval{k: "text", set: anyRune, unk: true}
		}
		return a[i]
	}
	switch n {
	case "strconv.Itoa":
		return formatted(a[0], nil, false), true
	case "strconv.FormatInt":
		return formatted(a[0], a[1], false), true
	case "strconv.FormatUint":
		return formatted(a[0], a[1], true), true
	case "strconv.AppendInt":
		return ccat(text(0), formatted(a[1], a[2], false)), true
	case "strconv.AppendUint":
		return ccat(text(0), formatted(a[1], a[2], true)), true
	case "strings.Repeat", "bytes.Repeat":
		if lo, hi, ok := hull(a[1].set); ok && a[1].k == "int" && lo == hi && lo == 0 {
			return textv("", nil), true
		}
		return anyOf(a[0]), true
	case "strings.Clone", "bytes.Clone", "slices.Clone", "slices.Clip", "slices.Grow":
		if elemKind(x.Type()) == "" && !isText(x.Type()) {
			return nil, false
		}
		return text(0), true
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimPrefix", "bytes.Trim", "bytes.TrimLeft", "bytes.TrimSpace", "bytes.TrimPrefix", "strings.TrimFunc", "strings.TrimLeftFunc":
		return anyOf(a[0]), true
	case "strings.TrimRight", "strings.TrimSuffix", "bytes.TrimRight", "bytes.TrimSuffix", "strings.TrimRightFunc":
		return anyOf(a[0]), true
	case "strings.Replace", "strings.ReplaceAll", "bytes.Replace", "bytes.ReplaceAll":
		r := anyOf(a[0])
		from := text(1)
		if len(from.set) == 0 && !from.unk && len(from.pre) == 1 && n[len(n)-3:] == "All" { // every one of a character goes
			ch := runesOfStr(from.pre)
			if len(r.set.and(ch)) == 0 {
				return text(0), true
			}
			r.set = r.set.and(ch.not())
		}
		r.set = r.set.or(text(2).all())
		r.unk = r.unk || text(2).unk
		return r, true
	case "strings.ToUpper", "bytes.ToUpper":
		r := anyOf(a[0])
		r.set = mapRunes(r.set, unicode.ToUpper)
		return r, true
	case "strings.ToLower", "bytes.ToLower":
		r := anyOf(a[0])
		r.set = mapRunes(r.set, unicode.ToLower)
		return r, true
	case "unicode.ToUpper", "unicode.ToLower":
		if a[0].k != "int" {
			return nil, false
		}
		f := unicode.ToUpper
		if n == "unicode.ToLower" {
			f = unicode.ToLower
		}
		return &cval{k: "int", set: mapRunes(a[0].set, f).or(a[0].set.and(anyRune.not())), unk: a[0].unk}, true
	case "strings.Map", "bytes.Map":
		if a[0].k != "fn" {
			return nil, false
		}
		t := text(1)
		if len(t.all()) == 0 && !t.unk {
			return t, true
		}
		v := c.inline(s, x, a[0].fn, []*cval{{k: "int", set: t.all(), unk: t.unk}}, a[0].bind)
		if v == nil || v.k != "int" {
			return &cval{k: "text", set: anyRune, unk: true}, true
		}
		return &cval{k: "text", set: encoded(v.set.and(iset{{0, maxI}})), unk: v.unk}, true
	case "strings.Join", "bytes.Join":
		if a[0].k == "ptr" {
			e := c.load(s, &cval{k: "ptr", obj: a[0].obj, fld: a[0].fld + "[*]"}, types.Typ[types.String])
			r := anyOf(e)
			r.set = r.set.or(text(1).all())
			r.unk = r.unk || text(1).unk
			return r, true
		}
		return nil, false
	case "slices.Insert":
		if elemKind(x.Type()) == "" || len(a) < 3 {
			return nil, false
		}
		p, q := text(0), text(2)
		if lo, hi, ok := hull(a[1].set); ok && lo == hi && lo == 0 && a[1].k == "int" {
			return ccat(q, p), true
		}
		return &cval{k: "text", set: p.all().or(q.all()), unk: p.unk || q.unk}, true
	case "slices.Concat":
		return nil, false
	case "slices.Reverse":
		if a[0].k == "text" {
			s.env[x.Call.Args[0]] = anyOf(a[0])
			return topv, true
		}
		return nil, false
	case "utf8.AppendRune", "unicode/utf8.AppendRune":
		e := &cval{k: "int", set: encoded(a[1].set), unk: a[1].unk}
		if a[1].k != "int" {
			return &cval{k: "text", set: anyRune, unk: true}, true
		}
		return ccat(text(0), oneRune(e, "rune")), true
	case "unicode/utf8.RuneLen", "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		return intv(iset{{0, maxI}}), true
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune":
		t := text(0)
		return tupleOf(&cval{k: "int", set: t.all().or(iset{{0xFFFD, 0xFFFD}}), unk: true}, intv(iset{{0, 4}})), true
	case "unicode/utf8.ValidString", "unicode/utf8.Valid":
		return &cval{k: "int", set: anyBool}, true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold", "bytes.HasPrefix", "bytes.Contains":
		return &cval{k: "int", set: anyBool}, true
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex", "strings.IndexAny":
		return &cval{k: "int", set: iset{{-1, maxI}}}, true
	case "fmt.Sprint":
		if a[0].k == "ptr" {
			if e := s.heap[hk(a[0].obj, a[0].fld+"[0]")]; e != nil && s.heap[hk(a[0].obj, a[0].fld+"[1]")] == nil {
				return c.shown(e, 'v'), true
			}
		}
		return nil, false
	case "fmt.Sprintf":
		if r := c.sprintf(s, a); r != nil {
			return r, true
		}
		return nil, false
	case "fmt.Fprintf":
		if len(a) == 3 && a[0].k == "ptr" {
			if r := c.sprintf(s, a[1:]); r != nil && c.sink(s, x, 0, a[0], r) {
				return tupleOf(intv(iset{{0, maxI}}), nilv), true
			}
		}
		return nil, false
	case "bytes.NewBuffer", "bytes.NewBufferString":
		o := c.alloc(x)
		s.heap[hk(o, "#new")] = intv(boolT)
		s.heap[hk(o, "#text")] = text(0)
		return &cval{k: "ptr", obj: o}, true
	}
	if strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer).") {
		if a[0].k != "ptr" {
			return nil, false
		}
		key := hk(a[0].obj, a[0].fld+"#text")
		cur := s.heap[key]
		if cur == nil {
			if s.heap[hk(a[0].obj, "#new")] != nil {
				cur = textv("", nil)
			} else {
				cur = &cval{k: "text", set: anyRune, unk: true}
			}
		}
		put := func(v *cval) (*cval, bool) {
			s.heap[key] = ccat(cur, v)
			rs := x.Call.StaticCallee().Signature.Results()
			if rs.Len() == 1 {
				return nilv, true
			}
			return tupleOf(intv(iset{{0, maxI}}), nilv), true
		}
		switch n[strings.LastIndexByte(n, '.')+1:] {
		case "WriteString", "Write":
			return put(text(1))
		case "WriteByte":
			if a[1].k == "int" {
				return put(oneRune(a[1], "byte"))
			}
		case "WriteRune":
			if a[1].k == "int" {
				return put(oneRune(&cval{k: "int", set: encoded(a[1].set), unk: a[1].unk}, "rune"))
			}
		case "String", "Bytes":
			return cur, true
		case "Len", "Cap":
			return c.builtin(s, x, "len", []*cval{cur}), true
		case "Reset":
			s.heap[key] = textv("", nil)
			return topv, true
		case "Grow":
			return topv, true
		}
		return nil, false
	}
	return nil, false
}

// sink writes a text to what an object gathers.
func (c *chars) sink(s *cstate, x *ssa.Call, i int, o, v *cval) bool {
	t := x.Call.Args[i].Type()
	if mi, ok := x.Call.Args[i].(*ssa.MakeInterface); ok {
		t = mi.X.Type()
	}
	switch t.String() {
	case "*strings.Builder", "*bytes.Buffer":
		key := hk(o.obj, o.fld+"#text")
		cur := s.heap[key]
		if cur == nil {
			if s.heap[hk(o.obj, "#new")] == nil {
				return false
			}
			cur = textv("", nil)
		}
		s.heap[key] = ccat(cur, v)
		return true
	}
	ms := c.p.SSA.MethodSets.MethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == "Write" {
			if f := c.p.SSA.MethodValue(ms.At(k)); f != nil && inRepo(pkgPathOf(f)) && len(f.Blocks) > 0 {
				return c.inline(s, x, f, []*cval{o, v}, nil) != nil
			}
		}
	}
	return false
}

func (c *chars) shown(v *cval, verb byte) *cval {
	switch {
	case v.k == "int" && (verb == 'd' || verb == 'v'):
		return formatted(v, nil, false)
	case v.k == "int" && verb == 'c':
		return oneRune(&cval{k: "int", set: encoded(v.set), unk: v.unk}, "rune")
	case v.k == "text" && (verb == 's' || verb == 'v'):
		return v
	}
	return &cval{k: "text", set: anyRune, unk: true}
}

func (c *chars) sprintf(s *cstate, a []*cval) *cval {
	if a[0].k != "text" || len(a[0].set) > 0 || a[0].unk {
		return nil
	}
	r := textv("", nil)
	f, n := a[0].pre, 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = ccat(r, textv(string(f[i]), nil))
			continue
		}
		i++
		pad := ""
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			pad += string(f[i])
			i++
		}
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			r = ccat(r, textv("%", nil))
			continue
		}
		if !strings.ContainsRune("dsvc", rune(f[i])) {
			return nil
		}
		var e *cval
		if len(a) > 1 && a[1].k == "ptr" {
			e = s.heap[hk(a[1].obj, a[1].fld+fmt.Sprintf("[%d]", n))]
		}
		if e == nil {
			return nil
		}
		if pad != "" {
			ch := " "
			if pad[0] == '0' {
				ch = "0"
			}
			r = ccat(r, textv("", runesOfStr(ch)))
		}
		r = ccat(r, c.shown(e, f[i]))
		n++
	}
	return r
}
