package main

import (
	"go/types"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
)

// Linear arithmetic over terms: what follows from the comparisons a world knows, together with
// what is true of lengths, positions of matches and the like. Integer overflow of quantities that
// count bytes or elements is left out of account.

// factset collects facts of the form l >= 0.
type factset struct {
	e     *engine
	cn    *canoniser
	ineqs []lin
	conds []lcond
	neqs  []lin
	seen  map[*term]bool
	have  map[string]bool
	found map[[2]*term]bool // pattern and text known to match
}

// lcond: when its premise is >= 0, so is its conclusion.
type lcond struct {
	premise, conclusion lin
	also                lin
	used                bool
}

func (e *engine) factset(cn *canoniser) *factset {
	f := &factset{e: e, cn: cn, seen: map[*term]bool{}, have: map[string]bool{}, found: map[[2]*term]bool{}}
	var ks []*term
	for l := range ordered(cn.w.lits) {
		ks = append(ks, l)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, l := range ks {
		f.matchLit(l, cn.w.lits[l])
	}
	for _, l := range ks {
		f.lit(l, cn.w.lits[l])
	}
	for i := 0; i < len(f.ineqs); i++ {
		for t := range ordered(f.ineqs[i].m) {
			f.atom(t)
		}
	}
	for i := 0; i < len(f.neqs); i++ {
		for t := range ordered(f.neqs[i].m) {
			f.atom(t)
		}
	}
	// equalities of terms that are kept as bindings
	for t, u := range ordered(cn.w.bind) {
		f.zero(e.lin(t).add(e.lin(u), -1))
	}
	return f
}

func linKey(l lin) string {
	var ks []string
	for t, c := range ordered(l.m) {
		ks = append(ks, strconv.Itoa(t.id)+":"+strconv.FormatInt(c, 10))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",") + "|" + strconv.FormatInt(l.k, 10)
}

// norm rewrites the atoms by the equalities of the world.
func (f *factset) norm(l lin) lin {
	r := lin{l.k, map[*term]int64{}}
	for t, c := range ordered(l.m) {
		x := f.cn.of(t)
		r = r.add(f.e.lin(x), c)
	}
	return r
}

func (f *factset) atLeast(l lin) { // l >= 0
	l = f.norm(l)
	if len(l.m) == 0 && l.k >= 0 {
		return
	}
	k := linKey(l)
	if f.have[k] {
		return
	}
	f.have[k] = true
	f.ineqs = append(f.ineqs, l)
}

func (f *factset) zero(l lin) {
	f.atLeast(l)
	f.atLeast(lin{0, map[*term]int64{}}.add(l, -1))
}

func (f *factset) when(p, c lin) {
	f.conds = append(f.conds, lcond{premise: f.norm(p), conclusion: f.norm(c)})
}

func konst(k int64) lin { return lin{k, map[*term]int64{}} }

func (f *factset) lit(l *term, v bool) {
	e := f.e
	switch l.op {
	case "lt":
		a, b := e.lin(l.args[0]), e.lin(l.args[1])
		if v {
			f.atLeast(b.add(a, -1).add(konst(1), -1))
		} else {
			f.atLeast(a.add(b, -1))
		}
	case "eq":
		d := e.lin(l.args[0]).add(e.lin(l.args[1]), -1)
		if v {
			f.zero(d)
			if isSeq(l.args[0].typ) || isSeq(l.args[1].typ) {
				f.zero(e.lin(e.length(l.args[0])).add(e.lin(e.length(l.args[1])), -1))
			}
		} else {
			d = f.norm(d)
			if len(d.m) > 0 {
				f.neqs = append(f.neqs, d)
			}
			for i, x := range l.args {
				if l.args[1-i] == e.nilT {
					f.nonNil(x)
				}
			}
		}
	case "call":
		if !v || len(l.args) < 2 {
			return
		}
		switch l.sym {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
			f.atLeast(e.lin(e.length(l.args[0])).add(e.lin(e.length(l.args[1])), -1))
		case "(*regexp.Regexp).MatchString", "(*regexp.Regexp).Match":
			if n := f.minMatch(l.args[0]); n > 0 {
				f.atLeast(e.lin(e.length(l.args[1])).add(konst(int64(n)), -1))
			}
		}
	case "Full": // the whole of a text matched a pattern
	}
}

// matchLit notes patterns known to match.
func (f *factset) matchLit(l *term, v bool) {
	e := f.e
	note := func(re, s *term) { f.found[[2]*term{f.cn.of(re), f.cn.of(plainText(s))}] = true }
	switch l.op {
	case "call":
		if v && len(l.args) >= 2 && (l.sym == "(*regexp.Regexp).MatchString" || l.sym == "(*regexp.Regexp).Match") {
			note(l.args[0], l.args[1])
		}
	case "eq":
		for i, x := range l.args {
			o := l.args[1-i]
			if v {
				continue
			}
			if o == e.nilT && x.op == "call" {
				if _, _, _, ok := matchKind(x.sym); ok {
					note(x.args[0], x.args[1])
				}
			}
			if o == e.zero && x.op == "len" && x.args[0].op == "call" {
				if _, _, _, ok := matchKind(x.args[0].sym); ok {
					note(x.args[0].args[0], x.args[0].args[1])
				}
			}
		}
	case "lt":
		if x := l.args[1]; v && x.op == "len" && x.args[0].op == "call" {
			if n, ok := l.args[0].intConst(); ok && n >= 0 {
				if _, _, _, ok := matchKind(x.args[0].sym); ok {
					note(x.args[0].args[0], x.args[0].args[1])
				}
			}
		}
	}
}

// plainText strips conversions between texts and bytes.
func plainText(s *term) *term {
	for s.op == "str" || s.op == "bytes" {
		s = s.args[0]
	}
	return s
}

func isSeq(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// groups: the number of groups of a pattern known in full, or -1.
func groups(re *term) int {
	if re.op != "regexp" {
		return -1
	}
	s, ok := re.args[0].strConst()
	if !ok {
		return -1
	}
	x, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return -1
	}
	return x.MaxCap()
}

// always: the group takes part in every match of the pattern.
func always(re *term, group int) bool {
	if re.op != "regexp" {
		return false
	}
	s, ok := re.args[0].strConst()
	if !ok {
		return false
	}
	x, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return false
	}
	var f func(x *syntax.Regexp) bool
	f = func(x *syntax.Regexp) bool {
		switch x.Op {
		case syntax.OpCapture:
			return x.Cap == group || f(x.Sub[0])
		case syntax.OpConcat:
			for _, y := range x.Sub {
				if f(y) {
					return true
				}
			}
		case syntax.OpAlternate:
			for _, y := range x.Sub {
				if !f(y) {
					return false
				}
			}
			return true
		case syntax.OpPlus:
			return f(x.Sub[0])
		case syntax.OpRepeat:
			return x.Min > 0 && f(x.Sub[0])
		}
		return false
	}
	return f(x)
}

// minMatch: the fewest bytes a match of the pattern has.
func minMatch(re *term) int {
	if re.op != "regexp" {
		return 0
	}
	s, ok := re.args[0].strConst()
	if !ok {
		return 0
	}
	x, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return 0
	}
	var f func(x *syntax.Regexp) int
	f = func(x *syntax.Regexp) int {
		switch x.Op {
		case syntax.OpLiteral:
			return len(x.Rune)
		case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			return 1
		case syntax.OpCapture, syntax.OpPlus:
			return f(x.Sub[0])
		case syntax.OpRepeat:
			return x.Min * f(x.Sub[0])
		case syntax.OpConcat:
			n := 0
			for _, y := range x.Sub {
				n += f(y)
			}
			return n
		case syntax.OpAlternate:
			n := f(x.Sub[0])
			for _, y := range x.Sub[1:] {
				n = min(n, f(y))
			}
			return n
		}
		return 0
	}
	return f(x)
}

func (f *factset) groups(re *term) int {
	n := -1
	for _, x := range f.e.patterns(re) {
		if g := groups(x); n < 0 || g < n {
			n = g
		}
	}
	return n
}

func (f *factset) sameGroups(re *term) bool {
	n := -1
	for _, x := range f.e.patterns(re) {
		if g := groups(x); n >= 0 && g != n {
			return false
		} else {
			n = g
		}
	}
	return true
}

func (f *factset) always(re *term, group int) bool {
	ps := f.e.patterns(re)
	for _, x := range ps {
		if !always(x, group) {
			return false
		}
	}
	return len(ps) > 0
}

func (f *factset) minMatch(re *term) int {
	n := -1
	for _, x := range f.e.patterns(re) {
		if g := minMatch(x); n < 0 || g < n {
			n = g
		}
	}
	return max(n, 0)
}

// matchKind describes what a search of a pattern returns: how many entries a group has (1 text,
// 2 positions), and whether the list is one match (0), or a list of matches (1).
func matchKind(n string) (per int, all, groups, ok bool) {
	if !strings.HasPrefix(n, "(*regexp.Regexp).Find") {
		return
	}
	n = strings.TrimPrefix(n, "(*regexp.Regexp).Find")
	all = strings.HasPrefix(n, "All")
	n = strings.TrimPrefix(n, "All")
	n = strings.TrimPrefix(n, "String")
	groups = strings.HasPrefix(n, "Submatch")
	n = strings.TrimPrefix(n, "Submatch")
	per = 1
	if n == "Index" {
		per = 2
	} else if n != "" {
		return 0, false, false, false
	}
	if per == 1 && !groups && !all {
		return 0, false, false, false // a text
	}
	return per, all, groups, true
}

// nonNil: a list of matches is there.
func (f *factset) nonNil(x *term) {
	for _, t := range []*term{x, f.cn.of(x)} {
		f.matched(t)
	}
}

// search finds the call whose single match a term is: the call itself or an element of all matches.
func search(t *term) (call *term, per int, grp bool) {
	if t.op == "call" {
		if per, all, g, ok := matchKind(t.sym); ok && !all && len(t.args) >= 2 {
			return t, per, g
		}
	}
	if t.op == "elem" || t.op == "idx" {
		if c := t.args[0]; c.op == "call" {
			if per, all, g, ok := matchKind(c.sym); ok && all && len(c.args) >= 2 && (per == 2 || g) {
				return c, per, g
			}
		}
	}
	return nil, 0, false
}

func (f *factset) matched(t *term) {
	e := f.e
	call, per, grp := search(t)
	if call == nil {
		if t.op == "call" {
			if _, all, _, ok := matchKind(t.sym); ok && all {
				f.atLeast(e.lin(e.length(t)).add(konst(1), -1))
			}
		}
		return
	}
	n := int64(per)
	if grp {
		if g := f.groups(call.args[0]); g > 0 {
			n = int64(per) * int64(g+1)
		}
	}
	f.atLeast(e.lin(e.length(t)).add(konst(n), -1))
}

// atom adds what is always true of a term.
func (f *factset) atom(t *term) {
	if f.seen[t] {
		return
	}
	f.seen[t] = true
	e := f.e
	self := lin{0, map[*term]int64{t: 1}}
	if t.typ != nil {
		if bits, signed, ok := intBits(t.typ); ok && !signed {
			f.atLeast(self)
			if bits <= 32 && bits > 0 {
				f.atLeast(konst(int64(1)<<bits-1).add(self, -1))
			}
		} else if ok && bits > 0 && bits <= 32 {
			f.atLeast(self.add(konst(int64(1)<<(bits-1)), 1))
			f.atLeast(konst(int64(1)<<(bits-1)-1).add(self, -1))
		}
	}
	L := func(x *term) lin { return e.lin(e.length(x)) }
	switch t.op {
	case "maplen":
		f.atLeast(self)
	case "len":
		f.atLeast(self)
		f.lengthOf(t.args[0], self)
		if x := t.args[0]; x.op == "runes" {
			f.atLeast(L(x.args[0]).add(self, -1))
			f.when(L(x.args[0]).add(konst(1), -1), self.add(konst(1), -1))
		}
	case "min":
		f.atLeast(e.lin(t.args[0]).add(self, -1))
		f.atLeast(e.lin(t.args[1]).add(self, -1))
		f.when(e.lin(t.args[0]).add(e.lin(t.args[1]), -1), self.add(e.lin(t.args[1]), -1))
		f.when(e.lin(t.args[1]).add(e.lin(t.args[0]), -1), self.add(e.lin(t.args[0]), -1))
	case "max":
		f.atLeast(self.add(e.lin(t.args[0]), -1))
		f.atLeast(self.add(e.lin(t.args[1]), -1))
		f.when(e.lin(t.args[0]).add(e.lin(t.args[1]), -1), e.lin(t.args[0]).add(self, -1))
		f.when(e.lin(t.args[1]).add(e.lin(t.args[0]), -1), e.lin(t.args[1]).add(self, -1))
	case "idx", "elem":
		call, per, _ := search(t.args[0])
		if call == nil || per != 2 {
			break
		}
		i, ok := t.args[1].intConst()
		if !ok {
			break
		}
		at := func(j int64) lin { return e.lin(f.elemOf(t, j)) }
		f.atLeast(L(call.args[1]).add(self, -1))
		if i < 2 || f.always(call.args[0], int(i/2)) {
			f.atLeast(self)
		} else {
			f.atLeast(self.add(konst(1), 1))
			// both ends of a group are there or neither is
			f.when(self, at(i^1))
		}
		if i%2 == 0 {
			f.atLeast(at(i+1).add(self, -1))
		} else {
			f.atLeast(self.add(at(i-1), -1))
			if i == 1 {
				if n := f.minMatch(call.args[0]); n > 0 {
					f.atLeast(self.add(at(0), -1).add(konst(int64(n)), -1))
				}
			}
		}
		if i >= 2 {
			f.when(self, self.add(at(0), -1))
			f.atLeast(at(1).add(self, -1))
		}
	case "bin":
		f.binFacts(t, self)
	case "conv":
		// of a smaller or equal range: the engine keeps the operand itself
	case "call":
		f.callFacts(t, self)
	case "res":
		c := t.args[0]
		if c.op != "call" || len(c.args) == 0 {
			break
		}
		switch c.sym {
		case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRune":
			if t.sym == "1" {
				f.atLeast(self)
				f.atLeast(konst(4).add(self, -1))
				f.atLeast(L(c.args[0]).add(self, -1))
				f.when(L(c.args[0]).add(konst(1), -1), self.add(konst(1), -1))
			}
		case "sort.Find":
			if t.sym == "0" {
				f.atLeast(self)
				f.atLeast(e.lin(c.args[0]).add(self, -1))
			}
		case "slices.BinarySearch":
			if t.sym == "0" {
				f.atLeast(self)
				f.atLeast(L(c.args[0]).add(self, -1))
			}
		case "strings.CutPrefix", "strings.CutSuffix", "strings.Cut":
		}
		if strings.HasPrefix(c.sym, "slices.BinarySearch") && t.sym == "0" {
			f.atLeast(self)
			f.atLeast(L(c.args[0]).add(self, -1))
		}
	}
}

func (f *factset) binFacts(t *term, self lin) {
	e := f.e
	n, ok := t.args[1].intConst()
	x := e.lin(t.args[0])
	switch t.sym {
	case "%":
		if ok && n > 0 {
			f.atLeast(konst(n-1).add(self, -1))
			f.when(x, self)
			f.when(x, x.add(self, -1))
		}
	case "/":
		if ok && n > 0 {
			// n*q <= x < n*q + n for x >= 0
			q := konst(0).add(self, n)
			f.when(x, x.add(q, -1))
			f.when(x, q.add(konst(n-1), 1).add(x, -1))
		}
	case ">>":
		if ok && n >= 0 && n < 31 {
			q := konst(0).add(self, int64(1)<<n)
			f.when(x, x.add(q, -1))
			f.when(x, q.add(konst(int64(1)<<n-1), 1).add(x, -1))
		}
	case "&":
		for _, a := range t.args {
			if n, ok := a.intConst(); ok && n >= 0 {
				f.atLeast(self)
				f.atLeast(konst(n).add(self, -1))
			}
		}
	}
}

// elemOf is another element of the same list.
func (f *factset) elemOf(t *term, j int64) *term {
	as := append([]*term{}, t.args...)
	as[1] = f.e.num(j)
	r := f.e.mk(t.op, t.sym, as...)
	if r.typ == nil {
		r.typ = t.typ
	}
	return r
}

func (f *factset) callFacts(t *term, self lin) {
	e := f.e
	L := func(x *term) lin { return e.lin(e.length(x)) }
	n := t.sym
	pkg, name, _ := strings.Cut(n, ".")
	switch {
	case (pkg == "strings" || pkg == "bytes") && (strings.HasPrefix(name, "Index") || strings.HasPrefix(name, "LastIndex")) && len(t.args) >= 2:
		f.atLeast(self.add(konst(1), 1))
		switch strings.TrimPrefix(name, "Last") {
		case "Index":
			f.apart(t, self)
			f.when(self, L(t.args[0]).add(L(t.args[1]), -1).add(self, -1))
			f.atLeast(L(t.args[0]).add(self, -1))
		default:
			f.atLeast(L(t.args[0]).add(self, -1).add(konst(1), -1))
		}
	case strings.HasPrefix(n, "slices.Index") && len(t.args) >= 2:
		f.atLeast(self.add(konst(1), 1))
		f.atLeast(L(t.args[0]).add(self, -1).add(konst(1), -1))
	case n == "sort.Search" && len(t.args) >= 1:
		f.atLeast(self)
		f.when(e.lin(t.args[0]), e.lin(t.args[0]).add(self, -1))
	case n == "unicode/utf8.RuneCountInString" || n == "unicode/utf8.RuneCount":
		f.atLeast(self)
		f.atLeast(L(t.args[0]).add(self, -1))
	case n == "unicode/utf8.RuneLen":
		f.atLeast(self.add(konst(1), 1))
		f.atLeast(konst(4).add(self, -1))
	case n == "strings.Count":
		f.atLeast(self)
	case n == "(*regexp.Regexp).NumSubexp":
		f.atLeast(self)
	case strings.HasPrefix(n, "slices.Min") || strings.HasPrefix(n, "slices.Max"):
	}
}

// apart: two texts looked for in the same text cannot lie across each other unless the end of one
// is the start of the other.
func (f *factset) apart(t *term, self lin) {
	y, ok := t.args[1].strConst()
	if !ok {
		return
	}
	for o := range ordered(f.seen) {
		if o == t || o.op != "call" || len(o.args) < 2 || o.args[0] != t.args[0] || !strings.HasSuffix(o.sym, "Index") {
			continue
		}
		x, ok := o.args[1].strConst()
		if !ok {
			continue
		}
		other := lin{0, map[*term]int64{o: 1}}
		for i := 0; i < 2; i++ {
			// a (text x) before b (text y)
			d := 1
			for ; d < len(x); d++ {
				r := x[d:]
				if strings.HasPrefix(r, y) || strings.HasPrefix(y, r) {
					break
				}
			}
			a, b := other, self
			f.conds = append(f.conds, lcond{premise: f.norm(b.add(a, -1).add(konst(1), -1)), also: f.norm(a), conclusion: f.norm(b.add(a, -1).add(konst(int64(d)), -1))})
			x, y = y, x
			other, self = self, other
		}
	}
}

// madeLen: the length a list was made with.
func (e *engine) madeLen(x *term) *term {
	if n := e.made[x]; n != nil {
		return n
	}
	if x.op != "sk" || x.args[0].op != "call" {
		return nil
	}
	n, call := e.madeLen(x.args[1]), x.args[0]
	f := e.fns[call.sym]
	if n == nil || f == nil || len(call.args) < len(f.Params)+len(f.FreeVars) {
		return nil
	}
	vs := e.callVer[call]
	if vs == nil && len(call.args) > len(f.Params)+len(f.FreeVars) {
		return nil
	}
	n = e.substM(n, f, call.args, func(k string) *term { return vs[k] }, call, map[*term]*term{})
	e.made[x] = n
	return n
}

// lengthOf adds what is known of the length of a text or list.
func (f *factset) lengthOf(x *term, self lin) {
	e := f.e
	if x.op == "fld" || x.op == "get" {
		if y := x.args[0]; y.op == "fld" || y.op == "get" {
			if strings.Contains(y.sym, "PhoneMetadata.") && strings.Contains(x.sym, "PhoneNumberDesc.") {
				if i, j := strings.LastIndexByte(y.sym, '.'), strings.LastIndexByte(x.sym, '.'); e.p.dataAlways()[y.sym[i+1:]+"."+x.sym[j+1:]] {
					f.atLeast(self.add(konst(1), -1))
				}
			}
		}
	}
	L := func(x *term) lin { return e.lin(e.length(x)) }
	if x.op == "res" && x.args[0].op == "call" {
		c := x.args[0]
		switch c.sym {
		case "strings.CutPrefix", "strings.CutSuffix", "strings.Cut", "bytes.Cut":
			if x.sym == "0" || x.sym == "1" && c.sym == "strings.Cut" {
				f.atLeast(L(c.args[0]).add(self, -1))
			}
		}
		return
	}
	if call, per, grp := search(x); call != nil {
		g := -1
		if grp {
			g = f.groups(call.args[0])
		}
		if x.op == "elem" || x.op == "idx" || f.found[[2]*term{f.cn.of(call.args[0]), f.cn.of(plainText(call.args[1]))}] {
			n := int64(per)
			if g > 0 {
				n *= int64(g + 1)
			}
			f.atLeast(self.add(konst(n), -1))
		}
		switch {
		case g >= 0 && grp && !f.sameGroups(call.args[0]):
		case g >= 0 || !grp:
			if !grp {
				g = 0
			}
			n := int64(per) * int64(g+1)
			f.atLeast(konst(n).add(self, -1))
			f.when(self.add(konst(1), -1), self.add(konst(n), -1))
		case per == 2:
			for k := int64(1); k < 12; k += 2 {
				f.when(self.add(konst(k), -1), self.add(konst(k+1), -1))
			}
		}
		return
	}
	if n := e.madeLen(x); n != nil {
		f.zero(self.add(e.lin(n), -1))
		return
	}
	if x.op != "call" || len(x.args) == 0 {
		return
	}
	switch x.sym {
	case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc":
		f.atLeast(L(x.args[0]).add(self, -1))
	case "strings.Split", "strings.SplitAfter":
		if s, ok := x.args[1].strConst(); ok && s != "" {
			f.atLeast(self.add(konst(1), -1))
		}
	case "strings.SplitN":
		if s, ok := x.args[1].strConst(); ok && s != "" {
			if n, ok := x.args[2].intConst(); ok && n != 0 {
				f.atLeast(self.add(konst(1), -1))
			}
		}
	case "strings.Repeat":
		if s, ok := x.args[0].strConst(); ok && len(s) == 1 {
			f.zero(self.add(e.lin(x.args[1]), -1))
		}
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		f.atLeast(self.add(konst(1), -1))
	case "(*regexp.Regexp).FindString":
		f.atLeast(L(x.args[1]).add(self, -1))
	}
}

// close adds the facts of every atom that the goal is connected with.
func (f *factset) connected(goal lin) []lin {
	reach := map[*term]bool{}
	for t := range ordered(goal.m) {
		reach[t] = true
		f.atom(t)
	}
	usedI := map[int]bool{}
	var out []lin
	for round := 0; round < 12; round++ {
		ch := false
		for i := 0; i < len(f.ineqs); i++ {
			if usedI[i] {
				continue
			}
			hit := len(goal.m) == 0
			for t := range ordered(f.ineqs[i].m) {
				hit = hit || reach[t]
			}
			if !hit && len(f.ineqs[i].m) > 0 {
				continue
			}
			usedI[i] = true
			out = append(out, f.ineqs[i])
			ch = true
			for t := range ordered(f.ineqs[i].m) {
				if !reach[t] {
					reach[t] = true
					f.atom(t)
				}
			}
		}
		for _, c := range f.conds {
			hit := len(goal.m) == 0
			for t := range ordered(c.conclusion.m) {
				hit = hit || reach[t]
			}
			if !hit {
				continue
			}
			for _, l := range []lin{c.conclusion, c.premise} {
				for t := range ordered(l.m) {
					if !reach[t] {
						reach[t] = true
						f.atom(t)
						ch = true
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	return out
}

// proves: the facts imply goal >= 0.
func (f *factset) proves(goal lin) bool {
	goal = f.norm(goal)
	if len(goal.m) == 0 && goal.k >= 0 {
		return true
	}
	return f.proves1(goal, 6, 2)
}

func (f *factset) proves1(goal lin, rounds, splits int) bool {
	neg := konst(-1).add(goal, -1)
	for r := 0; r < rounds; r++ {
		base := f.connected(goal)
		if infeasible(append(append([]lin{}, base...), neg)) {
			return true
		}
		ch := false
		for i := range f.conds {
			c := &f.conds[i]
			if c.used {
				continue
			}
			if infeasible(append(f.connected(c.premise), konst(-1).add(c.premise, -1))) {
				if c.also.m != nil && !infeasible(append(f.connected(c.also), konst(-1).add(c.also, -1))) {
					continue
				}
				c.used = true
				ch = true
				f.atLeast(c.conclusion)
			}
		}
		for i := 0; i < len(f.neqs); i++ {
			d := f.neqs[i]
			b := f.connected(d)
			for _, s := range []int64{1, -1} {
				x := konst(0).add(d, s)
				// x >= 0 known: x >= 1
				if infeasible(append(append([]lin{}, b...), konst(-1).add(x, -1))) {
					n := len(f.ineqs)
					f.atLeast(x.add(konst(1), -1))
					if len(f.ineqs) > n {
						ch = true
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	if splits == 0 {
		return false
	}
	// by cases: a condition applies or it does not
	reach := map[*term]bool{}
	for _, l := range f.connected(goal) {
		for t := range l.m {
			reach[t] = true
		}
	}
	for t := range goal.m {
		reach[t] = true
	}
	tried := 0
	try := func(a, b lin) bool {
		tried++
		g := f.fork()
		g.atLeast(a)
		if !g.proves1(goal, 4, splits-1) {
			return false
		}
		g = f.fork()
		g.atLeast(b)
		return g.proves1(goal, 4, splits-1)
	}
	for i := range f.conds {
		c := &f.conds[i]
		if c.used || tried > 8 || c.also.m != nil {
			continue
		}
		hit := false
		for t := range ordered(c.conclusion.m) {
			hit = hit || reach[t]
		}
		if !hit {
			continue
		}
		c.used = true
		if try(c.conclusion, konst(-1).add(c.premise, -1)) {
			return true
		}
		c.used = false
	}
	for i, d := range f.neqs {
		if tried > 12 {
			break
		}
		hit := len(d.m) > 0
		for t := range ordered(d.m) {
			hit = hit && reach[t]
		}
		if !hit {
			continue
		}
		g := f.neqs
		f.neqs = append(append([]lin{}, f.neqs[:i]...), f.neqs[i+1:]...)
		ok := try(d.add(konst(1), -1), konst(-1).add(d, -1))
		f.neqs = g
		if ok {
			return true
		}
	}
	return false
}

func (f *factset) fork() *factset {
	g := &factset{e: f.e, cn: f.cn, seen: map[*term]bool{}, have: map[string]bool{}, found: f.found}
	g.ineqs = append(g.ineqs, f.ineqs...)
	g.conds = append(g.conds, f.conds...)
	g.neqs = append(g.neqs, f.neqs...)
	for k := range f.seen {
		g.seen[k] = true
	}
	for k := range f.have {
		g.have[k] = true
	}
	return g
}

// infeasible: no integers satisfy all (by elimination; an answer of false means not shown).
func infeasible(in []lin) bool {
	norm := func(l lin) (lin, bool) {
		g := int64(0)
		for _, c := range ordered(l.m) {
			g = gcd(g, abs64(c))
		}
		if g == 0 {
			return l, l.k < 0
		}
		if g > 1 {
			r := lin{floorDiv(l.k, g), map[*term]int64{}}
			for t, c := range l.m {
				r.m[t] = c / g
			}
			return r, false
		}
		return l, false
	}
	rows := map[string]lin{}
	add := func(l lin) bool {
		l, bad := norm(l)
		if bad {
			return true
		}
		if len(l.m) == 0 {
			return false
		}
		// keep the strongest of rows over the same atoms
		z := l
		z.k = 0
		k := linKey(z)
		if o, ok := rows[k]; !ok || l.k < o.k {
			rows[k] = l
		}
		return false
	}
	for _, l := range in {
		if add(l) {
			return true
		}
	}
	for step := 0; step < 60; step++ {
		// the atom whose elimination makes fewest new rows
		type cnt struct{ p, n int }
		cs := map[*term]*cnt{}
		for _, l := range ordered(rows) {
			for t, c := range ordered(l.m) {
				x := cs[t]
				if x == nil {
					x = &cnt{}
					cs[t] = x
				}
				if c > 0 {
					x.p++
				} else {
					x.n++
				}
			}
		}
		var best *term
		bc := 1 << 30
		for t, x := range ordered(cs) {
			c := x.p*x.n - x.p - x.n
			if c < bc || c == bc && t.id < best.id {
				best, bc = t, c
			}
		}
		if best == nil || bc > 300 || len(rows) > 600 {
			return false
		}
		var pos, neg []lin
		for k, l := range ordered(rows) {
			if c := l.m[best]; c > 0 {
				pos = append(pos, l)
				delete(rows, k)
			} else if c < 0 {
				neg = append(neg, l)
				delete(rows, k)
			}
		}
		for _, a := range pos {
			for _, b := range neg {
				ca, cb := a.m[best], -b.m[best]
				if ca > 1<<20 || cb > 1<<20 {
					continue
				}
				s := konst(0).add(a, cb).add(b, ca)
				if abs64(s.k) > 1<<60 {
					continue
				}
				if add(s) {
					return true
				}
			}
		}
	}
	return false
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
