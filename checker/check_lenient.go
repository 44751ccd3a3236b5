package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// C17: what a search level guarantees.

func init() { checks["C17"] = checkC17 }

// consts collects the constants a function uses.
func constsOf(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if k, ok := (*op).(*ssa.Const); ok && k.Value != nil {
					out[k.Value.ExactString()] = true
				}
			}
		}
	}
	for _, g := range fn.AnonFuncs {
		for k := range constsOf(g) {
			out[k] = true
		}
	}
	return out
}

// pick finds a function by name or else the only one of a shape.
func (e *engine) pick(name string, shape func(fn *ssa.Function) bool) *ssa.Function {
	if f := e.fnNamed(name); f != nil && f.Blocks != nil {
		return f
	}
	var found *ssa.Function
	for _, fn := range e.p.LibFuncs() {
		if fn.Parent() == nil && fn.Signature.Recv() == nil && fnPkgPath(fn) == modPath && fn.Blocks != nil && shape(fn) {
			if found != nil {
				return nil
			}
			found = fn
		}
	}
	return found
}

// sig: the function takes parameters of these types and answers yes or no.
func sig(fn *ssa.Function, params ...string) bool {
	s := fn.Signature
	if s.Params().Len() != len(params) || s.Results().Len() != 1 || s.Results().At(0).Type().String() != "bool" {
		return false
	}
	for i, p := range params {
		if !strings.HasSuffix(s.Params().At(i).Type().String(), p) {
			return false
		}
	}
	return true
}

// subterms visits every term in the facts of a world.
func (w *world) subterms(f func(t *term)) {
	seen := map[*term]bool{}
	var v func(t *term)
	v = func(t *term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			v(a)
		}
	}
	for l := range ordered(w.lits) {
		v(l)
	}
}

// never: the condition cannot be so in the world.
func (e *engine) never(cn *canoniser, q *term, val bool) bool {
	for _, w := range e.assume(cn.w, q, val) {
		if !e.canon(w).contradictory() {
			return false
		}
	}
	return true
}

func checkC17(p *Program, r *Report) {
	e0 := p.Engine()
	calls := func(fn *ssa.Function, name string) bool {
		return p.reaches(fn, func(g *ssa.Function) bool { return g.Name() == name })
	}
	xchars := e0.pick("containsOnlyValidXChars", func(fn *ssa.Function) bool {
		k := constsOf(fn)
		return sig(fn, "PhoneNumber", "string") && (k["120"] && k["88"] || k[`"xX"`] || k[`"Xx"`])
	})
	slashes := e0.pick("containsMoreThanOneSlashInNationalNumber", func(fn *ssa.Function) bool {
		k := constsOf(fn)
		return sig(fn, "PhoneNumber", "string") && (k["47"] || k[`"/"`])
	})
	prefix := e0.pick("isNationalPrefixPresentIfRequired", func(fn *ssa.Function) bool {
		return sig(fn, "PhoneNumber") && calls(fn, "GetNationalPrefixFormattingRule") && calls(fn, "GetNationalPrefixOptionalWhenFormatting")
	})
	valid, possible := e0.fnNamed("IsValidNumber"), e0.fnNamed("IsPossibleNumber")
	level := p.Named(modPath, "Leniency")
	var verify *ssa.Function
	for _, fn := range p.LibFuncs() {
		if fn.Name() == "Verify" && fn.Signature.Recv() != nil && level != nil && types.Identical(fn.Signature.Recv().Type(), level) {
			verify = fn
		}
	}
	for n, f := range ordered(map[string]*ssa.Function{"the check of x characters": xchars, "the check of slashes": slashes, "the check of the national prefix": prefix, "IsValidNumber": valid, "IsPossibleNumber": possible, "Leniency.Verify": verify}) {
		if f == nil {
			r.Failf("shape", "phonenumbers", "", "%s is missing", n)
		}
	}
	if xchars == nil || slashes == nil || prefix == nil || valid == nil || possible == nil || verify == nil {
		return
	}
	stop := []string{valid.String(), possible.String(), xchars.String(), slashes.String(), prefix.String(), modPath + ".chooseFormattingPatternForNumber", modPath + ".GetNationalSignificantNumber", modPath + ".maybeStripNationalPrefixAndCarrierCode", modPath + ".GetRegionCodeForCountryCode"}
	for _, fn := range p.LibFuncs() {
		if isParser(fn) || strings.HasPrefix(fn.Name(), "IsNumberMatch") {
			stop = append(stop, fn.String())
		}
	}
	sort.Strings(stop)
	e := p.EngineStop(stop...)
	r.Rule("in every way Leniency.Verify can accept, for each level the receiver may be on that path: the candidate must be established as possible (lowest level) or valid, with only meaningful x characters and with its national prefix (all others), and without a stray slash (grouping levels)")
	r.Rule("wherever a match is made, on every path there: the candidate was parsed without error into the number of the match, Verify accepted that number and candidate, and unless the level is the lowest, the characters before and after the candidate, if any, are established to be neither Latin letters nor currency signs (before: or the candidate starts with a lead character)")
	r.Rule("the check of the national prefix answers yes only if the calling code was written, there is no metadata, rule or prefix in the rule, the prefix is optional or the rule has the first group only, or a national prefix was stripped from the raw input")
	levels := enumConsts(p, level)
	call := func(f *ssa.Function, args ...*term) *term {
		return e.callTerm(f, args, func(string) *term { return nil }, func() *term { return e.mk("call", f.String(), args...) })
	}
	ways := 0
	c := e.fctx(verify)
	lv, number, candidate := c.t(verify.Params[0]), c.t(verify.Params[1]), c.t(verify.Params[2])
	// reported: a call of f is known to have answered so, whatever the memory it read
	said := func(cn *canoniser, f *ssa.Function, val bool, args ...*term) bool {
		for l, v := range ordered(cn.w.lits) {
			if v == val && l.op == "call" && l.sym == f.String() && len(l.args) >= len(args) {
				same := true
				for i, a := range args {
					same = same && cn.same(l.args[i], a)
				}
				if same {
					return true
				}
			}
		}
		return e.never(cn, call(f, args...), !val)
	}
	obligations := []struct {
		what   string
		levels []string
		ok     func(cn *canoniser) bool
	}{
		{"the number to be possible", []string{"POSSIBLE"}, func(cn *canoniser) bool {
			return said(cn, possible, true, number) || said(cn, valid, true, number)
		}},
		{"the number to be valid", []string{"VALID", "STRICT_GROUPING", "EXACT_GROUPING"}, func(cn *canoniser) bool { return said(cn, valid, true, number) }},
		{"x characters to be meaningful", []string{"VALID", "STRICT_GROUPING", "EXACT_GROUPING"}, func(cn *canoniser) bool { return said(cn, xchars, true, number, candidate) }},
		{"the national prefix to be present", []string{"VALID", "STRICT_GROUPING", "EXACT_GROUPING"}, func(cn *canoniser) bool { return said(cn, prefix, true, number) }},
		{"slashes to be few", []string{"STRICT_GROUPING", "EXACT_GROUPING"}, func(cn *canoniser) bool { return said(cn, slashes, false, number, candidate) }},
	}
	for _, name := range []string{"POSSIBLE", "VALID", "STRICT_GROUPING", "EXACT_GROUPING"} {
		if _, ok := levels[name]; !ok {
			r.Failf("shape", "Leniency", "", "level %s is missing", name)
			return
		}
	}
	for _, o := range obligations {
		for _, name := range o.levels {
			ok := true
			for _, rc := range c.cases(0, "true") {
				ways++
				good, bad := e.entails(rc.w, func(cn *canoniser) bool {
					return !e.values(cn, lv, levels)[levels[name]] || o.ok(cn)
				})
				if !good {
					ok = false
					if os.Getenv("PHDEBUG") != "" {
						fmt.Fprintln(os.Stderr, "BAD", name, o.what, brief(bad.String()))
					}
					r.Failf("level-conditions", fnName(verify), p.Pos(rc.at.Pos()), "level %s can accept a candidate without requiring %s", name, o.what)
					break
				}
			}
			if ok {
				r.Ok("%s requires %s", name, o.what)
			}
		}
	}

	// the national prefix
	{
		pc := e.fctx(prefix)
		num := pc.t(prefix.Params[0])
		src := p.Named(modPath, "PhoneNumber_CountryCodeSource")
		var dflt int64 = -1
		if src != nil {
			for n, v := range ordered(enumConsts(p, src)) {
				if strings.HasSuffix(n, "FROM_DEFAULT_COUNTRY") {
					dflt = v
				}
			}
		}
		for _, m := range []string{"/metadata", ""} {
			if n := p.Named(modPath+m, "PhoneNumber_CountryCodeSource"); n != nil {
				for k, v := range ordered(enumConsts(p, n)) {
					if strings.HasSuffix(k, "FROM_DEFAULT_COUNTRY") {
						dflt = v
					}
				}
			}
		}
		has := func(t *term, field string) bool {
			return (t.op == "get" || t.op == "fld") && strings.HasSuffix(t.sym, field)
		}
		ok := true
		for _, rc := range pc.cases(0, "true") {
			ways++
			good, bad := e.entails(rc.w, func(cn *canoniser) bool {
				for l, v := range ordered(cn.w.lits) {
					switch {
					case l.op == "eq" && !v:
						for i := 0; i < 2; i++ {
							if n, isC := l.args[1-i].intConst(); isC && n == dflt && has(unconv(l.args[i]), ".CountryCodeSource") && unconv(l.args[i]).args[0] == num {
								return true
							}
						}
					case l.op == "eq" && v:
						for i := 0; i < 2; i++ {
							a, b := l.args[i], l.args[1-i]
							if a == e.nilT && (b.typ != nil && (strings.HasSuffix(b.typ.String(), "PhoneMetadata") || strings.HasSuffix(b.typ.String(), "NumberFormat")) || b.op == "call" && strings.HasSuffix(b.sym, "chooseFormattingPatternForNumber") || b.op == "lookup" && strings.Contains(b.sym, "PhoneMetadata")) {
								return true
							}
							if a == e.zero && b.op == "len" && has(b.args[0], ".NationalPrefixFormattingRule") {
								return true
							}
						}
					case l.op == "lt" && !v:
						if l.args[0] == e.zero && l.args[1].op == "len" && has(l.args[1].args[0], ".NationalPrefixFormattingRule") {
							return true
						}
					case has(l, ".NationalPrefixOptionalWhenFormatting") && v:
						return true
					case l.op == "call" && v && l.sym == "(*regexp.Regexp).MatchString" && len(l.args) >= 2 && has(l.args[1], ".NationalPrefixFormattingRule"):
						return true
					case v && (l.op == "call" || l.op == "op" || l.op == "res"):
						x := l
						if x.op == "res" {
							x = x.args[0]
						}
						if x.op == "call" && strings.Contains(x.sym, "aybeStripNationalPrefix") {
							return true
						}
						if ci, isC := pc.sites[x].(*ssa.Call); isC && ci.Call.StaticCallee() != nil && strings.Contains(ci.Call.StaticCallee().Name(), "aybeStripNationalPrefix") {
							return true
						}
					}
				}
				return false
			})
			if !good {
				ok = false
				if os.Getenv("PHDEBUG") != "" {
					fmt.Fprintln(os.Stderr, "BAD prefix", brief(bad.String()))
				}
				r.Failf("national-prefix", fnName(prefix), p.Pos(rc.at.Pos()), "the national prefix can be taken as present or not needed for none of the known reasons")
				break
			}
		}
		if ok {
			r.Ok("reasons for a national prefix not to be required")
		}
	}

	e.slashRule(p, r, slashes)
	e.xRule(p, r, xchars)

	// matches
	mt := p.Named(modPath, "PhoneNumberMatch")
	sites := 0
	for _, fn := range p.LibFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || mt == nil || !types.Identical(deref(al.Type()), mt) {
					continue
				}
				vals := map[string]ssa.Value{}
				var last ssa.Instruction = al
				for _, u := range *al.Referrers() {
					if fa, ok := u.(*ssa.FieldAddr); ok {
						for _, q := range *fa.Referrers() {
							if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
								vals[mt.Underlying().(*types.Struct).Field(fa.Field).Name()] = st.Val
								last = st
							}
						}
					}
				}
				sites++
				fc := e.fctx(fn)
				st, raw, num := vals[accessed(p, mt, "Start")], vals[accessed(p, mt, "RawString")], vals[accessed(p, mt, "Number")]
				if st == nil || raw == nil || num == nil {
					r.Count("matches_left_open", 1)
					continue
				}
				what := ""
				bad := e.prove(fn, last, []*term{fc.t(st), fc.t(raw), fc.t(num)}, func(c *fctx, cn *canoniser, ts []*term) bool {
					what = e.matchOK(c, cn, ts, verify, levels)
					return what == ""
				}, 0, nil)
				for _, u := range bad {
					r.Failf("match-conditions", fnName(u.fn), p.Pos(u.at.Pos()), "a match can be made although it is not established that %s", what)
				}
				if len(bad) == 0 {
					r.Ok("match made in %s", fnName(fn))
				}
			}
		}
	}
	r.Count("ways_to_accept", ways)
	r.Count("places_that_make_matches", sites)
	r.Require("ways_to_accept", 10)
	r.Require("places_that_make_matches", 1)
}

// accessed is the field a method of the type gives back as it is.
func accessed(p *Program, t types.Type, method string) string {
	for _, fn := range p.LibFuncs() {
		if fn.Name() != method || fn.Signature.Recv() == nil || fn.Synthetic != "" || !types.Identical(deref(fn.Signature.Recv().Type()), t) {
			continue
		}
		name := "?"
		for _, b := range fn.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				n := "?"
				if ld, ok := ret.Results[0].(*ssa.UnOp); ok && ld.Op == token.MUL {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok {
						n = t.Underlying().(*types.Struct).Field(fa.Field).Name()
					}
				}
				if name != "?" && n != name {
					return "?"
				}
				name = n
			}
		}
		return name
	}
	return "?"
}

// matchOK tells what is missing for a match to be made.
func (e *engine) matchOK(c *fctx, cn *canoniser, ts []*term, verify *ssa.Function, levels map[string]int64) string {
	start, raw, num := ts[0], ts[1], ts[2]
	var lv *term
	parsed := false
	for l, v := range ordered(cn.w.lits) {
		if v && l.op == "call" && l.sym == verify.String() && len(l.args) >= 3 && cn.same(l.args[1], num) && cn.same(l.args[2], raw) {
			lv = l.args[0]
		}
		if v && l.op == "op" {
			if ci, ok := c.sites[l].(*ssa.Call); ok && ci.Call.StaticCallee() == verify && cn.same(c.t(ci.Call.Args[1]), num) && cn.same(c.t(ci.Call.Args[2]), raw) {
				lv = c.t(ci.Call.Args[0])
			}
		}
		if v && l.op == "eq" && (l.args[0] == e.nilT || l.args[1] == e.nilT) {
			x := l.args[0]
			if x == e.nilT {
				x = l.args[1]
			}
			if e.parseInto(c, cn, x, raw, num) {
				parsed = true
			}
		}
	}
	if !parsed {
		return "the candidate was parsed without error into the number of the match"
	}
	if lv == nil {
		return "the search level accepted the number and the candidate"
	}
	vs := e.values(cn, lv, levels)
	delete(vs, levels["POSSIBLE"])
	if len(vs) == 0 {
		return ""
	}
	clean := func(ch *term) bool {
		sc := e.mk("call", "unicode.Is", e.tableTerm("Sc"), ch)
		la := e.mk("call", "unicode.Is", e.tableTerm("Latin"), ch)
		le := e.mk("call", "unicode.IsLetter", ch)
		if !e.never(cn, sc, true) {
			return false
		}
		for _, w := range e.assume(cn.w, la, true) {
			if !e.never(e.canon(w), le, true) {
				return false
			}
		}
		return true
	}
	before := cn.holds(e.lt(e.zero, start, true), false) || cn.holds(e.eq(start, e.zero), true)
	end := e.arith("+", start, e.length(raw))
	after := false
	for l, v := range ordered(cn.w.lits) {
		if l.op == "eq" && !v && (l.args[0] == e.nilT || l.args[1] == e.nilT) {
			x := l.args[0]
			if x == e.nilT {
				x = l.args[1]
			}
			if x.op == "call" && strings.HasPrefix(x.sym, "(*regexp.Regexp).Find") && e.leadPattern(x.args[0]) && cn.same(x.args[1], raw) {
				before = true
			}
		}
		if v && l.op == "call" && l.sym == "(*regexp.Regexp).MatchString" && e.leadPattern(l.args[0]) && cn.same(l.args[1], raw) {
			before = true
		}
		if l.op == "lt" && !v && cn.same(l.args[0], end) && l.args[1].op == "len" {
			after = true
		}
		if l.op == "eq" && v {
			for i := 0; i < 2; i++ {
				x := l.args[i]
				if l.args[1-i] == e.zero && x.op == "len" {
					x = x.args[0]
				} else if k, ok := l.args[1-i].strConst(); !ok || k != "" {
					if cn.same(x, end) && l.args[1-i].op == "len" {
						after = true
					}
					continue
				}
				if x.op != "slice" {
					continue
				}
				if x.args[1] == e.zero && cn.same(x.args[2], start) {
					before = true
				}
				if cn.same(x.args[1], end) && x.args[2] == e.length(x.args[0]) {
					after = true
				}
			}
		}
	}
	cn.w.subterms(func(t *term) {
		if t.op == "len" && !after && t.args[0] != raw {
			gap := e.arith("-", t, end)
			after = cn.holds(e.eq(gap, e.zero), true) || cn.holds(e.lt(e.zero, gap, true), false)
		}
		if t.op != "call" || len(t.args) < 1 {
			return
		}
		switch t.sym {
		case "unicode/utf8.DecodeLastRuneInString":
			a := t.args[0]
			if !before && a.op == "slice" && a.args[1] == e.zero && cn.same(a.args[2], start) && clean(e.res(t, 0)) {
				before = true
			}
		case "unicode/utf8.DecodeRuneInString":
			a := t.args[0]
			if !after && a.op == "slice" && cn.same(a.args[1], end) && a.args[2] == e.length(a.args[0]) && clean(e.res(t, 0)) {
				after = true
			}
		}
	})
	if !before {
		return "the character before the candidate is no Latin letter or currency sign"
	}
	if !after {
		return "the character after the candidate is no Latin letter or currency sign"
	}
	return ""
}

func (e *engine) tableTerm(name string) *term {
	return e.mk("gload", "glob:unicode."+name)
}

// leadPattern: a pattern for one character at the start of a candidate that is no letter, digit or
// currency sign.
func (e *engine) leadPattern(t *term) bool {
	if t.op != "regexp" {
		return false
	}
	pat, ok := t.args[0].strConst()
	if !ok {
		return false
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	re = re.Simplify()
	if re.Op != syntax.OpConcat || len(re.Sub) != 2 || re.Sub[0].Op != syntax.OpBeginText && re.Sub[0].Op != syntax.OpBeginLine {
		return false
	}
	cc := re.Sub[1]
	for cc.Op == syntax.OpCapture || cc.Op == syntax.OpPlus {
		cc = cc.Sub[0]
	}
	var rs []rune
	switch cc.Op {
	case syntax.OpCharClass:
		for i := 0; i+1 < len(cc.Rune); i += 2 {
			if cc.Rune[i+1]-cc.Rune[i] > 100 {
				return false
			}
			for c := cc.Rune[i]; c <= cc.Rune[i+1]; c++ {
				rs = append(rs, c)
			}
		}
	case syntax.OpLiteral:
		rs = cc.Rune[:1]
	default:
		return false
	}
	for _, c := range rs {
		if unicode.IsLetter(c) || unicode.IsDigit(c) || unicode.Is(unicode.Sc, c) {
			return false
		}
	}
	return true
}

// parseInto: the term is the error of parsing raw into num.
func (e *engine) parseInto(c *fctx, cn *canoniser, x, raw, num *term) bool {
	var g *ssa.Function
	var args []*term
	switch x.op {
	case "call", "res":
		if x.op == "res" {
			x = x.args[0]
		}
		if ci, ok := c.sites[x].(*ssa.Call); ok {
			return e.parseCall(c, cn, ci, raw, num)
		}
		g, args = e.fns[x.sym], x.args
	case "op":
		ci, ok := c.sites[x].(*ssa.Call)
		return ok && e.parseCall(c, cn, ci, raw, num)
	}
	if g == nil || !isParser(g) || len(args) == 0 || !cn.same(args[0], raw) {
		return false
	}
	for _, a := range args[1:] {
		if cn.same(a, num) {
			return true
		}
	}
	return cn.same(e.res(x, 0), num)
}

func (e *engine) parseCall(c *fctx, cn *canoniser, ci *ssa.Call, raw, num *term) bool {
	g := ci.Call.StaticCallee()
	if g == nil || !isParser(g) || len(ci.Call.Args) == 0 || !cn.same(c.t(ci.Call.Args[0]), raw) {
		return false
	}
	for _, a := range ci.Call.Args[1:] {
		if cn.same(c.t(a), num) {
			return true
		}
	}
	for _, u := range *ci.Referrers() {
		if x, ok := u.(*ssa.Extract); ok && x.Index == 0 && cn.same(c.t(x), num) {
			return true
		}
	}
	return false
}

// isParser: an exported parsing function: text first, error last.
func isParser(g *ssa.Function) bool {
	rs := g.Signature.Results()
	return fnPkgPath(g) == modPath && g.Object() != nil && g.Object().Exported() && strings.HasPrefix(g.Name(), "Parse") && rs.Len() > 0 && rs.At(rs.Len()-1).Type().String() == "error"
}

// slashRule: what the check of slashes lets pass. Written with the usual string functions it is
// decided; other ways of counting are left open.
func (e *engine) slashRule(p *Program, r *Report, fn *ssa.Function) {
	c := e.fctx(fn)
	num, cand := c.t(fn.Params[0]), c.t(fn.Params[1])
	_ = num
	if len(c.loops) > 0 {
		r.Count("slash_check_left_open", 1)
		return
	}
	slash := func(t *term) bool {
		if n, ok := t.intConst(); ok {
			return n == '/'
		}
		s, ok := t.strConst()
		return ok && s == "/"
	}
	finds := func(t *term) bool {
		return t.op == "call" && (strings.HasPrefix(t.sym, "strings.Index") || strings.HasPrefix(t.sym, "strings.LastIndex")) && len(t.args) == 2 && slash(t.args[1])
	}
	open, ways := false, 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok && ci.Call.StaticCallee() != nil {
				n := extName(ci.Call.StaticCallee())
				if strings.HasPrefix(n, "strings.") {
					switch n {
					case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.Contains", "strings.ContainsRune", "strings.Count":
					default:
						open = true
					}
				}
			}
		}
	}
	if open {
		r.Count("slash_check_left_open", 1)
		return
	}
	for _, rc := range c.cases(0, "false") {
		ways++
		good, bad := e.entails(rc.w, func(cn *canoniser) bool {
			written, cc, fewer := false, false, false
			for l, v := range ordered(cn.w.lits) {
				switch {
				case l.op == "lt" && v && l.args[1] == e.zero && finds(l.args[0]), l.op == "eq" && v && (finds(l.args[0]) && isNum(l.args[1], -1) || finds(l.args[1]) && isNum(l.args[0], -1)):
					f := l.args[0]
					if !finds(f) {
						f = l.args[1]
					}
					h := f.args[0]
					if h == cand {
						return true
					}
					// behind the first slash
					if h.op == "slice" && h.args[0] == cand {
						if k := e.arith("-", h.args[1], e.one); finds(k) && k.args[0] == cand && strings.HasPrefix(k.sym, "strings.Index") {
							return true
						}
						fewer = true
					}
				case l.op == "call" && !v && (l.sym == "strings.Contains" || l.sym == "strings.ContainsRune") && slash(l.args[1]):
					if l.args[0] == cand {
						return true
					}
					if h := l.args[0]; h.op == "slice" && h.args[0] == cand {
						if k := e.arith("-", h.args[1], e.one); finds(k) && k.args[0] == cand {
							return true
						}
						fewer = true
					}
				case l.op == "lt" || l.op == "eq":
					for i := 0; i < 2; i++ {
						a, b := l.args[i], l.args[1-i]
						if a.op == "call" && a.sym == "strings.Count" && a.args[0] == cand && slash(a.args[1]) {
							n, isC := b.intConst()
							if isC && (l.op == "lt" && v && i == 0 && n <= 2 || l.op == "lt" && !v && i == 1 && n <= 1 || l.op == "eq" && v && n <= 1) {
								return true
							}
							if isC && (l.op == "lt" && v && i == 0 && n <= 3 || l.op == "lt" && !v && i == 1 && n <= 2 || l.op == "eq" && v && n <= 2) {
								fewer = true
							}
						}
						if l.op == "eq" && v && (a.op == "get" || a.op == "fld") && strings.HasSuffix(a.sym, ".CountryCodeSource") {
							if n, isC := b.intConst(); isC && n != 20 && n != 0 {
								written = true
							}
						}
						if l.op == "eq" && v && a.op == "call" && strings.Contains(strings.ToLower(a.sym), "normalizedigits") {
							cc = true
						}
					}
				}
			}
			return written && cc && fewer
		})
		if !good {
			if os.Getenv("PHDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "BAD slash", brief(bad.String()))
			}
			r.Failf("slashes", fnName(fn), p.Pos(rc.at.Pos()), "a candidate can pass although it is not established that it has at most one slash, or two of which the first follows the calling code")
			return
		}
	}
	r.Count("ways_past_the_slash_check", ways)
	r.Ok("slashes that pass")
}

func isNum(t *term, n int64) bool {
	k, ok := t.intConst()
	return ok && k == n
}

// xRule: in the loop over the candidate, an x is passed over only as part of a carrier code that
// leads to the same number or as the sign of the extension.
func (e *engine) xRule(p *Program, r *Report, fn *ssa.Function) {
	c := e.fctx(fn)
	num, cand := c.t(fn.Params[0]), c.t(fn.Params[1])
	_ = num
	leave := func(why string) {
		r.Count("x_check_left_open", 1)
		if os.Getenv("PHDEBUG") != "" {
			fmt.Fprintln(os.Stderr, "OPEN", why)
		}
	}
	if len(c.loops) != 1 {
		leave("no single loop")
		return
	}
	var l *natLoop
	for _, x := range ordered(c.loops) {
		l = x
	}
	nsn := int64(-1)
	if mt := p.Named(modPath, "MatchType"); mt != nil {
		nsn = enumConsts(p, mt)["NSN_MATCH"]
	}
	var at *term // candidate[i]
	var idx *ssa.Phi
	for _, in := range l.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			if b, isB := ph.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
				if idx != nil {
					leave("several counters")
					return
				}
				idx = ph
			}
		}
	}
	if idx == nil {
		leave("no counter")
		return
	}
	it := c.t(idx)
	at = e.idx(cand, it)
	flow := c.run()
	seen := false
	for b := range ordered(l.blocks) {
		for _, w := range flow.in[b] {
			w.subterms(func(t *term) { seen = seen || t == at })
		}
	}
	if !seen {
		leave("characters not compared by position")
		return
	}
	// from the start, to the end
	for i, pr := range l.head.Preds {
		if !l.blocks[pr] {
			if c.t(idx.Edges[i]) != e.zero {
				r.Failf("x-characters", fnName(fn), p.Pos(idx.Pos()), "the search for x characters does not begin at the start of the candidate")
				return
			}
			continue
		}
		if len(pr.Succs) != 1 {
			leave("unusual loop")
			return
		}
		for _, w := range flow.in[pr] {
			next := e.bound(c.t(idx.Edges[i]), w)
			step, ok := e.arith("-", next, e.bound(it, w)).intConst()
			if !ok {
				leave("step unknown")
				return
			}
			good, bad := e.entails(w, func(cn *canoniser) bool {
				isX := func(t *term) (yes, no bool) {
					no = e.decidedEq(cn, t, 'x', false) && e.decidedEq(cn, t, 'X', false)
					yes = e.decidedEq(cn, t, 'x', true) || e.decidedEq(cn, t, 'X', true)
					return
				}
				_, no := isX(at)
				if no && step == 1 {
					return true
				}
				same, ext := false, false
				for l, v := range ordered(cn.w.lits) {
					if l.op != "eq" || !v {
						continue
					}
					for i := 0; i < 2; i++ {
						a, b := l.args[i], l.args[1-i]
						if a.op == "call" && strings.Contains(a.sym, "IsNumberMatch") && isNum(b, nsn) {
							same = true
						}
						if a.op == "call" && strings.Contains(strings.ToLower(a.sym), "normalizedigits") && (b.op == "get" || b.op == "fld") && strings.HasSuffix(b.sym, ".Extension") {
							ext = true
						}
					}
				}
				yes, _ := isX(e.idx(cand, e.arith("+", it, e.one)))
				if y, _ := isX(e.idx(cand, e.arith("+", e.bound(it, w), e.one))); y {
					yes = true
				}
				switch step {
				case 1:
					return ext || same
				case 2:
					return same && yes
				}
				return false
			})
			if !good {
				if os.Getenv("PHDEBUG") != "" {
					fmt.Fprintln(os.Stderr, "BAD x", step, brief(bad.String()))
				}
				r.Failf("x-characters", fnName(fn), p.Pos(pr.Instrs[0].Pos()), "an x can be passed over although it is neither part of a carrier code in front of the same number nor the sign of the extension")
				return
			}
		}
	}
	// the end: the last character may be an x
	for _, rc := range c.cases(0, "true") {
		good, _ := e.entails(rc.w, func(cn *canoniser) bool {
			last := e.arith("-", e.length(cand), e.one)
			return cn.holds(e.lt(it, last, true), false) || cn.holds(e.lt(it, e.length(cand), true), false)
		})
		if !good {
			r.Failf("x-characters", fnName(fn), p.Pos(rc.at.Pos()), "the search for x characters can end before the last character of the candidate")
			return
		}
	}
	r.Ok("x characters that pass")
}

// decidedEq: whether the term equals the character is known to be val.
func (e *engine) decidedEq(cn *canoniser, t *term, k int64, val bool) bool {
	return cn.holds(e.eq(t, e.num(k)), val)
}

var _ = constant.Int
