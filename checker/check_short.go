package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkC10 }

const ccKey = modPath + ".PhoneNumber.CountryCode"

func unconv(t *term) *term {
	for t.op == "conv" {
		t = t.args[0]
	}
	return t
}

// regionsOf: the list is the table entry of the regions sharing the number's calling code.
func (e *engine) regionsOf(list, number *term, cn *canoniser) bool {
	for list.op == "call" && (strings.HasPrefix(list.sym, "slices.Clone") || strings.HasPrefix(list.sym, "slices.Clip")) && len(list.args) >= 1 {
		list = list.args[0]
	}
	if list.op != "lookup" || len(list.args) < 2 {
		return false
	}
	return cn.same(unconv(list.args[1]), e.mk("get", ccKey, number))
}

// sharesCode: the region is one of those sharing the number's calling code.
func (e *engine) sharesCode(cn *canoniser, region, number *term) bool {
	of := func(list *term) bool {
		return e.regionsOf(list, number, cn) || e.regionsOf(cn.of(list), number, cn)
	}
	if region.op == "elem" && of(region.args[0]) {
		return true
	}
	for l, v := range ordered(cn.w.lits) {
		if !v {
			continue
		}
		switch l.op {
		case "Member":
			if cn.same(l.args[0], region) && of(l.args[1]) {
				return true
			}
		case "eq":
			for i := 0; i < 2; i++ {
				if cn.same(l.args[i], region) && l.args[1-i].op == "elem" && of(l.args[1-i].args[0]) {
					return true
				}
			}
		}
	}
	return false
}

func checkC10(p *Program, r *Report) {
	e := p.Engine()
	r.Rule("in every way an exported short-number function can answer yes, or name a cost, the facts established on that path must include, for one and the same entry M of a metadata table other than those of ordinary numbers: M is the entry of the region asked about (or of some region), that region is listed under the number's calling code, the whole national significant number matches the pattern of the corresponding kind in M, and its length is listed for that kind where lengths are listed (for possibility: is listed in the general description)")
	r.Rule("an emergency answer requires that the candidate text does not match a pattern for plus signs, and a match of the emergency pattern of the region's entry at the start of the text (for the exact answer: of the whole text)")
	r.Rule("every way for IsEmergencyNumber to answer yes contradicts every way for ConnectsToEmergencyNumber to answer no on the same arguments")
	ordinary := map[string]bool{}
	if fn := e.fnNamed("IsValidNumber"); fn != nil {
		number := e.fctx(fn).t(fn.Params[0])
		for _, rc := range e.fctx(fn).cases(0, "true") {
			e.entails(rc.w, func(cn *canoniser) bool {
				for _, c := range e.confinements(cn, e.nsnOf(number)) {
					if tab, _ := tableOf(c.md); tab != "" && len(c.full) > 0 {
						ordinary[tab] = true
						return true
					}
				}
				return false
			})
		}
	}
	r.Count("ordinary_tables", len(ordinary))
	r.Require("ordinary_tables", 1)
	// The table of short number metadata has an entry for "" only if the
	// embedded collection has one.
	noEmpty := false
	if d := p.MetaData(); d.err == nil {
		n := len(d.short.subs["Metadata"])
		noEmpty = n > 0
		for _, m := range d.short.subs["Metadata"] {
			if m.s("Id") == "" {
				noEmpty = false
			}
		}
		r.Count("metadata_entries", n)
	}
	shortTables := map[string]bool{}
	answers, classes := 0, 0
	check := func(name, cls, what string, ok func(cn *canoniser, c *confined) bool) {
		fn := e.fnNamed(name)
		if fn == nil || fn.Blocks == nil {
			return
		}
		answers++
		c := e.fctx(fn)
		number := c.t(fn.Params[0])
		var region *term
		if len(fn.Params) > 1 {
			region = c.t(fn.Params[1])
		}
		for _, rc := range c.cases(0, cls) {
			classes++
			why := ""
			good, bad := e.entails(rc.w, func(cn *canoniser) bool {
				for _, cf := range e.confinements(cn, e.nsnOf(number)) {
					tab, key := tableOf(cf.md)
					switch {
					case tab == "":
						why = "the metadata consulted is not a table entry"
					case noEmpty && (cn.of(key) == e.str("") || cn.holds(e.eq(e.num(0), e.length(key)), true)) && cn.holds(e.eq(cf.md, e.nilT), false):
						return true // there is no entry for the empty region
					case ordinary[tab]:
						why = "the metadata consulted is that of ordinary numbers"
					case region != nil && !cn.same(key, region):
						why = "the metadata consulted is not known to be that of the region asked about"
					case !e.sharesCode(cn, key, number):
						why = "the region is not known to share the number's calling code"
					case !ok(cn, cf):
						why = fmt.Sprintf("not established: established are whole match %v, length %v", sortedKeys(cf.full), sortedKeys(cf.size))
					default:
						shortTables[tab] = true
						return true
					}
				}
				if why == "" {
					why = "no pattern of any metadata is known to match"
				}
				return false
			})
			if !good {
				if os.Getenv("PHDEBUG") != "" {
					fmt.Fprintln(os.Stderr, "BAD", name, what, brief(bad.String()))
				}
				r.Failf("short-number-conditions", fnName(fn), p.Pos(fn.Pos()), "%s can be answered although a required condition is not established: %s", what, why)
				return
			}
		}
		r.Ok("%s: %s", name, what)
	}
	general := func(c *confined) bool { return c.exact["GeneralDesc"] }
	check("IsValidShortNumberForRegion", "true", "valid", func(cn *canoniser, c *confined) bool { return c.has("GeneralDesc") && c.has("ShortCode") })
	check("IsValidShortNumber", "true", "valid", func(cn *canoniser, c *confined) bool { return c.has("ShortCode") })
	check("IsPossibleShortNumberForRegion", "true", "possible", func(cn *canoniser, c *confined) bool { return general(c) })
	check("IsPossibleShortNumber", "true", "possible", func(cn *canoniser, c *confined) bool { return general(c) })
	check("IsCarrierSpecificForRegion", "true", "carrier-specific", func(cn *canoniser, c *confined) bool { return c.has("CarrierSpecific") })
	check("IsCarrierSpecific", "true", "carrier-specific", func(cn *canoniser, c *confined) bool { return c.has("CarrierSpecific") })
	check("IsSmsServiceForRegion", "true", "SMS service", func(cn *canoniser, c *confined) bool { return c.has("SmsServices") })
	if n := p.Named(modPath, "ShortNumberCost"); n != nil {
		for name, v := range ordered(enumConsts(p, n)) {
			kind := kindName(strings.TrimSuffix(name, "_COST"))
			if strings.HasPrefix(name, "UNKNOWN") {
				continue
			}
			check("GetExpectedCostForRegion", fmt.Sprintf("=%d", v), name, func(cn *canoniser, c *confined) bool {
				if !general(c) {
					return false
				}
				if c.has(kind) {
					return true
				}
				return kind == "TollFree" && e.emergency(cn, c.md, true)
			})
			if kind == "PremiumRate" {
				check("GetExpectedCost", fmt.Sprintf("=%d", v), name, func(cn *canoniser, c *confined) bool { return general(c) && c.has(kind) })
			}
		}
	}
	r.Count("answers", answers)
	r.Require("answers", 11)

	// emergency numbers
	emer := func(name string, whole bool) *ssa.Function {
		fn := e.fnNamed(name)
		if fn == nil {
			return nil
		}
		answers++
		c := e.fctx(fn)
		text, region := c.t(fn.Params[0]), c.t(fn.Params[1])
		for _, rc := range c.cases(0, "true") {
			classes++
			why := ""
			good, bad := e.entails(rc.w, func(cn *canoniser) bool {
				if !e.noPlus(cn, text) {
					why = "the text is not known to be free of a plus sign"
					return false
				}
				for l := range ordered(cn.w.lits) {
					if md := e.emergencyOf(cn, l); md != nil {
						tab, key := tableOf(md)
						if tab != "" && !ordinary[tab] && cn.same(key, region) && e.emergency(cn, md, whole) {
							return true
						}
					}
				}
				why = "no match of the region's emergency pattern is known"
				return false
			})
			if !good {
				if os.Getenv("PHDEBUG") != "" {
					fmt.Fprintln(os.Stderr, "BAD", name, brief(bad.String()))
				}
				r.Failf("emergency-conditions", fnName(fn), p.Pos(fn.Pos()), "an emergency number can be recognised although a required condition is not established: %s", why)
				return fn
			}
		}
		r.Ok("%s: no plus sign and a match of the emergency pattern", name)
		return fn
	}
	is, conn := emer("IsEmergencyNumber", true), emer("ConnectsToEmergencyNumber", false)
	if is == nil || conn == nil {
		r.Failf("emergency-conditions", "phonenumbers", "-", "IsEmergencyNumber or ConnectsToEmergencyNumber is missing")
	} else {
		c := e.fctx(is)
		q := e.callTerm(conn, []*term{c.t(is.Params[0]), c.t(is.Params[1])}, func(string) *term { return nil }, func() *term { return nil })
		if q == nil {
			r.Failf("emergency-implies-connects", fnName(conn), p.Pos(conn.Pos()), "the function could not be analysed")
		} else {
			all := true
			for _, rc := range c.cases(0, "true") {
				for _, w := range e.assume(rc.w, q, false) {
					classes++
					if good, bad := e.entails(w, func(cn *canoniser) bool { return cn.contradictory() }); !good && all {
						all = false
						if os.Getenv("PHDEBUG") != "" {
							fmt.Fprintln(os.Stderr, "BAD implication", brief(bad.String()))
						}
						r.Failf("emergency-implies-connects", fnName(conn), p.Pos(conn.Pos()), "a text can be an emergency number without connecting to one")
					}
				}
			}
			if all {
				r.Ok("IsEmergencyNumber implies ConnectsToEmergencyNumber")
			}
		}
	}
	r.Count("path_classes", classes)
	r.Count("short_tables", len(shortTables))
}

// emergencyOf gives the metadata whose emergency pattern a fact is about.
func (e *engine) emergencyOf(cn *canoniser, l *term) *term {
	if l.op == "Full" {
		if k, md := descOf(cn.of(l.args[0]), "NationalNumberPattern"); md != nil && k == "Emergency" {
			return md
		}
	}
	if l.op == "eq" {
		for _, a := range l.args {
			if (a.op == "elem" || a.op == "idx") && a.args[0].op == "call" && strings.HasSuffix(a.args[0].sym, "FindStringIndex") && a.args[0].args[0].op == "regexp" {
				if k, md := descOf(cn.of(a.args[0].args[0].args[0]), "NationalNumberPattern"); md != nil && k == "Emergency" {
					return md
				}
			}
		}
	}
	if l.op == "call" && l.sym == "(*regexp.Regexp).MatchString" && l.args[0].op == "regexp" {
		pat := l.args[0].args[0]
		if pat.op == "cat" && len(pat.args) >= 2 {
			if k, md := descOf(cn.of(pat.args[1]), "NationalNumberPattern"); md != nil && k == "Emergency" {
				return md
			}
		}
	}
	return nil
}

// emergency: the emergency pattern of the metadata is known to match, all of the text or its start.
func (e *engine) emergency(cn *canoniser, md *term, whole bool) bool {
	for l, v := range ordered(cn.w.lits) {
		if !v || e.emergencyOf(cn, l) != md {
			continue
		}
		switch {
		case l.op == "Full":
			return true
		case whole:
		case l.op == "eq" && (l.args[0] == e.zero || l.args[1] == e.zero):
			for _, a := range l.args {
				if (a.op == "elem" || a.op == "idx") && a.args[1] == e.zero {
					return true
				}
			}
		case l.op == "call":
			if s, ok := l.args[0].args[0].args[0].strConst(); ok && strings.HasPrefix(s, "^(") {
				return true
			}
		}
	}
	return false
}

// noPlus: no plus sign is known to be in the candidate taken from the text.
func (e *engine) noPlus(cn *canoniser, text *term) bool {
	about := func(x *term) bool {
		x = cn.of(x)
		return x == text || x.op == "call" && len(x.args) >= 1 && strings.HasSuffix(x.sym, ".extractPossibleNumber") && x.args[0] == text || mentions(x, text)
	}
	got := map[rune]bool{}
	for l, v := range ordered(cn.w.lits) {
		switch {
		case l.op == "call" && !v && l.sym == "(*regexp.Regexp).MatchString" && about(l.args[1]):
			src, ok := "", false
			if l.args[0].op == "regexp" {
				src, ok = l.args[0].args[0].strConst()
			}
			if !ok {
				continue
			}
			if re, err := regexp.Compile(src); err == nil {
				for _, c := range "+＋" {
					if re.MatchString(string(c) + "1") {
						got[c] = true
					}
				}
			}
		case l.op == "call" && !v && (l.sym == "strings.HasPrefix" || l.sym == "strings.Contains" || l.sym == "strings.ContainsAny" || l.sym == "strings.ContainsRune") && about(l.args[0]):
			if s, ok := l.args[1].strConst(); ok {
				for _, c := range s {
					if l.sym == "strings.ContainsAny" || s == string(c) {
						got[c] = true
					}
				}
			} else if n, ok := l.args[1].intConst(); ok {
				got[rune(n)] = true
			}
		}
	}
	return got['+'] && got['＋']
}

// contradictory: the world says something and its opposite, up to equalities.
func (c *canoniser) contradictory() bool {
	seen := map[*term]bool{}
	for l, v := range ordered(c.w.lits) {
		x := c.of(l)
		for x.op == "not" {
			x, v = x.args[0], !v
		}
		if x == c.e.trueT || x == c.e.falseT {
			if (x == c.e.trueT) != v {
				return true
			}
			continue
		}
		if o, ok := seen[x]; ok && o != v {
			return true
		}
		seen[x] = v
	}
	return false
}
