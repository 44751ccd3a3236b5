package main

import (
	"fmt"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkChars }

// checkChars decides C20: what normalisation and the E.164 form write.
func checkChars(p *Program, r *Report) {
	r.Rule("The characters each result can hold are computed by abstract interpretation, through calls, buffers, tables, loops and conversions: numbers and characters as sets of ranges, texts as a fixed beginning and the set of characters that may follow, narrowed by the conditions on the way. They must lie within the documented alphabet. A character outside it that comes from code followed exactly is reported; where something is not followed the question is left open.")
	plus := iset{{'+', '+'}}
	anyText := textv("", anyRune)
	msg := func(raw *cval, national iset, cc iset) map[string]*cval {
		return map[string]*cval{
			"RawInput": raw, "NationalNumber": intv(national), "CountryCode": intv(cc),
			"Extension": anyText, "ItalianLeadingZero": intv(anyBool), "NumberOfLeadingZeros": intv(iset{{math.MinInt32, math.MaxInt32}}),
			"CountryCodeSource": intv(iset{{0, 20}}), "PreferredDomesticCarrierCode": anyText,
		}
	}
	anyCC := iset{{math.MinInt32, math.MaxInt32}}
	calling := iset{{0, math.MaxInt32}}
	keypad := iset{{'A', 'Z'}, {'a', 'z'}}.not().and(anyRune)
	type goal struct {
		fn, what string
		args     []*cval
		msg      map[string]*cval
		pre      string
		set      iset
	}
	themsg := &cval{k: "msg"}
	goals := []goal{
		{"NormalizeDigitsOnly", "digit normalisation", []*cval{anyText}, nil, "", digits},
		{"NormalizeDiallableCharsOnly", "diallable-character normalisation", []*cval{anyText}, nil, "", digits.or(plus).or(runesOfStr("*#"))},
		{"ConvertAlphaCharactersInNumber", "keypad conversion", []*cval{anyText}, nil, "", keypad},
		{"GetNationalSignificantNumber", "the national significant number", []*cval{themsg}, msg(anyText, iset{{0, maxI}}, anyCC), "", digits},
		{"Format", "the E.164 form of a number without raw text", []*cval{themsg, intv(iset{{0, 0}})}, msg(textv("", nil), iset{{0, maxI}}, calling), "+", digits},
		{"Format", "the E.164 form of a number other than zero", []*cval{themsg, intv(iset{{0, 0}})}, msg(anyText, iset{{1, maxI}}, calling), "+", digits},
	}
	if k := p.SPkgs[modPath].Const("E164"); k != nil {
		v := constVal(k.Value)
		goals[4].args[1], goals[5].args[1] = v, v
	}
	var left []string
	for _, g := range goals {
		r.Count("results", 1)
		fn := p.Func(modPath, g.fn)
		if fn == nil {
			left = append(left, g.what+": no function "+g.fn)
			continue
		}
		c := &chars{p: p, b: p.bounder(), stack: map[*ssa.Function]int{}, globs: map[string]*cval{}, made: map[string]int{}, nonneg: map[*ssa.BinOp]bool{}, tests: map[string]iset{}, msg: g.msg}
		outs, why := c.try(fn, g.args)
		r.Count("blocks interpreted", c.steps)
		r.Count("functions interpreted", len(c.stack))
		if why != "" {
			left = append(left, g.what+": "+why)
			continue
		}
		if len(outs) == 0 {
			left = append(left, g.what+": no way of returning found")
			continue
		}
		for _, o := range outs {
			v := o.vals[0]
			if v.k != "text" {
				left = append(left, g.what+": not followed to its text")
				continue
			}
			bad := ""
			rest := v.all()
			if g.pre != "" {
				if strings.HasPrefix(v.pre, g.pre) {
					rest = runesOfStr(v.pre[len(g.pre):]).or(v.set)
				} else {
					bad = fmt.Sprintf("does not begin with %q", g.pre)
				}
			}
			if x := rest.and(g.set.not()); len(x) > 0 {
				bad = strings.TrimSpace(bad + " can hold " + x.String())
			}
			switch {
			case bad == "":
				r.Ok("%s holds %q and %s", g.what, v.pre, v.set)
			case v.unk:
				left = append(left, g.what+": "+bad+", through code not followed "+strings.Join(dedup(c.cuts), ", "))
			default:
				r.Fail(Violation{Rule: "alphabet", Construct: fnName(fn), Pos: p.Pos(fn.Pos()), Detail: g.what + " " + bad})
			}
		}
	}
	r.Coverage["left open"] = left
	r.Require("results", 6)
	r.Assume("A national number is not negative, being unsigned; the functions of the standard library do what they are documented to do.")
}

func (c *chars) try(fn *ssa.Function, args []*cval) (outs []cout, why string) {
	defer func() {
		if e := recover(); e != nil {
			g, ok := e.(charsGiveUp)
			if !ok {
				panic(e)
			}
			why = g.why
		}
	}()
	return c.run(fn, args, nil, cheap{}), ""
}
