package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

// C19: formatting as originally written.

func init() { checks["C19"] = checkOriginal }

func checkOriginal(p *Program, r *Report) {
	r.Rule("On every path on which FormatInOriginalFormat returns, if the number has a raw text and a calling-code source: the result is the raw text itself, or it is established that the diallable characters of the result equal those of the raw text.")
	fn := p.Engine().fnNamed("FormatInOriginalFormat")
	dial := p.Engine().fnNamed("NormalizeDiallableCharsOnly")
	if fn == nil || dial == nil || len(fn.Params) < 1 {
		r.Failf("anchor", "FormatInOriginalFormat", "-", "FormatInOriginalFormat or NormalizeDiallableCharsOnly is missing")
		return
	}
	// everything but small comparison helpers stays closed
	var stop []string
	for _, g := range p.LibFuncs() {
		if fnPkgPath(g) != modPath || g.Parent() != nil || g == fn {
			continue
		}
		rs := g.Signature.Results()
		if g == dial || g.Object() != nil && g.Object().Exported() || rs.Len() != 1 || p.reaches(g, func(h *ssa.Function) bool { return h.Name() == "getMetadataForRegion" }) && !p.reaches(g, func(h *ssa.Function) bool { return h == dial }) {
			stop = append(stop, g.String())
		}
	}
	e := p.EngineStop(append([]string{"given raw text and source"}, stop...)...)
	num := e.fctx(fn).t(fn.Params[0])
	var raw0, src0 *term
	if g := e.getter1(fn.Params[0].Type(), "GetRawInput"); g != nil {
		raw0 = e.callTerm(g, []*term{num}, func(string) *term { return nil }, func() *term { return nil })
	}
	if g := e.getter1(fn.Params[0].Type(), "GetCountryCodeSource"); g != nil {
		src0 = e.callTerm(g, []*term{num}, func(string) *term { return nil }, func() *term { return nil })
	}
	if raw0 == nil || src0 == nil {
		r.Failf("anchor", "PhoneNumber", "-", "the raw text or the source of the calling code is missing")
		return
	}
	e.given = map[*ssa.Function][]*term{fn: {e.lt(e.zero, e.length(raw0), true), e.not(e.eq(src0, e.zero))}}
	c := e.fctx(fn)
	ways := 0
	var all []retCase
	var open func(rc retCase, depth int)
	open = func(rc retCase, depth int) {
		if t := rc.res[0]; t.op == "call" && depth < 4 && !e.stop[t.sym] && e.fns[t.sym] != nil && inRepo(fnPkgPath(e.fns[t.sym])) && len(e.fns[t.sym].Blocks) > 0 && len(t.args) >= len(e.fns[t.sym].Params) {
			if ws, known := e.expandAny(rc.w, t); known {
				for _, w := range ws {
					n := retCase{w, rc.res, rc.at}
					for l, v := range ordered(w.lits) {
						if l.op == "eq" && v && (l.args[0] == t || l.args[1] == t) {
							o := l.args[0]
							if o == t {
								o = l.args[1]
							}
							if _, had := rc.w.lits[l]; !had && !o.isConst() {
								n.res = []*term{o}
							}
						}
					}
					open(n, depth+1)
				}
				return
			}
		}
		all = append(all, rc)
	}
	for _, rc := range c.cases(0, "any") {
		open(rc, 0)
	}
	for _, rc := range all {
		ways++
		good, bad := e.entails(rc.w, func(cn *canoniser) bool {
			res := cn.of(rc.res[0])
			raws := map[*term]bool{raw0: true}
			for raw := range ordered(raws) {
				if cn.of(raw) == res {
					return true
				}
				ln := e.length(raw)
				if lo, hi := e.bounds(cn, ln); hi <= 0 && lo <= 0 {
					return true // no raw text
				}
			}
			if _, hi := e.bounds(cn, e.length(rc.res[0])); hi <= 0 {
				return true // nothing to return
			}
			for l, v := range ordered(cn.w.lits) {
				if l.op != "eq" || !v {
					continue
				}
				for i := 0; i < 2; i++ {
					a, b := l.args[i], l.args[1-i]
					if a.op == "call" && b.op == "call" && a.sym == dial.String() && b.sym == dial.String() && cn.of(a.args[0]) == res {
						for raw := range ordered(raws) {
							if cn.of(b.args[0]) == cn.of(raw) {
								return true
							}
						}
					}
				}
			}
			return false
		})
		if !good {
			if os.Getenv("PHDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "BAD", brief(rc.res[0].String()), brief(bad.String()))
			}
			r.Failf("digits-kept", fnName(fn), p.Pos(rc.at.Pos()), "a text is returned although it is not established that its diallable characters are those of the raw text")
			break
		}
		r.Ok("way %d of returning", ways)
	}
	r.Count("ways_to_return", ways)
	r.Require("ways_to_return", 2)
	r.Assume("formatting a number never yields the empty text (an empty formatted text is returned as it is)")
}
