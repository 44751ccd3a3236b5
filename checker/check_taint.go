package main

import "sort"

func init() { checks["C08"] = checkTaint }

// checkTaint decides C08: no caller text reaches pattern, template or format syntax unescaped.
func checkTaint(p *Program, r *Report) {
	r.Rule("Every argument of the library that is interpreted as a regular expression, a replacement template or a format string is traced back, through calls, fields, buffers and maps, to where its text comes from; it may come from constants, metadata and numbers, from caller text only when quoted (patterns) or with every $ doubled once per expansion (templates). Rules the caller supplies as NumberFormat messages are exempt.")
	v := newProv(p)
	sinks := v.sinks(p.LibFuncs())
	for _, s := range sinks {
		r.Count(s.kind+" sites", 1)
		need := 1
		if s.kind != "template" {
			need = -1
		}
		lifted := v.lift(s.fn, []*pnode{v.expr(s.site.Common().Args[s.arg])}, false)
		for _, l := range lifted {
			r.Count("uses in context", 1)
			bad := map[string]string{}
			taint(v.closed(l[0], 0), need, 0, false, bad)
			if len(bad) == 0 {
				r.Ok("%s %s in %s", s.kind, p.InstrPos(s.site), fnName(s.fn))
				continue
			}
			var names []string
			for n := range bad {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				r.Failf("caller-text-as-"+s.kind, fnName(s.fn), p.InstrPos(s.site), "%s is interpreted as a %s by %s", n, s.kind, s.name)
			}
		}
	}
	r.Require("pattern sites", 1)
	r.Require("template sites", 3)
	r.Require("uses in context", 20)
}
