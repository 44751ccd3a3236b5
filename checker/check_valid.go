package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = checkC09
}

const (
	metaPath = modPath + "/metadata"
	descKey  = metaPath + ".PhoneNumberDesc."
	mdKey    = metaPath + ".PhoneMetadata."
)

// descOf takes apart the pattern or the length list of a kind of number in a region's metadata.
func descOf(t *term, field string) (kind string, md *term) {
	if (t.op != "get" && t.op != "fld") || t.sym != descKey+field || len(t.args) != 1 {
		return "", nil
	}
	d := t.args[0]
	if (d.op != "fld" && d.op != "get") || !strings.HasPrefix(d.sym, mdKey) || len(d.args) != 1 {
		return "", nil
	}
	return strings.TrimPrefix(d.sym, mdKey), d.args[0]
}

// confined: for text s, the kinds of number whose pattern matches all of s and whose lengths, where
// listed, include that of s, by metadata.
type confined struct {
	md    *term
	full  map[string]bool
	size  map[string]bool
	exact map[string]bool // the length is certainly listed
}

func (e *engine) confinements(cn *canoniser, isText func(*term) bool) []*confined {
	var out []*confined
	get := func(md *term) *confined {
		for _, c := range out {
			if c.md == md {
				return c
			}
		}
		c := &confined{md, map[string]bool{}, map[string]bool{}, map[string]bool{}}
		out = append(out, c)
		return c
	}
	var ks []*term
	for l, v := range ordered(cn.w.lits) {
		if v && (l.op == "Full" || l.op == "EOM" || l.op == "Member") {
			ks = append(ks, l)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, l := range ks {
		a, b := cn.of(l.args[0]), cn.of(l.args[1])
		if l.op == "Full" {
			if k, md := descOf(a, "NationalNumberPattern"); md != nil && isText(b) {
				get(md).full[k] = true
			}
			continue
		}
		k, md := descOf(b, "PossibleLength")
		if md == nil {
			continue
		}
		sized := func(a *term) bool {
			for a.op == "conv" {
				a = a.args[0]
			}
			return a.op == "any" || a.op == "len" && (isText(a.args[0]) || isText(cn.of(a.args[0])))
		}
		if sized(a) || sized(l.args[0]) {
			get(md).size[k] = true
			if l.op == "Member" {
				get(md).exact[k] = true
			}
		}
	}
	return out
}

func (c *confined) has(kind string) bool { return c.full[kind] && c.size[kind] }

// kindName turns FIXED_LINE into FixedLine.
func kindName(s string) string {
	var b strings.Builder
	for _, p := range strings.Split(s, "_") {
		if p != "" {
			b.WriteString(p[:1] + strings.ToLower(p[1:]))
		}
	}
	return b.String()
}

// enumConsts lists the constants of a named type in a package.
func enumConsts(p *Program, typ *types.Named) map[string]int64 {
	out := map[string]int64{}
	sc := typ.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok || !types.Identical(k.Type(), typ) {
			continue
		}
		if v, ok := constant.Int64Val(k.Val()); ok {
			out[n] = v
		}
	}
	return out
}

// nsnOf recognises the national significant number of a number.
func (e *engine) nsnOf(number *term) func(*term) bool {
	f := e.fnNamed("GetNationalSignificantNumber")
	return func(t *term) bool {
		return f != nil && t.op == "call" && t.sym == f.String() && len(t.args) >= 1 && t.args[0] == number
	}
}

func tableOf(md *term) (string, *term) {
	if md.op != "lookup" || len(md.args) < 2 {
		return "", nil
	}
	return md.args[0].sym, md.args[1]
}

func checkC09(p *Program, r *Report) {
	e := p.Engine()
	r.Rule("in every way an exported function can report a type or validity, facts established on that path must include, for one and the same metadata M taken from the metadata tables: the whole national significant number matches the general pattern of M and the pattern of the reported type in M (a pattern P matches all of s only through ^(?:P)$, ^(P)$ or a match known to span 0..len), and its length is in the length list of each, or that list is empty")
	r.Rule("validity for a given region: M is looked up under that region and the number's calling code equals M's, or M is looked up under the number's calling code and the region is the non-geographical one")
	r.Rule("the pattern of a formatting rule is applied to a text, in anything that produces formatted output, only where the whole pattern is known to match that text; shown at the application or at every call leading to it")
	mainTables := map[string]bool{}
	worlds := 0
	check := func(fn *ssa.Function, number *term, cls, what string, ok func(cn *canoniser, c *confined) bool) {
		ws := e.fctx(fn).cases(0, cls)
		pos := p.Pos(fn.Pos())
		for _, w := range ws {
			worlds++
			var best []string
			good, badW := e.entails(w.w, func(cn *canoniser) bool {
				best = nil
				for _, c := range e.confinements(cn, e.nsnOf(number)) {
					best = append(best, fmt.Sprintf("whole match: %v, length: %v", sortedKeys(c.full), sortedKeys(c.size)))
					if tab, _ := tableOf(c.md); tab == "" {
						continue
					} else if ok(cn, c) {
						mainTables[tab] = true
						return true
					}
				}
				return false
			})
			if !good {
				if os.Getenv("PHDEBUG") != "" {
					fmt.Fprintln(os.Stderr, "BAD", what, brief(badW.String()))
				}
				r.Failf("complete-match", fnName(fn), pos, "%s can be reported although not all of the required conditions are established on the path (established per metadata: %v)", what, best)
				return
			}
		}
		r.Ok("%s: %s only after complete matches (%d path classes)", fnName(fn), what, len(ws))
	}
	md := p.Named(metaPath, "PhoneMetadata")
	kinds := map[string]bool{}
	if md != nil {
		st := md.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if n := namedOf(deref(st.Field(i).Type())); n != nil && n.Obj().Name() == "PhoneNumberDesc" {
				kinds[st.Field(i).Name()] = true
			}
		}
	}
	typed := 0
	for _, fn := range p.ExportedAPI(modPath) {
		sig := fn.Signature
		if sig.Recv() != nil || sig.Params().Len() < 1 || sig.Results().Len() != 1 || !isNamed(deref(sig.Params().At(0).Type()), modPath, "PhoneNumber") {
			continue
		}
		n := namedOf(sig.Results().At(0).Type())
		if n == nil || n.Obj().Name() != "PhoneNumberType" {
			continue
		}
		number := e.fctx(fn).t(fn.Params[0])
		for name, v := range ordered(enumConsts(p, n)) {
			kind := kindName(name)
			switch {
			case name == "UNKNOWN":
				continue
			case kinds[kind]:
				check(fn, number, fmt.Sprintf("=%d", v), name, func(cn *canoniser, c *confined) bool { return c.has("GeneralDesc") && c.has(kind) })
			case name == "FIXED_LINE_OR_MOBILE":
				check(fn, number, fmt.Sprintf("=%d", v), name, func(cn *canoniser, c *confined) bool {
					same := cn.holds(e.mk("get", mdKey+"SameMobileAndFixedLinePattern", c.md), true)
					return c.has("GeneralDesc") && (c.has("FixedLine") && c.has("Mobile") || same && (c.has("FixedLine") || c.has("Mobile")))
				})
			default:
				r.Failf("types", fnName(fn), p.Pos(fn.Pos()), "the type %s has no kind of number in the metadata", name)
			}
			typed++
		}
	}
	r.Count("type_results", typed)
	r.Require("type_results", 11)
	// nothing but the listed types may be returned: other values count as a type too
	anyKind := func(c *confined) bool {
		if !c.has("GeneralDesc") {
			return false
		}
		for k := range ordered(kinds) {
			if k != "GeneralDesc" && c.has(k) {
				return true
			}
		}
		return false
	}
	valid := 0
	if fn := e.fnNamed("IsValidNumber"); fn != nil {
		valid++
		check(fn, e.fctx(fn).t(fn.Params[0]), "true", "valid", func(cn *canoniser, c *confined) bool { return anyKind(c) })
	}
	if fn := e.fnNamed("IsValidNumberForRegion"); fn != nil {
		valid++
		number, region := e.fctx(fn).t(fn.Params[0]), e.fctx(fn).t(fn.Params[1])
		cc := e.mk("get", modPath+".PhoneNumber.CountryCode", number)
		check(fn, number, "true", "valid for the region", func(cn *canoniser, c *confined) bool {
			if !anyKind(c) {
				return false
			}
			_, key := tableOf(c.md)
			for key.op == "conv" {
				key = key.args[0]
			}
			if cn.same(key, region) {
				return cn.holds(e.eq(cc, e.mk("get", mdKey+"CountryCode", c.md)), true)
			}
			return cn.same(key, cc) && cn.holds(e.eq(region, e.gloadOrConst("REGION_CODE_FOR_NON_GEO_ENTITY")), true)
		})
	}
	r.Count("validity_functions", valid)
	r.Require("validity_functions", 2)
	r.Count("path_classes", worlds)
	r.Count("metadata_tables", len(mainTables))

	checkRuleApplication(p, r, e)
}

// gloadOrConst names the value of a package-level constant or variable of the main package.
func (e *engine) gloadOrConst(name string) *term {
	for _, pkg := range e.p.SSA.AllPackages() {
		if pkg.Pkg.Path() != modPath {
			continue
		}
		switch m := pkg.Members[name].(type) {
		case *ssa.Global:
			return e.mk("gload", "glob:"+m.String())
		case *ssa.NamedConst:
			return constTerm(e, m.Value)
		}
	}
	return e.mk("op", "missing "+name)
}

func checkRuleApplication(p *Program, r *Report, e *engine) {
	// functions that end up in formatted output
	producing := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	for _, fn := range p.ExportedAPI(modPath) {
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isString(res.At(i).Type()) {
				stack = append(stack, fn)
			}
		}
	}
	for len(stack) > 0 {
		f := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if producing[f] || !inRepo(fnPkgPath(f)) {
			continue
		}
		producing[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc := callCommon(in); cc != nil {
					if g := cc.StaticCallee(); g != nil {
						stack = append(stack, g)
					}
					if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
						stack = append(stack, mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	sites := 0
	full := func(c *fctx, cn *canoniser, ts []*term) bool {
		P := cn.of(ts[0])
		// a pattern that is not a rule's own is no application of a rule
		if _, isConst := P.strConst(); isConst {
			return true
		}
		return cn.holds(e.mk("Full", "", ts[0], ts[1]), true)
	}
	for _, fn := range p.LibFuncs() {
		if !producing[fn] {
			continue
		}
		c := e.fctx(fn)
		for _, b := range c.rpo {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil {
					continue
				}
				n := extName(f)
				if !strings.HasPrefix(n, "(*regexp.Regexp).Replace") && !strings.HasPrefix(n, "(*regexp.Regexp).Expand") {
					continue
				}
				re := c.t(call.Call.Args[0])
				if re.op != "regexp" {
					continue
				}
				P := re.args[0]
				text := c.t(call.Call.Args[1])
				if P.op == "cat" && len(P.args) == 3 {
					f0, ok0 := P.args[0].strConst()
					f2, ok2 := P.args[2].strConst()
					if ok0 && ok2 && (f0 == "^(?:" || f0 == "^(") && f2 == ")$" {
						// anchored: replaces nothing unless all of the text matches
						if isRulePattern(P.args[1]) {
							sites++
							r.Ok("%s: rule pattern anchored at both ends", p.InstrPos(in))
						}
						continue
					}
				}
				if !isRulePattern(P) {
					continue
				}
				sites++
				us := e.prove(fn, in, []*term{P, text}, full, 0, []string{fnName(fn)})
				bad := false
				for _, u := range us {
					if !producing[u.fn] {
						continue
					}
					bad = true
					r.Failf("rule-applied-to-whole-match", fnName(u.fn), p.InstrPos(u.at), "a formatting rule's pattern is applied to a text it is not known to match completely (applied at %s; %s)", p.InstrPos(in), u.why)
				}
				if !bad {
					r.Ok("%s: rule applied only where its whole pattern matches", p.InstrPos(in))
				}
			}
		}
	}
	r.Count("rule_applications", sites)
	r.Require("rule_applications", 2)
}

// isRulePattern: the term is the Pattern of a formatting rule.
func isRulePattern(t *term) bool {
	return (t.op == "get" || t.op == "fld") && t.sym == metaPath+".NumberFormat.Pattern"
}
