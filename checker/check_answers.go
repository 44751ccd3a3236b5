package main

import (
	"go/constant"
	"go/types"
	"os"
	"strings"

	"fmt"

	"golang.org/x/tools/go/ssa"
)

// C18: what carrier, geocoding and timezone say about a number, and of which numbers.

func init() { checks["C18"] = checkC18 }

// constMap gives the entries of a map variable that is filled with constants when the program starts
// and never changed.
func (p *Program) constMap(g *ssa.Global) (map[string]string, bool) {
	out := map[string]string{}
	var mk ssa.Value
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr != ssa.Value(g) || fn.Name() != "init" || mk != nil {
							return nil, false
						}
						mk = x.Val
					case *ssa.UnOp:
						for _, u := range *x.Referrers() {
							switch y := u.(type) {
							case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
							case *ssa.Call:
								if bi, ok := y.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
									return nil, false
								}
							default:
								return nil, false
							}
						}
					case *ssa.DebugRef:
					default:
						return nil, false
					}
				}
			}
		}
	}
	mm, ok := mk.(*ssa.MakeMap)
	if !ok {
		return nil, false
	}
	for _, u := range *mm.Referrers() {
		switch y := u.(type) {
		case *ssa.MapUpdate:
			k, ok1 := y.Key.(*ssa.Const)
			v, ok2 := y.Value.(*ssa.Const)
			if !ok1 || k.Value == nil {
				return nil, false
			}
			val := "set"
			if ok2 && v.Value != nil {
				val = v.Value.ExactString()
			}
			out[k.Value.ExactString()] = val
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return out, true
}

// values gives which constants of an enumeration a term may be in a world.
func (e *engine) values(cn *canoniser, t *term, all map[string]int64) map[int64]bool {
	out := map[int64]bool{}
	for _, v := range ordered(all) {
		out[v] = true
	}
	only := func(ok func(v int64) bool) {
		for v := range ordered(out) {
			if !ok(v) {
				delete(out, v)
			}
		}
	}
	if n, ok := cn.of(t).intConst(); ok {
		only(func(v int64) bool { return v == n })
	}
	for l, v := range ordered(cn.w.lits) {
		switch l.op {
		case "eq":
			for i := 0; i < 2; i++ {
				if n, ok := l.args[1-i].intConst(); ok && cn.same(unconv(l.args[i]), t) {
					only(func(x int64) bool { return (x == n) == v })
				}
			}
		case "lt":
			if n, ok := l.args[1].intConst(); ok && cn.same(unconv(l.args[0]), t) {
				only(func(x int64) bool { return (x < n) == v })
			}
			if n, ok := l.args[0].intConst(); ok && cn.same(unconv(l.args[1]), t) {
				only(func(x int64) bool { return (n < x) == v })
			}
		case "lookup", "has":
			if len(l.args) != 2 || !cn.same(unconv(l.args[1]), t) || l.args[0].op != "gload" {
				break
			}
			g := e.global(strings.TrimPrefix(l.args[0].sym, "glob:"))
			if g == nil {
				break
			}
			if m, ok := e.p.constMap(g); ok {
				only(func(x int64) bool {
					val, in := m[fmt.Sprint(x)]
					if l.op == "lookup" {
						in = in && val == "true"
					}
					return in == v
				})
			}
		case "Member":
			if !v || !cn.same(unconv(l.args[0]), t) {
				break
			}
			if xs := e.listed(l.args[1]); xs != nil {
				only(func(x int64) bool { return xs[fmt.Sprint(x)] })
			}
		}
	}
	return out
}

// global finds a package-level variable by its full name.
func (e *engine) global(name string) *ssa.Global {
	for _, sp := range ordered(e.p.SPkgs) {
		for _, m := range ordered(sp.Members) {
			if g, ok := m.(*ssa.Global); ok && g.String() == name {
				return g
			}
		}
	}
	return nil
}

// listed gives the elements of a list of constants: a literal or a variable never changed.
func (e *engine) listed(list *term) map[string]bool {
	return e.constList(list)
}

// reaches: a function can call one of a set.
func (p *Program) reaches(fn *ssa.Function, target func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var f func(g *ssa.Function) bool
	f = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		if target(g) {
			return true
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, h := range p.Funcs {
						if h.Name() == ci.Common().Method.Name() && h.Signature.Recv() != nil && inRepo(fnPkgPath(h)) && f(h) {
							return true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && inRepo(fnPkgPath(h)) && f(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return f(fn)
}

func checkC18(p *Program, r *Report) {
	var stop []string
	for _, n := range []string{"GetNumberType", "GetRegionCodeForNumber", "GetRegionCodesForCountryCode", "GetRegionCodeForCountryCode", "IsValidNumberForRegion", "Format", "Parse", "GetNationalSignificantNumber", "GetCountryMobileToken"} {
		stop = append(stop, modPath+"."+n)
	}
	e := p.EngineStop(stop...)
	r.Rule("in every way a carrier function can answer with a name, the type of the number must be known to be mobile, fixed-line-or-mobile or pager, and for display the answer must contradict the number's region having mobile number portability")
	r.Rule("in every way a location or time-zone function can answer from a prefix table with more of the number than its calling code, the answer must contradict the number not being geographical (and, with a user's region, that region must be the number's); where the type may be unknown the answer must be empty, or only the unknown time zone")
	r.Rule("portability and geography themselves must follow the metadata flag of the region, and the type")
	typ := p.Named(modPath, "PhoneNumberType")
	if typ == nil {
		r.Failf("shape", "phonenumbers", "", "type PhoneNumberType is missing")
		return
	}
	kinds := enumConsts(p, typ)
	unknown, okU := kinds["UNKNOWN"]
	fn := func(pkg, name string) *ssa.Function {
		for _, f := range p.LibFuncs() {
			if f.Parent() == nil && f.Signature.Recv() == nil && f.Pkg != nil && f.Name() == name && f.Pkg.Pkg.Path() == pkg {
				return f
			}
		}
		r.Failf("shape", pkg+"."+name, "", "function %s is missing", name)
		return nil
	}
	numType, regionOf := fn(modPath, "GetNumberType"), fn(modPath, "GetRegionCodeForNumber")
	geo, portable := fn(modPath, "IsNumberGeographicalForType"), fn(modPath, "IsMobileNumberPortableRegion")
	if numType == nil || regionOf == nil || geo == nil || portable == nil || !okU {
		return
	}
	call := func(f *ssa.Function, args ...*term) *term {
		return e.callTerm(f, args, func(string) *term { return nil }, func() *term { return e.mk("call", f.String(), args...) })
	}
	ways := 0
	require := func(f *ssa.Function, rule, what string, rc retCase, ok func(cn *canoniser) bool) bool {
		ways++
		good, bad := e.entails(rc.w, ok)
		if !good {
			if os.Getenv("PHDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "BAD", fnName(f), what, rc.res, brief(bad.String()))
			}
			r.Failf(rule, fnName(f), p.Pos(rc.at.Pos()), "%s", what)
		}
		return good
	}
	never := func(cn *canoniser, q *term, val bool) bool {
		ws := e.assume(cn.w, q, val)
		for _, w := range ws {
			if !e.canon(w).contradictory() {
				return false
			}
		}
		return true
	}
	within := func(cn *canoniser, t *term, names ...string) bool {
		vs := e.values(cn, t, kinds)
		for _, n := range names {
			delete(vs, kinds[n])
		}
		return len(vs) == 0
	}

	// portability
	{
		c := e.fctx(portable)
		region := c.t(portable.Params[0])
		ok := true
		for _, rc := range c.cases(0, "false") {
			ok = ok && require(portable, "portability-flag", "a region can be reported as not portable without its metadata saying so", rc, func(cn *canoniser) bool {
				isMd := func(t *term) bool {
					_, key := tableOf(t)
					if key == nil {
						_, key = tableOf(cn.of(t))
					}
					return key != nil && cn.same(key, region)
				}
				for l, v := range ordered(cn.w.lits) {
					if l.op == "eq" && v && (l.args[0] == e.nilT && isMd(l.args[1]) || l.args[1] == e.nilT && isMd(l.args[0])) {
						return true
					}
					if !v && l.op == "get" && strings.HasSuffix(l.sym, "PhoneMetadata.MobileNumberPortableRegion") && isMd(l.args[0]) {
						return true
					}
					// regions without metadata
					if !v && (l.op == "lookup" || l.op == "has") && len(l.args) >= 2 && cn.same(l.args[1], region) && strings.Contains(l.sym, "map[string]bool") {
						return true
					}
					if l.op == "eq" && v && (l.args[0] == e.zero && l.args[1].op == "len" && cn.same(l.args[1].args[0], region)) {
						return true
					}
				}
				return false
			})
		}
		if ok {
			r.Ok("IsMobileNumberPortableRegion")
		}
	}
	// geography
	{
		c := e.fctx(geo)
		t, cc := c.t(geo.Params[0]), c.t(geo.Params[1])
		ok := true
		for _, rc := range c.cases(0, "true") {
			ok = ok && require(geo, "geographical-types", "a number can be reported as geographical although its type is not known to be fixed-line, fixed-line-or-mobile or, for a listed calling code, mobile", rc, func(cn *canoniser) bool {
				if within(cn, t, "FIXED_LINE", "FIXED_LINE_OR_MOBILE") {
					return true
				}
				if !within(cn, t, "FIXED_LINE", "FIXED_LINE_OR_MOBILE", "MOBILE") {
					return false
				}
				for l, v := range ordered(cn.w.lits) {
					if v && (l.op == "lookup" || l.op == "has") && len(l.args) >= 2 && cn.same(unconv(l.args[1]), cc) {
						return true
					}
					if v && l.op == "Member" && cn.same(unconv(l.args[0]), cc) {
						return true
					}
				}
				return false
			})
		}
		if ok {
			r.Ok("IsNumberGeographicalForType")
		}
	}

	table := func(f *ssa.Function) bool {
		pk := fnPkgPath(f)
		return strings.HasSuffix(pk, "/internal/prefixmapper") || strings.HasSuffix(pk, "/internal/serialize")
	}
	isNum := func(f *ssa.Function) bool {
		return len(f.Params) > 0 && strings.HasSuffix(f.Params[0].Type().String(), ".PhoneNumber")
	}
	exported := func(pkg string) []*ssa.Function {
		var out []*ssa.Function
		for _, f := range p.ExportedAPI(modPath + "/" + pkg) {
			if isNum(f) && f.Signature.Recv() == nil && p.reaches(f, table) {
				out = append(out, f)
			}
		}
		return out
	}
	answered := 0

	// carriers
	for _, f := range exported("carrier") {
		if strings.Contains(f.Name(), "ForValidNumber") {
			continue // documented to take the caller's word
		}
		answered++
		c := e.fctx(f)
		number := c.t(f.Params[0])
		ok := true
		for _, rc := range c.cases(0, "!\"\"") {
			ok = ok && require(f, "carrier-type", "a carrier can be named although the number is not known to be mobile, fixed-line-or-mobile or a pager", rc, func(cn *canoniser) bool {
				return within(cn, call(numType, number), "MOBILE", "FIXED_LINE_OR_MOBILE", "PAGER")
			})
			if strings.Contains(f.Name(), "SafeDisplay") {
				ok = ok && require(f, "carrier-portability", "a carrier can be named for display although the number's region may have mobile number portability", rc, func(cn *canoniser) bool {
					return never(cn, call(portable, call(regionOf, number)), true)
				})
			}
		}
		if ok {
			r.Ok("%s", fnName(f))
		}
	}

	// coarse: the term tells no more than the country of the number.
	ccOnly := func(t *term, number *term) bool {
		var f func(t *term) bool
		f = func(t *term) bool {
			if t == number {
				return false
			}
			if t.op == "get" && strings.HasSuffix(t.sym, "PhoneNumber.CountryCode") && t.args[0] == number {
				return true
			}
			switch t.op {
			case "op", "phi", "sk", "prev":
				return false
			}
			for _, a := range t.args {
				if !f(a) {
					return false
				}
			}
			return true
		}
		return f(t)
	}
	var coarse func(c *fctx, t *term, number *term, depth int) bool
	coarse = func(c *fctx, t *term, number *term, depth int) bool {
		if depth > 12 {
			return false
		}
		args, idx := t.args, 0
		if t.op == "res" {
			fmt.Sscanf(t.sym, "%d", &idx)
			t = t.args[0]
			args = t.args
		}
		var g *ssa.Function
		switch t.op {
		case "const", "param", "gload", "func", "glob":
			return true
		case "phi", "sk", "prev", "lookup", "ver":
			return ccOnly(t, number)
		case "op":
			switch x := c.sites[t].(type) {
			case *ssa.Call:
				g = x.Call.StaticCallee()
				if g == nil {
					return false
				}
				args = nil
				for _, a := range x.Call.Args {
					args = append(args, c.t(a))
				}
			case *ssa.Alloc:
				// a list or object made here: what is put in
				for _, v := range storedIn(x) {
					if !coarse(c, c.t(v), number, depth+1) {
						return false
					}
				}
				return true
			default:
				return false
			}
		case "call":
			g = e.fns[t.sym]
		}
		if g != nil && inRepo(fnPkgPath(g)) && p.reaches(g, table) {
			at := -1
			for i, a := range args {
				if a == number {
					at = i
				} else if !ccOnly(a, number) {
					return false
				}
			}
			if at < 0 {
				return true
			}
			// the number itself goes in: what the function does with it
			if at >= len(g.Params) || g.Blocks == nil || table(g) {
				return false
			}
			gc := e.fctx(g)
			for _, rw := range gc.returns() {
				if idx >= len(rw.res) || !coarse(gc, rw.res[idx], gc.t(g.Params[at]), depth+4) {
					return false
				}
			}
			return true
		}
		for _, a := range args {
			if !coarse(c, a, number, depth+1) {
				return false
			}
		}
		return true
	}
	// known: some term equal to t is coarse
	known := func(c *fctx, cn *canoniser, t, number *term) bool {
		if coarse(c, t, number, 0) {
			return true
		}
		for l, v := range ordered(cn.w.lits) {
			if v && l.op == "eq" {
				for i := 0; i < 2; i++ {
					if cn.same(l.args[i], t) && (coarse(c, l.args[1-i], number, 0) || coarse(c, l.args[i], number, 0)) {
						return true
					}
				}
			}
		}
		return false
	}

	for _, f := range exported("geocoding") {
		byUser := len(f.Params) > 2
		taken := strings.Contains(f.Name(), "ForValidNumber")
		if taken && !byUser {
			continue
		}
		answered++
		c := e.fctx(f)
		number := c.t(f.Params[0])
		t := call(numType, number)
		cc := e.mem("get", "metadata", nil, number)
		if g := e.getter1(numType.Params[0].Type(), "GetCountryCode"); g != nil {
			cc = call(g, number)
		}
		ok := true
		for _, rc := range c.cases(0, "!\"\"") {
			if !taken {
				ok = ok && require(f, "location-unknown", "a location can be given for a number whose type may be unknown", rc, func(cn *canoniser) bool {
					return !e.values(cn, t, kinds)[unknown]
				})
				ok = ok && require(f, "location-geographical", "a location finer than the country can be given for a number that is not known to be geographical", rc, func(cn *canoniser) bool {
					return known(c, cn, rc.res[0], number) || never(cn, call(geo, t, cc), false)
				})
			}
			if byUser {
				ok = ok && require(f, "location-region", "a location finer than the country can be given to a user of another region", rc, func(cn *canoniser) bool {
					return known(c, cn, rc.res[0], number) || cn.same(call(regionOf, number), c.t(f.Params[2]))
				})
			}
		}
		if ok {
			r.Ok("%s", fnName(f))
		}
	}

	// time zones
	tz := ""
	if o, ok := p.SPkgs[modPath+"/timezone"]; ok {
		if k, ok := o.Pkg.Scope().Lookup("Unknown").(*types.Const); ok && k.Val().Kind() == constant.String {
			tz = constant.StringVal(k.Val())
		}
	}
	if tz == "" {
		r.Failf("shape", "timezone", "", "constant timezone.Unknown is missing")
		return
	}
	var unknownOnly func(c *fctx, v ssa.Value, w *world, depth int) bool
	unknownOnly = func(c *fctx, v ssa.Value, w *world, depth int) bool {
		if depth > 4 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				return unknownOnlyCall(e, cl, x.Index, unknownOnly, depth)
			}
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil && len(x.Call.Args) == 1 && strings.HasPrefix(extName(g), "slices.Clone") {
				return unknownOnly(c, x.Call.Args[0], w, depth+1)
			}
			return unknownOnlyCall(e, x, 0, unknownOnly, depth)
		case *ssa.Slice:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			arr, ok := deref(al.Type()).Underlying().(*types.Array)
			if !ok || arr.Len() != 1 {
				return false
			}
			vs := storedIn(al)
			if len(vs) != 1 {
				return false
			}
			s, ok := c.t(vs[0]).strConst()
			return ok && s == tz
		case *ssa.Phi:
			pt := c.t(x)
			for _, ed := range x.Edges {
				if b := w.bind[pt]; b != nil && b != e.bound(c.t(ed), w) {
					continue
				}
				if !unknownOnly(c, ed, w, depth+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, f := range exported("timezone") {
		if strings.Contains(f.Name(), "ForGeographicalNumber") {
			continue
		}
		answered++
		c := e.fctx(f)
		number := c.t(f.Params[0])
		t := call(numType, number)
		cc := e.nilT
		if g := e.getter1(numType.Params[0].Type(), "GetCountryCode"); g != nil {
			cc = call(g, number)
		}
		ok := true
		for _, rc := range c.cases(0, "any") {
			if rc.res[0] == e.nilT {
				continue
			}
			ok = ok && require(f, "zone-unknown", "time zones other than the unknown one can be given for a number whose type may be unknown", rc, func(cn *canoniser) bool {
				return !e.values(cn, t, kinds)[unknown] || unknownOnly(c, rc.at.Results[0], rc.w, 0)
			})
			ok = ok && require(f, "zone-geographical", "time zones finer than the country's can be given for a number that is not known to be geographical", rc, func(cn *canoniser) bool {
				return known(c, cn, rc.res[0], number) || never(cn, call(geo, t, cc), false)
			})
		}
		if ok {
			r.Ok("%s", fnName(f))
		}
	}
	r.Count("answering_functions", answered)
	r.Count("ways_to_answer", ways)
	r.Require("answering_functions", 6)
	r.Require("ways_to_answer", 8)
}

func unknownOnlyCall(e *engine, cl *ssa.Call, idx int, f func(*fctx, ssa.Value, *world, int) bool, depth int) bool {
	g := cl.Call.StaticCallee()
	if g == nil || g.Blocks == nil || !inRepo(fnPkgPath(g)) {
		return false
	}
	gc := e.fctx(g)
	n := 0
	for _, rc := range gc.returns() {
		if idx >= len(rc.at.Results) {
			return false
		}
		n++
		if !f(gc, rc.at.Results[idx], rc.w, depth+1) {
			return false
		}
	}
	return n > 0
}

// storedIn gives the values stored in a local object or its elements.
func storedIn(al *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, u := range *al.Referrers() {
		switch y := u.(type) {
		case *ssa.Store:
			if y.Addr == ssa.Value(al) {
				out = append(out, y.Val)
			}
		case *ssa.IndexAddr:
			for _, q := range *y.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
					out = append(out, st.Val)
				}
			}
		case *ssa.FieldAddr:
			for _, q := range *y.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

// getter1 finds a method of a message type.
func (e *engine) getter1(t types.Type, name string) *ssa.Function {
	for _, f := range e.p.Funcs {
		if f.Name() == name && f.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), t) {
			return f
		}
	}
	return nil
}

// constList gives the elements of a list of constants, if it is a literal of the function at hand or
// of a variable that is assigned once.
func (e *engine) constList(list *term) map[string]bool {
	var al *ssa.Alloc
	switch list.op {
	case "arrslice":
		for _, c := range ordered(e.ctx) {
			if x, ok := c.sites[list.args[0]].(*ssa.Alloc); ok {
				al = x
			}
		}
	case "gload":
		g := e.global(strings.TrimPrefix(list.sym, "glob:"))
		if g == nil {
			return nil
		}
		for _, fn := range e.p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok || st.Addr != ssa.Value(g) {
						continue
					}
					sl, ok := st.Val.(*ssa.Slice)
					if !ok || al != nil || fn.Name() != "init" {
						return nil
					}
					if al, ok = sl.X.(*ssa.Alloc); !ok {
						return nil
					}
				}
			}
		}
	}
	if al == nil {
		return nil
	}
	out := map[string]bool{}
	for _, v := range storedIn(al) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil {
			return nil
		}
		out[k.Value.ExactString()] = true
	}
	if len(out) == 0 {
		return nil
	}
	return out
}
