package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: what a parse promises.

func init() { checks["C12"] = checkParse }

func checkParse(p *Program, r *Report) {
	r.Rule("Every error value that can flow into the error result of an exported parse function is nil or the value of an exported, never reassigned error variable of the package.")
	r.Rule("On every path to a nil error the calling code and the national number of the message have been stored (not left or reset to nil).")
	r.Rule("At every place the national number is stored by parsing, the text it was read from is established to be 2 to 17 bytes long, and the leading zeros are taken from the same text.")
	r.Rule("Outside the parsing code itself, every use of the number of a parse is at a place where the error of that parse is established to be nil, or hands on both.")
	obj := p.SPkgs[modPath].Pkg.Scope().Lookup("PhoneNumber")
	if obj == nil {
		r.Failf("anchor", "PhoneNumber", "-", "the message type is missing")
		return
	}
	st, ok := obj.Type().Underlying().(*types.Struct)
	if !ok {
		r.Failf("anchor", "PhoneNumber", "-", "the message type is not a struct")
		return
	}
	ptr := types.NewPointer(obj.Type())
	var tops []*ssa.Function
	for _, fn := range p.ExportedAPI(modPath) {
		if isParser(fn) {
			tops = append(tops, fn)
		}
	}
	sort.Slice(tops, func(i, j int) bool { return tops[i].Name() < tops[j].Name() })

	// errors
	ec := &errSources{p: p, memo: map[string]bool{}, stored: p.storedGlobals()}
	for _, fn := range tops {
		r.Count("parse_functions", 1)
		before := len(ec.bad)
		ec.result(fn, errResult(fn), []string{fnName(fn)})
		for _, b := range ec.bad[before:] {
			r.Fail(b)
		}
		if len(ec.bad) == before {
			r.Ok("errors of %s", fnName(fn))
		}
	}
	r.Count("error_sources", ec.n)

	// fields
	d := &destAnalysis{p: p, r: r, T: obj.Type(), st: st, eff: NewEffects(p), memo: map[destKey]*destSum{}, setMode: true}
	for i := 0; i < st.NumFields(); i++ {
		if n := st.Field(i).Name(); n == "CountryCode" || n == "NationalNumber" {
			d.all |= 1 << uint(i)
		}
	}
	for _, fn := range tops {
		for i, q := range fn.Params {
			if !types.Identical(q.Type(), ptr) || !d.writes(fn, i) {
				continue
			}
			r.Count("destinations", 1)
			d.top = fn
			s := d.summary(destKey{fn, i, 0}, nil)
			if miss := d.all &^ s.ok; miss != 0 {
				for _, w := range s.where {
					r.Failf("unset", fnName(fn), p.Pos(fn.Pos()), "a successful return is reached without %s being set (%s)", d.names(miss), w)
				}
			} else {
				r.Ok("%s sets calling code and national number on every successful return", fnName(fn))
			}
		}
	}
	r.Assume("the text left after taking off the calling code is part of the text before it, so an empty text cannot give a national number of two digits (needed for the successful return on an empty text in the calling-code step)")

	// the parsing code
	in := map[*ssa.Function]bool{}
	var mark func(fn *ssa.Function)
	mark = func(fn *ssa.Function) {
		if in[fn] {
			return
		}
		in[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if cc := callCommon(i); cc != nil {
					if g := cc.StaticCallee(); g != nil && inRepo(fnPkgPath(g)) && len(g.Blocks) > 0 && fillsNumber(g, ptr) {
						mark(g)
					}
				}
			}
		}
	}
	for _, fn := range tops {
		mark(fn)
	}

	// lengths
	e := p.EngineStop(modPath+".isViablePhoneNumber", modPath+".maybeStripNationalPrefixAndCarrierCode", modPath+".testNumberLength", modPath+".maybeExtractCountryCode", modPath+".getMetadataForRegion", modPath+".getMetadataForRegionOrCallingCode", modPath+".GetRegionCodeForCountryCode", modPath+".maybeStripExtension", modPath+".buildNationalNumberForParsing", modPath+".checkRegionForParsing", modPath+".normalize")
	var fns []*ssa.Function
	for fn := range ordered(in) {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	stores := 0
	reach := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if reach[fn] || !inRepo(fnPkgPath(fn)) || p.isGenerated(fn) {
			return
		}
		reach[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if cc := callCommon(i); cc != nil && cc.StaticCallee() != nil {
					visit(cc.StaticCallee())
				}
			}
		}
	}
	for _, fn := range fns {
		visit(fn)
	}
	fns = nil
	for fn := range ordered(reach) {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				so, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := so.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), obj.Type()) || st.Field(fa.Field).Name() != "NationalNumber" {
					continue
				}
				if k, isC := so.Val.(*ssa.Const); isC && k.IsNil() {
					continue
				}
				stores++
				text := parsedText(so.Val, 0)
				if text == nil {
					r.Count("stores_left_open", 1)
					continue
				}
				c := e.fctx(fn)
				what := ""
				terms := []*term{c.t(text)}
				zeros := c.zerosFrom(b, ptr, st)
				for _, z := range zeros {
					terms = append(terms, c.t(z))
				}
				bad := e.prove(fn, so, terms, func(c *fctx, cn *canoniser, ts []*term) bool {
					lo, hi := e.bounds(cn, e.length(ts[0]))
					switch {
					case lo < 2:
						what = "it is not established that the text has at least 2 digits"
					case hi > 17:
						what = "it is not established that the text has at most 17 digits"
					default:
						for _, z := range ts[1:] {
							if !cn.same(z, ts[0]) {
								what = "the leading zeros are counted in another text"
								return false
							}
						}
						return true
					}
					return false
				}, 0, nil)
				for _, u := range bad {
					r.Failf("length", fnName(u.fn), p.Pos(u.at.Pos()), "a national number is stored although %s", what)
				}
				if len(bad) == 0 {
					r.Ok("length of the national number stored in %s", fnName(fn))
				}
			}
		}
	}
	r.Count("national_number_stores", stores)

	// uses
	uses := 0
	plain := p.EngineStop("*")
	for _, fn := range p.LibFuncs() {
		if in[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				g := ci.Call.StaticCallee()
				if g == nil || !in[g] || errResult(g) < 0 {
					continue
				}
				uses++
				at, why := plain.failedUse(fn, ci, ptr, in)
				if at != nil {
					at, why = e.failedUse(fn, ci, ptr, in)
				}
				if at != nil {
					r.Failf("failed-parse", fnName(fn), p.InstrPos(at), "%s", why+" (parsed at "+p.InstrPos(ci)+")")
				} else {
					r.Ok("number parsed at %s", p.InstrPos(ci))
				}
			}
		}
	}
	r.Count("internal_parses", uses)
	r.Require("parse_functions", 3)
	r.Require("destinations", 2)
	r.Require("national_number_stores", 1)
	r.Require("internal_parses", 5)
}

// fillsNumber: the function reports an error and fills or makes a number.
func fillsNumber(g *ssa.Function, ptr types.Type) bool {
	if errResult(g) < 0 {
		return false
	}
	for _, q := range g.Params {
		if types.Identical(q.Type(), ptr) {
			return true
		}
	}
	rs := g.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if types.Identical(rs.At(i).Type(), ptr) {
			return true
		}
	}
	return false
}

// ---- errors ----------------------------------------------------------------------------------

type errSources struct {
	p      *Program
	memo   map[string]bool
	stored map[*ssa.Global]bool
	bad    []Violation
	n      int
}

// storedGlobals lists the package variables assigned outside package initialisation.
func (p *Program) storedGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for _, fn := range p.LibFuncs() {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, isU := in.(*ssa.UnOp); isU && u.Op == token.MUL {
						continue
					}
					if _, isD := in.(*ssa.DebugRef); isD {
						continue
					}
					out[g] = true
				}
			}
		}
	}
	return out
}

func (s *errSources) result(fn *ssa.Function, idx int, via []string) {
	k := fmt.Sprint(fn.String(), "#", idx)
	if s.memo[k] {
		return
	}
	s.memo[k] = true
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			s.value(ret.Results[idx], fn, ret, via, map[ssa.Value]bool{})
		}
	}
}

func (s *errSources) value(v ssa.Value, fn *ssa.Function, at ssa.Instruction, via []string, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	fail := func(what string) {
		s.bad = append(s.bad, Violation{Rule: "undocumented-error", Construct: fnName(fn), Pos: s.p.InstrPos(at), Detail: "the error returned can be " + what + ", which is none of the package's documented error values", Path: via})
	}
	if knownNonNilErr(v, at.Block()) {
		// tells nothing about which error it is
		_ = v
	}
	switch x := v.(type) {
	case *ssa.Const:
		s.n++
		if x.Value != nil && x.Value.Kind() != constant.Unknown {
			fail("a constant")
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			s.n++
			switch {
			case g.Object() == nil || !g.Object().Exported() || g.Pkg == nil || g.Pkg.Pkg.Path() != modPath:
				fail("the value of " + g.RelString(nil))
			case s.stored[g]:
				fail("the value of " + g.Name() + ", which is assigned at run time")
			}
			return
		}
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			s.alloc(al, fn, at, via, seen)
			return
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok && x.Op == token.MUL {
			if al := boundTo(fv); al != nil {
				s.alloc(al, fn, at, via, seen)
				return
			}
		}
		fail("a value read from memory")
	case *ssa.Phi:
		for i, e := range x.Edges {
			if knownNilOn(e, x.Block().Preds[i], x.Block()) {
				continue
			}
			s.value(e, fn, at, via, seen)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			s.call(c, x.Index, v, fn, at, via)
			return
		}
		fail("an unknown value")
	case *ssa.Call:
		s.call(x, 0, v, fn, at, via)
	case *ssa.ChangeInterface:
		s.value(x.X, fn, at, via, seen)
	case *ssa.MakeInterface:
		s.n++
		fail("a value of type " + tstr(x.X.Type()))
	default:
		fail("an unknown value")
	}
}

func (s *errSources) alloc(al *ssa.Alloc, fn *ssa.Function, at ssa.Instruction, via []string, seen map[ssa.Value]bool) {
	var walk func(a ssa.Value)
	done := map[ssa.Value]bool{}
	walk = func(a ssa.Value) {
		if done[a] || a.Referrers() == nil {
			return
		}
		done[a] = true
		for _, u := range *a.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == a {
					s.value(u.Val, u.Parent(), u, via, seen)
				}
			case *ssa.MakeClosure:
				for i, b := range u.Bindings {
					if b == a {
						walk(u.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	walk(al)
}

// boundTo: the variable a closure captured.
func boundTo(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	for i, f := range fn.FreeVars {
		if f != fv || fn.Parent() == nil {
			continue
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					switch x := mc.Bindings[i].(type) {
					case *ssa.Alloc:
						return x
					case *ssa.FreeVar:
						return boundTo(x)
					}
				}
			}
		}
	}
	return nil
}

func (s *errSources) call(c *ssa.Call, idx int, v ssa.Value, fn *ssa.Function, at ssa.Instruction, via []string) {
	if knownNil(v, at.Block()) {
		return
	}
	g := c.Call.StaticCallee()
	if g == nil {
		if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok {
			g = mc.Fn.(*ssa.Function)
		}
	}
	if g != nil && inRepo(fnPkgPath(g)) && len(g.Blocks) > 0 {
		s.result(g, idx, append(append([]string{}, via...), "via "+fnName(g)+" at "+s.p.InstrPos(c)))
		return
	}
	s.n++
	s.bad = append(s.bad, Violation{Rule: "undocumented-error", Construct: fnName(fn), Pos: s.p.InstrPos(at), Detail: "the error returned can be the result of " + c.Call.String() + ", which is none of the package's documented error values", Path: via})
}

func knownNonNilErr(v ssa.Value, b *ssa.BasicBlock) bool { return knownNonNil(v, b) }

// knownNil: every path to b passes an edge on which v was found to be nil.
func knownNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 && knownNilOn(v, d.Preds[0], d) {
			return true
		}
	}
	return false
}

func knownNilOn(v ssa.Value, pr, b *ssa.BasicBlock) bool {
	for si, s := range pr.Succs {
		if s == b && len(pr.Succs) == 2 && pr.Succs[0] != pr.Succs[1] {
			if w, isNil, ok := nilTest(pr, si); ok && w == v && isNil {
				return true
			}
		}
	}
	return false
}

// ---- lengths ---------------------------------------------------------------------------------

const big = int64(1) << 40

// bounds: what the facts of the world say about the size of an integer.
func (e *engine) bounds(cn *canoniser, t *term) (lo, hi int64) {
	lo, hi = -big, big
	if n, ok := t.intConst(); ok {
		return n, n
	}
	if t.op == "len" {
		lo = 0
	}
	tl := e.lin(t)
	ct := map[*term]int64{}
	for x, k := range ordered(tl.m) {
		ct[cn.of(x)] += k
	}
	// x is t without its constant
	xlo, xhi := lo-tl.k, hi
	if t.op == "len" {
		xlo = 0
	} else if lo == -big {
		xlo = -big
	}
	for l, v := range ordered(cn.w.lits) {
		if l.op != "lt" && l.op != "eq" || len(l.args) < 2 {
			continue
		}
		d := e.lin(l.args[0]).add(e.lin(l.args[1]), -1)
		if len(d.m) != len(ct) {
			continue
		}
		pos, neg := true, true
		for x, k := range ordered(d.m) {
			c := ct[cn.of(x)]
			pos = pos && c == k
			neg = neg && c == -k
		}
		if !pos && !neg {
			continue
		}
		n := -d.k // x < n
		if neg {
			n = d.k // n < x
		}
		switch {
		case l.op == "eq" && v:
			xlo, xhi = max(xlo, n), min(xhi, n)
		case l.op == "eq":
			if n == xlo {
				xlo++
			}
			if n == xhi {
				xhi--
			}
		case pos && v:
			xhi = min(xhi, n-1)
		case pos:
			xlo = max(xlo, n)
		case v:
			xlo = max(xlo, n+1)
		default:
			xhi = min(xhi, n)
		}
	}
	if xlo > -big {
		lo = max(lo, xlo+tl.k)
	}
	if xhi < big {
		hi = min(hi, xhi+tl.k)
	}
	return
}

// parsedText: the text whose value as a number ends up here.
func parsedText(v ssa.Value, depth int) ssa.Value {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Alloc:
		var src ssa.Value
		for _, u := range *x.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				if src != nil {
					return nil
				}
				src = st.Val
			}
		}
		if src != nil {
			return parsedText(src, depth+1)
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			n := extName(g)
			if (strings.HasSuffix(n, "proto.Uint64") || g.Origin() != nil) && len(x.Call.Args) == 1 {
				return parsedText(x.Call.Args[0], depth+1)
			}
		}
	case *ssa.Convert:
		return parsedText(x.X, depth+1)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			if g := c.Call.StaticCallee(); g != nil {
				switch extName(g) {
				case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
					return c.Call.Args[0]
				}
			}
		}
	}
	return nil
}

// zerosFrom: the texts given in this function to what stores the number of leading zeros.
func (c *fctx) zerosFrom(b *ssa.BasicBlock, ptr types.Type, st *types.Struct) []ssa.Value {
	var out []ssa.Value
	for _, bb := range c.fn.Blocks {
		for _, in := range bb.Instrs {
			ci, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := ci.Call.StaticCallee()
			if g == nil || !inRepo(fnPkgPath(g)) || !storesField(g, ptr, st, "NumberOfLeadingZeros") {
				continue
			}
			for i, q := range g.Params {
				if isString(q.Type()) && i < len(ci.Call.Args) && (bb == b || bb.Dominates(b)) {
					out = append(out, ci.Call.Args[i])
				}
			}
		}
	}
	return out
}

func storesField(g *ssa.Function, ptr types.Type, st *types.Struct, name string) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if so, ok := in.(*ssa.Store); ok {
				if fa, ok := so.Addr.(*ssa.FieldAddr); ok && types.Identical(fa.X.Type(), ptr) && st.Field(fa.Field).Name() == name {
					if k, isC := so.Val.(*ssa.Const); !isC || !k.IsNil() {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- uses ------------------------------------------------------------------------------------

// failedUse finds a use of the number of a parse where the parse may have failed.
func (e *engine) failedUse(fn *ssa.Function, ci *ssa.Call, ptr types.Type, parsing map[*ssa.Function]bool) (ssa.Instruction, string) {
	g := ci.Call.StaticCallee()
	c := e.fctx(fn)
	var errV ssa.Value
	var nums []ssa.Value
	rs := g.Signature.Results()
	if rs.Len() == 1 {
		errV = ci
	} else {
		for _, u := range *ci.Referrers() {
			if x, ok := u.(*ssa.Extract); ok {
				if x.Index == errResult(g) {
					errV = x
				} else if types.Identical(x.Type(), ptr) {
					nums = append(nums, x)
				}
			}
		}
	}
	isDest := map[ssa.Value]bool{}
	for i, a := range ci.Call.Args {
		if i < len(g.Params) && types.Identical(g.Params[i].Type(), ptr) {
			nums = append(nums, a)
			isDest[a] = true
		}
	}
	after := reachableFrom(ci, func(in ssa.Instruction) bool {
		o, ok := in.(*ssa.Call)
		if !ok || o.Call.StaticCallee() == nil || !parsing[o.Call.StaticCallee()] {
			return false
		}
		for _, a := range o.Call.Args {
			if isDest[a] {
				return true
			}
		}
		return false
	})
	fine := func(ws []*world) bool {
		if errV == nil {
			return len(ws) == 0
		}
		q := e.eq(c.t(errV), e.nilT)
		for _, w := range ws {
			good, bad := e.entails(w, func(cn *canoniser) bool { return cn.holds(q, true) })
			if !good {
				if os.Getenv("PHDEBUG") != "" {
					fmt.Fprintln(os.Stderr, "FAILEDUSE", q, brief(bad.String()))
				}
				return false
			}
		}
		return true
	}
	for _, v := range nums {
		seen := map[ssa.Value]bool{}
		var at ssa.Instruction
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if seen[v] || at != nil || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, u := range *v.Referrers() {
				if at != nil {
					return
				}
				if u == ssa.Instruction(ci) || !after[u] {
					continue
				}
				switch x := u.(type) {
				case *ssa.DebugRef:
					continue
				case *ssa.Phi:
					for i, ed := range x.Edges {
						if ed == v {
							pr := x.Block().Preds[i]
							if !after[pr.Instrs[len(pr.Instrs)-1]] {
								continue
							}
							for k, s := range pr.Succs {
								if s == x.Block() && !fine(c.edge(pr, c.run().in[pr], k)) {
									walk(x)
								}
							}
						}
					}
					continue
				case *ssa.Store:
					if x.Addr == v && x.Val != v {
						continue // overwritten
					}
				case *ssa.BinOp:
					continue // compared with nil
				case *ssa.Return:
					both := false
					for _, q := range x.Results {
						if errV != nil && (q == errV || sameErr(q, errV)) {
							both = true
						}
					}
					if both {
						continue
					}
				}
				if !fine(c.at(u)) {
					at = u
				}
			}
		}
		walk(v)
		if at != nil {
			return at, "the number is used although the parse may have failed"
		}
	}
	return nil, ""
}

// sameErr: the value returned is the error, or the error where it is not nil.
func sameErr(q, errV ssa.Value) bool {
	if ph, ok := q.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if e == errV {
				return true
			}
		}
	}
	return false
}

// reachableFrom lists the instructions that can run after the call, up to those that stop.
func reachableFrom(ci ssa.Instruction, stop func(ssa.Instruction) bool) map[ssa.Instruction]bool {
	out := map[ssa.Instruction]bool{}
	var block func(b *ssa.BasicBlock, from int)
	seen := map[*ssa.BasicBlock]bool{}
	block = func(b *ssa.BasicBlock, from int) {
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			out[in] = true
			if in != ci && stop(in) || in == ci {
				return
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				block(s, 0)
			}
		}
	}
	for i, in := range ci.Block().Instrs {
		if in == ci {
			block(ci.Block(), i+1)
		}
	}
	return out
}
