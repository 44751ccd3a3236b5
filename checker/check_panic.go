package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: public operations never panic.

func init() { checks["C01"] = checkPanic }

func sortStrings(s []string) { sort.Strings(s) }

type panicSite struct {
	in   ssa.Instruction
	what string
	text string
	goal bgoal
}

// apiReach lists what the library's operations may run, as-you-type formatting aside.
func (b *bprover) apiReach() map[*ssa.Function]bool {
	p := b.e.p
	seen := map[*ssa.Function]bool{}
	var f func(g *ssa.Function)
	f = func(g *ssa.Function) {
		if g == nil || seen[g] || g.Blocks == nil || !inRepo(fnPkgPath(g)) || b.skip != nil && b.skip(g) {
			return
		}
		seen[g] = true
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, h := range p.Funcs {
						if h.Name() == ci.Common().Method.Name() && h.Signature.Recv() != nil && isLibraryPath(fnPkgPath(h)) {
							f(h)
						}
					}
				}
				for _, o := range in.Operands(nil) {
					if h, ok := (*o).(*ssa.Function); ok {
						f(h)
					}
				}
			}
		}
	}
	for g := range ordered(b.e.api) {
		f(g)
	}
	return seen
}

// partial lists what a function of the standard library needs of its arguments.
func (b *bprover) partial(c *fctx, x *ssa.Call) (out []panicSite) {
	e := b.e
	f := x.Call.StaticCallee()
	if f == nil || inRepo(fnPkgPath(f)) {
		return
	}
	name := extName(f)
	if i := strings.IndexByte(name, '['); i > 0 {
		name = name[:i]
	}
	arg := func(i int) lin { return e.lin(c.t(x.Call.Args[i])) }
	length := func(i int) lin { return e.lin(e.length(c.t(x.Call.Args[i]))) }
	add := func(l lin, text string) {
		out = append(out, panicSite{x, name, text, atLeastZero(e, l)})
	}
	n := len(x.Call.Args)
	switch {
	case (name == "strings.Repeat" || name == "bytes.Repeat") && n == 2:
		add(arg(1), "the count is not negative")
	case name == "slices.Insert" && n >= 2:
		add(arg(1), "the index is not negative")
		add(length(0).add(arg(1), -1), "the index is within the list")
	case (name == "slices.Delete" || name == "slices.Replace") && n >= 3:
		add(arg(1), "the start is not negative")
		add(arg(2).add(arg(1), -1), "the start is not after the end")
		add(length(0).add(arg(2), -1), "the end is within the list")
	case (name == "slices.Grow" || strings.HasSuffix(name, ".Grow")) && n == 2:
		add(arg(1), "the count is not negative")
	case (name == "slices.Min" || name == "slices.Max" || name == "slices.MinFunc" || name == "slices.MaxFunc") && n >= 1:
		add(length(0).add(konst(1), -1), "the list is not empty")
	case strings.HasPrefix(name, "(encoding/binary.") && (strings.Contains(name, ").Uint") || strings.Contains(name, ").PutUint")) && n == 2 || n == 3:
		for bits, k := range ordered(map[string]int64{"16": 2, "32": 4, "64": 8}) {
			if strings.HasPrefix(name, "(encoding/binary.") && strings.HasSuffix(name, "int"+bits) {
				add(length(1).add(konst(k), -1), "there are enough bytes")
			}
		}
	}
	return
}

func (b *bprover) panicSites(fn *ssa.Function) (out []panicSite, other []panicSite) {
	e := b.e
	c := e.fctx(fn)
	for _, s := range b.boundSites(fn) {
		for i, g := range s.goals {
			out = append(out, panicSite{s.in, s.what, s.text[i], atLeastZero(e, g)})
		}
	}
	for _, s := range b.nilSites(fn) {
		out = append(out, panicSite{s.in, s.what, "it is not nil", e.notNil(s.goal)})
	}
	never := func() bgoal { return atLeastZero(e, konst(-1)) }
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				out = append(out, b.partial(c, x)...)
				if f := x.Call.StaticCallee(); f != nil && (extName(f) == "regexp.MustCompile" || extName(f) == "regexp.MustCompilePOSIX") {
					if k, ok := x.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						if _, err := regexp.Compile(constant.StringVal(k.Value)); err == nil {
							continue
						}
					}
					other = append(other, panicSite{in, "pattern", "the pattern is valid", never()})
				}
			case *ssa.MakeSlice:
				if _, ok := x.Len.(*ssa.Const); !ok {
					out = append(out, panicSite{in, "make", "the length is not negative", atLeastZero(e, e.lin(c.t(x.Len)))})
				}
				if x.Cap != x.Len {
					if _, ok := x.Cap.(*ssa.Const); !ok {
						out = append(out, panicSite{in, "make", "the capacity is at least the length", atLeastZero(e, e.lin(c.t(x.Cap)).add(e.lin(c.t(x.Len)), -1))})
					}
				}
			case *ssa.BinOp:
				if x.Op != token.QUO && x.Op != token.REM {
					continue
				}
				if t, ok := x.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
					continue
				}
				if k, ok := x.Y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) != 0 {
					continue
				}
				d := e.lin(c.t(x.Y))
				out = append(out, panicSite{in, "division", "the divisor is not zero", bgoal{ts: []*term{e.unlin(d)}, key: "nonzero", test: func(f *factset, ts []*term) bool {
					l := e.lin(ts[0])
					return f.proves(l.add(konst(1), -1)) || f.proves(konst(-1).add(l, -1)) || f.cn.holds(e.eq(ts[0], e.zero), false)
				}}})
			case *ssa.TypeAssert:
				if !x.CommaOk {
					other = append(other, panicSite{in, "assertion", "the value has that type", never()})
				}
			case *ssa.Panic:
				out = append(out, panicSite{in, "panic", "it is never reached", never()})
			}
		}
	}
	return
}

func checkPanic(p *Program, r *Report) {
	r.Rule("Every operation that can panic and that a public operation may run - an index or slice, a use of a pointer, function, interface or map, a division, an unchecked type assertion, a call of a standard function that panics for some arguments, a pattern compiled on the way, an explicit panic - is shown to be safe from the conditions on the way to it, by cases over values and over the ways callees return, by induction over loops, over calls and over the writes to an object's unexported fields, at every call of the function up to the public operations. An obligation that cannot be shown is reported if the way it fails is plain: what is left speaks only of inputs and of functions of known meaning, and all that the path knows of these leaves room for the failure. Otherwise it is listed as left open.")
	b := p.bounder()
	e := b.e
	reach := b.apiReach()
	var fns []*ssa.Function
	for _, fn := range p.LibFuncs() {
		if reach[fn] && fn.Synthetic == "" && fn.Blocks != nil && !(p.isGenerated(fn) && !strings.HasPrefix(fn.Name(), "Get")) {
			fns = append(fns, fn)
		}
	}
	r.Count("functions that public operations run", len(fns))
	open := map[string]int{}
	for _, fn := range fns {
		sites, other := b.panicSites(fn)
		for _, s := range sites {
			kind := s.what
			if s.goal.key == "nonnil" {
				kind = "nil"
			}
			r.Count("obligations: "+kind, 1)
			q := bpoint{c: e.fctx(fn), blk: s.in.Block(), at: s.in, via: -1, lits: map[*term]bool{}}
			ok, why := b.decide(q, s.goal)
			switch {
			case ok:
				r.Ok("%s %s: %s", p.InstrPos(s.in), fnName(fn), s.text)
			case kind == "panic" && b.embeddedOnly(s.in):
				r.Ok("%s %s: only embedded data could cause it", p.InstrPos(s.in), fnName(fn))
				r.Count("panics only embedded data could cause", 1)
			case why != "" || kind == "panic":
				if why == "" {
					why = "nothing on the way to it rules it out"
				}
				r.Fail(Violation{Rule: kind, Construct: fnName(fn) + " " + s.text, Pos: p.InstrPos(s.in), Detail: fmt.Sprintf("not shown that %s for %s: %s", s.text, cut(shortTerm(s.goal.ts[0]), 200), cut(why, 400))})
			default:
				open[p.InstrPos(s.in)+" "+fnName(fn)+": "+s.text]++
			}
		}
		for _, s := range other {
			r.Count("obligations: "+s.what, 1)
			switch {
			case s.what == "pattern" && b.cachedPattern(s.in.(*ssa.Call)):
				r.Ok("%s %s: %s", p.InstrPos(s.in), fnName(fn), s.text) // from constants and embedded data only: C08
			case s.what == "assertion" && p.isGenerated(fn):
				r.Ok("%s %s: %s", p.InstrPos(s.in), fnName(fn), s.text)
			default:
				r.Fail(Violation{Rule: s.what, Construct: fnName(fn) + " " + s.text, Pos: p.InstrPos(s.in), Detail: "an operation that panics, whose success nothing guarantees"})
			}
		}
	}
	var names []string
	for k := range ordered(open) {
		names = append(names, k)
	}
	sort.Strings(names)
	r.Coverage["left open"] = names
	r.Require("functions that public operations run", 150)
	r.Require("obligations: index", 100)
	r.Require("obligations: slice", 60)
	r.Require("obligations: nil", 150)
	r.Assume("Counts of bytes and elements do not overflow.")
	r.Assume("Embedded metadata is well formed and complete: every region's description has the parts the embedded tables are found to have throughout (C22), elements of embedded lists are there, patterns from it compile.")
	r.Assume("What the protocol buffer compiler generated, other than accessors, is as safe as its runtime.")
	r.Assume("Receivers of methods, destinations of parses, functions and formatting rules given by the caller are there.")
}

func cut(s string, n int) string {
	s = strings.ReplaceAll(s, modPath+".", "")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// cachedPattern: the one place that compiles patterns on demand, for its only argument.
func (b *bprover) cachedPattern(x *ssa.Call) bool {
	return strings.HasSuffix(fnPkgPath(x.Parent()), "/regexcache")
}

// embeddedOnly: the panic depends on the failure to read embedded data: the condition before it is an
// error that comes from a call all of whose arguments are package variables or constants.
func (b *bprover) embeddedOnly(in ssa.Instruction) bool {
	blk := in.Block()
	for d := blk; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		iff, ok := d.Preds[0].Instrs[len(d.Preds[0].Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x := cmp.X
		if _, ok := x.(*ssa.Const); ok {
			x = cmp.Y
		}
		if !types.Identical(x.Type(), types.Universe.Lookup("error").Type()) {
			continue
		}
		seen := map[ssa.Value]bool{}
		var from func(v ssa.Value) bool
		from = func(v ssa.Value) bool {
			if seen[v] {
				return true
			}
			seen[v] = true
			switch v := v.(type) {
			case *ssa.Const, *ssa.Global, *ssa.Function:
				return true
			case *ssa.Extract:
				return from(v.Tuple)
			case *ssa.UnOp:
				return from(v.X)
			case *ssa.MakeInterface:
				return from(v.X)
			case *ssa.Alloc:
				return true
			case *ssa.Slice:
				return from(v.X)
			case *ssa.Call:
				for _, a := range v.Call.Args {
					if !from(a) {
						return false
					}
				}
				return true
			case *ssa.Phi:
				for _, e := range v.Edges {
					if !from(e) {
						return false
					}
				}
				return true
			}
			return false
		}
		return from(x)
	}
	return false
}
