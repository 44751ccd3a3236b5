package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkDestination }

// checkDestination decides C11 by a must-definedness analysis of the destination message's fields.
func checkDestination(p *Program, r *Report) {
	r.Rule("For every exported function that fills a number message passed by the caller and reports an error: on every path to a successful return each field of the message has been assigned (or the message reset) in this call, and no field is read before that, so nothing of the earlier contents can survive or influence the result.")
	obj := p.SPkgs[modPath].Pkg.Scope().Lookup("PhoneNumber")
	if obj == nil {
		r.Failf("anchor", "PhoneNumber", "-", "the message type is missing")
		return
	}
	st, ok := obj.Type().Underlying().(*types.Struct)
	if !ok {
		r.Failf("anchor", "PhoneNumber", "-", "the message type is not a struct")
		return
	}
	d := &destAnalysis{p: p, r: r, T: obj.Type(), st: st, eff: NewEffects(p), memo: map[destKey]*destSum{}}
	for i := 0; i < st.NumFields(); i++ {
		if n := st.Field(i).Name(); n != "state" && n != "sizeCache" {
			d.all |= 1 << uint(i)
		}
	}
	for _, fn := range p.ExportedAPI(modPath) {
		if errResult(fn) < 0 {
			continue
		}
		for i, q := range fn.Params {
			if !types.Identical(q.Type(), types.NewPointer(d.T)) || !d.writes(fn, i) {
				continue
			}
			r.Count("destinations", 1)
			d.top = fn
			s := d.summary(destKey{fn, i, 0}, nil)
			if miss := d.all &^ s.ok; miss != 0 {
				for _, w := range s.where {
					d.r.Failf("leftover", fnName(fn), p.Pos(fn.Pos()), "a successful return is reached with %s still holding what the caller's message held (%s)", d.names(miss), w)
				}
			} else {
				r.Ok("%s: all %d fields assigned on every successful return", fnName(fn), st.NumFields()-2)
			}
		}
	}
	r.Count("functions analysed", len(d.memo))
	r.Require("destinations", 2)
	r.Assume("proto.Reset clears every field, including unknown ones.")
}

type destKey struct {
	fn  *ssa.Function
	par int // parameter index, or -1-i for free variable i
	in  uint64
}

type destSum struct {
	any, ok uint64 // fields assigned on every return; on every successful return
	where   []string
	busy    bool
}

type destAnalysis struct {
	p    *Program
	r    *Report
	T    types.Type
	st   *types.Struct
	eff  *Effects
	all  uint64
	memo map[destKey]*destSum
	top  *ssa.Function

	// setMode asks for fields that hold something (are not nil) instead of fields assigned.
	setMode bool
}

// holdsSomething: the value stored is certainly not nil.
func holdsSomething(v ssa.Value, depth int) bool {
	if depth > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !holdsSomething(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if strings.HasPrefix(extName(g), "google.golang.org/protobuf/proto.") {
			return true
		}
		n := 0
		for _, b := range g.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
				if len(ret.Results) != 1 || !holdsSomething(ret.Results[0], depth+1) {
					return false
				}
			}
		}
		return n > 0
	}
	return false
}

// emptyText: the block is only reached when a text parameter is empty.
func emptyText(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || pr.Succs[0] == pr.Succs[1] {
			continue
		}
		truth := pr.Succs[0] == d
		cond := iff.Cond
		for {
			u, isU := cond.(*ssa.UnOp)
			if !isU || u.Op != token.NOT {
				break
			}
			cond, truth = u.X, !truth
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		k, isC := bo.Y.(*ssa.Const)
		if !isC || k.Value == nil {
			continue
		}
		par := func(v ssa.Value) bool { q, ok := v.(*ssa.Parameter); return ok && isString(q.Type()) }
		if k.Value.Kind() == constant.String {
			if constant.StringVal(k.Value) == "" && par(bo.X) && (bo.Op == token.EQL && truth || bo.Op == token.NEQ && !truth) {
				return true
			}
			continue
		}
		ln, ok := bo.X.(*ssa.Call)
		if !ok {
			continue
		}
		if bi, ok := ln.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" || !par(ln.Call.Args[0]) {
			continue
		}
		n := k.Int64()
		switch {
		case n == 0 && (bo.Op == token.EQL || bo.Op == token.LEQ) && truth, n == 0 && (bo.Op == token.NEQ || bo.Op == token.GTR) && !truth, n == 1 && bo.Op == token.LSS && truth, n == 1 && bo.Op == token.GEQ && !truth:
			return true
		}
	}
	return false
}

func (d *destAnalysis) names(m uint64) string {
	var s []string
	for i := 0; i < d.st.NumFields(); i++ {
		if m&(1<<uint(i)) != 0 {
			s = append(s, d.st.Field(i).Name())
		}
	}
	return strings.Join(s, ", ")
}

func (d *destAnalysis) writes(fn *ssa.Function, i int) bool {
	s := d.eff.Summarise(fn)
	for _, a := range ordered(s.acc) {
		if a.write && a.loc.n.root().kind == nParam && a.loc.n.root().idx == i {
			return true
		}
	}
	return false
}

// alias classifies a value: 2 certainly the destination, 1 possibly, 0 not.
func (d *destAnalysis) alias(s *Summary, par int, v ssa.Value) int {
	hit, other := false, false
	for l := range ordered(s.pts(v)) {
		n := l.n
		if par >= 0 && n.kind == nParam && n.idx == par || par < 0 && n.kind == nFree && n.idx == -1-par {
			hit = true
		} else {
			other = true
		}
	}
	switch {
	case hit && !other:
		return 2
	case hit:
		return 1
	}
	return 0
}

func (d *destAnalysis) summary(k destKey, via []string) *destSum {
	if s := d.memo[k]; s != nil {
		if s.busy {
			return &destSum{any: k.in, ok: k.in} // recursion: promise nothing
		}
		return s
	}
	sum := &destSum{busy: true}
	d.memo[k] = sum
	fn := k.fn
	es := d.eff.Summarise(fn)
	in := map[*ssa.BasicBlock]uint64{fn.Blocks[0]: k.in}
	okOf := map[ssa.Value]uint64{} // error value -> fields assigned if it is nil
	reached := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	report := false
	var anyS, okS uint64
	var where []string
	read := func(in ssa.Instruction, f uint64, st uint64, what string) {
		if report && f&^st != 0 && !d.setMode {
			d.r.Fail(Violation{Rule: "leftover-read", Construct: fnName(fn), Pos: d.p.InstrPos(in),
				Detail: what + " reads " + d.names(f&^st) + " of the destination before this call has assigned it", Path: append([]string{"reached from " + fnName(d.top)}, via...)})
		}
	}
	step := func(in ssa.Instruction, st uint64) uint64 {
		switch x := in.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), d.T) {
				if d.setMode && d.alias(es, k.par, fa.X) > 0 && !holdsSomething(x.Val, 0) {
					st &^= 1 << uint(fa.Field)
					for v := range ordered(okOf) {
						okOf[v] &^= 1 << uint(fa.Field)
					}
				} else if d.alias(es, k.par, fa.X) == 2 {
					st |= 1 << uint(fa.Field)
				}
			} else if types.Identical(deref(x.Addr.Type()), d.T) && d.alias(es, k.par, x.Addr) > 0 && d.setMode {
				st &^= d.all
			} else if types.Identical(deref(x.Addr.Type()), d.T) && d.alias(es, k.par, x.Addr) == 2 {
				st |= d.all
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), d.T) {
					if d.alias(es, k.par, fa.X) > 0 {
						read(x, d.all&(1<<uint(fa.Field)), st, "the code")
					}
				} else if types.Identical(deref(x.X.Type()), d.T) && d.alias(es, k.par, x.X) > 0 {
					read(x, d.all, st, "copying the message")
				}
			}
		case *ssa.FieldAddr:
			if types.Identical(deref(x.X.Type()), d.T) && d.alias(es, k.par, x.X) > 0 {
				for _, ref := range *x.Referrers() {
					switch y := ref.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if y.Addr != x {
							read(x, d.all, st, "taking a field's address")
						}
					default:
						read(x, d.all&(1<<uint(x.Field)), st, "taking a field's address")
					}
				}
			}
		case *ssa.Call, *ssa.Defer, *ssa.Go:
			cc := callCommon(in)
			callee := cc.StaticCallee()
			if callee != nil && inRepo(fnPkgPath(callee)) && len(callee.Blocks) > 0 {
				pars := map[int]ssa.Value{}
				for i, a := range cc.Args {
					pars[i] = a
				}
				if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
					for i, b := range mc.Bindings {
						pars[-1-i] = b
					}
				}
				for i, a := range ordered(pars) {
					al := d.alias(es, k.par, a)
					if al == 0 && i < 0 {
						// a captured variable holding the destination
						for l := range ordered(es.pts(a)) {
							if l.n.kind == nAlloc {
								for _, tgt := range ordered(l.n.edges) {
									for t := range ordered(tgt) {
										if k.par >= 0 && t.n.kind == nParam && t.n.idx == k.par {
											read(in, d.all, st, "a closure holding the destination")
										}
									}
								}
							}
						}
					}
					if al == 0 {
						continue
					}
					s := d.summary(destKey{callee, i, st}, append(append([]string{}, via...), "via "+fnName(callee)+" at "+d.p.InstrPos(in)))
					if al == 2 {
						if v, ok := in.(*ssa.Call); ok {
							if e := errResult(callee); e >= 0 {
								if d.setMode {
									st &= s.any
								}
								if callee.Signature.Results().Len() == 1 {
									okOf[v] = s.ok | st
								} else {
									for _, ref := range *v.Referrers() {
										if ex, ok := ref.(*ssa.Extract); ok && ex.Index == e {
											okOf[ex] = s.ok | st
										}
									}
								}
							}
							if d.setMode {
								st &= s.any
							}
							st |= s.any
						}
					}
				}
				return st
			}
			for _, a := range cc.Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				al := d.alias(es, k.par, a)
				if al == 0 {
					continue
				}
				name := ""
				if callee != nil {
					name = extName(callee)
				}
				if name == "google.golang.org/protobuf/proto.Reset" {
					if d.setMode {
						st &^= d.all
					} else if al == 2 {
						if _, ok := in.(*ssa.Call); ok {
							st |= d.all
						}
					}
					continue
				}
				if name == "google.golang.org/protobuf/proto.Merge" && d.setMode && len(cc.Args) == 2 {
					// takes over what a message filled elsewhere holds
					if x, ok := cc.Args[0].(*ssa.MakeInterface); ok && x.X == a && al == 2 {
						st |= d.all
						continue
					}
				}
				read(in, d.all, st, "the call "+cc.String())
			}
		case *ssa.Return:
			anyS &= st
			e := errResult(fn)
			if e < 0 {
				okS &= st
				return st
			}
			succ, ok := d.success(x.Results[e], st, okOf, 0)
			if ok && d.setMode && emptyText(x.Block()) {
				return st
			}
			if ok && !knownNonNil(x.Results[e], x.Block()) {
				okS &= succ
				if report && d.all&^succ != 0 {
					where = append(where, "returning at "+d.p.InstrPos(x))
				}
			}
		}
		return st
	}
	out := map[*ssa.BasicBlock]uint64{}
	// whenNil: the fields assigned if the chosen error is nil
	var whenNil func(v ssa.Value, depth int) uint64
	whenNil = func(v ssa.Value, depth int) uint64 {
		if m, has := okOf[v]; has {
			return m
		}
		ph, ok := v.(*ssa.Phi)
		if !ok || depth > 4 {
			if globalError(v) {
				return ^uint64(0)
			}
			return 0
		}
		m := ^uint64(0)
		for i, e := range ph.Edges {
			pr := ph.Block().Preds[i]
			if reached[pr] {
				if o, done := out[pr]; done {
					m &= whenNil(e, depth+1) | o
				}
			}
		}
		return m
	}
	flow := func() bool {
		changed := false
		anyS, okS = ^uint64(0), ^uint64(0)
		for _, b := range fn.Blocks {
			if !reached[b] {
				continue
			}
			st := in[b]
			for _, i := range b.Instrs {
				st = step(i, st)
			}
			out[b] = st
			for si, s := range b.Succs {
				o := st
				if v, isNil, ok := nilTest(b, si); ok && isNil {
					if m, has := okOf[v]; has {
						o |= m
					} else if ph, isPhi := v.(*ssa.Phi); isPhi {
						o |= whenNil(ph, 0)
					}
				}
				if !reached[s] {
					reached[s], in[s], changed = true, o, true
				} else if n := in[s] & o; n != in[s] {
					in[s], changed = n, true
				}
			}
		}
		return changed
	}
	for flow() {
	}
	report = true
	flow()
	sum.any, sum.ok, sum.where, sum.busy = anyS&d.all, okS&d.all, where, false
	if len(where) == 0 {
		sum.where = []string{"through " + fnName(fn)}
	}
	return sum
}

// success tells whether an error result can be nil and which fields are assigned then.
func (d *destAnalysis) success(v ssa.Value, st uint64, okOf map[ssa.Value]uint64, depth int) (uint64, bool) {
	if m, ok := okOf[v]; ok {
		return st | m, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return st, x.Value == nil || x.Value.Kind() == constant.Unknown
	case *ssa.Phi:
		if depth < 4 {
			res, any := ^uint64(0), false
			for _, e := range x.Edges {
				if m, ok := d.success(e, st, okOf, depth+1); ok {
					res &= m
					any = true
				}
			}
			return res, any
		}
	}
	return st, !globalError(v)
}

// knownNonNil: every path to b passes an edge on which v was found not to be nil.
func knownNonNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		for si, s := range pr.Succs {
			if s != d {
				continue
			}
			if w, isNil, ok := nilTest(pr, si); ok && w == v && !isNil && pr.Succs[0] != pr.Succs[1] {
				return true
			}
		}
	}
	return false
}
