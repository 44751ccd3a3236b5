package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkGrowth }

const (
	textLimit  = 250     // longest text parsing looks at
	spaceLimit = 1 << 16 // elements a call may make beyond what it was given
)

// checkGrowth decides C13: work before the length test, space, and the growth of caches.
func checkGrowth(p *Program, r *Report) {
	r.Rule("(1) In every exported function that hands a text on to parsing, as it is, no pattern may be matched against the text or anything made of it where the text is not established to have at most 250 bytes. (2) Every size with which the library makes space (make, Repeat, Grow), and the number of rounds of every loop that adds to a text or list, must be shown to be at most a constant beyond the lengths of texts and lists at hand. (3) Whatever the library adds to a map that outlives the call must have a key made of constants and embedded data only, or be added only where embedded data is established to exist for the key; rules the caller supplies are exempt. What cannot be shown is reported if it is plain - the failing size speaks only of inputs, the key holds caller text with nothing checked about it - and is listed as left open otherwise.")
	g := &growth{p: p, r: r, b: p.wideBounder(), v: newProv(p)}
	g.lengths()
	g.spaces()
	g.caches()
	sort.Strings(g.left)
	if g.left == nil {
		g.left = []string{}
	}
	r.Coverage["left open"] = dedup(g.left)
	r.Require("texts handed on to parsing", 4)
	r.Require("sizes", 1)
	r.Require("growing loops", 4)
	r.Require("keys of lasting maps", 4)
	r.Assume("What a pattern match costs is linear in the text (Go's regexp). The packed tables read by internal/serialize are the embedded ones.")
}

type growth struct {
	p    *Program
	r    *Report
	b    *bprover
	v    *prov
	left []string
}

// ---- texts -------------------------------------------------------------------------------------

func isTextual(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Byte || b.Kind() == types.Rune || b.Info()&types.IsString != 0)
	}
	return false
}

type textParam struct {
	fn *ssa.Function
	i  int
}

func (g *growth) lengths() {
	limited := map[textParam]bool{}
	for _, fn := range g.p.LibFuncs() {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				gl, ok := u.X.(*ssa.Global)
				if !ok || gl.Name() != "ErrNumTooLong" || fn.Name() == "init" {
					continue
				}
				for i, prm := range fn.Params {
					if isTextual(prm.Type()) {
						limited[textParam{fn, i}] = true
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range g.p.LibFuncs() {
			for _, blk := range fn.Blocks {
				for _, in := range blk.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || ci.Common().StaticCallee() == nil {
						continue
					}
					for j, a := range ci.Common().Args {
						prm, ok := a.(*ssa.Parameter)
						if !ok || !limited[textParam{ci.Common().StaticCallee(), j}] {
							continue
						}
						for i, q := range fn.Params {
							if q == prm && !limited[textParam{fn, i}] {
								limited[textParam{fn, i}] = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range g.p.ExportedAPI(apiPackages...) {
		for i, prm := range fn.Params {
			if !limited[textParam{fn, i}] {
				continue
			}
			g.r.Count("texts handed on to parsing", 1)
			if bad := g.matched(fn, i, map[textParam]bool{}, nil); bad != nil {
				x := bad[len(bad)-1]
				g.r.Failf("unlimited-text", fnName(x.Parent()), g.p.InstrPos(x), "a pattern is matched against a text of any length given as %s to %s", prm.Name(), fnName(fn))
			} else {
				g.r.Ok("%s of %s is at most %d bytes where patterns are matched", prm.Name(), fnName(fn), textLimit)
			}
		}
	}
}

// matched finds the way to a match of a pattern against what is made of a parameter.
func (g *growth) matched(fn *ssa.Function, i int, seen map[textParam]bool, via []ssa.Instruction) []ssa.Instruction {
	if seen[textParam{fn, i}] || len(via) > 12 {
		return nil
	}
	seen[textParam{fn, i}] = true
	prm := fn.Params[i]
	made := map[ssa.Value]bool{prm: true}
	carries := func(t types.Type) bool {
		if isTextual(t) {
			return true
		}
		n := namedOf(deref(t))
		return n != nil && (n.Obj().Name() == "Builder" || n.Obj().Name() == "Buffer")
	}
	for ch := true; ch; {
		ch = false
		mark := func(v ssa.Value) {
			if _, c := v.(*ssa.Const); !c && !made[v] {
				made[v] = true
				ch = true
			}
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.Slice:
					if made[x.X] {
						mark(x)
					}
				case *ssa.Convert:
					if made[x.X] && isTextual(x.Type()) {
						mark(x)
					}
				case *ssa.ChangeType:
					if made[x.X] {
						mark(x)
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if made[e] {
							mark(x)
						}
					}
				case *ssa.BinOp:
					if x.Op == token.ADD && isTextual(x.Type()) && (made[x.X] || made[x.Y]) {
						mark(x)
					}
				case *ssa.Extract:
					if made[x.Tuple] && carries(x.Type()) {
						mark(x)
					}
				case *ssa.Call:
					any := false
					for _, a := range x.Call.Args {
						any = any || made[a]
					}
					if !any {
						continue
					}
					if _, tup := x.Type().(*types.Tuple); tup || carries(x.Type()) {
						mark(x)
					}
					for _, a := range x.Call.Args {
						if _, ptr := a.Type().Underlying().(*types.Pointer); ptr && carries(a.Type()) {
							mark(a)
						}
					}
				}
			}
		}
	}
	c := g.b.e.fctx(fn)
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := ci.Common().StaticCallee()
			if callee == nil {
				continue
			}
			var with []int
			for j, a := range ci.Common().Args {
				if made[a] {
					with = append(with, j)
				}
			}
			if len(with) == 0 {
				continue
			}
			isMatch := strings.HasPrefix(extName(callee), "(*regexp.Regexp).") || strings.HasPrefix(extName(callee), "regexp.Match")
			repo := inRepo(fnPkgPath(callee)) && callee.Blocks != nil
			if !isMatch && !repo {
				continue
			}
			if isTextual(prm.Type()) {
				q := bpoint{c: c, blk: blk, at: in, via: -1, lits: map[*term]bool{}, inside: true}
				if g.b.shows(q, konst(textLimit).add(g.b.e.lin(g.b.e.length(c.t(prm))), -1)) {
					continue
				}
				if remembered(prm, blk) {
					// the outcome of a comparison was put into a variable: not followed
					g.left = append(g.left, g.p.InstrPos(in)+" "+fnName(fn)+" (length of "+prm.Name()+")")
					continue
				}
			}
			way := append(via[:len(via):len(via)], in)
			if isMatch {
				return way
			}
			for _, j := range with {
				if j < len(callee.Params) {
					if bad := g.matched(callee, j, seen, way); bad != nil {
						return bad
					}
				}
			}
		}
	}
	return nil
}

// remembered tells whether a condition passed on the way to the block is a truth value put together from comparisons of
// the length of a text.
func remembered(prm *ssa.Parameter, blk *ssa.BasicBlock) bool {
	var about func(v ssa.Value, n int) bool
	about = func(v ssa.Value, n int) bool {
		if n > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.BinOp:
			return about(x.X, n+1) || about(x.Y, n+1)
		case *ssa.UnOp:
			return about(x.X, n+1)
		case *ssa.Call:
			a, ok := lenOf(x)
			return ok && a == prm
		case *ssa.Phi:
			for i, e := range x.Edges {
				if about(e, n+1) {
					return true
				}
				p := x.Block().Preds[i]
				if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && about(iff.Cond, n+1) {
					return true
				}
			}
		}
		return false
	}
	for b := blk; b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			c := iff.Cond
			if u, ok := c.(*ssa.UnOp); ok {
				c = u.X
			}
			if _, ok := c.(*ssa.Phi); ok && about(c, 0) {
				return true
			}
		}
	}
	return false
}

// ---- space -------------------------------------------------------------------------------------

// beyond is the part of a size that is not the length of something at hand.
func beyond(l lin) lin {
	out := lin{l.k, map[*term]int64{}}
	for t, k := range l.m {
		if t.op == "len" && k > 0 && k < 64 {
			continue
		}
		out.m[t] = k
	}
	return out
}

func (g *growth) spaces() {
	b := g.b
	grow := map[string]int{"strings.Repeat": 1, "bytes.Repeat": 1, "slices.Repeat": 1, "slices.Grow": 1, "(*strings.Builder).Grow": 1, "(*bytes.Buffer).Grow": 1}
	for _, fn := range g.p.LibFuncs() {
		if fn.Blocks == nil || g.p.isGenerated(fn) || fnPkgPath(fn) == modPath+"/internal/serialize" || strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		c := b.e.fctx(fn)
		check := func(in ssa.Instruction, size ssa.Value, kind string) {
			if _, ok := size.(*ssa.Const); ok {
				return
			}
			g.r.Count("sizes", 1)
			q := bpoint{c: c, blk: in.Block(), at: in, via: -1, lits: map[*term]bool{}}
			l := konst(spaceLimit).add(beyond(b.e.lin(c.t(size))), -1)
			g.bounded(q, l, "size", fn, g.p.InstrPos(in), kind+" of a size that is not bounded by the lengths of what is at hand")
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.MakeSlice:
					check(in, x.Len, "make")
					if x.Cap != x.Len {
						check(in, x.Cap, "make")
					}
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil {
						if i, ok := grow[extName(f)]; ok && i < len(x.Call.Args) {
							check(in, x.Call.Args[i], extName(f))
						}
					}
				}
			}
		}
		for head, l := range ordered(c.loops) {
			if !grows(l) || ranges(l) {
				continue
			}
			g.r.Count("growing loops", 1)
			if _, ok := b.ends(c, l); !ok {
				g.left = append(g.left, g.p.Pos(posOf(head))+" "+fnName(fn)+" (rounds)")
				continue
			}
			// one quantity that is bounded is enough
			rks := b.ranking[l]
			q := bpoint{c: c, blk: head, via: -1, lits: map[*term]bool{}}
			q.hyps = append(q.hyps, b.invariants(c, head)...)
			rk := rks[0]
			for _, other := range rks {
				if few := konst(spaceLimit).add(beyond(other), -1); len(few.m) == 0 && few.k >= 0 || b.shows(q, few) {
					rk = other
					break
				}
			}
			g.bounded(q, konst(spaceLimit).add(beyond(rk), -1), "rounds", fn, g.p.Pos(posOf(head)), "a loop adds to a text or list, for a number of rounds that is not bounded by the lengths of what is at hand")
		}
	}
}

func (g *growth) bounded(q bpoint, l lin, kind string, fn *ssa.Function, at, msg string) {
	if len(l.m) == 0 {
		if l.k >= 0 {
			g.r.Ok("%s %s: %s", at, fnName(fn), kind)
			return
		}
	}
	ok, why := g.b.decide(q, atLeastZero(g.b.e, l))
	g.b.quiet = 0
	switch {
	case ok:
		g.r.Ok("%s %s: %s", at, fnName(fn), kind)
	case why != "":
		g.r.Failf(kind, fnName(fn), at, "%s (%s)", msg, cut(why, 160))
	default:
		if os.Getenv("PHG") != "" {
			fmt.Println("open", at, fnName(fn), cut(shortTerm(g.b.e.unlin(l)), 300))
		}
		g.left = append(g.left, at+" "+fnName(fn)+" ("+kind+")")
	}
}

// grows: a round adds to a text or list.
func grows(l *natLoop) bool {
	for blk := range l.blocks {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if x.Op == token.ADD && isTextual(x.Type()) {
					return true
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					return true
				}
				if f := x.Call.StaticCallee(); f != nil && f.Signature.Recv() != nil && (strings.HasPrefix(f.Name(), "Write") || strings.HasPrefix(f.Name(), "Append")) {
					return true
				}
			}
		}
	}
	return false
}

// ---- caches ------------------------------------------------------------------------------------

// lasting: the map is held by a variable of a package or an object that is not made here.
func lasting(m ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := m.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			return true
		case *ssa.FieldAddr:
			return lastingObj(a.X, depth+1)
		case *ssa.FreeVar:
			return true
		}
	case *ssa.ChangeType:
		return lasting(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if lasting(e, depth+1) {
				return true
			}
		}
	}
	return false
}

func lastingObj(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Global, *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.FieldAddr:
		return lastingObj(x.X, depth+1)
	case *ssa.UnOp:
		return x.Op == token.MUL && lastingObj(x.X, depth+1)
	}
	return false
}

func (g *growth) caches() {
	puts := map[string]bool{"(*sync.Map).Store": true, "(*sync.Map).LoadOrStore": true, "(*sync.Map).Swap": true}
	for _, fn := range g.p.LibFuncs() {
		if fn.Blocks == nil || g.p.isGenerated(fn) || strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if lasting(x.Map, 0) {
						g.key(fn, x.Key, in, in, x.Map, 0, map[ssa.Instruction]bool{})
					}
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && puts[extName(f)] && len(x.Call.Args) > 1 {
						g.key(fn, x.Call.Args[1], in, in, nil, 0, map[ssa.Instruction]bool{})
					}
				}
			}
		}
	}
}

func plainValue(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			// a variable that is stored once
			al, ok := x.X.(*ssa.Alloc)
			if x.Op != token.MUL || !ok || al.Referrers() == nil {
				return v
			}
			var st *ssa.Store
			n := 0
			for _, u := range *al.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == al {
					st = s
					n++
				}
			}
			if n != 1 {
				return v
			}
			v = st.Val
		default:
			return v
		}
	}
}

// key judges what is added under a key at a place, looking at callers when the key is a parameter.
func (g *growth) key(fn *ssa.Function, key ssa.Value, at ssa.Instruction, sink ssa.Instruction, m ssa.Value, depth int, seen map[ssa.Instruction]bool) {
	key = plainValue(key)
	ok, other := g.present(key, at.Block())
	if ok {
		g.r.Count("keys of lasting maps", 1)
		g.r.Ok("%s: added only for what embedded data has", g.p.InstrPos(at))
		return
	}
	if prm, isP := key.(*ssa.Parameter); isP && depth < 6 && !g.v.api[fn] && !other {
		i := -1
		for j, q := range fn.Params {
			if q == prm {
				i = j
			}
		}
		if cs := g.v.callers[fn]; i >= 0 && len(cs) > 0 {
			for _, ci := range cs {
				if i < len(ci.Common().Args) && !seen[ci] {
					seen[ci] = true
					g.key(ci.Parent(), ci.Common().Args[i], ci, sink, nil, depth+1, seen)
				}
			}
			return
		}
	}
	g.r.Count("keys of lasting maps", 1)
	from, unsure := map[string]bool{}, false
	sources(g.v.closed(g.v.expr(key), 0), from, &unsure)
	if os.Getenv("PHG") != "" {
		fmt.Println("key", g.p.InstrPos(at), fnName(fn), sortedNames(from), unsure, other)
	}
	switch {
	case len(from) == 0 && !unsure:
		g.r.Ok("%s: key made of constants and embedded data", g.p.InstrPos(at))
	case len(from) > 0 && !other:
		g.r.Failf("cache", fnName(fn), g.p.InstrPos(at), "what is kept at %s grows with every new %s", g.p.InstrPos(sink), strings.Join(sortedNames(from), ", "))
	default:
		g.left = append(g.left, g.p.InstrPos(at)+" "+fnName(fn)+" (key)")
	}
}

func sortedNames(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// sources lists what of a text the caller chooses.
func sources(n *pnode, out map[string]bool, unsure *bool) {
	switch n.k {
	case "arg":
		out[n.s] = true
		return
	case "unknown", "param":
		*unsure = true
		return
	case "num":
		return
	}
	for _, c := range n.kids {
		sources(c, out, unsure)
	}
}

// present: on the way to a block it is established that embedded data, or another table, has the key.
// other: something else that depends on the key is.
func (g *growth) present(key ssa.Value, blk *ssa.BasicBlock) (ok, other bool) {
	uses := func(v ssa.Value) bool { return g.uses(v, key, 0) }
	for d := blk; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		iff, isIf := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !isIf || pr.Succs[0] == pr.Succs[1] {
			continue
		}
		taken := pr.Succs[0] == d
		cond := iff.Cond
		for {
			u, is := cond.(*ssa.UnOp)
			if !is || u.Op != token.NOT {
				break
			}
			cond, taken = u.X, !taken
		}
		var val ssa.Value
		there := taken
		switch x := cond.(type) {
		case *ssa.BinOp:
			isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }
			// that it is not one value, or how long it is, leaves endlessly many keys
			if _, isConst := x.Y.(*ssa.Const); isConst && !isNil(x.Y) {
				if arr, isLen := lenOf(x.X); isLen && uses(arr) {
					short := x.Op == token.LSS && taken || x.Op == token.LEQ && taken || x.Op == token.GTR && !taken || x.Op == token.GEQ && !taken || x.Op == token.EQL && taken || x.Op == token.NEQ && !taken
					if k, _ := constant.Int64Val(constant.ToInt(x.Y.(*ssa.Const).Value)); !short || k > 8 {
						continue
					}
				}
				if plainValue(x.X) == key && (x.Op == token.EQL && !taken || x.Op == token.NEQ && taken) {
					continue
				}
			}
			switch {
			case x.Op != token.EQL && x.Op != token.NEQ:
			case isNil(x.Y):
				val = x.X
			case isNil(x.X):
				val = x.Y
			}
			if x.Op == token.EQL {
				there = !there
			}
		default:
			val = cond
		}
		if val == nil || !uses(val) {
			if uses(cond) {
				other = true
			}
			continue
		}
		val = plainValue(val)
		idx := 0
		src := val
		if ex, is := val.(*ssa.Extract); is {
			idx, src = ex.Index, ex.Tuple
		}
		switch x := src.(type) {
		case *ssa.Lookup:
			// whether the map itself has the key says nothing
			if lastingSame(x.X, blk) {
				continue
			}
			if there {
				ok = true
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			isErr := types.Identical(val.Type(), types.Universe.Lookup("error").Type())
			switch {
			case f != nil && strings.HasPrefix(extName(f), "(embed.FS)."):
				if there != isErr {
					ok = true
				}
			case f != nil && extName(f) == "(*sync.Map).Load":
			case f != nil && inRepo(fnPkgPath(f)) && reads(f):
			default:
				_ = idx
				other = true
			}
		default:
			other = true
		}
	}
	return
}

// reads: the function looks a key up in a lasting map and nothing else depends on it.
func reads(f *ssa.Function) bool {
	for _, blk := range f.Blocks {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.Lookup:
				if !lasting(x.X, 0) {
					return false
				}
			case *ssa.MapUpdate, *ssa.MakeMap:
				return false
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g == nil || fnPkgPath(g) != "sync" {
					return false
				}
			}
		}
	}
	return true
}

// lastingSame: the map looked at is the one something is added to in the block.
func lastingSame(m ssa.Value, blk *ssa.BasicBlock) bool {
	same := func(a, b ssa.Value) bool {
		if a == b {
			return true
		}
		x, ok1 := a.(*ssa.UnOp)
		y, ok2 := b.(*ssa.UnOp)
		if !ok1 || !ok2 {
			return false
		}
		if x.X == y.X {
			return true
		}
		fx, ok1 := x.X.(*ssa.FieldAddr)
		fy, ok2 := y.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fx.Field == fy.Field && types.Identical(fx.X.Type(), fy.X.Type())
	}
	for _, in := range blk.Instrs {
		if mu, ok := in.(*ssa.MapUpdate); ok && same(mu.Map, m) {
			return true
		}
	}
	return false
}

// uses: the value is computed from the key.
func (g *growth) uses(v, key ssa.Value, depth int) bool {
	v = plainValue(v)
	if v == key {
		return true
	}
	if _, c := key.(*ssa.Const); c || depth > 8 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if _, phi := v.(*ssa.Phi); phi && depth > 4 {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && g.uses(*o, key, depth+1) {
			return true
		}
	}
	return false
}
