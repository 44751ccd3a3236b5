package main

import (
	"fmt"
	"go/token"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkLoops }

// staying is the condition, as "at least zero" forms one of which holds, of going round the loop
// once more by a test.
func (c *fctx) staying(x *ssa.BinOp, stay bool) []lin {
	if _, _, ok := intBits(x.X.Type()); !ok {
		return nil
	}
	e := c.e
	a, b := e.lin(c.t(x.X)), e.lin(c.t(x.Y))
	op := x.Op
	if !stay {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	switch op {
	case token.LSS:
		return []lin{b.add(a, -1).add(konst(1), -1)}
	case token.LEQ:
		return []lin{b.add(a, -1)}
	case token.GTR:
		return []lin{a.add(b, -1).add(konst(1), -1)}
	case token.GEQ:
		return []lin{a.add(b, -1)}
	case token.NEQ:
		return []lin{a.add(b, -1), b.add(a, -1)}
	}
	return nil
}

// moves: every part of a quantity that changes in the loop changes only by what the round assigns.
func (c *fctx) moves(t *term, l *natLoop, with map[*term]*term, memo map[*term]bool) bool {
	if _, ok := with[t]; ok {
		return true
	}
	if !c.variant(t, l, memo) {
		return true
	}
	if b := c.e.defs[t]; b != nil && l.blocks[b] && (t.op == "phi" || len(t.args) == 0) {
		return false
	}
	if len(t.args) == 0 {
		return false
	}
	for _, a := range t.args {
		if !c.moves(a, l, with, memo) {
			return false
		}
	}
	return true
}

type loopExit struct {
	blk  *ssa.BasicBlock
	cond *ssa.BinOp
	stay bool
}

// exitsOf lists the tests that every round goes through and that can end the loop.
func exitsOf(l *natLoop) (every []loopExit, any bool) {
	for _, blk := range l.head.Parent().Blocks {
		if !l.blocks[blk] {
			continue
		}
		switch blk.Instrs[len(blk.Instrs)-1].(type) {
		case *ssa.Return, *ssa.Panic:
			any = true
		}
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok || l.blocks[blk.Succs[0]] == l.blocks[blk.Succs[1]] {
			continue
		}
		any = true
		dom := true
		for _, p := range l.head.Preds {
			if l.blocks[p] && !blk.Dominates(p) {
				dom = false
			}
		}
		if !dom {
			continue
		}
		cond, stay := iff.Cond, l.blocks[blk.Succs[0]]
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, stay = u.X, !stay
		}
		if bo, ok := cond.(*ssa.BinOp); ok {
			every = append(every, loopExit{blk, bo, stay})
		}
	}
	return
}

func ranges(l *natLoop) bool {
	for _, in := range l.head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			ex, ok := iff.Cond.(*ssa.Extract)
			return ok && ex.Tuple == in.(ssa.Value) && ex.Index == 0 && l.blocks[l.head.Succs[0]] && !l.blocks[l.head.Succs[1]]
		}
	}
	return false
}

// ends shows that the loop cannot go round for ever: a quantity that every round finds at least zero
// gets smaller in every round.
func (b *bprover) ends(c *fctx, l *natLoop) (how string, ok bool) {
	if ranges(l) {
		return "goes through a text or map", true
	}
	e := b.e
	every, _ := exitsOf(l)
	memo := map[*term]bool{}
	for _, x := range every {
		for _, r := range c.staying(x.cond, x.stay) {
			if len(r.m) == 0 {
				continue
			}
			good := true
			for i, pr := range l.head.Preds {
				if !l.blocks[pr] {
					continue
				}
				with := b.onEdge(c, l.head, i)
				for t := range ordered(r.m) {
					if !c.moves(t, l, with, memo) {
						if os.Getenv("PHL") == "5" {
							fmt.Println("   ", fnName(c.fn), shortTerm(e.unlin(r)), " no ", shortTerm(t))
						}
						good = false
					}
				}
				if !good {
					break
				}
				next := e.replaceLin(r, with)
				q := bpoint{c: c, blk: pr, via: succIndex(pr, l.head, i), lits: map[*term]bool{}, inside: true}
				q.hyps = append(q.hyps, b.invariants(c, l.head)...)
				q.hyps = append(q.hyps, b.onlyDown(c, l, r, next)...)
				ok := b.shows(q, r.add(next, -1).add(konst(1), -1))
				if os.Getenv("PHL") == "5" {
					fmt.Println("   ", fnName(c.fn), shortTerm(e.unlin(r)), " -> ", shortTerm(e.unlin(next)), ok)
				}
				if ok && x.cond.Op != token.LSS && x.cond.Op != token.GTR && x.cond.Op != token.LEQ && x.cond.Op != token.GEQ {
					ok = b.shows(q, r)
				}
				if !ok {
					good = false
					break
				}
			}
			if good {
				if b.ranking == nil {
					b.ranking = map[*natLoop][]lin{}
				}
				b.ranking[l] = append(b.ranking[l], r)
				if how == "" {
					how = "each round makes " + cut(shortTerm(e.unlin(r)), 80) + " smaller, and it ends at zero"
				}
				if len(every) == 1 || !grows(l) {
					return how, true
				}
			}
		}
	}
	return how, how != ""
}

// onlyDown: a field that is nowhere made larger is, later in the round, at most what it was.
func (b *bprover) onlyDown(c *fctx, l *natLoop, r, next lin) (out []lin) {
	for x := range ordered(r.m) {
		for y := range ordered(next.m) {
			if x == y || x.op != "fld" || y.op != "fld" || x.sym != y.sym || x.args[0] != y.args[0] {
				continue
			}
			if b.neverRaised(x.sym) {
				out = append(out, b.e.lin(x).add(b.e.lin(y), -1))
			}
		}
	}
	return
}

// neverRaised: all that is ever stored in the field of an object that exists already is what it held
// less something.
func (b *bprover) neverRaised(key string) bool {
	if v, ok := b.globs["down "+key]; ok {
		return v
	}
	if b.globs == nil {
		b.globs = map[string]bool{}
	}
	good := true
	for _, fn := range b.e.p.Funcs {
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fieldKey(fa) != key {
					continue
				}
				for _, u := range *fa.Referrers() {
					switch y := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if y.Addr != ssa.Value(fa) {
							good = false
							continue
						}
						if _, made := fa.X.(*ssa.Alloc); made {
							continue
						}
						bo, ok := y.Val.(*ssa.BinOp)
						if !ok || bo.Op != token.SUB {
							good = false
							continue
						}
						k, ok := bo.Y.(*ssa.Const)
						ld, ok2 := bo.X.(*ssa.UnOp)
						if !ok || !ok2 || k.Int64() < 0 {
							good = false
							continue
						}
						fb, ok := ld.X.(*ssa.FieldAddr)
						if !ok || fieldKey(fb) != key || fb.X != fa.X {
							good = false
						}
					default:
						good = false
					}
				}
			}
		}
	}
	b.globs["down "+key] = good
	return good
}

// A round is stuck when it can leave as it was everything the tests on its way depend on: then the
// next round goes the same way.

type roundPath struct {
	lits  map[*term]bool
	next  map[*term]*term
	instr []ssa.Instruction
	bad   bool // contradictory
}

func (c *fctx) rounds(l *natLoop) (out []roundPath, all bool) {
	e := c.e
	all = true
	var walk func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool, cur map[*term]*term, lits map[*term]bool, ins []ssa.Instruction)
	walk = func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool, cur map[*term]*term, lits map[*term]bool, ins []ssa.Instruction) {
		if len(out) >= 300 {
			all = false
			return
		}
		ins = append(ins[:len(ins):len(ins)], b.Instrs...)
		for i, s := range b.Succs {
			if !l.blocks[s] {
				continue
			}
			nl := map[*term]bool{}
			for t, v := range lits {
				nl[t] = v
			}
			bad := false
			if t, v, ok := c.condOn(b, i); ok {
				t = e.replace(t, cur, map[*term]*term{})
				for t.op == "not" {
					t, v = t.args[0], !v
				}
				if t.isConst() {
					bad = v != (t == e.trueT)
				} else if o, ok := nl[t]; ok && o != v {
					bad = true
				} else {
					nl[t] = v
				}
			}
			if bad {
				continue
			}
			j := 0
			for k, p := range s.Preds {
				if p == b && (b.Succs[0] != s || i == 0 || len(b.Succs) < 2 || b.Succs[1] != s || k > 0) {
					j = k
				}
			}
			with := c.e.boundEdge(c, s, j, cur)
			if s == l.head {
				out = append(out, roundPath{lits: nl, next: with, instr: ins})
				continue
			}
			if seen[s] {
				continue
			}
			ns := map[*ssa.BasicBlock]bool{s: true}
			for x := range seen {
				ns[x] = true
			}
			nc := map[*term]*term{}
			for k, v := range cur {
				nc[k] = v
			}
			for k, v := range with {
				nc[k] = v
			}
			walk(s, ns, nc, nl, ins)
		}
	}
	walk(l.head, map[*ssa.BasicBlock]bool{l.head: true}, map[*term]*term{}, map[*term]bool{}, nil)
	return
}

// boundEdge is what meets at a block when it is entered over an edge on a path.
func (e *engine) boundEdge(c *fctx, blk *ssa.BasicBlock, i int, cur map[*term]*term) map[*term]*term {
	b := e.bounder()
	with := b.onEdge(c, blk, i)
	out := map[*term]*term{}
	memo := map[*term]*term{}
	for k, v := range ordered(with) {
		out[k] = e.replace(v, cur, memo)
	}
	return out
}

// keysIn lists the parts of a term among the given.
func keysIn(t *term, keys map[*term]*term, into map[*term]bool) {
	seen := map[*term]bool{}
	var f func(t *term)
	f = func(t *term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := keys[t]; ok {
			into[t] = true
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
}

// followed: the term is made in understood ways of what the round starts with and what never changes.
func (b *bprover) followed(c *fctx, l *natLoop, t *term, keys map[*term]*term, memo map[*term]bool, depth int) bool {
	if _, ok := keys[t]; ok {
		return true
	}
	if depth > 14 {
		return false
	}
	if !c.variant(t, l, memo) {
		return true
	}
	if t.op == "ver" {
		_, st := c.sites[t].(*ssa.Store)
		return st
	}
	switch {
	case strings.HasPrefix(t.op, "bin:"), t.op == "bin", t.op == "conv":
	case t.op == "call":
		n := t.sym
		if !modelled(n) && !(b.anyPure && pureStd(n)) && !strings.HasPrefix(n, "google.golang.org/protobuf/proto.") && !strings.HasPrefix(n, modPath) {
			return false
		}
	case t.op == "phi" || len(t.args) == 0:
		return false
	}
	for _, a := range t.args {
		if !b.followed(c, l, a, keys, memo, depth+1) {
			return false
		}
	}
	return true
}

// quietWay is a way through a function on which nothing is written and nothing not understood runs.
type quietWay struct {
	lits map[*term]bool
	rets []*term
}

func (c *fctx) quietWays() (out []quietWay) {
	if c.fn.Blocks == nil || len(c.fn.Blocks) == 0 {
		return nil
	}
	steps := 0
	var walk func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool, lits map[*term]bool)
	walk = func(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool, lits map[*term]bool) {
		steps++
		if steps > 400 || len(out) > 40 {
			return
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Panic, *ssa.RunDefers:
				return
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return
				}
			case *ssa.Return:
				w := quietWay{lits: lits}
				for _, v := range x.Results {
					w.rets = append(w.rets, c.t(v))
				}
				out = append(out, w)
				return
			}
			if w, any := c.instrWrites(in); any || len(w) > 0 {
				return
			}
			if _, ok := in.(*ssa.Store); ok {
				return
			}
		}
		for i, s := range b.Succs {
			if seen[s] || len(s.Preds) != 1 {
				continue
			}
			nl := map[*term]bool{}
			for t, v := range lits {
				nl[t] = v
			}
			if t, v, ok := c.condOn(b, i); ok {
				for t.op == "not" {
					t, v = t.args[0], !v
				}
				if t.isConst() {
					if v != (t == c.e.trueT) {
						continue
					}
				} else if o, has := nl[t]; has && o != v {
					continue
				} else {
					nl[t] = v
				}
			}
			ns := map[*ssa.BasicBlock]bool{s: true}
			for x := range seen {
				ns[x] = true
			}
			walk(s, ns, nl)
		}
	}
	walk(c.fn.Blocks[0], map[*ssa.BasicBlock]bool{c.fn.Blocks[0]: true}, map[*term]bool{})
	return
}

// calm takes the calls of a round that write memory on ways through them, where there are such, that
// write nothing: what is known of the round then includes what those ways need.
func (b *bprover) calm(c *fctx, l *natLoop, p roundPath) (roundPath, bool) {
	e := b.e
	q := roundPath{lits: p.lits, next: p.next, instr: p.instr}
	for _, in := range p.instr {
		x, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		w, any := c.instrWrites(x)
		g := x.Call.StaticCallee()
		if len(w) == 0 || any || g == nil || g.Blocks == nil || !inRepo(fnPkgPath(g)) {
			continue
		}
		var after *term
		for t, in := range c.sites {
			if in == x && t.op == "ver" {
				after = t
			}
		}
		if after == nil {
			continue
		}
		before := func(key string) *term { return c.verAt(x, key) }
		// what is read after the call is what was there before
		var back func(t *term, key string) *term
		memo := map[*term]*term{}
		back = func(t *term, key string) *term {
			if t == after {
				if key == "" {
					return t
				}
				return before(key)
			}
			if t.op == "ver" {
				return t
			}
			if r := memo[t]; r != nil {
				return r
			}
			with := map[*term]*term{}
			for _, a := range t.args {
				if n := back(a, t.sym); n != nil && n != a {
					with[a] = n
				}
			}
			r := t
			if len(with) > 0 {
				r = e.replace(t, with, map[*term]*term{})
			}
			memo[t] = r
			return r
		}
		var args []*term
		for _, a := range x.Call.Args {
			args = append(args, c.t(a))
		}
		var way *roundPath
		for _, qw := range e.fctx(g).quietWays() {
			lits := map[*term]bool{}
			bad := false
			add := func(t *term, v bool) {
				for t.op == "not" {
					t, v = t.args[0], !v
				}
				if t.isConst() {
					bad = bad || v != (t == e.trueT)
					return
				}
				if o, ok := lits[t]; ok && o != v {
					bad = true
				}
				lits[t] = v
			}
			res := map[*term]*term{}
			bind := func(v ssa.Value, r *term) {
				r = e.subst(r, g, args, before, e.mk("op", c.name+"#"+x.Name()))
				if t := c.t(v); t != r {
					res[t] = r
				}
			}
			if g.Signature.Results().Len() == 1 {
				bind(x, qw.rets[0])
			} else if x.Referrers() != nil {
				for _, u := range *x.Referrers() {
					if ex, ok := u.(*ssa.Extract); ok {
						bind(ex, qw.rets[ex.Index])
					}
				}
			}
			for t, v := range ordered(q.lits) {
				add(back(e.replace(t, res, map[*term]*term{}), ""), v)
			}
			for t, v := range ordered(qw.lits) {
				add(e.subst(t, g, args, before, e.mk("op", c.name+"#"+x.Name())), v)
			}
			if bad {
				continue
			}
			w := newWorld()
			for t, v := range lits {
				w.lits[t] = v
			}
			if e.factset(e.canon(w)).proves(konst(-1)) {
				continue
			}
			next := map[*term]*term{}
			for k, n := range ordered(q.next) {
				n = e.replace(n, res, map[*term]*term{})
				if n == after {
					key := ""
					if i := strings.LastIndexByte(k.sym, '#'); i >= 0 {
						key = k.sym[i+1:]
					}
					if m := before(key); m != nil {
						next[k] = m
						continue
					}
				}
				next[k] = back(n, "")
			}
			way = &roundPath{lits: lits, next: next, instr: q.instr}
			break
		}
		if way != nil {
			q = *way
		}
	}
	return q, true
}

// pureStd: the function of the standard library gives the same for the same.
func pureStd(n string) bool {
	for _, p := range []string{"strings.", "bytes.", "strconv.", "unicode.", "unicode/utf8.", "(*regexp.Regexp).", "slices.", "math."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// entered: what is known at the head of the loop does not say that it is never reached.
func (b *bprover) entered(c *fctx, l *natLoop) bool {
	b.quiet++
	invs := b.invariants(c, l.head)
	b.quiet--
	f := b.e.factset(b.e.canon(newWorld()))
	for _, h := range invs {
		f.atLeast(h)
	}
	return !f.proves(konst(-1))
}

// stuck finds a round that can be repeated for ever.
func (b *bprover) stuck(c *fctx, l *natLoop) string {
	e := b.e
	debug := func(a ...any) {
		if os.Getenv("PHL") == "3" {
			fmt.Println(append([]any{"   stuck?", fnName(c.fn)}, a...)...)
		}
	}
	paths, all := c.rounds(l)
	if !all {
		return ""
	}
	b.quiet++
	invs := b.invariants(c, l.head)
	b.quiet--
nextPath:
	for _, p := range paths {
		memo := map[*term]bool{}
		for _, in := range p.instr {
			switch x := in.(type) {
			case *ssa.Next:
				r, ok := x.Iter.(*ssa.Range)
				if !ok || !l.blocks[r.Block()] {
					continue nextPath
				}
			case *ssa.Select, *ssa.Send, *ssa.Go, *ssa.Defer:
				continue nextPath
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					continue nextPath
				}
			}
		}
		p, ok := b.calm(c, l, p)
		if !ok {
			debug("calls contradict")
			continue nextPath
		}
		need := map[*term]bool{}
		for t := range ordered(p.lits) {
			b.anyPure = true
			known := b.followed(c, l, t, p.next, memo, 0)
			b.anyPure = false
			if !known {
				debug("a test not followed", shortTerm(t))
				continue nextPath
			}
			keysIn(t, p.next, need)
		}
		for ch := true; ch; {
			ch = false
			for k := range ordered(need) {
				n := len(need)
				keysIn(p.next[k], p.next, need)
				ch = ch || len(need) > n
			}
		}
		var hyps []lin
		hyps = append(hyps, invs...)
		same := func(x, y lin) {
			d := x.add(y, -1)
			hyps = append(hyps, d, konst(0).add(d, -1))
		}
		var what []string
		w := newWorld()
		for t, v := range p.lits {
			w.lits[t] = v
		}
		for k := range ordered(need) {
			n := p.next[k]
			if n == k {
				continue
			}
			if !b.followed(c, l, n, p.next, memo, 0) {
				debug("not followed", shortTerm(k), shortTerm(n))
				continue nextPath
			}
			if k.op != "phi" { // a version of memory
				continue
			}
			ph := c.phis[k]
			if ph == nil {
				continue nextPath
			}
			switch {
			case isSeq(ph.Type()):
				if n.op != "slice" && !(n.op == "call" && modelled(n.sym)) && n.op != "cat" {
					debug("text", shortTerm(n))
					continue nextPath
				}
				same(e.lin(e.length(n)), e.lin(e.length(k)))
				what = append(what, phiName(ph))
			default:
				if _, _, ok := intBits(ph.Type()); !ok {
					debug("type", shortTerm(k))
					continue nextPath
				}
				same(e.lin(n), e.lin(k))
				what = append(what, phiName(ph))
			}
		}
		// what is read from memory
		rm := map[*term]*term{}
		var atoms func(t *term)
		seen := map[*term]bool{}
		okay := true
		atoms = func(t *term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "fld" || t.op == "get" || t.op == "cell" || t.op == "gload" {
				n := e.replace(t, p.next, rm)
				if n != t {
					if t.typ == nil {
						okay = false
					} else if _, _, ok := intBits(t.typ); ok && b.followed(c, l, n, p.next, memo, 0) {
						same(e.lin(n), e.lin(t))
						what = append(what, t.sym[strings.LastIndexByte(t.sym, '.')+1:])
					} else if isSeq(t.typ) && b.followed(c, l, n, p.next, memo, 0) {
						same(e.lin(e.length(n)), e.lin(e.length(t)))
						what = append(what, t.sym[strings.LastIndexByte(t.sym, '.')+1:])
					} else {
						okay = false
					}
				}
			}
			for _, a := range t.args {
				atoms(a)
			}
		}
		for t := range ordered(p.lits) {
			if t.op == "lt" || t.op == "eq" {
				atoms(t)
			}
		}
		if !okay {
			debug("memory")
			continue
		}
		f := e.factset(e.canon(w))
		for _, h := range hyps {
			f.atLeast(h)
		}
		if f.proves(konst(-1)) {
			debug("moves on", what)
			continue
		}
		if len(what) == 0 {
			return "nothing its tests depend on changes in a round"
		}
		return "a round can leave " + strings.Join(dedup(what), ", ") + " as it was, and nothing else its tests depend on changes"
	}
	return ""
}

func phiName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

func (b *bprover) shows(q bpoint, l lin) bool {
	if len(l.m) == 0 {
		return l.k >= 0
	}
	b.quiet++
	defer func() { b.quiet-- }()
	ok := false
	b.within(400, func() { ok = b.prove(q, atLeastZero(b.e, l), 6) })
	return ok
}

func checkLoops(p *Program, r *Report) {
	r.Rule("Every loop of the library must end: it goes through a text or map, or some quantity that each round's test finds at least zero is shown, by the linear prover with loop invariants, to get smaller in every round (a field that is nowhere raised may be lowered by callees). A loop for which this fails is reported if on some way round it everything its tests depend on can stay as it is - the equations 'value after the round = value before' are consistent with the conditions on the way - so that the round repeats for ever. Functions that call themselves, directly or through others, must hand on a smaller number or text; they are reported if a call passes on exactly what was received with nothing changed. Otherwise the loop or circle of calls is listed as left open.")
	b := p.wideBounder()
	var left []string
	for _, fn := range p.LibFuncs() {
		if len(fn.Blocks) == 0 || p.isGenerated(fn) {
			continue
		}
		c := b.e.fctx(fn)
		for head, l := range ordered(c.loops) {
			r.Count("loops", 1)
			why, ok := b.ends(c, l)
			at := p.Pos(posOf(head)) + " " + fnName(fn)
			if ok && !b.entered(c, l) {
				left = append(left, at+" (does not seem to be reached)")
				continue
			}
			if ok {
				r.Ok("%s: %s", at, why)
				continue
			}
			if bad := b.stuck(c, l); bad != "" {
				r.Failf("loop", fnName(fn), p.Pos(posOf(head)), "%s", bad)
				continue
			}
			left = append(left, at)
		}
	}
	cs, calls := circles(p)
	for _, cyc := range cs {
		r.Count("call circles", 1)
		if why, ok := b.shrinks(cyc, calls); ok {
			r.Ok("%s: %s", fnName(cyc[0]), why)
			continue
		}
		if x, bad := b.repeats(cyc, calls); x != nil {
			r.Failf("recursion", fnName(x.Parent()), p.InstrPos(x), "%s", bad)
			continue
		}
		var names []string
		for _, f := range cyc {
			names = append(names, fnName(f))
		}
		left = append(left, "calls among "+strings.Join(names, ", "))
	}
	r.Coverage["left open"] = left
	r.Require("loops", 40)
	r.Assume("Functions of the standard library, and functions the caller supplies, return. Counts do not overflow.")
	if os.Getenv("PHL") != "" {
		fmt.Println(strings.Join(left, "\n"))
	}
}

// circles lists the calls through which functions of the library come back to themselves.
func circles(p *Program) (out [][]*ssa.Function, calls map[*ssa.Function][]*ssa.Call) {
	calls = map[*ssa.Function][]*ssa.Call{}
	lib := map[*ssa.Function]bool{}
	for _, f := range p.LibFuncs() {
		lib[f] = !p.isGenerated(f)
	}
	for _, f := range p.LibFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Call); ok {
					if g := x.Call.StaticCallee(); g != nil && lib[g] && lib[f] {
						calls[f] = append(calls[f], x)
					}
				}
			}
		}
	}
	// Tarjan
	num, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		num[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, x := range calls[f] {
			g := x.Call.StaticCallee()
			if g == f {
				self = true
			}
			if num[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], num[g])
			}
		}
		if low[f] == num[f] {
			var c []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || self {
				out = append(out, c)
			}
		}
	}
	for _, f := range p.LibFuncs() {
		if num[f] == 0 && lib[f] {
			visit(f)
		}
	}
	return
}

// shrinks: every call back hands on a number or text smaller than the one received.
func (b *bprover) shrinks(cyc []*ssa.Function, calls map[*ssa.Function][]*ssa.Call) (string, bool) {
	if len(cyc) != 1 {
		return "", false
	}
	f := cyc[0]
	c := b.e.fctx(f)
	for i, prm := range f.Params {
		_, _, isInt := intBits(prm.Type())
		if !isInt && !isSeq(prm.Type()) {
			continue
		}
		good := true
		for _, x := range calls[f] {
			if x.Call.StaticCallee() != f {
				continue
			}
			of := func(v ssa.Value) lin {
				if isInt {
					return b.e.lin(c.t(v))
				}
				return b.e.lin(b.e.length(c.t(v)))
			}
			was, is := of(prm), of(x.Call.Args[i])
			q := bpoint{c: c, blk: x.Block(), at: x, via: -1, lits: map[*term]bool{}, inside: true}
			if !b.shows(q, was.add(is, -1).add(konst(1), -1)) || !b.shows(q, was) {
				good = false
				break
			}
		}
		if good {
			return "each call of itself is for a smaller " + prm.Name(), true
		}
	}
	return "", false
}

var idempotent = map[string]bool{"strings.ToUpper": true, "strings.ToLower": true, "strings.TrimSpace": true, "strings.Clone": true, "strings.Trim": true, "strings.TrimLeft": true, "strings.TrimRight": true}

// ownWrites: running these functions writes nothing that was there before, tables filled once apart.
func (b *bprover) ownWrites(cyc []*ssa.Function) bool {
	p := b.e.p
	eff, ok := p.facts["effects"].(*Effects)
	if !ok {
		eff = NewEffects(p)
		p.facts["effects"] = eff
	}
	for _, f := range cyc {
		for _, a := range eff.Summarise(f).acc {
			if !a.write || !a.loc.n.outside() {
				continue
			}
			if a.loc.n.root().kind == nGlobal && a.locks != "" {
				continue
			}
			if os.Getenv("PHL") == "5" {
				fmt.Println("   writes", fnName(f), a.loc.String(), a.what, a.locks, a.via)
			}
			return false
		}
	}
	return true
}

// madeHere: the pointer is to a value made for it.
func madeHere(t *term) bool {
	if t.op != "call" || !strings.HasPrefix(t.sym, "google.golang.org/protobuf/proto.") {
		return false
	}
	switch strings.TrimPrefix(t.sym, "google.golang.org/protobuf/proto.") {
	case "String", "Bool", "Int32", "Int64", "Uint32", "Uint64", "Float32", "Float64":
		return true
	}
	return false
}

// again: whenever the function gets to the call, what it hands on takes it to the call once more.
func (b *bprover) again(x *ssa.Call) bool {
	e := b.e
	f := x.Parent()
	c := e.fctx(f)
	lits := map[*term]bool{}
	c.domLits(x.Block(), lits)
	// every test that can lead elsewhere must be among them
	to := map[*ssa.BasicBlock]bool{x.Block(): true}
	for ch := true; ch; {
		ch = false
		for _, blk := range f.Blocks {
			for _, s := range blk.Succs {
				if to[s] && !to[blk] && blk != x.Block() {
					to[blk], ch = true, true
				}
			}
		}
	}
	for _, blk := range f.Blocks {
		if !to[blk] || blk == x.Block() {
			continue
		}
		for i, s := range blk.Succs {
			if to[s] {
				continue
			}
			t, v, ok := c.condOn(blk, i)
			if !ok {
				return false
			}
			if have, ok := lits[t]; !ok || have == v {
				return false
			}
		}
	}
	for _, l := range ordered(c.loops) {
		if to[l.head] && !l.blocks[x.Block()] {
			for blk := range l.blocks {
				if to[blk] && blk != l.head {
					return false // whether it gets out of the loop is another question
				}
			}
		}
	}
	var args []*term
	for _, a := range x.Call.Args {
		args = append(args, c.t(a))
	}
	before := func(key string) *term { return c.verAt(x, key) }
	site := e.mk("op", c.name+"#again")
	w := newWorld()
	for t, v := range lits {
		w.lits[t] = v
	}
	if e.factset(e.canon(w)).proves(konst(-1)) {
		return false
	}
	for t, v := range ordered(lits) {
		n := e.subst(t, f, args, before, site)
		for n.op == "not" {
			n, v = n.args[0], !v
		}
		if n.isConst() {
			if v != (n == e.trueT) {
				return false
			}
			continue
		}
		if have, ok := lits[n]; ok {
			if have != v {
				return false
			}
			continue
		}
		if n.op == "eq" && !v && (n.args[0] == e.nilT && madeHere(n.args[1]) || n.args[1] == e.nilT && madeHere(n.args[0])) {
			continue
		}
		if os.Getenv("PHL") == "5" {
			fmt.Println("   again", fnName(f), shortTerm(t), "->", shortTerm(n))
		}
		return false
	}
	return true
}

// repeats finds a call back with exactly what was received, with memory as it was.
func (b *bprover) repeats(cyc []*ssa.Function, calls map[*ssa.Function][]*ssa.Call) (*ssa.Call, string) {
	e := b.e
	in := map[*ssa.Function]bool{}
	for _, f := range cyc {
		in[f] = true
	}
	var found *ssa.Call
	var walk func(f, at *ssa.Function, args []*term, lits map[*term]bool, depth int, first *ssa.Call) bool
	walk = func(f, at *ssa.Function, args []*term, lits map[*term]bool, depth int, first *ssa.Call) bool {
		c := e.fctx(at)
		sub := map[*term]*term{}
		for i, p := range at.Params {
			if i < len(args) {
				sub[c.t(p)] = args[i]
			}
		}
	calls:
		for _, x := range calls[at] {
			g := x.Call.StaticCallee()
			if !in[g] || len(g.Params) != len(x.Call.Args) {
				continue
			}
			if !b.ownWrites(cyc) {
				for k := range c.keys {
					if c.verAt(x, k) != c.inV[at.Blocks[0]][k] {
						continue calls // something has been written before
					}
				}
			}
			var as []*term
			memo := map[*term]*term{}
			for _, a := range x.Call.Args {
				as = append(as, e.replace(c.t(a), sub, memo))
			}
			nl := map[*term]bool{}
			for t, v := range lits {
				nl[t] = v
			}
			dom := map[*term]bool{}
			c.domLits(x.Block(), dom)
			bad := false
			for t, v := range ordered(dom) {
				t = e.replace(t, sub, memo)
				for t.op == "not" {
					t, v = t.args[0], !v
				}
				if t.isConst() {
					bad = bad || v != (t == e.trueT)
					continue
				}
				if o, ok := nl[t]; ok && o != v {
					bad = true
				}
				nl[t] = v
			}
			if bad {
				continue
			}
			fst := first
			if fst == nil {
				fst = x
			}
			if g == f {
				fc := e.fctx(f)
				same := true
				for i, p := range f.Params {
					pt := fc.t(p)
					if as[i] == pt {
						continue
					}
					// what is done to it does nothing the second time
					if t := as[i]; t.op == "call" && idempotent[t.sym] && len(t.args) >= 1 && t.args[0] == pt && (len(t.args) < 2 || t.args[1].isConst()) {
						l := e.eq(t, pt)
						if !l.isConst() {
							nl[l] = true
						}
						continue
					}
					same = false
				}
				if same {
					w := newWorld()
					for t, v := range nl {
						w.lits[t] = v
					}
					if !e.factset(e.canon(w)).proves(konst(-1)) {
						found = fst
						return true
					}
				}
			}
			if depth < 3 && g != f && walk(f, g, as, nl, depth+1, fst) {
				return true
			}
		}
		return false
	}
	for _, f := range cyc {
		for _, x := range calls[f] {
			if x.Call.StaticCallee() == f && b.again(x) {
				return x, "can be called again with something for which it calls itself again in the same way"
			}
		}
	}
	for _, f := range cyc {
		c := e.fctx(f)
		var own []*term
		for _, p := range f.Params {
			own = append(own, c.t(p))
		}
		if walk(f, f, own, nil, 0, nil) {
			return found, "is called again with exactly what it was given, with nothing changed in between"
		}
	}
	return nil, ""
}

func posOf(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && (*op).Pos().IsValid() {
				return (*op).Pos()
			}
		}
	}
	return b.Parent().Pos()
}
