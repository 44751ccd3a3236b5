package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A latch is a package variable whose value (or non-nilness) is settled once package
// initialisation has finished: every assignment outside the initial one stores the same constant
// (or something non-nil), and initialisation cannot complete without having made it.
type latch struct {
	nonNil bool
	val    string // constant, ExactString
}

func findLatches(p *Program) map[*ssa.Global]latch {
	out := map[*ssa.Global]latch{}
	type info struct {
		stores  []*ssa.Store
		inits   []*ssa.Store
		escapes bool
	}
	infos := map[*ssa.Global]*info{}
	for _, fn := range p.LibFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					if infos[g] == nil {
						infos[g] = &info{}
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g && x.Val != ssa.Value(g) {
							if fn.Synthetic != "" && fn.Name() == "init" {
								infos[g].inits = append(infos[g].inits, x)
							} else {
								infos[g].stores = append(infos[g].stores, x)
							}
							continue
						}
						infos[g].escapes = true
					case *ssa.UnOp:
						if x.Op != token.MUL {
							infos[g].escapes = true
						}
					default:
						infos[g].escapes = true
					}
				}
			}
		}
	}
	for g, inf := range infos {
		if inf.escapes {
			continue
		}
		elem := deref(g.Type())
		var l latch
		ok := true
		switch elem.Underlying().(type) {
		case *types.Basic:
			if len(inf.stores) == 0 {
				// never assigned outside initialisation: a plain constant
				if len(inf.inits) == 1 {
					if c, isC := inf.inits[0].Val.(*ssa.Const); isC && c.Value != nil {
						out[g] = latch{val: c.Value.ExactString()}
					}
				}
				continue
			}
			for _, st := range inf.stores {
				c, isC := st.Val.(*ssa.Const)
				if !isC || c.Value == nil || (l.val != "" && l.val != c.Value.ExactString()) {
					ok = false
					break
				}
				l.val = c.Value.ExactString()
			}
		case *types.Pointer, *types.Map:
			if len(inf.stores) == 0 {
				continue
			}
			l.nonNil = true
			for _, st := range inf.stores {
				switch v := st.Val.(type) {
				case *ssa.Alloc, *ssa.MakeMap:
				default:
					_ = v
					ok = false
				}
			}
		default:
			continue
		}
		if !ok {
			continue
		}
		m := &mustSet{p: p, g: g, l: l, memo: map[*ssa.Function]int{}}
		for _, fn := range p.LibFuncs() {
			if fn.Parent() == nil && fn.Signature.Recv() == nil && len(fn.Name()) > 5 && fn.Name()[:5] == "init#" && m.onSuccess(fn) {
				out[g] = l
				break
			}
		}
	}
	return out
}

type mustSet struct {
	p    *Program
	g    *ssa.Global
	l    latch
	memo map[*ssa.Function]int
}

// latchEdge: does taking the given successor of the block imply the latch has its final value?
func (l latch) edge(g *ssa.Global, b *ssa.BasicBlock, succ int) (settled, contradicts bool) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false, false
	}
	truth := succ == 0
	cond := iff.Cond
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, truth = u.X, !truth
			continue
		}
		break
	}
	isG := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == g
	}
	if isG(cond) && !l.nonNil {
		fin := l.val == "true"
		return truth == fin, truth != fin
	}
	if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		if bo.Op == token.NEQ {
			truth = !truth
		}
		x, y := bo.X, bo.Y
		if isG(y) {
			x, y = y, x
		}
		c, isC := y.(*ssa.Const)
		if !isG(x) || !isC {
			return false, false
		}
		if l.nonNil {
			if c.IsNil() {
				return !truth, truth
			}
			return false, false
		}
		if c.Value == nil {
			return false, false
		}
		same := c.Value.ExactString() == l.val
		if same {
			return truth, !truth
		}
		return false, truth
	}
	return false, false
}

func errResult(fn *ssa.Function) int {
	r := fn.Signature.Results()
	if r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type()) {
		return r.Len() - 1
	}
	return -1
}

// onSuccess: every return of fn that may report success has the latch settled.
func (m *mustSet) onSuccess(fn *ssa.Function) bool {
	switch m.memo[fn] {
	case 1:
		return false // in progress
	case 2:
		return true
	case 3:
		return false
	}
	m.memo[fn] = 1
	res := m.compute(fn)
	m.memo[fn] = 3
	if res {
		m.memo[fn] = 2
	}
	return res
}

// errOf: is v the error result of a call to a function that settles the latch on success?
func (m *mustSet) errOf(v ssa.Value) bool {
	var call *ssa.Call
	switch x := v.(type) {
	case *ssa.Extract:
		call, _ = x.Tuple.(*ssa.Call)
		if call == nil {
			return false
		}
		f := call.Call.StaticCallee()
		return f != nil && f.Blocks != nil && inRepo(fnPkgPath(f)) && errResult(f) == x.Index && m.onSuccess(f)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return f != nil && f.Blocks != nil && inRepo(fnPkgPath(f)) && f.Signature.Results().Len() == 1 && errResult(f) == 0 && m.onSuccess(f)
	}
	return false
}

// nilEdge: does this edge imply v == nil (want=true) or v != nil (want=false)?
func nilTest(b *ssa.BasicBlock, succ int) (v ssa.Value, isNil, ok bool) {
	iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, false, false
	}
	truth := succ == 0
	cond := iff.Cond
	for {
		if u, isU := cond.(*ssa.UnOp); isU && u.Op == token.NOT {
			cond, truth = u.X, !truth
			continue
		}
		break
	}
	bo, isB := cond.(*ssa.BinOp)
	if !isB || (bo.Op != token.EQL && bo.Op != token.NEQ) {
		return nil, false, false
	}
	if bo.Op == token.NEQ {
		truth = !truth
	}
	if c, isC := bo.Y.(*ssa.Const); isC && c.IsNil() {
		return bo.X, truth, true
	}
	if c, isC := bo.X.(*ssa.Const); isC && c.IsNil() {
		return bo.Y, truth, true
	}
	return nil, false, false
}

func (m *mustSet) compute(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	// state per block: settled, and the set of values known to be non-nil
	type st struct {
		set    bool
		nonNil map[ssa.Value]bool
	}
	in := map[*ssa.BasicBlock]*st{fn.Blocks[0]: {nonNil: map[ssa.Value]bool{}}}
	transfer := func(s st, b *ssa.BasicBlock) st {
		for _, x := range b.Instrs {
			switch y := x.(type) {
			case *ssa.Store:
				if y.Addr == m.g {
					s.set = true
				}
			case *ssa.Call:
				f := y.Call.StaticCallee()
				if f != nil && f.Blocks != nil && inRepo(fnPkgPath(f)) && errResult(f) < 0 && m.onSuccess(f) {
					s.set = true
				}
			}
		}
		return s
	}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if in[b] == nil {
				continue
			}
			o := transfer(st{in[b].set, in[b].nonNil}, b)
			for i, sc := range b.Succs {
				ns := st{o.set, map[ssa.Value]bool{}}
				for k := range o.nonNil {
					ns.nonNil[k] = true
				}
				if settled, _ := m.l.edge(m.g, b, i); settled {
					ns.set = true
				}
				if v, isNil, ok := nilTest(b, i); ok {
					if isNil && m.errOf(v) {
						ns.set = true
					}
					if !isNil {
						ns.nonNil[v] = true
					}
				}
				if in[sc] == nil {
					in[sc] = &ns
					changed = true
					continue
				}
				if in[sc].set && !ns.set {
					in[sc].set = false
					changed = true
				}
				for k := range in[sc].nonNil {
					if !ns.nonNil[k] {
						delete(in[sc].nonNil, k)
						changed = true
					}
				}
			}
		}
	}
	ei := errResult(fn)
	returns := 0
	for _, b := range fn.Blocks {
		if in[b] == nil {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		returns++
		o := transfer(*in[b], b)
		if o.set {
			continue
		}
		if ei >= 0 {
			v := ret.Results[ei]
			if o.nonNil[v] || m.errOf(v) || globalError(v) {
				continue
			}
			if ph, isPhi := v.(*ssa.Phi); isPhi {
				_ = ph
			}
		}
		return false
	}
	return returns > 0
}

// globalError: a sentinel error variable or a freshly made error is never nil.
func globalError(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.Global)
		return ok && x.Op == token.MUL && isErrorType(x.Type())
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		n := extName(f)
		return n == "errors.New" || n == "fmt.Errorf"
	case *ssa.MakeInterface:
		return true
	}
	return false
}

// deadBlocks: blocks that cannot be reached once initialisation has finished.
func (e *Effects) deadBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	if d, ok := e.dead[fn]; ok {
		return d
	}
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for i, sc := range b.Succs {
			blocked := false
			for g, l := range e.latches {
				if _, contra := l.edge(g, b, i); contra {
					blocked = true
				}
			}
			if !blocked {
				walk(sc)
			}
		}
	}
	if len(fn.Blocks) > 0 {
		walk(fn.Blocks[0])
		if fn.Recover != nil {
			walk(fn.Recover)
		}
	}
	d := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		if !reach[b] {
			d[b] = true
		}
	}
	e.dead[fn] = d
	return d
}
