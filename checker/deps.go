package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// deps computes what a value is made of: which parameters (and captured variables, traced to the
// enclosing function) it can depend on through data and through the conditions that select between
// alternatives.
type deps struct {
	p       *Program
	callers map[*ssa.Function][]*ssa.CallCommon
	inFn    map[*ssa.CallCommon]*ssa.Function
	escapes map[*ssa.Function]bool // used as a value: callers unknown
	binds   map[*ssa.Function]*ssa.MakeClosure
}

type leaf struct {
	param *ssa.Parameter
	path  string // fields read through the parameter
	other string // anything that is not package level data
}

func newDeps(p *Program) *deps {
	if d, ok := p.facts["deps"].(*deps); ok {
		return d
	}
	d := &deps{p: p, callers: map[*ssa.Function][]*ssa.CallCommon{}, inFn: map[*ssa.CallCommon]*ssa.Function{}, escapes: map[*ssa.Function]bool{}, binds: map[*ssa.Function]*ssa.MakeClosure{}}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					d.binds[mc.Fn.(*ssa.Function)] = mc
				}
				var com *ssa.CallCommon
				if c, ok := in.(ssa.CallInstruction); ok {
					com = c.Common()
					if f := com.StaticCallee(); f != nil {
						d.callers[f] = append(d.callers[f], com)
						d.inFn[com] = fn
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if f, ok := (*o).(*ssa.Function); ok {
						if com != nil && o == &com.Value {
							continue
						}
						if com != nil && com.Value == *o {
							isArg := false
							for _, a := range com.Args {
								if a == *o {
									isArg = true
								}
							}
							if !isArg {
								continue
							}
						}
						d.escapes[f] = true
					}
				}
			}
		}
	}
	p.facts["deps"] = d
	return d
}

func (d *deps) leaves(v ssa.Value) map[leaf]bool {
	out := map[leaf]bool{}
	d.walk(v, "", out, map[string]bool{})
	return out
}

func (d *deps) walk(v ssa.Value, path string, out map[leaf]bool, seen map[string]bool) {
	k := fmt.Sprintf("%p|%s", v, path)
	if seen[k] {
		return
	}
	seen[k] = true
	switch x := v.(type) {
	case nil, *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return
	case *ssa.Parameter:
		out[leaf{param: x, path: path}] = true
	case *ssa.FreeVar:
		mc := d.binds[x.Parent()]
		if mc == nil {
			out[leaf{other: "captures a variable of an unknown context"}] = true
			return
		}
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				d.walk(mc.Bindings[i], path, out, seen)
			}
		}
	case *ssa.Alloc:
		d.stores(x, out, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			d.walk(x.X, path, out, seen)
			return
		}
		if x.Op == token.ARROW {
			out[leaf{other: "is received from a channel"}] = true
			return
		}
		d.walk(x.X, "", out, seen)
	case *ssa.FieldAddr:
		d.walk(x.X, "."+fieldName(x.X.Type(), x.Field)+path, out, seen)
	case *ssa.Field:
		d.walk(x.X, "."+fieldName(x.X.Type(), x.Field)+path, out, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			d.walk(e, path, out, seen)
		}
		d.controls(x, out, seen)
	case *ssa.Call:
		d.callLeaves(x, out, seen)
	case *ssa.Extract:
		d.walk(x.Tuple, path, out, seen)
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			d.walk(b, "", out, seen)
		}
	default:
		in, ok := v.(ssa.Instruction)
		if !ok {
			out[leaf{other: "comes from an unknown source"}] = true
			return
		}
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			if *o != nil {
				d.walk(*o, "", out, seen)
			}
		}
		// contents put into a map or slice made here
		switch x := v.(type) {
		case *ssa.MakeMap, *ssa.MakeSlice:
			d.contents(x, out, seen)
		}
	}
}

func (d *deps) callLeaves(x *ssa.Call, out map[leaf]bool, seen map[string]bool) {
	c := x.Common()
	if !c.IsInvoke() {
		d.walk(c.Value, "", out, seen)
	} else {
		d.walk(c.Value, "", out, seen)
	}
	for _, a := range c.Args {
		d.walk(a, "", out, seen)
	}
}

// stores: what is put into a local variable, directly or through its address.
func (d *deps) stores(a ssa.Value, out map[leaf]bool, seen map[string]bool) {
	if a.Referrers() == nil {
		return
	}
	for _, ref := range *a.Referrers() {
		switch y := ref.(type) {
		case *ssa.Store:
			if y.Addr == a {
				d.walk(y.Val, "", out, seen)
				d.controlsAt(y.Block(), out, seen)
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			d.stores(y.(ssa.Value), out, seen)
		case ssa.CallInstruction:
			for _, arg := range y.Common().Args {
				if arg != a {
					d.walk(arg, "", out, seen)
				}
			}
		case *ssa.MakeClosure:
			// a closure may assign it
			for i, b := range y.Bindings {
				if b == a {
					fv := y.Fn.(*ssa.Function).FreeVars[i]
					if fv.Referrers() != nil {
						for _, r2 := range *fv.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == fv {
								d.walk(st.Val, "", out, seen)
							}
						}
					}
				}
			}
		case *ssa.MakeInterface:
			d.stores(y, out, seen)
		}
	}
}

func (d *deps) contents(m ssa.Value, out map[leaf]bool, seen map[string]bool) {
	if m.Referrers() == nil {
		return
	}
	for _, ref := range *m.Referrers() {
		switch y := ref.(type) {
		case *ssa.MapUpdate:
			if y.Map == m {
				d.walk(y.Key, "", out, seen)
				d.walk(y.Value, "", out, seen)
			}
		case *ssa.IndexAddr:
			d.stores(y, out, seen)
		}
	}
}

// controls adds the conditions that choose between the edges of a phi.
func (d *deps) controls(ph *ssa.Phi, out map[leaf]bool, seen map[string]bool) {
	b := ph.Block()
	idom := b.Idom()
	if idom == nil {
		return
	}
	region := map[*ssa.BasicBlock]bool{}
	var back func(x *ssa.BasicBlock)
	back = func(x *ssa.BasicBlock) {
		if region[x] || x == idom {
			region[x] = true
			return
		}
		region[x] = true
		for _, p := range x.Preds {
			back(p)
		}
	}
	for _, p := range b.Preds {
		back(p)
	}
	for x := range region {
		if iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
			d.walk(iff.Cond, "", out, seen)
		}
	}
}

// controlsAt adds the conditions under which a block runs (its dominating branches).
func (d *deps) controlsAt(b *ssa.BasicBlock, out map[leaf]bool, seen map[string]bool) {
	for x := b.Idom(); x != nil; x = x.Idom() {
		if iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok {
			d.walk(iff.Cond, "", out, seen)
		}
	}
}

// independent: does the value written depend on package level data only? Returns why not.
func (d *deps) independent(a *Access) string {
	if a.val == nil {
		// deletions and writes by external functions: look at the arguments
		if in, ok := a.instr.(ssa.CallInstruction); ok {
			for _, arg := range in.Common().Args {
				if w := d.onlyGlobals(arg, 0); w != "" {
					return w
				}
			}
		}
		return ""
	}
	if w := d.onlyGlobals(a.val, 0); w != "" {
		return w
	}
	if a.key != nil {
		return d.onlyGlobals(a.key, 0)
	}
	return ""
}

func (d *deps) onlyGlobals(v ssa.Value, depth int) string {
	for _, l := range sortLeaves(d.leaves(v)) {
		if l.other != "" {
			return l.other
		}
		if w := d.liftGlobals(l, depth); w != "" {
			return w
		}
	}
	return ""
}

// liftGlobals: a parameter is package level data if every call passes package level data.
func (d *deps) liftGlobals(l leaf, depth int) string {
	fn := l.param.Parent()
	cs := d.callers[fn]
	exported := fn.Object() != nil && fn.Object().Exported() && isAPIPath(fnPkgPath(fn))
	if depth > 4 || len(cs) == 0 || d.escapes[fn] || exported {
		return fmt.Sprintf("depends on parameter %s of %s", l.param.Name(), fnName(fn))
	}
	for _, c := range cs {
		for i, pr := range fn.Params {
			if pr == l.param && i < len(c.Args) {
				if w := d.onlyGlobals(c.Args[i], depth+1); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

func sortLeaves(m map[leaf]bool) []leaf {
	var out []leaf
	for l := range m {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		an, bn := "", ""
		if a.param != nil {
			an = a.param.Name()
		}
		if b.param != nil {
			bn = b.param.Name()
		}
		return an+a.path+a.other < bn+b.path+b.other
	})
	return out
}

// memo: is the value written into a table determined by the key (and package level data)?
func (d *deps) memo(a *Access) string {
	var tab ssa.Value
	switch x := a.instr.(type) {
	case *ssa.MapUpdate:
		tab = x.Map
	case ssa.CallInstruction:
		if len(x.Common().Args) > 0 {
			tab = x.Common().Args[0]
		}
	}
	return d.memoAt(a.key, a.val, tab, 0)
}

func (d *deps) memoAt(key, val, tab ssa.Value, depth int) string {
	kl := d.leaves(key)
	det := map[leaf]bool{}
	if injective(key, 0) {
		for l := range kl {
			det[l] = true
		}
	}
	// fields of the object that owns the table identify the table
	owner := map[*ssa.Parameter]bool{}
	for l := range d.leaves(tab) {
		if l.param != nil {
			owner[l.param] = true
		}
	}
	var rest []leaf
	for _, l := range sortLeaves(d.leaves(val)) {
		if det[l] {
			continue
		}
		if l.other != "" {
			return l.other
		}
		if owner[l.param] && l.path != "" {
			continue
		}
		rest = append(rest, l)
	}
	if len(rest) == 0 {
		return ""
	}
	// the remaining parameters have to be determined by the key at every call site
	fn := rest[0].param.Parent()
	cs := d.callers[fn]
	describe := func() string {
		var ns []string
		for _, l := range rest {
			ns = append(ns, l.param.Name()+l.path)
		}
		return fmt.Sprintf("depends on %s of %s, which the key does not determine", strings.Join(ns, ", "), fnName(fn))
	}
	if depth > 4 || len(cs) == 0 || d.escapes[fn] || (fn.Object() != nil && fn.Object().Exported() && isAPIPath(fnPkgPath(fn))) {
		return describe()
	}
	for _, l := range rest {
		if l.param.Parent() != fn {
			return describe()
		}
	}
	kp, ok := key.(*ssa.Parameter)
	if !ok || kp.Parent() != fn {
		return describe()
	}
	for _, c := range cs {
		ka := argFor(fn, c, kp)
		for _, l := range rest {
			va := argFor(fn, c, l.param)
			if ka == nil || va == nil {
				return describe()
			}
			var ta ssa.Value = tab
			for o := range owner {
				if x := argFor(fn, c, o); x != nil {
					ta = x
				}
			}
			if w := d.memoAt(ka, va, ta, depth+1); w != "" {
				return w
			}
		}
	}
	return ""
}

func argFor(fn *ssa.Function, c *ssa.CallCommon, p *ssa.Parameter) ssa.Value {
	for i, pr := range fn.Params {
		if pr == p && i < len(c.Args) {
			return c.Args[i]
		}
	}
	return nil
}

// injective: does the key expression determine everything it is made of?
func injective(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.Const, *ssa.FreeVar:
		return true
	case *ssa.Convert:
		return injective(x.X, depth+1)
	case *ssa.ChangeType:
		return injective(x.X, depth+1)
	case *ssa.MakeInterface:
		return injective(x.X, depth+1)
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return false
		}
		_, c1 := x.X.(*ssa.Const)
		_, c2 := x.Y.(*ssa.Const)
		return (c1 || c2) && injective(x.X, depth+1) && injective(x.Y, depth+1)
	case *ssa.UnOp:
		// a struct value made up of fields
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok {
						for _, r2 := range *fa.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && !injective(st.Val, depth+1) {
								return false
							}
						}
					}
				}
				return true
			}
		}
	case *ssa.Call:
		// opaque but treated as one value: the value may depend on the same call's result only
		return false
	}
	return false
}

func fieldName(t interface{ String() string }, i int) string { return fieldNameOf(t, i) }
