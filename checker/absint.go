package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small abstract interpreter over object states. Objects are maps from field paths to abstract
// values; the domain is disjunctive (a set of states per program point), constants decide branches,
// and anything it cannot represent makes it give up with an error naming the construct.

type aval struct {
	k    string // const, nil, zero, empty, ptr, entry, term, slice, struct, top, fn
	c    constant.Value
	t    types.Type
	obj  *aobj
	path string
	op   string
	args []*aval
	flds map[string]*aval // struct
	lo   int
	hi   int
	fn   *ssa.Function
	kept bool // an empty slice that still refers to earlier storage
}

type aobj struct {
	id    int
	name  string
	entry bool // an object that existed before the call
	t     types.Type
}

func (v *aval) String() string {
	if v == nil {
		return "?"
	}
	switch v.k {
	case "const":
		return v.c.ExactString()
	case "ptr":
		return "&" + v.obj.name + v.path
	case "entry":
		return "old " + v.obj.name + v.path
	case "term":
		var s []string
		for _, a := range v.args {
			s = append(s, a.String())
		}
		return v.op + "(" + strings.Join(s, ",") + ")"
	case "slice":
		return fmt.Sprintf("%s[%d:%d]", v.obj.name, v.lo, v.hi)
	case "struct":
		ks := []string{}
		for k := range v.flds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += k + ":" + v.flds[k].String() + " "
		}
		return s + "}"
	case "fn":
		return v.fn.String()
	}
	return v.k
}

type astate struct {
	mem    map[string]*aval // objid|path
	known  map[string]bool  // condition term -> truth
	subst  map[string]*aval // entry key -> value it was found equal to
	frames int
}

func (s *astate) clone() *astate {
	n := &astate{mem: make(map[string]*aval, len(s.mem)), known: make(map[string]bool, len(s.known)), subst: make(map[string]*aval, len(s.subst))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.subst {
		n.subst[k] = v
	}
	return n
}

type aoutcome struct {
	st  *astate
	res []*aval
}

type absint struct {
	p       *Program
	eff     *Effects
	next    int
	steps   int
	entries map[string]*aobj // entry objects by name
	resolve func(o *aobj, path string) *aval
}

type absFail struct{ msg string }

func (a *absint) fail(f string, x ...any) { panic(absFail{fmt.Sprintf(f, x...)}) }

func (a *absint) newObj(name string, t types.Type, entry bool) *aobj {
	a.next++
	return &aobj{id: a.next, name: name, t: t, entry: entry}
}

func (a *absint) entryObj(name string, t types.Type) *aobj {
	if o := a.entries[name]; o != nil {
		return o
	}
	o := a.newObj(name, t, true)
	a.entries[name] = o
	return o
}

func mkey(o *aobj, path string) string { return fmt.Sprintf("%d|%s", o.id, path) }

func zeroOf(t types.Type) *aval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &aval{k: "const", c: constant.MakeBool(false), t: t}
		case u.Info()&types.IsString != 0:
			return &aval{k: "const", c: constant.MakeString(""), t: t}
		case u.Info()&types.IsNumeric != 0:
			return &aval{k: "const", c: constant.MakeInt64(0), t: t}
		}
	case *types.Slice:
		return &aval{k: "empty", t: t}
	case *types.Struct:
		v := &aval{k: "struct", t: t, flds: map[string]*aval{}}
		for i := 0; i < u.NumFields(); i++ {
			v.flds[u.Field(i).Name()] = zeroOf(u.Field(i).Type())
		}
		return v
	}
	return &aval{k: "nil", t: t}
}

// leafPaths lists the field paths of a struct type down to non-struct fields.
func leafPaths(t types.Type, prefix string, out *[]string, ts map[string]types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			leafPaths(st.Field(i).Type(), prefix+"."+st.Field(i).Name(), out, ts)
		}
		return
	}
	*out = append(*out, prefix)
	ts[prefix] = t
}

func (a *absint) load(s *astate, o *aobj, path string, t types.Type) *aval {
	if st, ok := t.Underlying().(*types.Struct); ok {
		v := &aval{k: "struct", t: t, flds: map[string]*aval{}}
		for i := 0; i < st.NumFields(); i++ {
			v.flds[st.Field(i).Name()] = a.load(s, o, path+"."+st.Field(i).Name(), st.Field(i).Type())
		}
		return v
	}
	k := mkey(o, path)
	if v, ok := s.mem[k]; ok {
		return a.norm(s, v)
	}
	if !o.entry {
		return zeroOf(t)
	}
	v := &aval{k: "entry", obj: o, path: path, t: t}
	return a.norm(s, v)
}

// norm applies what is known about entry values.
func (a *absint) norm(s *astate, v *aval) *aval {
	for v.k == "entry" {
		if w := s.subst[v.String()]; w != nil {
			v = w
			continue
		}
		if a.resolve != nil {
			if w := a.resolve(v.obj, v.path); w != nil {
				v = w
				continue
			}
		}
		break
	}
	return v
}

func (a *absint) store(s *astate, o *aobj, path string, v *aval, t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			var fv *aval
			if v.k == "struct" {
				fv = v.flds[n]
			} else {
				fv = &aval{k: "term", op: "field." + n, args: []*aval{v}, t: st.Field(i).Type()}
			}
			a.store(s, o, path+"."+n, fv, st.Field(i).Type())
		}
		return
	}
	s.mem[mkey(o, path)] = v
}

func (a *absint) run(fn *ssa.Function, args []*aval, binds []*aval, st *astate, depth int) []aoutcome {
	if depth > 12 {
		a.fail("call depth exceeded at %s", fnName(fn))
	}
	if len(fn.Blocks) == 0 {
		a.fail("no body for %s", fn)
	}
	env := map[ssa.Value]*aval{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			env[p] = binds[i]
		}
	}
	type work struct {
		b, prev *ssa.BasicBlock
		env     map[ssa.Value]*aval
		st      *astate
		defers  []*ssa.Defer
		from    int
	}
	var out []aoutcome
	queue := []work{{fn.Blocks[0], nil, env, st, nil, 0}}
	for len(queue) > 0 {
		w := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		a.steps++
		if a.steps > 20000 {
			a.fail("too many steps at %s", fnName(fn))
		}
		env, st, b := w.env, w.st, w.b
		// phis read their inputs simultaneously
		if w.from == 0 && w.prev != nil {
			pi := -1
			for i, p := range b.Preds {
				if p == w.prev {
					pi = i
				}
			}
			vals := map[*ssa.Phi]*aval{}
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				vals[ph] = a.val(st, env, ph.Edges[pi])
			}
			for p, v := range vals {
				env[p] = v
			}
		}
	instrs:
		for i := w.from; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c := a.val(st, env, x.Cond)
				c = a.norm(st, c)
				truth, known := false, false
				if c.k == "const" {
					truth, known = constant.BoolVal(c.c), true
				} else if t, ok := st.known[c.String()]; ok {
					truth, known = t, true
				}
				for side := 0; side < 2; side++ {
					want := side == 0
					if known && truth != want {
						continue
					}
					e2 := make(map[ssa.Value]*aval, len(env))
					for k, v := range env {
						e2[k] = v
					}
					s2 := st.clone()
					s2.known[c.String()] = want
					a.assume(s2, c, want)
					queue = append(queue, work{b.Succs[side], b, e2, s2, w.defers, 0})
				}
				break instrs
			case *ssa.Jump:
				queue = append(queue, work{b.Succs[0], b, env, st, w.defers, 0})
				break instrs
			case *ssa.Return:
				var res []*aval
				for _, r := range x.Results {
					res = append(res, a.val(st, env, r))
				}
				out = append(out, aoutcome{st, res})
				break instrs
			case *ssa.Panic:
				break instrs
			case *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Select, *ssa.Send:
				a.fail("%s: unsupported construct %s", a.p.InstrPos(x), x)
			case *ssa.Call:
				outs := a.call(fn, st, env, x, depth)
				if len(outs) == 0 {
					break instrs
				}
				for j, o := range outs {
					e2, last := env, j == len(outs)-1
					if !last {
						e2 = make(map[ssa.Value]*aval, len(env))
						for k, v := range env {
							e2[k] = v
						}
					}
					switch len(o.res) {
					case 0:
					case 1:
						e2[x] = o.res[0]
					default:
						e2[x] = &aval{k: "tuple", args: o.res}
					}
					if !last {
						queue = append(queue, work{b, w.prev, e2, o.st, w.defers, i + 1})
					} else {
						st = o.st
					}
				}
			default:
				a.step(st, env, b.Instrs[i])
			}
		}
	}
	return out
}

func (a *absint) assume(s *astate, c *aval, want bool) {
	if c.k != "term" {
		return
	}
	if c.op == "!" {
		a.assume(s, c.args[0], !want)
		s.known[c.args[0].String()] = !want
		return
	}
	if (c.op == "==" && want) || (c.op == "!=" && !want) {
		x, y := c.args[0], c.args[1]
		if x.k == "entry" {
			s.subst[x.String()] = y
		} else if y.k == "entry" {
			s.subst[y.String()] = x
		}
	}
}

func (a *absint) val(s *astate, env map[ssa.Value]*aval, v ssa.Value) *aval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		return &aval{k: "const", c: x.Value, t: x.Type()}
	case *ssa.Global:
		return &aval{k: "ptr", obj: a.entryObj("global "+globalName(x), deref(x.Type())), t: x.Type()}
	case *ssa.Function:
		return &aval{k: "fn", fn: x, t: x.Type()}
	}
	r := env[v]
	if r == nil {
		a.fail("%s: no value for %s", a.p.Pos(v.Pos()), v)
	}
	return a.norm(s, r)
}

func (a *absint) step(s *astate, env map[ssa.Value]*aval, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		env[x] = &aval{k: "ptr", obj: a.newObj("new "+x.Comment+"@"+a.p.InstrPos(x), deref(x.Type()), false), t: x.Type()}
	case *ssa.FieldAddr:
		b := a.deref(a.val(s, env, x.X))
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		if b == nil {
			env[x] = &aval{k: "term", op: "&" + st.Field(x.Field).Name(), args: []*aval{a.val(s, env, x.X)}, t: x.Type()}
			return
		}
		env[x] = &aval{k: "ptr", obj: b.obj, path: b.path + "." + st.Field(x.Field).Name(), t: x.Type()}
	case *ssa.Field:
		v := a.val(s, env, x.X)
		n := x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
		if v.k == "struct" {
			env[x] = a.norm(s, v.flds[n])
		} else {
			env[x] = &aval{k: "term", op: "field." + n, args: []*aval{v}, t: x.Type()}
		}
	case *ssa.IndexAddr:
		b := a.val(s, env, x.X)
		i := a.val(s, env, x.Index)
		n, ok := int64(0), false
		if i.k == "const" {
			n, ok = constant.Int64Val(i.c)
		}
		if b.k == "slice" && ok {
			env[x] = &aval{k: "ptr", obj: b.obj, path: fmt.Sprintf("[%d]", b.lo+int(n)), t: x.Type()}
			return
		}
		if b.k == "ptr" && !b.obj.entry && ok {
			env[x] = &aval{k: "ptr", obj: b.obj, path: b.path + fmt.Sprintf("[%d]", n), t: x.Type()}
			return
		}
		env[x] = &aval{k: "term", op: "&elem", args: []*aval{b, i}, t: x.Type()}
	case *ssa.UnOp:
		v := a.val(s, env, x.X)
		switch x.Op {
		case token.MUL:
			if p := a.deref(v); p != nil {
				env[x] = a.load(s, p.obj, p.path, x.Type())
			} else {
				env[x] = &aval{k: "term", op: "*", args: []*aval{v}, t: x.Type()}
			}
		case token.NOT:
			if v.k == "const" {
				env[x] = &aval{k: "const", c: constant.MakeBool(!constant.BoolVal(v.c)), t: x.Type()}
			} else {
				env[x] = &aval{k: "term", op: "!", args: []*aval{v}, t: x.Type()}
			}
		default:
			if v.k == "const" {
				env[x] = &aval{k: "const", c: constant.UnaryOp(x.Op, v.c, 0), t: x.Type()}
			} else {
				env[x] = &aval{k: "term", op: x.Op.String(), args: []*aval{v}, t: x.Type()}
			}
		}
	case *ssa.Store:
		p := a.deref(a.val(s, env, x.Addr))
		v := a.val(s, env, x.Val)
		if p == nil {
			a.fail("%s: store to an unknown place", a.p.InstrPos(x))
		}
		a.store(s, p.obj, p.path, v, x.Val.Type())
	case *ssa.BinOp:
		env[x] = a.binop(s, x.Op, a.val(s, env, x.X), a.val(s, env, x.Y), x.Type())
	case *ssa.Convert:
		v := a.val(s, env, x.X)
		if v.k == "const" {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.c.Kind() == constant.Int {
				env[x] = &aval{k: "const", c: v.c, t: x.Type()}
				return
			}
			if _, ok := x.Type().Underlying().(*types.Slice); ok && v.c.Kind() == constant.String && constant.StringVal(v.c) == "" {
				env[x] = &aval{k: "empty", t: x.Type()}
				return
			}
		}
		if v.k == "empty" {
			env[x] = zeroOf(x.Type())
			return
		}
		env[x] = &aval{k: "term", op: "conv " + x.Type().String(), args: []*aval{v}, t: x.Type()}
	case *ssa.ChangeType:
		env[x] = a.val(s, env, x.X)
	case *ssa.ChangeInterface:
		env[x] = a.val(s, env, x.X)
	case *ssa.MakeInterface:
		env[x] = &aval{k: "term", op: "iface", args: []*aval{a.val(s, env, x.X)}, t: x.Type()}
	case *ssa.MakeClosure:
		v := &aval{k: "fn", fn: x.Fn.(*ssa.Function), t: x.Type()}
		for _, b := range x.Bindings {
			v.args = append(v.args, a.val(s, env, b))
		}
		env[x] = v
	case *ssa.Slice:
		v := a.val(s, env, x.X)
		if x.High != nil {
			if h := a.val(s, env, x.High); h.k == "const" && constant.Sign(h.c) == 0 {
				if _, isStr := x.Type().Underlying().(*types.Basic); isStr {
					env[x] = zeroOf(x.Type())
				} else {
					env[x] = &aval{k: "empty", t: x.Type(), kept: !(v.k == "empty" && !v.kept)}
				}
				return
			}
		}
		if v.k == "ptr" && !v.obj.entry && v.path == "" && x.Low == nil && x.High == nil {
			if arr, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
				if arr.Len() == 0 {
					env[x] = &aval{k: "empty", t: x.Type()}
				} else {
					env[x] = &aval{k: "slice", obj: v.obj, lo: 0, hi: int(arr.Len()), t: x.Type()}
				}
				return
			}
		}
		if v.k == "empty" {
			env[x] = v
			return
		}
		t := &aval{k: "term", op: "slice", args: []*aval{v}, t: x.Type()}
		for _, e := range []ssa.Value{x.Low, x.High} {
			if e == nil {
				t.args = append(t.args, &aval{k: "nil"})
			} else {
				t.args = append(t.args, a.val(s, env, e))
			}
		}
		env[x] = t
	case *ssa.MakeSlice:
		l := a.val(s, env, x.Len)
		if l.k == "const" && constant.Sign(l.c) == 0 {
			env[x] = &aval{k: "empty", t: x.Type()}
		} else {
			env[x] = &aval{k: "term", op: "make", args: []*aval{l}, t: x.Type()}
		}
	case *ssa.MakeMap:
		env[x] = &aval{k: "term", op: "emptymap", t: x.Type()}
	case *ssa.Extract:
		v := a.val(s, env, x.Tuple)
		if v.k == "tuple" {
			env[x] = a.norm(s, v.args[x.Index])
		} else {
			env[x] = &aval{k: "term", op: fmt.Sprintf("#%d", x.Index), args: []*aval{v}, t: x.Type()}
		}
	case *ssa.Index:
		env[x] = &aval{k: "term", op: "index", args: []*aval{a.val(s, env, x.X), a.val(s, env, x.Index)}, t: x.Type()}
	case *ssa.Lookup:
		env[x] = &aval{k: "term", op: "lookup", args: []*aval{a.val(s, env, x.X), a.val(s, env, x.Index)}, t: x.Type()}
	case *ssa.TypeAssert:
		env[x] = &aval{k: "term", op: "assert " + x.AssertedType.String(), args: []*aval{a.val(s, env, x.X)}, t: x.Type()}
	default:
		a.fail("%s: unsupported construct %s", a.p.InstrPos(in), in)
	}
}

// deref turns a pointer value into the place it points to; entry pointers denote entry objects.
func (a *absint) deref(v *aval) *aval {
	switch v.k {
	case "ptr":
		return v
	case "entry":
		if _, ok := v.t.Underlying().(*types.Pointer); ok {
			return &aval{k: "ptr", obj: a.entryObj(v.obj.name+v.path, deref(v.t)), t: v.t}
		}
	}
	return nil
}

func (a *absint) binop(s *astate, op token.Token, x, y *aval, t types.Type) *aval {
	if x.k == "const" && y.k == "const" {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return &aval{k: "const", c: constant.MakeBool(constant.Compare(x.c, op, y.c)), t: t}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return &aval{k: "const", c: constant.BinaryOp(x.c, op, y.c), t: t}
		}
	}
	if op == token.EQL || op == token.NEQ {
		eq, known := false, false
		if x.String() == y.String() && x.k != "top" {
			eq, known = true, true
		} else if x.k == "nil" && y.k == "ptr" || y.k == "nil" && x.k == "ptr" {
			eq, known = false, true
		} else if x.k == "ptr" && y.k == "ptr" && (!x.obj.entry || !y.obj.entry) {
			eq, known = false, true
		}
		if known {
			return &aval{k: "const", c: constant.MakeBool(eq == (op == token.EQL)), t: t}
		}
	}
	return &aval{k: "term", op: op.String(), args: []*aval{x, y}, t: t}
}

func (a *absint) call(fn *ssa.Function, s *astate, env map[ssa.Value]*aval, x *ssa.Call, depth int) []aoutcome {
	c := &x.Call
	var args []*aval
	for _, v := range c.Args {
		args = append(args, a.val(s, env, v))
	}
	one := func(v *aval) []aoutcome { return []aoutcome{{s, []*aval{v}}} }
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			switch args[0].k {
			case "empty":
				return one(&aval{k: "const", c: constant.MakeInt64(0), t: x.Type()})
			case "slice":
				return one(&aval{k: "const", c: constant.MakeInt64(int64(args[0].hi - args[0].lo)), t: x.Type()})
			case "const":
				return one(&aval{k: "const", c: constant.MakeInt64(int64(len(constant.StringVal(args[0].c)))), t: x.Type()})
			}
			return one(&aval{k: "term", op: "len", args: args, t: x.Type()})
		case "append":
			if len(args) == 2 && (args[1].k == "empty" || args[1].k == "const" && constant.StringVal(args[1].c) == "") {
				return one(args[0])
			}
			return one(&aval{k: "term", op: "append", args: args, t: x.Type()})
		case "cap":
			return one(&aval{k: "term", op: "cap", args: args, t: x.Type()})
		case "clear":
			if v := args[0]; v.k == "entry" || v.k == "term" {
				a.fail("%s: clear of a shared map", a.p.InstrPos(x))
			}
		}
		a.fail("%s: unsupported builtin %s", a.p.InstrPos(x), b.Name())
	}
	callee := c.StaticCallee()
	var binds []*aval
	if callee == nil && !c.IsInvoke() {
		if v := a.val(s, env, c.Value); v.k == "fn" {
			callee, binds = v.fn, v.args
		}
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		binds = a.val(s, env, mc).args
	}
	if callee == nil {
		a.fail("%s: dynamic call", a.p.InstrPos(x))
	}
	if inRepo(fnPkgPath(callee)) && len(callee.Blocks) > 0 {
		if a.opaque(callee, args, c) {
			t := &aval{k: "term", op: fnName(callee), t: x.Type()}
			for i, v := range args {
				if i < len(callee.Params) && len(*callee.Params[i].Referrers()) > 0 {
					t.args = append(t.args, v)
				}
			}
			return one(t)
		}
		return a.run(callee, args, binds, s, depth+1)
	}
	name := extName(callee)
	switch name {
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		if p := a.deref(args[0]); p != nil {
			var ps []string
			ts := map[string]types.Type{}
			leafPaths(deref(callee.Params[0].Type()), "", &ps, ts)
			for _, q := range ps {
				z := zeroOf(ts[q])
				s.mem[mkey(p.obj, p.path+q)] = z
			}
			return []aoutcome{{s, nil}}
		}
	}
	// Other external functions are values of their arguments, unless they are handed tracked memory.
	for _, v := range args {
		if v.k == "ptr" && (!v.obj.entry || !strings.HasPrefix(v.obj.name, "global ")) || v.k == "slice" {
			a.fail("%s: %s is given tracked memory", a.p.InstrPos(x), name)
		}
	}
	res := x.Type()
	if tp, ok := res.(*types.Tuple); ok && tp.Len() != 1 {
		var rs []*aval
		for i := 0; i < tp.Len(); i++ {
			rs = append(rs, &aval{k: "term", op: fmt.Sprintf("%s#%d", name, i), args: args, t: tp.At(i).Type()})
		}
		return []aoutcome{{s, rs}}
	}
	return one(&aval{k: "term", op: name, args: args, t: res})
}

// opaque decides that a repository function may stand as an uninterpreted value of its arguments: it
// is handed no tracked memory, writes nothing that outlives it and returns nothing it allocated.
func (a *absint) opaque(fn *ssa.Function, args []*aval, c *ssa.CallCommon) bool {
	if fn.Signature.Results().Len() != 1 {
		return false
	}
	for i, v := range args {
		tracked := v.k == "slice" || v.k == "ptr" && !strings.HasPrefix(v.obj.name, "global ")
		if tracked && i < len(fn.Params) && len(*fn.Params[i].Referrers()) > 0 {
			return false
		}
		if v.k == "entry" {
			if _, isPtr := v.t.Underlying().(*types.Pointer); isPtr && len(*fn.Params[i].Referrers()) > 0 {
				if nt := namedOf(deref(v.t)); nt == nil || !strings.HasSuffix(nt.Obj().Pkg().Path(), "/metadata") {
					return false
				}
			}
		}
	}
	if len(fn.FreeVars) > 0 {
		return false
	}
	sum := a.eff.Summarise(fn)
	for _, rs := range sum.rets {
		for l := range rs {
			if !l.n.outside() {
				return false
			}
		}
	}
	return true
}

func namedOf(t types.Type) *types.Named {
	n, _ := types.Unalias(t).(*types.Named)
	if n == nil || n.Obj().Pkg() == nil {
		return nil
	}
	return n
}
