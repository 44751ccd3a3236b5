package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkClear }

// checkClear decides C15: the state Clear leaves behind equals the state the constructor creates,
// field by field, for arbitrary contents before.
func checkClear(p *Program, r *Report) {
	r.Rule("The constructor and Clear are interpreted abstractly over the formatter's fields and owned sub-objects, Clear from an arbitrary state; every field must end with the constructor's value (a field only construction assigns keeps it), and storage Clear keeps for reuse must belong to that field alone.")
	sp := p.SPkgs[modPath]
	obj := sp.Pkg.Scope().Lookup("AsYouTypeFormatter")
	clearFn := p.Func(modPath, "AsYouTypeFormatter.Clear")
	if obj == nil || clearFn == nil {
		r.Failf("anchor", "AsYouTypeFormatter.Clear", "-", "the formatter or its Clear method is missing")
		return
	}
	T := obj.Type()
	var ctors []*ssa.Function
	for _, f := range p.ExportedAPI(modPath) {
		res := f.Signature.Results()
		if f.Signature.Recv() == nil && res.Len() == 1 && types.Identical(res.At(0).Type(), types.NewPointer(T)) {
			ctors = append(ctors, f)
		}
	}
	r.Count("constructors", len(ctors))
	r.Require("constructors", 1)
	fa := newFieldFacts(p, T, append([]*ssa.Function{clearFn}, ctors...))
	for _, ctor := range ctors {
		clearAgainst(p, r, T, ctor, clearFn, fa)
	}
	r.Assume("Calls the constructor makes (metadata lookup) give the same answer when repeated (C05, C06).")
	r.Require("fields compared", 15)
}

// fieldFacts records which fields of a struct type are assigned outside construction.
type fieldFacts struct {
	p       *Program
	mutable map[string]bool // field names of T
	nilTest map[string]bool // "pkg.Type.field" compared with nil somewhere
}

func typeField(t types.Type, i int) string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return "?"
	}
	return tstr(deref(t)) + "." + st.Field(i).Name()
}

func newFieldFacts(p *Program, T types.Type, roots []*ssa.Function) *fieldFacts {
	f := &fieldFacts{p: p, mutable: map[string]bool{}, nilTest: map[string]bool{}}
	// construct: functions only ever called while constructing or clearing
	callers := map[*ssa.Function][]*ssa.Function{}
	escaped := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if cc := callCommon(in); cc != nil {
					callee = cc.StaticCallee()
					if callee != nil {
						callers[callee] = append(callers[callee], fn)
					}
				}
				var ops []*ssa.Value
				for i, o := range in.Operands(ops) {
					if g, ok := (*o).(*ssa.Function); ok && !(i == 0 && g == callee) {
						escaped[g] = true
					}
				}
			}
		}
	}
	isRoot := map[*ssa.Function]bool{}
	for _, x := range roots {
		isRoot[x] = true
	}
	constr := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		o := fn.Object()
		constr[fn] = isRoot[fn] || o != nil && !o.Exported() && !escaped[fn] && len(callers[fn]) > 0
	}
	for again := true; again; {
		again = false
		for _, fn := range p.Funcs {
			if !constr[fn] || isRoot[fn] {
				continue
			}
			for _, c := range callers[fn] {
				if !constr[c] {
					constr[fn] = false
					again = true
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if types.Identical(deref(x.Addr.Type()), T) && !constr[fn] {
						if _, fresh := x.Addr.(*ssa.Alloc); !fresh {
							f.mutable["*"] = true
						}
					}
				case *ssa.FieldAddr:
					if !types.Identical(deref(x.X.Type()), T) || constr[fn] {
						continue
					}
					if _, fresh := x.X.(*ssa.Alloc); fresh {
						continue
					}
					st := T.Underlying().(*types.Struct)
					for _, ref := range *x.Referrers() {
						if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if _, ok := ref.(*ssa.DebugRef); ok {
							continue
						}
						f.mutable[st.Field(x.Field).Name()] = true
					}
				case *ssa.BinOp:
					if x.Op != token.EQL && x.Op != token.NEQ {
						continue
					}
					for _, pr := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						if c, ok := pr[1].(*ssa.Const); ok && c.Value == nil {
							if u, ok := pr[0].(*ssa.UnOp); ok {
								if a, ok := u.X.(*ssa.FieldAddr); ok {
									f.nilTest[typeField(a.X.Type(), a.Field)] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return f
}

func clearAgainst(p *Program, r *Report, T types.Type, ctor, clearFn *ssa.Function, fa *fieldFacts) {
	defer func() {
		if x := recover(); x != nil {
			f, ok := x.(absFail)
			if !ok {
				panic(x)
			}
			r.Failf("undecided", fnName(clearFn), p.Pos(clearFn.Pos()), "the state after Clear cannot be derived: %s", f.msg)
		}
	}()
	a := &absint{p: p, eff: NewEffects(p), entries: map[string]*aobj{}}
	var args []*aval
	for i, q := range ctor.Params {
		args = append(args, &aval{k: "term", op: "argument " + q.Name(), t: q.Type(), lo: i})
	}
	st := &astate{mem: map[string]*aval{}, known: map[string]bool{}, subst: map[string]*aval{}}
	outs := a.run(ctor, args, nil, st, 0)
	if len(outs) == 0 {
		r.Failf("undecided", fnName(ctor), p.Pos(ctor.Pos()), "the constructor never returns")
	}
	var paths []string
	ptypes := map[string]types.Type{}
	leafPaths(T, "", &paths, ptypes)
	for _, co := range outs {
		cp := a.deref(co.res[0])
		if cp == nil || cp.obj.entry {
			r.Failf("undecided", fnName(ctor), p.Pos(ctor.Pos()), "the constructor does not return a new object")
			continue
		}
		this := a.entryObj("formatter", T)
		a.resolve = func(o *aobj, path string) *aval {
			if o != this || fa.mutable["*"] || fa.mutable[topField(path)] {
				return nil
			}
			v := a.load(co.st, cp.obj, cp.path+path, ptypes[path])
			if v.k == "ptr" && !v.obj.entry || v.k == "slice" || v.k == "top" || v.k == "struct" {
				return nil
			}
			return v
		}
		s2 := co.st.clone()
		clears := a.run(clearFn, []*aval{{k: "ptr", obj: this, t: types.NewPointer(T)}}, nil, s2, 0)
		if len(clears) == 0 {
			r.Failf("undecided", fnName(clearFn), p.Pos(clearFn.Pos()), "Clear never returns")
		}
		r.Count("outcomes compared", len(clears))
		for _, cl := range clears {
			fin := cl.st
			compat := true
			for k, v := range ordered(co.st.known) {
				if w, ok := fin.known[k]; ok && w != v {
					compat = false
				}
			}
			if !compat {
				continue
			}
			cmp := &clearCmp{a: a, r: r, p: p, fa: fa, fn: clearFn, want: co.st, got: fin, pair: map[string]string{}, this: this}
			for _, path := range paths {
				w := a.load(co.st, cp.obj, cp.path+path, ptypes[path])
				g := a.load(fin, this, path, ptypes[path])
				cmp.same("formatter"+path, path, T, w, g, 0)
			}
		}
		a.resolve = nil
	}
	r.Count("fields never assigned after construction", len(paths)-len(fa.mutable))
}

func topField(path string) string {
	f := strings.TrimPrefix(path, ".")
	if i := strings.IndexAny(f, ".["); i >= 0 {
		f = f[:i]
	}
	return f
}

type clearCmp struct {
	a         *absint
	r         *Report
	p         *Program
	fa        *fieldFacts
	fn        *ssa.Function
	want, got *astate
	pair      map[string]string
	this      *aobj
}

func (c *clearCmp) bad(name, f string, x ...any) {
	c.r.Failf("cleared-state", name, c.p.Pos(c.fn.Pos()), f, x...)
}

// same compares one field; owner is the struct type it belongs to.
func (c *clearCmp) same(name, path string, owner types.Type, w, g *aval, depth int) {
	c.r.Count("fields compared", 1)
	if depth > 4 {
		c.bad(name, "the objects hanging off this field are nested too deeply to compare")
		return
	}
	if w.k == "ptr" && !w.obj.entry {
		// an object the constructor made
		var o *aval
		switch {
		case g.k == "ptr":
			o = g
		case g.k == "entry":
			o = c.a.deref(g)
			if g.obj == c.this && (c.fa.mutable["*"] || c.fa.mutable[topField(g.path)]) {
				c.bad(name, "Clear leaves the pointer in place although other methods assign it, so it may be shared with another field")
				return
			}
		}
		if o == nil || o.path != w.path {
			c.bad(name, "a new formatter has an object of its own here, after Clear the value is %s", g)
			return
		}
		wk, gk := mkey(w.obj, w.path), mkey(o.obj, o.path)
		if other, ok := c.pair["w"+wk]; ok && other != gk {
			c.bad(name, "the objects are shared differently than in a new formatter")
			return
		}
		if other, ok := c.pair["g"+gk]; ok && other != wk {
			c.bad(name, "the object is shared with another field after Clear, but not in a new formatter")
			return
		}
		if _, ok := c.pair["w"+wk]; ok {
			return
		}
		c.pair["w"+wk], c.pair["g"+gk] = gk, wk
		var ps []string
		ts := map[string]types.Type{}
		T := deref(w.t)
		leafPaths(T, "", &ps, ts)
		for _, q := range ps {
			c.same(name+q, q, T, c.a.load(c.want, w.obj, w.path+q, ts[q]), c.a.load(c.got, o.obj, o.path+q, ts[q]), depth+1)
		}
		return
	}
	if w.k == "empty" {
		if g.k != "empty" {
			c.bad(name, "a new formatter has nothing here, after Clear the value is %s", g)
			return
		}
		if g.kept {
			key := tstr(owner) + path
			if c.fa.nilTest[key] {
				c.bad(name, "the field is nil in a new formatter but not after Clear, and the code tells the two apart")
				return
			}
			if why := ownStorage(c.p, owner, strings.TrimPrefix(path, ".")); why != "" {
				c.bad(name, "Clear keeps this slice's storage for reuse, but it may be shared: %s", why)
				return
			}
		}
		c.r.Ok("%s: empty", name)
		return
	}
	if w.k == "top" || g.k == "top" || w.k == "slice" || w.k == "tuple" {
		c.bad(name, "the value cannot be compared (%s, %s)", w, g)
		return
	}
	if w.String() != g.String() {
		c.bad(name, "a new formatter has %s, after Clear the value is %s", w, g)
		return
	}
	c.r.Ok("%s = %s", name, w)
}

// ownStorage shows that a slice field only ever refers to storage of its own: each assignment stores
// nil, something just allocated, or a reslice or extension of the same object's same field.
func ownStorage(p *Program, owner types.Type, field string) string {
	var bad []string
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), owner) || fieldNameOf(fa.X.Type(), fa.Field) != field {
					continue
				}
				if why := ownValue(p, fa, st.Val, map[ssa.Value]bool{}, 0); why != "" {
					bad = append(bad, p.InstrPos(st)+": "+why)
				}
			}
		}
	}
	sort.Strings(bad)
	if len(bad) > 0 {
		return bad[0]
	}
	return ""
}

func ownValue(p *Program, at *ssa.FieldAddr, v ssa.Value, seen map[ssa.Value]bool, depth int) string {
	if seen[v] || depth > 8 {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeSlice, *ssa.Convert:
		return ""
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok && al.Heap {
			return ""
		}
		return ownValue(p, at, x.X, seen, depth)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := ownValue(p, at, e, seen, depth); w != "" {
				return w
			}
		}
		return ""
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && at != nil && fa.Field == at.Field && types.Identical(fa.X.Type(), at.X.Type()) && (fa.X == at.X) {
			return ""
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return ownValue(p, at, x.Call.Args[0], seen, depth)
		}
		if callee := x.Call.StaticCallee(); callee != nil {
			switch n := extName(callee); {
			case strings.HasPrefix(n, "slices.Clone"), strings.HasPrefix(n, "bytes.Clone"):
				return ""
			case strings.HasPrefix(n, "slices.Insert"), strings.HasPrefix(n, "slices.Delete"), strings.HasPrefix(n, "slices.Grow"), strings.HasPrefix(n, "slices.Replace"),
				strings.HasPrefix(n, "unicode/utf8.AppendRune"), strings.HasPrefix(n, "strconv.Append"), strings.HasPrefix(n, "slices.Clip"), strings.HasPrefix(n, "slices.Compact"):
				return ownValue(p, at, x.Call.Args[0], seen, depth)
			}
			if inRepo(fnPkgPath(callee)) && len(callee.Blocks) > 0 {
				// a helper that returns an extension of its own argument or a new slice
				for _, b := range callee.Blocks {
					for _, in := range b.Instrs {
						if ret, ok := in.(*ssa.Return); ok && len(ret.Results) > 0 {
							rv := ret.Results[0]
							for {
								if sl, ok := rv.(*ssa.Slice); ok {
									rv = sl.X
									continue
								}
								if c, ok := rv.(*ssa.Call); ok {
									if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
										rv = c.Call.Args[0]
										continue
									}
								}
								break
							}
							if pr, ok := rv.(*ssa.Parameter); ok {
								if w := ownValue(p, at, argFor(callee, &x.Call, pr), seen, depth+1); w != "" {
									return w
								}
								continue
							}
							if w := ownValue(p, nil, rv, seen, depth+1); w != "" {
								return w
							}
						}
					}
				}
				return ""
			}
		}
	case *ssa.Parameter:
		// every caller must hand over storage of its own
		fn := x.Parent()
		n := 0
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if cc := callCommon(in); cc != nil && cc.StaticCallee() == fn {
						n++
						if w := ownValue(p, nil, argFor(fn, cc, x), seen, depth+1); w != "" {
							return w
						}
					}
				}
			}
		}
		if n > 0 {
			return ""
		}
		return "the parameter " + x.Name() + " of " + fnName(fn)
	}
	return "assigned from " + v.String()
}
