package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// String provenance: where the text of a value comes from. A value is described by a tree over
// constants, metadata fields, caller supplied text and operations; parameters are replaced by what
// each caller passes, one call site at a time.

type pnode struct {
	k    string // const field arg num cat alt op esc quote expand rec param unknown
	s    string
	i    int
	fn   *ssa.Function
	kids []*pnode
	at   string
}

func (n *pnode) String() string {
	switch n.k {
	case "const":
		return fmt.Sprintf("%q", n.s)
	case "field", "arg":
		return n.k + ":" + n.s
	case "param":
		return fmt.Sprintf("param %d of %s", n.i, n.fn.Name())
	}
	var s []string
	for _, c := range n.kids {
		s = append(s, c.String())
	}
	return n.k + n.s + "(" + strings.Join(s, ",") + ")"
}

type prov struct {
	p        *Program
	callers  map[*ssa.Function][]ssa.CallInstruction
	closures map[*ssa.Function][]*ssa.MakeClosure
	cbArgs   map[*ssa.Function][]cbUse
	fieldSt  map[string][]*ssa.Store
	globSt   map[*ssa.Global][]*ssa.Store
	mapUp    map[string][]*ssa.MapUpdate
	api      map[*ssa.Function]bool
	memo     map[ssa.Value]*pnode
	busy     map[ssa.Value]bool
	fmemo    map[string]*pnode
	fbusy    map[string]bool
	selfMap  map[string]int // 0 unknown, 1 yes, 2 no, 3 busy
	nodes    int
	anyFn    bool
}

type cbUse struct {
	site ssa.CallInstruction
	args []ssa.Value
}

func newProv(p *Program) *prov {
	if x, ok := p.facts["prov"].(*prov); ok {
		return x
	}
	v := &prov{p: p, callers: map[*ssa.Function][]ssa.CallInstruction{}, closures: map[*ssa.Function][]*ssa.MakeClosure{}, cbArgs: map[*ssa.Function][]cbUse{},
		fieldSt: map[string][]*ssa.Store{}, globSt: map[*ssa.Global][]*ssa.Store{}, mapUp: map[string][]*ssa.MapUpdate{}, api: map[*ssa.Function]bool{},
		memo: map[ssa.Value]*pnode{}, busy: map[ssa.Value]bool{}, fmemo: map[string]*pnode{}, fbusy: map[string]bool{}, selfMap: map[string]int{}}
	for _, f := range p.ExportedAPI(apiPackages...) {
		v.api[f] = true
	}
	for _, fn := range p.LibFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						k := typeField(a.X.Type(), a.Field)
						v.fieldSt[k] = append(v.fieldSt[k], x)
					case *ssa.Global:
						v.globSt[a] = append(v.globSt[a], x)
					}
				case *ssa.MapUpdate:
					k := x.Map.Type().Underlying().String()
					v.mapUp[k] = append(v.mapUp[k], x)
				case *ssa.MakeClosure:
					v.closures[x.Fn.(*ssa.Function)] = append(v.closures[x.Fn.(*ssa.Function)], x)
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if f := cc.StaticCallee(); f != nil {
						v.callers[f] = append(v.callers[f], ci)
					}
					for _, a := range cc.Args {
						var f *ssa.Function
						switch y := a.(type) {
						case *ssa.MakeClosure:
							f = y.Fn.(*ssa.Function)
						case *ssa.Function:
							f = y
						}
						if f != nil {
							v.cbArgs[f] = append(v.cbArgs[f], cbUse{ci, cc.Args})
						}
					}
				}
			}
		}
	}
	p.facts["prov"] = v
	return v
}

func metaType(t types.Type) (string, bool) {
	n := namedOf(deref(t))
	if n == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), modPath+"/metadata") {
		return "", false
	}
	switch n.Obj().Name() {
	case "PhoneMetadata", "PhoneNumberDesc", "NumberFormat":
		return n.Obj().Name(), true
	}
	return "", false
}

func isNumberMsg(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Pkg().Path() == modPath && n.Obj().Name() == "PhoneNumber"
}

func pconst(s string) *pnode { return &pnode{k: "const", s: s} }
func (v *prov) op(name string, at ssa.Instruction, kids ...*pnode) *pnode {
	n := &pnode{k: "op", s: name, kids: kids}
	if at != nil {
		n.at = v.p.InstrPos(at)
	}
	return n
}

// expr describes a value in terms of its function's parameters.
func (v *prov) expr(x ssa.Value) *pnode {
	if n := v.memo[x]; n != nil {
		return n
	}
	if v.busy[x] {
		return &pnode{k: "rec"}
	}
	v.nodes++
	v.busy[x] = true
	n := v.expr1(x)
	delete(v.busy, x)
	if len(v.busy) == 0 || !hasRec(n, 0) {
		v.memo[x] = n
	}
	return n
}

func hasRec(n *pnode, d int) bool {
	if n.k == "rec" || d > 40 {
		return true
	}
	for _, c := range n.kids {
		if hasRec(c, d+1) {
			return true
		}
	}
	return false
}

func palt(ks ...*pnode) *pnode {
	seen := map[string]bool{}
	var out []*pnode
	var add func(n *pnode)
	add = func(n *pnode) {
		if n.k == "alt" {
			for _, c := range n.kids {
				add(c)
			}
			return
		}
		s := n.String()
		if !seen[s] {
			seen[s] = true
			out = append(out, n)
		}
	}
	for _, k := range ks {
		add(k)
	}
	if len(out) == 1 {
		return out[0]
	}
	return &pnode{k: "alt", kids: out}
}

func (v *prov) expr1(x ssa.Value) *pnode {
	switch x := x.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return pconst("")
		}
		switch x.Value.Kind() {
		case constant.String:
			return pconst(constant.StringVal(x.Value))
		case constant.Int:
			if i, ok := constant.Int64Val(x.Value); ok {
				return &pnode{k: "const", s: string(rune(i)), i: int(i)}
			}
		}
		return &pnode{k: "num"}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				return &pnode{k: "param", fn: x.Parent(), i: i}
			}
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		var ks []*pnode
		for i, q := range fn.FreeVars {
			if q == x {
				for _, mc := range v.closures[fn] {
					ks = append(ks, v.inFrame(mc.Bindings[i]))
				}
			}
		}
		return palt(ks...)
	case *ssa.Global:
		return v.global(x)
	case *ssa.Alloc:
		return v.cell(x)
	case *ssa.Phi:
		var ks []*pnode
		for _, e := range x.Edges {
			ks = append(ks, v.expr(e))
		}
		return palt(ks...)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return &pnode{k: "cat", kids: []*pnode{v.expr(x.X), v.expr(x.Y)}}
			}
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return &pnode{k: "num"}
		}
		return v.op(x.Op.String(), x, v.expr(x.X), v.expr(x.Y))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return v.load(x)
		}
		return v.op(x.Op.String(), x, v.expr(x.X))
	case *ssa.FieldAddr:
		return v.field(x.X, x.Field, x)
	case *ssa.Field:
		return v.field(x.X, x.Field, x)
	case *ssa.IndexAddr:
		return v.elem(x.X)
	case *ssa.Index:
		return v.op("index", x, v.expr(x.X))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return v.lookup(x)
		}
		return v.op("index", x, v.expr(x.X))
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return v.elem(x.X)
		}
		return v.op("slice", x, v.elem(x.X))
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return &pnode{k: "num"}
		}
		return v.expr(x.X)
	case *ssa.ChangeType:
		return v.expr(x.X)
	case *ssa.ChangeInterface:
		return v.expr(x.X)
	case *ssa.MakeInterface:
		return v.expr(x.X)
	case *ssa.TypeAssert:
		return v.expr(x.X)
	case *ssa.SliceToArrayPointer:
		return v.expr(x.X)
	case *ssa.MakeSlice:
		return v.cell(x)
	case *ssa.MakeMap:
		return &pnode{k: "num", s: "map"}
	case *ssa.Range:
		return v.expr(x.X)
	case *ssa.Next:
		return v.op("iterate", x, v.expr(x.Iter))
	case *ssa.Extract:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return &pnode{k: "num"}
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return v.call(c, x.Index)
		}
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			return v.lookup(l)
		}
		return v.expr(x.Tuple)
	case *ssa.Call:
		return v.call(x, 0)
	case *ssa.Function, *ssa.MakeClosure, *ssa.Builtin:
		return &pnode{k: "num"}
	}
	return &pnode{k: "unknown", s: fmt.Sprintf("%T", x), at: v.p.Pos(x.Pos())}
}

// inFrame resolves a value completely, over all callers.
func (v *prov) inFrame(x ssa.Value) *pnode { return v.closed(v.expr(x), 0) }

func (v *prov) global(g *ssa.Global) *pnode {
	k := "global " + g.String()
	if n := v.fmemo[k]; n != nil {
		return n
	}
	if v.fbusy[k] {
		return &pnode{k: "rec"}
	}
	v.fbusy[k] = true
	var ks []*pnode
	for _, st := range v.globSt[g] {
		ks = append(ks, v.inFrame(st.Val))
	}
	delete(v.fbusy, k)
	var n *pnode
	if len(ks) == 0 {
		n = &pnode{k: "unknown", s: "global " + g.Name()}
		if !inRepo(g.Pkg.Pkg.Path()) || len(v.globSt[g]) == 0 {
			n = &pnode{k: "num", s: "fixed data " + g.Name()}
		}
	} else {
		n = palt(ks...)
	}
	v.fmemo[k] = n
	return n
}

// cell is the content of a local variable or array: everything stored into it.
func (v *prov) cell(a ssa.Value) *pnode {
	var ks []*pnode
	var addr func(x ssa.Value, depth int)
	var calls []*pnode
	addr = func(x ssa.Value, depth int) {
		if x.Referrers() == nil || depth > 6 {
			return
		}
		for _, ref := range *x.Referrers() {
			switch y := ref.(type) {
			case *ssa.Store:
				if y.Addr == x {
					ks = append(ks, v.expr(y.Val))
				}
			case *ssa.IndexAddr:
				if y.X == x {
					addr(y, depth+1)
				}
			case *ssa.FieldAddr:
				addr(y, depth+1)
			case *ssa.Slice:
				if y.X == x {
					addr(y, depth+1)
				}
			case *ssa.MakeClosure:
				fn := y.Fn.(*ssa.Function)
				for i, b := range y.Bindings {
					if b == x && i < len(fn.FreeVars) {
						addr(fn.FreeVars[i], depth+1)
					}
				}
			case *ssa.Call:
				cc := &y.Call
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" && cc.Args[0] == x {
						ks = append(ks, v.expr(cc.Args[1]))
					}
					continue
				}
				// buffers: what is written into them
				callee := cc.StaticCallee()
				if callee != nil && len(cc.Args) > 0 && cc.Args[0] == x && !inRepo(fnPkgPath(callee)) {
					name := callee.Name()
					switch {
					case strings.HasPrefix(name, "Write"), strings.HasPrefix(name, "Append"), strings.HasPrefix(name, "Put"), strings.HasPrefix(name, "Read"):
						for _, z := range cc.Args[1:] {
							calls = append(calls, v.expr(z))
						}
					}
				}
			}
		}
	}
	addr(a, 0)
	if len(calls) > 0 {
		if len(ks) == 0 && v.straight(a) {
			return &pnode{k: "cat", kids: calls}
		}
		ks = append(ks, v.op("written", nil, calls...))
	}
	if len(ks) == 0 {
		return pconst("")
	}
	return palt(ks...)
}

// straight: all writes to a buffer happen in one block, in order.
func (v *prov) straight(a ssa.Value) bool {
	var b *ssa.BasicBlock
	for _, ref := range *a.Referrers() {
		if c, ok := ref.(*ssa.Call); ok {
			if b == nil {
				b = c.Block()
			} else if b != c.Block() {
				return false
			}
		} else if _, ok := ref.(*ssa.DebugRef); !ok {
			return false
		}
	}
	return true
}

func (v *prov) load(x *ssa.UnOp) *pnode { return v.expr(x.X) }

func (v *prov) elem(x ssa.Value) *pnode { return v.expr(x) }

func (v *prov) field(base ssa.Value, f int, at ssa.Value) *pnode {
	t := base.Type()
	key := typeField(t, f)
	if tn, ok := metaType(t); ok {
		name := tn + "." + fieldNameOf(t, f)
		ft := deref(t).Underlying().(*types.Struct).Field(f).Type()
		if _, isM := metaType(ft); isM {
			return &pnode{k: "num"}
		}
		leaf := &pnode{k: "field", s: name}
		ks := []*pnode{leaf}
		for _, st := range v.fieldStores(key) {
			ks = append(ks, st)
		}
		return palt(ks...)
	}
	if isNumberMsg(t) {
		return &pnode{k: "arg", s: "PhoneNumber." + fieldNameOf(t, f)}
	}
	// a struct built locally: only what is stored into this object
	if al, ok := base.(*ssa.Alloc); ok && !escapes(al) {
		var ks []*pnode
		for _, ref := range *al.Referrers() {
			if fa, ok := ref.(*ssa.FieldAddr); ok && fa.Field == f {
				for _, r2 := range *fa.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
						ks = append(ks, v.expr(st.Val))
					}
				}
			}
			if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
				ks = append(ks, v.expr(st.Val))
			}
		}
		if len(ks) == 0 {
			return pconst("")
		}
		return palt(ks...)
	}
	if n := namedOf(deref(t)); n != nil && !inRepo(n.Obj().Pkg().Path()) {
		return v.op("field", nil, v.expr(base))
	}
	ks := v.fieldStores(key)
	if len(ks) == 0 {
		return pconst("")
	}
	return palt(ks...)
}

func escapes(al *ssa.Alloc) bool {
	for _, ref := range *al.Referrers() {
		switch y := ref.(type) {
		case *ssa.FieldAddr:
			for _, r := range *y.Referrers() {
				switch z := r.(type) {
				case *ssa.Store:
					if z.Addr != y {
						return true
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return true
				}
			}
		case *ssa.Store:
			if y.Addr != al {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func (v *prov) fieldStores(key string) []*pnode {
	k := "field " + key
	if n := v.fmemo[k]; n != nil {
		return n.kids
	}
	if v.fbusy[k] {
		return []*pnode{{k: "rec"}}
	}
	v.fbusy[k] = true
	var ks []*pnode
	for _, st := range v.fieldSt[key] {
		if v.p.isGenerated(st.Parent()) {
			continue
		}
		ks = append(ks, v.inFrame(st.Val))
	}
	delete(v.fbusy, k)
	v.fmemo[k] = &pnode{k: "alt", kids: ks}
	return ks
}

// lookup: a map whose entries store their own key gives back the key; otherwise anything stored in
// maps of this type.
func (v *prov) lookup(x *ssa.Lookup) *pnode {
	t := x.X.Type().Underlying().String()
	if b, ok := x.X.Type().Underlying().(*types.Map).Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return &pnode{k: "num"}
	}
	if v.storesKeys(t) {
		return v.expr(x.Index)
	}
	k := "map " + t
	if n := v.fmemo[k]; n != nil {
		return n
	}
	if v.fbusy[k] {
		return &pnode{k: "rec"}
	}
	v.fbusy[k] = true
	ks := []*pnode{{k: "num", s: "map"}}
	for _, u := range v.mapUp[t] {
		ks = append(ks, v.inFrame(u.Value))
	}
	delete(v.fbusy, k)
	n := palt(ks...)
	v.fmemo[k] = n
	return n
}

// storesKeys: every update of maps of this type stores, as far as text is concerned, the key itself
// (a cache of compiled patterns by their text).
func (v *prov) storesKeys(t string) bool {
	switch v.selfMap[t] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	if len(v.mapUp[t]) == 0 || !strings.HasSuffix(t, "*regexp.Regexp") {
		v.selfMap[t] = 2
		return false
	}
	v.selfMap[t] = 3
	ok := true
	for _, u := range v.mapUp[t] {
		for _, l := range v.lift(u.Parent(), []*pnode{v.expr(u.Key), v.expr(u.Value)}, false) {
			if l[0].String() != l[1].String() {
				ok = false
			}
		}
	}
	v.selfMap[t] = 2
	if ok {
		v.selfMap[t] = 1
	}
	v.memo = map[ssa.Value]*pnode{}
	return ok
}

// lift expresses trees of a function in terms of each caller, until they have no parameters left.
func (v *prov) lift(fn *ssa.Function, trees []*pnode, apiOnly bool) [][]*pnode {
	return v.liftRec(fn, trees, map[*ssa.Function]int{})
}

func hasParam(n *pnode, fn *ssa.Function) bool {
	if n.k == "param" && (fn == nil || n.fn == fn) {
		return true
	}
	for _, c := range n.kids {
		if hasParam(c, fn) {
			return true
		}
	}
	return false
}

func subst(n *pnode, fn *ssa.Function, arg func(i int) *pnode) *pnode {
	if n.k == "param" {
		if n.fn == fn {
			return arg(n.i)
		}
		return n
	}
	if !hasParam(n, fn) {
		return n
	}
	m := *n
	m.kids = nil
	for _, c := range n.kids {
		m.kids = append(m.kids, subst(c, fn, arg))
	}
	if m.k == "alt" {
		return palt(m.kids...)
	}
	return &m
}

func (v *prov) liftRec(fn *ssa.Function, trees []*pnode, depth map[*ssa.Function]int) [][]*pnode {
	need := false
	for _, t := range trees {
		need = need || hasParam(t, fn)
	}
	if !need {
		return [][]*pnode{trees}
	}
	if depth[fn] > 0 {
		return nil // recursion adds no new text of its own
	}
	depth[fn]++
	defer func() { depth[fn]-- }()
	var out [][]*pnode
	if v.api[fn] {
		var r []*pnode
		for _, t := range trees {
			r = append(r, subst(t, fn, func(i int) *pnode { return v.apiArg(fn, i) }))
		}
		out = append(out, r)
	}
	for _, site := range v.callers[fn] {
		cc := site.Common()
		var r []*pnode
		for _, t := range trees {
			r = append(r, subst(t, fn, func(i int) *pnode {
				if i < len(cc.Args) {
					return v.expr(cc.Args[i])
				}
				return &pnode{k: "unknown"}
			}))
		}
		out = append(out, v.liftRec(site.Parent(), r, depth)...)
	}
	for _, cb := range v.cbArgs[fn] {
		// called back by an external function with pieces of its other arguments
		var others []*pnode
		for _, a := range cb.args {
			if _, isF := a.Type().Underlying().(*types.Signature); !isF {
				others = append(others, v.expr(a))
			}
		}
		var r []*pnode
		for _, t := range trees {
			r = append(r, subst(t, fn, func(i int) *pnode { return v.op("callback", nil, others...) }))
		}
		out = append(out, v.liftRec(cb.site.Parent(), r, depth)...)
	}
	return out
}

func (v *prov) apiArg(fn *ssa.Function, i int) *pnode {
	if i < len(fn.Params) {
		t := fn.Params[i].Type()
		if b, ok := t.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsBoolean != 0 {
				return &pnode{k: "num"}
			}
		}
		return &pnode{k: "arg", s: fn.Params[i].Name() + " of " + fnName(fn)}
	}
	return &pnode{k: "unknown"}
}

// closed replaces all parameters by the union over all callers.
func (v *prov) closed(n *pnode, depth int) *pnode {
	var owner *ssa.Function
	var find func(n *pnode)
	find = func(n *pnode) {
		if n.k == "param" && owner == nil {
			owner = n.fn
		}
		for _, c := range n.kids {
			find(c)
		}
	}
	find(n)
	if owner == nil {
		return n
	}
	if depth > 12 {
		return &pnode{k: "unknown", s: "deep calls"}
	}
	var ks []*pnode
	for _, l := range v.lift(owner, []*pnode{n}, false) {
		ks = append(ks, v.closed(l[0], depth+1))
	}
	if len(ks) == 0 {
		return &pnode{k: "rec"}
	}
	return palt(ks...)
}

var digitsOnly = map[string]bool{"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.FormatUint": true, "strconv.AppendInt": true, "strconv.AppendUint": true, "unicode/utf8.RuneCountInString": true}

func (v *prov) call(c *ssa.Call, res int) *pnode {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if len(cc.Args) == 2 {
				return &pnode{k: "op", s: "append", kids: []*pnode{v.expr(cc.Args[0]), v.expr(cc.Args[1])}}
			}
			return v.expr(cc.Args[0])
		case "min", "max":
			var ks []*pnode
			for _, a := range cc.Args {
				ks = append(ks, v.expr(a))
			}
			return palt(ks...)
		}
		return &pnode{k: "num"}
	}
	callee := cc.StaticCallee()
	if callee != nil && inRepo(fnPkgPath(callee)) && len(callee.Blocks) > 0 {
		if res < callee.Signature.Results().Len() {
			if t := callee.Signature.Results().At(res).Type(); true {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					return &pnode{k: "num"}
				}
			}
		}
		if callee.Signature.Recv() != nil && len(cc.Args) == 1 {
			if n := v.localBuilder(cc.Args[0]); n != nil {
				return n
			}
		}
		var ks []*pnode
		for _, b := range callee.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && res < len(r.Results) {
					ks = append(ks, v.expr(r.Results[res]))
				}
			}
		}
		n := palt(ks...)
		return subst(n, callee, func(i int) *pnode { return v.expr(cc.Args[i]) })
	}
	var args []*pnode
	name := "dynamic call"
	if callee != nil {
		name = extName(callee)
	} else if cc.IsInvoke() {
		name = "invoke " + cc.Method.Name()
		args = append(args, v.expr(cc.Value))
	}
	if digitsOnly[name] {
		if callee != nil && strings.HasPrefix(name, "strconv.") && len(cc.Args) > 0 {
			from := cc.Args[0]
			if strings.HasPrefix(name, "strconv.Append") && len(cc.Args) > 1 {
				from = cc.Args[1]
			}
			return &pnode{k: "digits", kids: []*pnode{v.expr(from)}}
		}
		return &pnode{k: "num"}
	}
	var fnRes []*pnode
	for _, a := range cc.Args {
		var f *ssa.Function
		switch y := a.(type) {
		case *ssa.MakeClosure:
			f = y.Fn.(*ssa.Function)
		case *ssa.Function:
			f = y
		}
		if f != nil {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok && len(r.Results) > 0 {
						var others []*pnode
						for _, z := range cc.Args {
							if _, isF := z.Type().Underlying().(*types.Signature); !isF {
								others = append(others, v.expr(z))
							}
						}
						fnRes = append(fnRes, subst(v.expr(r.Results[0]), f, func(i int) *pnode { return v.op("callback", nil, others...) }))
					}
				}
			}
			continue
		}
		args = append(args, v.expr(a))
	}
	ks := func(i int) *pnode { return args[i] }
	cs := func(i int) (string, bool) {
		if i < len(args) && args[i].k == "const" {
			return args[i].s, true
		}
		return "", false
	}
	switch name {
	case "google.golang.org/protobuf/proto.String":
		return ks(0)
	case "regexp.MustCompile", "regexp.Compile", "(*regexp.Regexp).String", "strings.Clone", "bytes.Clone", "slices.Clone":
		return ks(0)
	case "regexp.QuoteMeta":
		return &pnode{k: "quote", kids: []*pnode{ks(0)}}
	case "strings.ReplaceAll":
		if o, ok := cs(1); ok && o == "$" {
			if w, ok := cs(2); ok && strings.Trim(w, "$") == "" && len(w) >= 2 && len(w)&(len(w)-1) == 0 {
				lv := 0
				for n := len(w); n > 1; n /= 2 {
					lv++
				}
				return &pnode{k: "esc", i: lv, kids: []*pnode{ks(0)}}
			}
		}
	case "(*regexp.Regexp).ReplaceAllString":
		return &pnode{k: "expand", kids: []*pnode{args[2], args[1]}, at: v.p.InstrPos(c)}
	case "(*regexp.Regexp).ReplaceAll":
		return &pnode{k: "expand", kids: []*pnode{args[2], args[1]}, at: v.p.InstrPos(c)}
	case "(*regexp.Regexp).ExpandString", "(*regexp.Regexp).Expand":
		return &pnode{k: "expand", kids: []*pnode{args[2], args[1], args[3]}, at: v.p.InstrPos(c)}
	case "(*regexp.Regexp).ReplaceAllStringFunc":
		return v.op(name, c, append([]*pnode{args[1]}, fnRes...)...)
	case "(*regexp.Regexp).ReplaceAllLiteralString":
		return v.op(name, c, args[1], args[2])
	case "fmt.Sprintf":
		if f, ok := cs(0); ok {
			if n := v.sprintf(f, cc); n != nil {
				return n
			}
		}
	case "strings.Join":
		if parts := v.literal(cc.Args[0]); parts != nil {
			n := &pnode{k: "cat"}
			for i, q := range parts {
				if i > 0 {
					n.kids = append(n.kids, ks(1))
				}
				n.kids = append(n.kids, v.expr(q))
			}
			return n
		}
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		return ks(0)
	}
	if strings.HasPrefix(name, "(*regexp.Regexp).Find") {
		if res := c.Type().Underlying().String(); strings.Contains(res, "int") {
			return &pnode{k: "num"}
		}
		return v.op(name, c, args[1])
	}
	if callee != nil && len(args) > 0 {
		if t, ok := c.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsBoolean != 0 {
			return &pnode{k: "num"}
		}
	}
	return v.op(name, c, append(args, fnRes...)...)
}

// literal lists the elements of a slice literal, or nil.
func (v *prov) literal(x ssa.Value) []ssa.Value {
	sl, ok := x.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([]ssa.Value, arr.Len())
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			c, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, r := range *ia.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ia {
					if out[c.Int64()] != nil {
						return nil
					}
					out[c.Int64()] = st.Val
				}
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil
		}
	}
	return out
}

func (v *prov) sprintf(f string, cc *ssa.CallCommon) *pnode {
	var parts []ssa.Value
	if len(cc.Args) == 2 {
		if c, ok := cc.Args[1].(*ssa.Const); !ok || c.Value != nil {
			parts = v.literal(cc.Args[1])
			if parts == nil {
				return nil
			}
		}
	}
	n := &pnode{k: "cat"}
	i := 0
	for {
		j := strings.IndexByte(f, '%')
		if j < 0 || j+1 >= len(f) {
			break
		}
		n.kids = append(n.kids, pconst(f[:j]))
		switch f[j+1] {
		case '%':
			n.kids = append(n.kids, pconst("%"))
		case 's', 'v', 'd':
			if i >= len(parts) {
				return nil
			}
			p := parts[i]
			i++
			if mi, ok := p.(*ssa.MakeInterface); ok {
				p = mi.X
			}
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				n.kids = append(n.kids, &pnode{k: "num"})
			} else {
				n.kids = append(n.kids, v.expr(p))
			}
		default:
			return nil
		}
		f = f[j+2:]
	}
	n.kids = append(n.kids, pconst(f))
	return n
}

// taint collects caller text that is not made literal; need is how many template expansions its
// escaping has to survive (-1: pattern syntax).
func taint(n *pnode, need int, have int, quoted bool, out map[string]string) {
	switch n.k {
	case "arg":
		if quoted || need > 0 && have >= need {
			return
		}
		out[n.s] = n.at
	case "digits":
	case "unknown":
		out["text that cannot be followed ("+n.s+" "+n.at+")"] = n.at
	case "param":
		out["unresolved parameter of "+fnName(n.fn)] = n.at
	case "quote":
		for _, c := range n.kids {
			taint(c, need, have, quoted || need < 0, out)
		}
	case "esc":
		for _, c := range n.kids {
			taint(c, need, n.i, quoted, out)
		}
	case "expand":
		for i, c := range n.kids {
			if i == 0 && need > 0 {
				taint(c, need+1, have, quoted, out)
			} else {
				taint(c, need, have, quoted, out)
			}
		}
	default:
		for _, c := range n.kids {
			taint(c, need, have, quoted, out)
		}
	}
}

type provSink struct {
	fn   *ssa.Function
	site ssa.CallInstruction
	name string
	arg  int
	kind string // pattern, template, format
}

// sinks finds every place where text is interpreted.
func (v *prov) sinks(funcs []*ssa.Function) []provSink {
	pat := map[string]int{"regexp.MustCompile": 0, "regexp.Compile": 0, "regexp.MustCompilePOSIX": 0, "regexp.CompilePOSIX": 0, "regexp.MatchString": 0, "regexp.Match": 0, "regexp.MatchReader": 0,
		"regexp/syntax.Parse": 0}
	tmpl := map[string]int{"(*regexp.Regexp).ReplaceAllString": 2, "(*regexp.Regexp).ReplaceAll": 2, "(*regexp.Regexp).ExpandString": 2, "(*regexp.Regexp).Expand": 2}
	format := map[string]int{"fmt.Sprintf": 0, "fmt.Errorf": 0, "fmt.Appendf": 1, "fmt.Fprintf": 1, "fmt.Printf": 0}
	var out []provSink
	for _, fn := range funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil {
					continue
				}
				n := extName(callee)
				for kind, m := range map[string]map[string]int{"pattern": pat, "template": tmpl, "format": format} {
					if i, ok := m[n]; ok && i < len(ci.Common().Args) {
						out = append(out, provSink{fn, ci, n, i, kind})
					}
				}
			}
		}
	}
	return out
}

// localBuilder describes the content of a string builder made and used in one function only.
func (v *prov) localBuilder(x ssa.Value) *pnode {
	mk, ok := x.(*ssa.Call)
	if !ok || mk.Call.StaticCallee() == nil || fnPkgPath(mk.Call.StaticCallee()) != modPath+"/internal/stringbuilder" {
		return nil
	}
	var ks []*pnode
	for _, a := range mk.Call.Args {
		ks = append(ks, v.expr(a))
	}
	for _, ref := range *mk.Referrers() {
		switch y := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			f := y.Call.StaticCallee()
			if f == nil || f.Signature.Recv() == nil || fnPkgPath(f) != modPath+"/internal/stringbuilder" || y.Call.Args[0] != mk {
				return nil
			}
			for _, a := range y.Call.Args[1:] {
				if a == mk {
					return nil
				}
				if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
					continue
				}
				ks = append(ks, v.expr(a))
			}
		default:
			return nil
		}
	}
	return v.op("built", mk, ks...)
}
