package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pointers, functions and interfaces that are used must be there.

func (e *engine) notNil(t *term) bgoal {
	return bgoal{ts: []*term{t}, key: "nonnil", test: func(f *factset, ts []*term) bool {
		if f.there(ts[0], 0) {
			return true
		}
		// a field of it was looked at on the way
		for l := range ordered(f.cn.w.lits) {
			if readsOf(l, ts[0], map[*term]bool{}) {
				return true
			}
		}
		return false
	}}
}

// readsOf: the term contains a field read from the object.
func readsOf(t, x *term, seen map[*term]bool) bool {
	if seen[t] || t.op == "sk" || t.op == "old" {
		return false
	}
	seen[t] = true
	if t.op == "fld" && t.args[0] == x {
		return true
	}
	for _, a := range t.args {
		if readsOf(a, x, seen) {
			return true
		}
	}
	return false
}

// there: the value is not nil.
func (f *factset) there(t *term, depth int) bool {
	e := f.e
	if depth > 6 {
		return false
	}
	x := f.cn.of(t)
	for _, t := range []*term{t, x} {
		q := e.eq(t, e.nilT)
		if q == e.falseT || !q.isConst() && f.cn.holds(q, false) {
			return true
		}
		switch t.op {
		case "op":
			switch s := e.siteOf(t).(type) {
			case *ssa.Call:
				if g := s.Call.StaticCallee(); g != nil && alwaysThere[extName(g)] {
					return true
				}
			case *ssa.Alloc, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeInterface:
				return true
			}
		case "regexp", "iface", "closure", "func", "glob", "&fld", "&elem", "&idx":
			return true
		case "res":
			// the standard library gives either a value or an error
			if c := t.args[0]; t.sym == "0" && (c.op == "op" || c.op == "call") {
				g := e.fns[c.sym]
				if s, ok := e.siteOf(c).(*ssa.Call); ok {
					g = s.Call.StaticCallee()
				}
				if g != nil && !inRepo(fnPkgPath(g)) && g.Signature.Results().Len() == 2 && f.cn.holds(e.eq(e.res(c, 1), e.nilT), true) {
					return true
				}
			}
		case "sk":
			if len(t.args) > 1 && f.there(t.args[1], depth+1) {
				return true
			}
		case "get", "fld":
			i := strings.LastIndexByte(t.sym, '.')
			if strings.HasPrefix(t.sym, metaPath+".PhoneMetadata.") && e.p.dataAlways()[t.sym[i+1:]] && (t.op == "fld" || f.there(t.args[0], depth+1)) {
				return true
			}
		case "elem", "idx":
			if t.typ != nil && isMessageList(t) {
				return true
			}
			if len(t.args) > 0 && t.args[0].op == "gload" && len(e.patterns(t)) > 0 {
				return true
			}
		case "call":
			if alwaysThere[t.sym] {
				return true
			}
		case "gload":
			if f.e.bounder().globalSet(strings.TrimPrefix(t.sym, "glob:")) {
				return true
			}
		case "param":
			if f.e.bounder().trusted(t) {
				return true
			}
		}
	}
	return false
}

var alwaysThere = map[string]bool{
	"regexp.MustCompile": true, "strings.NewReplacer": true, "errors.New": true, "fmt.Errorf": true,
	"google.golang.org/protobuf/proto.String": true, "google.golang.org/protobuf/proto.Bool": true,
	"google.golang.org/protobuf/proto.Int32": true, "google.golang.org/protobuf/proto.Uint64": true,
	"(*golang.org/x/text/language/display.Dictionary).Regions": true, "(*golang.org/x/text/language/display.Dictionary).Tags": true,
	"bytes.NewReader": true, "bytes.NewBuffer": true, "strings.NewReader": true,
}

// isMessageList: an element of a list of messages: embedded lists hold no nil.
func isMessageList(t *term) bool {
	if len(t.args) == 0 {
		return false
	}
	l := t.args[0]
	return (l.op == "get" || l.op == "fld") && strings.HasPrefix(l.sym, metaPath+".")
}

// siteOf finds the instruction an opaque term stands for.
func (e *engine) siteOf(t *term) ssa.Instruction {
	for _, c := range ordered(e.ctx) {
		if x, ok := c.sites[t]; ok {
			return x
		}
	}
	return nil
}

type nilSite struct {
	in   ssa.Instruction
	what string
	goal *term
	v    ssa.Value
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
		return true
	}
	return false
}

func (b *bprover) nilSites(fn *ssa.Function) []nilSite {
	c := b.e.fctx(fn)
	var out []nilSite
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			use := func(what string, v ssa.Value) {
				switch v.(type) {
				case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Function, *ssa.MakeClosure, *ssa.FreeVar, *ssa.MakeMap, *ssa.MakeInterface, *ssa.MakeSlice:
					return
				}
				out = append(out, nilSite{in, what, c.t(v), v})
			}
			switch x := in.(type) {
			case *ssa.FieldAddr:
				use("field", x.X)
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					use("array", x.X)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					use("dereference", x.X)
				}
			case *ssa.Store:
				use("store", x.Addr)
			case *ssa.MapUpdate:
				use("map update", x.Map)
			case ssa.CallInstruction:
				com := x.Common()
				if com.IsInvoke() {
					use("method of interface", com.Value)
					continue
				}
				if f := com.StaticCallee(); f == nil {
					if _, ok := com.Value.(*ssa.Builtin); !ok {
						use("function", com.Value)
					}
				} else if f.Signature.Recv() != nil && len(com.Args) > 0 && !inRepo(fnPkgPath(f)) {
					if _, ok := com.Args[0].Type().Underlying().(*types.Pointer); ok {
						use("receiver", com.Args[0])
					}
				}
			}
		}
	}
	return out
}

func (e *engine) bounder() *bprover {
	if e.prover != nil {
		return e.prover
	}
	return e.p.bounder()
}

// globalSet: the variable always holds something once the package is initialised: it is set by the
// initialiser, and never to nothing.
func (b *bprover) globalSet(name string) bool {
	if r, ok := b.globs[name]; ok {
		return r
	}
	if b.globs == nil {
		b.globs = map[string]bool{}
	}
	b.globs[name] = false
	e := b.e
	var g *ssa.Global
	for x := range ordered(e.globalUses(true)) {
		if x.String() == name {
			g = x
		}
	}
	if g == nil {
		return false
	}
	if !inRepo(g.Pkg.Pkg.Path()) {
		b.globs[name] = true // the standard library's tables
		return true
	}
	init := false
	for _, u := range e.globalUses(false)[g] {
		st, ok := u.(*ssa.Store)
		if !ok || st.Addr != ssa.Value(g) {
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
		if !isLibraryPath(fnPkgPath(st.Parent())) {
			continue
		}
		init = init || strings.HasPrefix(st.Parent().Name(), "init")
		c := e.fctx(st.Parent())
		if b.skip != nil && b.skip(st.Parent()) {
			return false
		}
		q := bpoint{c: c, blk: st.Block(), at: st, via: -1, lits: map[*term]bool{}}
		good := false
		b.quietly(func() {
			b.within(200, func() { good = b.prove(q, e.notNil(c.t(st.Val)), 6) })
		})
		if !good {
			return false
		}
	}
	b.globs[name] = init
	return init
}

// trusted: the parameter of a public function is there by agreement: the receiver of a method, the
// message a result is written to, a function to call, a rule for formatting.
func (b *bprover) trusted(t *term) bool {
	i := strings.LastIndexByte(t.sym, '$')
	fn := b.e.fns[t.sym[:i]]
	n := 0
	fmt.Sscan(t.sym[i+1:], &n)
	if fn == nil {
		for f := range ordered(b.e.ctx) {
			if f.String() == t.sym[:i] {
				fn = f
			}
		}
	}
	if fn == nil || n >= len(fn.Params) {
		return false
	}
	if fn.Parent() != nil {
		_, ok := fn.Params[n].Type().Underlying().(*types.Signature)
		return ok
	}
	if !b.e.isAPI(fn) {
		return false
	}
	if fn.Signature.Recv() != nil && n == 0 {
		return true
	}
	pt, ok := fn.Params[n].Type().Underlying().(*types.Pointer)
	if !ok {
		return true
	}
	if m := namedOf(pt.Elem()); m == nil || m.Obj().Name() != "PhoneNumber" {
		return true
	}
	return b.isDest(fn, n, map[*ssa.Function]bool{})
}

// isDest: the function writes to the message.
func (b *bprover) isDest(fn *ssa.Function, n int, busy map[*ssa.Function]bool) bool {
	if busy[fn] || n >= len(fn.Params) {
		return false
	}
	busy[fn] = true
	for _, u := range *fn.Params[n].Referrers() {
		switch u := u.(type) {
		case *ssa.FieldAddr:
			for _, w := range *u.Referrers() {
				if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(u) {
					return true
				}
			}
		case *ssa.Call:
			f := u.Call.StaticCallee()
			if f == nil {
				continue
			}
			for i, a := range u.Call.Args {
				if a == ssa.Value(fn.Params[n]) && f.Blocks != nil && inRepo(fnPkgPath(f)) && b.isDest(f, i, busy) {
					return true
				}
			}
		case *ssa.MakeInterface:
			for _, w := range *u.Referrers() {
				if c, ok := w.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && (strings.HasSuffix(f.String(), "proto.Merge") || strings.HasSuffix(f.String(), "proto.Reset")) && len(c.Call.Args) > 0 && c.Call.Args[0] == ssa.Value(u) {
						return true
					}
				}
			}
		}
	}
	return false
}
