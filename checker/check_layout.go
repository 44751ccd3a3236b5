package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = checkLayout }

// checkLayout decides C21: the packed tables are read the way they are written.
//
// For every stream that a function of the build tool writes (or of the library reads) in binary, the fields it
// writes, in every order the control flow allows, make a finite automaton; helpers are followed with the stream
// they are given. Writers and readers must pair up with equal automata. For every pair of fields met at the same
// place what the field means to both sides is compared, and every narrowing on the writing side must be shown to
// lose nothing.
func checkLayout(p *Program, r *Report) {
	r.Rule("(1) Every packed table the library reads has an automaton of fields (width, byte order, varint or bytes, in the order the control flow allows) equal to that of a table the build tool writes, and the other way round. (2) Fields met at the same place mean the same to both sides: length of the text that follows, number of rounds of the loop that follows, difference to the previous key from the same start, index into the list of texts; the texts are joined and split at the same separator. (3) Every conversion to 8 or 16 bits on the writing side is of a value that conditions passed before, or its type, limit to what fits. A step the analysis does not follow is listed as left open, and is not reported.")
	l := &layouts{p: p, r: r}
	l.find()
	l.pair()
	l.narrow()
	left := dedup(l.left)
	sort.Strings(left)
	if left == nil {
		left = []string{}
	}
	r.Coverage["left open"] = left
	if len(left) == 0 {
		r.Require("tables written", 2)
		r.Require("tables read", 2)
		r.Require("narrowing conversions", 2)
	}
	r.Require("binary operations", 2)
	r.Assume("Tables have fewer than 2^32 bytes and entries; conversions to 32 bits or more are not examined. No text of a table holds the separator.")
}

type layouts struct {
	p      *Program
	r      *Report
	left   []string
	w, rd  []*layout
	frames map[*ssa.Function]bool // functions of the writing side
}

// lframe is a function, looked at for one call.
type lframe struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	up   *lframe
}

type lblock struct {
	fr  *lframe
	blk *ssa.BasicBlock
}

type lfield struct {
	tok string
	in  ssa.CallInstruction
	fr  *lframe
	val ssa.Value // written: the value; read: the place or result
	sgn bool
}

type ledge struct {
	to int
	f  *lfield // nil: nothing is written or read
}

type layout struct {
	l      *layouts
	fn     *ssa.Function
	root   ssa.Value
	write  bool
	edges  [][]ledge
	accept map[int]bool
	odd    string // something not followed
	heads  map[lblock]int
	fields int
	hard   int // fields other than bytes
}

func (y *layout) state() int {
	y.edges = append(y.edges, nil)
	return len(y.edges) - 1
}

// settle follows a value to where it was made, through parameters, closures and variables set once.
func settle(v ssa.Value, fr *lframe) (ssa.Value, *lframe) {
	for n := 0; n < 40; n++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Parameter:
			if fr == nil || fr.call == nil {
				return v, fr
			}
			com := fr.call.Common()
			i := -1
			for j, q := range fr.fn.Params {
				if q == x {
					i = j
				}
			}
			if i < 0 || i >= len(com.Args) || com.IsInvoke() {
				return v, fr
			}
			v, fr = com.Args[i], fr.up
		case *ssa.FreeVar:
			if fr == nil || fr.call == nil {
				return v, fr
			}
			mc, ok := fr.call.Common().Value.(*ssa.MakeClosure)
			if !ok {
				w, wf := settle(fr.call.Common().Value, fr.up)
				mc, ok = w.(*ssa.MakeClosure)
				if !ok || wf != fr.up {
					return v, fr
				}
			}
			i := -1
			for j, q := range fr.fn.FreeVars {
				if q == x {
					i = j
				}
			}
			if i < 0 {
				return v, fr
			}
			v, fr = mc.Bindings[i], fr.up
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v, fr
			}
			a, af := settle(x.X, fr)
			al, ok := a.(*ssa.Alloc)
			if !ok {
				return v, fr
			}
			w := setOnce(al)
			if w == nil {
				return v, fr
			}
			v, fr = w, af
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil || len(x.Call.Args) == 0 {
				return v, fr
			}
			switch extName(f) {
			case "bufio.NewWriter", "bufio.NewWriterSize", "bufio.NewReader", "bufio.NewReaderSize":
				w, wf := settle(x.Call.Args[0], fr)
				if !isStream(w) {
					return v, fr
				}
				v, fr = w, wf
			default:
				return v, fr
			}
		default:
			return v, fr
		}
	}
	return v, fr
}

// setOnce is the only value a variable is given, if there is one.
func setOnce(al *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != al || val != nil {
				return nil
			}
			val = x.Val
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b != al {
					continue
				}
				for _, q := range *f.FreeVars[i].Referrers() {
					if _, ok := q.(*ssa.UnOp); !ok {
						return nil
					}
				}
			}
		default:
			return nil
		}
	}
	return val
}

func isStream(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		n := namedOf(deref(x.Type()))
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer"
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch extName(f) {
			case "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader", "bufio.NewReader", "bufio.NewWriter":
				return true
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 {
			if f := c.Call.StaticCallee(); f != nil && extName(f) == "compress/gzip.NewReader" {
				return true
			}
		}
	}
	return false
}

func (l *layouts) find() {
	used := map[ssa.Instruction]bool{}
	var all []ssa.Instruction
	for _, fn := range l.p.Funcs {
		pp := fnPkgPath(fn)
		if fn.Blocks == nil || !strings.HasPrefix(pp, modPath) || l.p.isGenerated(fn) {
			continue
		}
		if fn.Origin() != nil && fn.Origin() != fn && fn.Synthetic == "" {
			continue
		}
		write := !isLibraryPath(pp)
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && strings.HasPrefix(strings.TrimPrefix(extName(ci.Common().StaticCallee()), "("), "encoding/binary.") && fn.TypeParams().Len() == 0 && fn.Name() != "init" {
					all = append(all, in)
					l.r.Count("binary operations", 1)
				}
				v, ok := in.(ssa.Value)
				if !ok || !isStream(v) {
					continue
				}
				if w, _ := settle(v, &lframe{fn: fn}); w != v {
					continue
				}
				y := &layout{l: l, fn: fn, root: v, write: write, accept: map[int]bool{}}
				y.build(in)
				if y.hard == 0 {
					continue
				}
				for _, es := range y.edges {
					for _, e := range es {
						if e.f != nil {
							used[e.f.in] = true
							for f := e.f.fr; f != nil; f = f.up {
								if write {
									if l.frames == nil {
										l.frames = map[*ssa.Function]bool{}
									}
									l.frames[f.fn] = true
								}
							}
						}
					}
				}
				if write {
					l.w = append(l.w, y)
					l.r.Count("tables written", 1)
				} else {
					l.rd = append(l.rd, y)
					l.r.Count("tables read", 1)
				}
				l.r.Count("fields", y.fields)
			}
		}
	}
	for _, in := range all {
		n := extName(in.(ssa.CallInstruction).Common().StaticCallee())
		if !used[in] && n != "encoding/binary.PutUvarint" && n != "encoding/binary.PutVarint" && n != "encoding/binary.AppendUvarint" {
			l.left = append(l.left, l.p.InstrPos(in)+" "+fnName(in.Parent())+": "+n+" on something not followed")
		}
	}
}

// build makes the automaton, from the making of the stream on.
func (y *layout) build(root ssa.Instruction) {
	start := y.state()
	end := y.state()
	y.accept[end] = true
	fr := &lframe{fn: y.fn}
	y.body(fr, start, end, root, map[*ssa.Function]bool{y.fn: true})
	// what else happens to the stream
	for _, ref := range *y.root.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Val == y.root {
				if a, ok := x.Addr.(*ssa.Alloc); !ok || setOnce(a) == nil {
					y.odd = "the stream is stored"
				}
			}
		case *ssa.Phi, *ssa.Return, *ssa.MapUpdate, *ssa.Send:
			y.odd = "the stream is handed about"
		}
	}
}

func (y *layout) body(fr *lframe, start, end int, from ssa.Instruction, on map[*ssa.Function]bool) {
	at := map[*ssa.BasicBlock]int{}
	for _, b := range fr.fn.Blocks {
		at[b] = y.state()
		if y.heads == nil {
			y.heads = map[lblock]int{}
		}
		y.heads[lblock{fr, b}] = at[b]
	}
	for _, b := range fr.fn.Blocks {
		cur := at[b]
		dead := false
		for _, in := range b.Instrs {
			if in == from {
				// the stream is made here (again)
				y.edges[cur] = append(y.edges[cur], ledge{to: end})
				cur = y.state()
				y.edges[start] = append(y.edges[start], ledge{to: cur})
				continue
			}
			switch x := in.(type) {
			case ssa.CallInstruction:
				cur = y.call(fr, x, cur, on)
			case *ssa.Return:
				dead = true
				if !errorExit(x) {
					y.edges[cur] = append(y.edges[cur], ledge{to: end})
				}
			case *ssa.Panic:
				dead = true
			}
		}
		if !dead {
			for _, s := range b.Succs {
				y.edges[cur] = append(y.edges[cur], ledge{to: at[s]})
			}
		}
	}
	if from == nil {
		y.edges[start] = append(y.edges[start], ledge{to: at[fr.fn.Blocks[0]]})
	}
}

func errorExit(x *ssa.Return) bool {
	if len(x.Results) == 0 {
		return false
	}
	e := x.Results[len(x.Results)-1]
	if !types.Identical(e.Type(), types.Universe.Lookup("error").Type()) {
		return false
	}
	return isError(e, x.Block(), 0)
}

func isError(e ssa.Value, blk *ssa.BasicBlock, n int) bool {
	if n > 6 {
		return false
	}
	switch v := e.(type) {
	case *ssa.Const:
		return false
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && (extName(f) == "fmt.Errorf" || extName(f) == "errors.New") {
			return true
		}
	case *ssa.UnOp:
		if _, ok := v.X.(*ssa.Global); ok {
			return true
		}
	case *ssa.MakeInterface:
		return true
	}
	for b := blk; b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			break
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || (c.X != e && c.Y != e) {
			continue
		}
		if b == d.Succs[0] && len(b.Preds) == 1 && c.Op == token.NEQ || b == d.Succs[1] && len(b.Preds) == 1 && c.Op == token.EQL {
			return true
		}
	}
	return false
}

func (y *layout) is(v ssa.Value, fr *lframe) bool {
	w, _ := settle(v, fr)
	return w == y.root
}

func (y *layout) call(fr *lframe, ci ssa.CallInstruction, cur int, on map[*ssa.Function]bool) int {
	com := ci.Common()
	put := func(tok string, val ssa.Value, sgn bool) int {
		next := y.state()
		f := &lfield{tok: tok, in: ci, fr: fr, val: val, sgn: sgn}
		y.edges[cur] = append(y.edges[cur], ledge{to: next, f: f})
		y.fields++
		if tok != "bytes" {
			y.hard++
		}
		return next
	}
	method := func(name string, args []ssa.Value) int {
		switch name {
		case "Write":
			if len(args) == 1 {
				tok, val, sgn := y.packed(args[0], fr)
				return put(tok, val, sgn)
			}
		case "WriteString":
			return put("bytes", args[0], false)
		case "WriteByte":
			return put("1", args[0], false)
		case "Read":
			return put("bytes", args[0], false)
		case "Next":
			v, _ := ci.(ssa.Value)
			return put("bytes", v, false)
		case "ReadByte":
			v, _ := ci.(ssa.Value)
			return put("1", v, false)
		case "Len", "Size", "String", "Bytes", "Available", "Close", "Flush", "Grow", "Cap", "WriteTo":
			return cur
		}
		y.odd = y.l.p.InstrPos(ci) + " " + name
		return cur
	}
	if com.IsInvoke() {
		if y.is(com.Value, fr) {
			return method(com.Method.Name(), com.Args)
		}
		return cur
	}
	f := com.StaticCallee()
	if f == nil {
		w, wf := settle(com.Value, fr)
		if mc, ok := w.(*ssa.MakeClosure); ok && wf == fr {
			f = mc.Fn.(*ssa.Function)
		} else if g, ok := w.(*ssa.Function); ok {
			f = g
		}
	}
	any := false
	for _, a := range com.Args {
		any = any || y.is(a, fr)
	}
	if f == nil {
		if any {
			y.odd = y.l.p.InstrPos(ci) + " a call of an unknown function"
		}
		return cur
	}
	if !inRepo(fnPkgPath(f)) || f.Blocks == nil {
		if !any {
			return cur
		}
		n := extName(f)
		if f.Signature.Recv() != nil && y.is(com.Args[0], fr) {
			return method(f.Name(), com.Args[1:])
		}
		switch n {
		case "encoding/binary.Write":
			tok, val, sgn := y.fixed(com.Args[2], com.Args[1], fr, false)
			return put(tok, val, sgn)
		case "encoding/binary.Read":
			tok, val, sgn := y.fixed(com.Args[2], com.Args[1], fr, true)
			return put(tok, val, sgn)
		case "encoding/binary.ReadUvarint":
			return put("uvarint", ci.Value(), false)
		case "encoding/binary.ReadVarint":
			return put("varint", ci.Value(), true)
		case "io.ReadFull", "io.ReadAtLeast":
			return put("bytes", com.Args[1], false)
		case "io.ReadAll":
			return put("bytes", ci.Value(), false)
		case "io.WriteString":
			return put("bytes", com.Args[1], false)
		case "bufio.NewReader", "bufio.NewWriter", "bufio.NewReaderSize", "bufio.NewWriterSize":
			return cur
		}
		y.odd = y.l.p.InstrPos(ci) + " " + n
		return cur
	}
	// a helper: only of interest if it has the stream
	if f.Parent() == nil && !any {
		return cur
	}
	if f.Parent() != nil && !any {
		in := &lframe{fn: f, call: ci, up: fr}
		for _, fv := range f.FreeVars {
			w, _ := settle(fv, in)
			any = any || w == y.root
			if a, ok := w.(*ssa.Alloc); ok && !any {
				if s := setOnce(a); s != nil {
					z, _ := settle(s, fr)
					any = z == y.root
				}
			}
		}
		if !any {
			return cur
		}
	}
	if on[f] || len(on) > 8 {
		y.odd = y.l.p.InstrPos(ci) + " recursion"
		return cur
	}
	if _, ok := ci.(*ssa.Call); !ok {
		y.odd = y.l.p.InstrPos(ci) + " deferred"
		return cur
	}
	next := y.state()
	on[f] = true
	y.body(&lframe{fn: f, call: ci, up: fr}, cur, next, nil, on)
	delete(on, f)
	return next
}

// fixed is the field binary.Read and binary.Write make of a value.
func (y *layout) fixed(data, order ssa.Value, fr *lframe, read bool) (string, ssa.Value, bool) {
	v, vf := settle(data, fr)
	t := v.Type()
	if read {
		t = deref(t)
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			return "bytes", v, false
		}
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return y.packed(v, vf)
		}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		y.odd = "a field of type " + t.String()
		return "?", v, false
	}
	o, _ := settle(order, fr)
	end := strings.ToLower(o.Type().String())
	switch {
	case strings.Contains(end, "little"):
		end = "le"
	case strings.Contains(end, "big"):
		end = "be"
	default:
		y.odd = "an unknown byte order"
	}
	n := map[types.BasicKind]int{types.Uint8: 1, types.Int8: 1, types.Bool: 1, types.Uint16: 2, types.Int16: 2, types.Uint32: 4, types.Int32: 4, types.Uint64: 8, types.Int64: 8}[b.Kind()]
	sgn := b.Info()&types.IsUnsigned == 0
	switch n {
	case 0:
		return "no field at all (" + t.String() + ")", v, sgn
	case 1:
		return "1", v, sgn
	}
	return fmt.Sprintf("%d%s", n, end), v, sgn
}

// packed tells what a piece of bytes that is written holds.
func (y *layout) packed(v ssa.Value, fr *lframe) (string, ssa.Value, bool) {
	w, wf := settle(v, fr)
	var c *ssa.Call
	if s, ok := w.(*ssa.Slice); ok {
		if s.High != nil {
			h, _ := settle(s.High, wf)
			c, _ = h.(*ssa.Call)
		}
		if c == nil {
			if x, _ := settle(s.X, wf); isByteArrayOrSlice(x) {
				y.odd = "bytes put together by hand"
			}
			return "bytes", w, false
		}
	} else {
		c, _ = w.(*ssa.Call)
	}
	if c != nil && c.Call.StaticCallee() != nil && len(c.Call.Args) > 1 {
		val := c.Call.Args[len(c.Call.Args)-1]
		switch n := extName(c.Call.StaticCallee()); n {
		case "encoding/binary.PutUvarint", "encoding/binary.AppendUvarint":
			return "uvarint", val, false
		case "encoding/binary.PutVarint", "encoding/binary.AppendVarint":
			return "varint", val, true
		default:
			if strings.HasPrefix(strings.TrimPrefix(n, "("), "encoding/binary.") {
				y.odd = y.l.p.InstrPos(c) + " " + n
			}
		}
	}
	if isByteArrayOrSlice(w) {
		y.odd = "bytes put together by hand"
	}
	return "bytes", w, false
}

func isByteArrayOrSlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Alloc:
		_, ok := deref(x.Type()).Underlying().(*types.Array)
		return ok
	}
	return false
}

// ---- comparing ---------------------------------------------------------------------------------

func (y *layout) closure(set map[int]bool) []int {
	var todo []int
	for s := range ordered(set) {
		todo = append(todo, s)
	}
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, e := range y.edges[s] {
			if e.f == nil && !set[e.to] {
				set[e.to] = true
				todo = append(todo, e.to)
			}
		}
	}
	var out []int
	for s := range set {
		out = append(out, s)
	}
	sort.Ints(out)
	return out
}

type lpair struct{ w, r *lfield }

// compare walks both automata together. It returns the fields met together, and where they part.
func compare(w, r *layout, noBytes bool) (met []lpair, why string, at ssa.Instruction) {
	type pos struct{ a, b []int }
	key := func(p pos) string { return fmt.Sprint(p.a, p.b) }
	live := func(y *layout, set []int) map[string][]ledge {
		m := map[string][]ledge{}
		for _, s := range set {
			for _, e := range y.edges[s] {
				if e.f != nil {
					m[e.f.tok] = append(m[e.f.tok], e)
				}
			}
		}
		return m
	}
	if noBytes {
		strip := func(y *layout) *layout {
			z := *y
			z.edges = nil
			for _, es := range y.edges {
				var out []ledge
				for _, e := range es {
					if e.f != nil && e.f.tok == "bytes" {
						e.f = nil
					}
					out = append(out, e)
				}
				z.edges = append(z.edges, out)
			}
			return &z
		}
		w, r = strip(w), strip(r)
	}
	ends := func(y *layout, set []int) bool {
		for _, s := range set {
			if y.accept[s] {
				return true
			}
		}
		return false
	}
	begin := pos{w.closure(map[int]bool{0: true}), r.closure(map[int]bool{0: true})}
	seen := map[string]bool{key(begin): true}
	todo := []pos{begin}
	trail := map[string]string{key(begin): "the start"}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		tr := trail[key(p)]
		a, b := live(w, p.a), live(r, p.b)
		for t, es := range ordered(a) {
			if len(b[t]) == 0 {
				return met, fmt.Sprintf("after %s the tool writes %s where the library reads %s", tr, tokName(t), tokNames(b)), es[0].f.in
			}
		}
		for t, es := range ordered(b) {
			if len(a[t]) == 0 {
				return met, fmt.Sprintf("after %s the library reads %s where the tool writes %s", tr, tokName(t), tokNames(a)), es[0].f.in
			}
		}
		if x, z := ends(w, p.a), ends(r, p.b); x != z {
			return met, fmt.Sprintf("after %s the table may end on one side only", tr), nil
		}
		for t, es := range ordered(a) {
			na, nb := map[int]bool{}, map[int]bool{}
			for _, e := range es {
				na[e.to] = true
				for _, f := range b[t] {
					met = append(met, lpair{e.f, f.f})
				}
			}
			for _, f := range b[t] {
				nb[f.to] = true
			}
			q := pos{w.closure(na), r.closure(nb)}
			if !seen[key(q)] {
				seen[key(q)] = true
				trail[key(q)] = strings.TrimPrefix(tr+", ", "the start, ") + tokName(t)
				todo = append(todo, q)
			}
		}
	}
	return met, "", nil
}

func tokName(t string) string {
	switch t {
	case "1":
		return "a byte"
	case "bytes":
		return "a text"
	case "uvarint", "varint":
		return "a " + t
	}
	return strings.NewReplacer("le", " bytes little-endian", "be", " bytes big-endian").Replace(t)
}

func tokNames(m map[string][]ledge) string {
	if len(m) == 0 {
		return "nothing more"
	}
	var out []string
	for t := range m {
		out = append(out, tokName(t))
	}
	sort.Strings(out)
	return strings.Join(out, " or ")
}

func (l *layouts) pair() {
	partner := func(y *layout, others []*layout, flip bool) (*layout, []lpair) {
		for _, o := range others {
			var m []lpair
			var why string
			if flip {
				m, why, _ = compare(o, y, false)
			} else {
				m, why, _ = compare(y, o, false)
			}
			if why == "" {
				return o, m
			}
		}
		return nil, nil
	}
	var loneW []*layout
	for _, w := range l.w {
		o, m := partner(w, l.rd, false)
		if o == nil {
			loneW = append(loneW, w)
			continue
		}
		l.r.Ok("%s writes what %s reads: %d fields", fnName(w.fn), fnName(o.fn), w.fields)
		l.meanings(w, o, m)
	}
	var loneR []*layout
	for _, r := range l.rd {
		if o, _ := partner(r, l.w, true); o == nil {
			loneR = append(loneR, r)
		} else {
			l.r.Ok("%s reads what %s writes", fnName(r.fn), fnName(o.fn))
		}
	}
	try := func(y *layout, others []*layout, flip bool) {
		if len(others) == 0 {
			l.left = append(l.left, fnName(y.fn)+": nothing on the other side to compare with")
			return
		}
		// the other side that agrees longest
		best, bestWhy, n := others[0], "", -1
		var bestAt ssa.Instruction
		for _, o := range others {
			a, b := y, o
			if flip {
				a, b = o, y
			}
			m, why, at := compare(a, b, false)
			if len(m) > n {
				best, bestWhy, bestAt, n = o, why, at, len(m)
			}
		}
		a, b := y, best
		if flip {
			a, b = best, y
		}
		if a.odd != "" || b.odd != "" {
			l.left = append(l.left, fnName(y.fn)+": "+a.odd+b.odd)
			return
		}
		if _, why, _ := compare(a, b, true); why == "" {
			l.left = append(l.left, fnName(y.fn)+": texts are written in another number of pieces")
			return
		}
		pos := "-"
		if bestAt != nil {
			pos = l.p.InstrPos(bestAt)
		}
		l.r.Failf("layout", fnName(y.fn), pos, "%s and %s do not agree: %s", fnName(a.fn), fnName(b.fn), bestWhy)
	}
	for _, w := range loneW {
		o := loneR
		if len(o) == 0 {
			o = l.rd
		}
		try(w, o, false)
	}
	for _, r := range loneR {
		if len(loneW) == 0 {
			try(r, l.w, true)
		}
	}
}

// ---- meanings ----------------------------------------------------------------------------------

func plainInt(v ssa.Value, fr *lframe) (ssa.Value, *lframe) {
	for {
		w, wf := settle(v, fr)
		if c, ok := w.(*ssa.Convert); ok {
			v, fr = c.X, wf
			continue
		}
		return w, wf
	}
}

func lenOf(v ssa.Value) (ssa.Value, bool) {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0], true
		}
	}
	return nil, false
}

func (l *layouts) meanings(w, r *layout, met []lpair) {
	seen := map[string]bool{}
	for _, m := range met {
		if m.w.tok == "bytes" {
			l.separators(w, r, m)
			continue
		}
		rm := r.readMeaning(m.r)
		wm, detail := w.writeMeaning(m.w)
		key := fmt.Sprint(l.p.InstrPos(m.w.in), l.p.InstrPos(m.r.in), rm, wm)
		if seen[key] {
			continue
		}
		seen[key] = true
		where := fmt.Sprintf("%s field %s", l.p.InstrPos(m.w.in), tokName(m.w.tok))
		if m.w.sgn != m.r.sgn {
			v, vf := settle(m.w.val, m.w.fr)
			limit := map[string]int64{"1": math.MaxInt8, "2le": math.MaxInt16, "2be": math.MaxInt16}[m.w.tok]
			if limit == 0 {
				limit = math.MaxInt64
			}
			u := upper{max: math.MaxInt64, open: true}
			if vf == m.w.fr {
				u = l.upper(v, m.w.in.Block(), 0, map[ssa.Value]bool{})
			}
			switch {
			case u.max <= limit:
			case u.open || m.w.sgn:
				l.left = append(l.left, where+": signed on one side")
			default:
				l.r.Failf("narrow", fnName(r.fn), l.p.InstrPos(m.r.in), "a value that may be %d is read with a sign", u.max)
			}
		}
		switch {
		case rm == "" || wm == "":
			l.left = append(l.left, fmt.Sprintf("%s: meaning %q written, %q read", where, wm, rm))
		case rm == wm:
			l.r.Ok("%s is %s to both sides", where, rm)
		default:
			l.r.Failf("meaning", fnName(w.fn), l.p.InstrPos(m.w.in), "the tool writes %s%s where %s takes %s (%s)", wm, detail, fnName(r.fn), rm, l.p.InstrPos(m.r.in))
		}
	}
}

// readMeaning tells what the library makes of a field.
func (y *layout) readMeaning(f *lfield) string {
	var roots []ssa.Value
	switch x := f.val.(type) {
	case *ssa.Alloc:
		for _, ref := range *x.Referrers() {
			if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
				roots = append(roots, u)
			}
		}
	case *ssa.Call:
		for _, ref := range *x.Referrers() {
			if e, ok := ref.(*ssa.Extract); ok && e.Index == 0 {
				roots = append(roots, e)
			}
		}
	}
	mean := map[string]bool{}
	seen := map[ssa.Value]bool{}
	for len(roots) > 0 {
		v := roots[0]
		roots = roots[1:]
		if seen[v] || v.Referrers() == nil {
			continue
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Convert:
				roots = append(roots, x)
				bits := map[string]int64{"1": math.MaxUint8, "2le": math.MaxUint16, "2be": math.MaxUint16, "4le": math.MaxUint32, "4be": math.MaxUint32}[f.tok]
				if bits == 0 {
					bits = math.MaxInt64
				}
				to, ok1 := x.Type().Underlying().(*types.Basic)
				from, ok2 := x.X.Type().Underlying().(*types.Basic)
				if !ok1 || !ok2 || to.Info()&types.IsInteger == 0 || typeMax(to) >= bits || typeMax(to) >= typeMax(from) {
					continue
				}
				if u := y.l.upper(x.X, x.Block(), 0, map[ssa.Value]bool{}); u.max > typeMax(to) {
					if u.open && u.max == math.MaxInt64 {
						y.l.left = append(y.l.left, y.l.p.InstrPos(x)+": whether what was read fits "+to.Name())
					} else {
						mean["cut to "+to.Name()] = true
						mean["?"] = true
						y.l.r.Failf("narrow", fnName(y.fn), y.l.p.InstrPos(x), "what was read as %s is cut to %s", tokName(f.tok), to.Name())
					}
				}
			case *ssa.ChangeType:
				roots = append(roots, x)
			case *ssa.MakeSlice:
				if b, ok := x.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					mean["the length of a text"] = true
				}
			case *ssa.IndexAddr:
				if x.Index == v {
					mean["an index into the texts"] = true
				}
			case *ssa.BinOp:
				switch x.Op {
				case token.ADD:
					o := x.X
					if o == v {
						o = x.Y
					}
					if ph, ok := o.(*ssa.Phi); ok {
						init := ""
						loops := false
						for _, e := range ph.Edges {
							if c, ok := e.(*ssa.Const); ok && c.Value != nil {
								init = c.Value.ExactString()
							} else if e == x {
								loops = true
							}
						}
						if loops && init != "" && len(ph.Edges) == 2 {
							mean["the difference to the previous key, from "+init] = true
						}
					}
				case token.LSS, token.GTR, token.NEQ, token.LEQ, token.GEQ:
					// the bound of a loop
					if ifs := onlyIf(x); ifs != nil && inLoopHead(ifs.Block()) {
						if (x.Op == token.LSS && x.Y == v) || (x.Op == token.GTR && x.X == v) || x.Op == token.NEQ {
							if forgets(ifs.Block()) {
								mean["a number of rounds of which some keep nothing"] = true
							} else if y.idle(f.fr, ifs.Block()) {
								mean["a number of rounds of which some read nothing"] = true
							} else {
								mean["the number of rounds that follow"] = true
							}
						}
					}
				}
			}
		}
	}
	if len(mean) != 1 {
		return ""
	}
	for m := range mean {
		return m
	}
	return ""
}

func onlyIf(v ssa.Value) *ssa.If {
	for _, ref := range *v.Referrers() {
		if i, ok := ref.(*ssa.If); ok {
			return i
		}
	}
	return nil
}

// inLoopHead tells whether the block can reach itself, and leaves the circle on one side.
func inLoopHead(b *ssa.BasicBlock) bool {
	return len(b.Succs) == 2 && (reach(b.Succs[0], b) != reach(b.Succs[1], b) || b.Succs[0] != b.Succs[1] && reach(b.Succs[0], b))
}

func reach(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{a}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		todo = append(todo, x.Succs...)
	}
	return false
}

// idle tells whether a round of a loop may go without any field.
func (y *layout) idle(fr *lframe, h *ssa.BasicBlock) bool {
	s, ok := y.heads[lblock{fr, h}]
	if !ok {
		return false
	}
	seen := map[int]bool{}
	todo := []int{s}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, e := range y.edges[x] {
			if e.f != nil {
				continue
			}
			if e.to == s {
				return true
			}
			if !seen[e.to] {
				seen[e.to] = true
				todo = append(todo, e.to)
			}
		}
	}
	return false
}

// leads tells whether the automaton gets from one state to another.
func (y *layout) leads(a, b int) bool {
	seen := map[int]bool{}
	todo := []int{a}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, e := range y.edges[x] {
			todo = append(todo, e.to)
		}
	}
	return false
}

// forgets tells whether a loop that keeps what it reads may go round without keeping anything.
func forgets(h *ssa.BasicBlock) bool {
	keeps := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				return true
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.IndexAddr); ok {
					return true
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" || bi.Name() == "copy" {
						return true
					}
					continue
				}
				f := x.Call.StaticCallee()
				if f == nil {
					return true
				}
				for _, a := range x.Call.Args {
					switch a.Type().Underlying().(type) {
					case *types.Map, *types.Slice, *types.Pointer, *types.Struct, *types.Signature:
						if inRepo(fnPkgPath(f)) || f.Parent() != nil {
							return true
						}
					}
				}
				if f.Parent() != nil {
					return true
				}
			}
		}
		return false
	}
	// the smallest loop around the comparison
	var head *ssa.BasicBlock
	var body map[*ssa.BasicBlock]bool
	for _, t := range h.Parent().Blocks {
		for _, hd := range t.Succs {
			if !hd.Dominates(t) {
				continue
			}
			in := map[*ssa.BasicBlock]bool{hd: true}
			todo := []*ssa.BasicBlock{t}
			for len(todo) > 0 {
				b := todo[len(todo)-1]
				todo = todo[:len(todo)-1]
				if !in[b] {
					in[b] = true
					todo = append(todo, b.Preds...)
				}
			}
			if in[h] && (body == nil || len(in) < len(body)) {
				head, body = hd, in
			}
		}
	}
	any := false
	for b := range body {
		any = any || keeps(b)
	}
	if !any || keeps(head) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock{}, head.Succs...)
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if b == head {
			return true
		}
		if seen[b] || !body[b] || keeps(b) {
			continue
		}
		seen[b] = true
		todo = append(todo, b.Succs...)
	}
	return false
}

// rangedBy tells whether a loop around fields written later has len(x) as its bound.
func (y *layout) rangedBy(f *lfield, x ssa.Value) (found bool, other ssa.Value, idle bool) {
	for _, es := range y.edges {
		for _, e := range es {
			if e.f == nil || e.f.tok == "bytes" {
				continue
			}
			for fr, at := e.f.fr, e.f.in.Block(); fr != nil; fr = fr.up {
				for h := at; h != nil; h = h.Idom() {
					iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
					// a circle that does not pass the making of the stream
					if hs, known := y.heads[lblock{fr, h}]; !ok || !known || !y.leads(e.to, hs) || !y.leads(hs, e.to) {
						continue
					}
					c, ok := iff.Cond.(*ssa.BinOp)
					if !ok {
						continue
					}
					for _, side := range []ssa.Value{c.X, c.Y} {
						s, sf := plainInt(side, fr)
						arr, ok := lenOf(s)
						if !ok {
							continue
						}
						a, _ := settle(arr, sf)
						if sameValue(a, x) {
							return true, nil, y.idle(fr, h)
						}
						if fr == f.fr {
							other = a
						}
					}
				}
				if fr.call == nil {
					break
				}
				at = fr.call.Block()
			}
		}
	}
	return false, other, false
}

// sameValue sees that two lookups of the same thing are equal.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Lookup)
	z, ok2 := b.(*ssa.Lookup)
	return ok1 && ok2 && x.X == z.X && x.Index == z.Index && !x.CommaOk && !z.CommaOk
}

// writeMeaning tells what the tool puts into a field.
func (y *layout) writeMeaning(f *lfield) (string, string) {
	v, vf := plainInt(f.val, f.fr)
	if arr, ok := lenOf(v); ok {
		a, af := settle(arr, vf)
		for {
			c, ok := a.(*ssa.Convert)
			if !ok || !isBytes(c.Type()) && !isBytes(c.X.Type()) {
				break
			}
			a, af = settle(c.X, af)
		}
		// the length of a text that is written
		for _, es := range y.edges {
			for _, e := range es {
				if e.f == nil || e.f.tok != "bytes" {
					continue
				}
				t, tf := plainInt(e.f.val, e.f.fr)
				if t == a {
					return "the length of a text", ""
				}
				_ = tf
			}
		}
		_ = af
		if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 || isBytes(a.Type()) {
			return "", ""
		}
		if ok, other, idle := y.rangedBy(f, a); ok && idle {
			return "a number of rounds of which some write nothing", ""
		} else if ok {
			return "the number of rounds that follow", ""
		} else if other != nil {
			s1, ok1 := a.Type().Underlying().(*types.Slice)
			s2, ok2 := other.Type().Underlying().(*types.Slice)
			if ok1 && ok2 && !types.Identical(s1.Elem(), s2.Elem()) && y.odd == "" {
				return "the number of something else", " (a list of " + s1.Elem().String() + ")"
			}
		}
		return "", ""
	}
	switch x := v.(type) {
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && (extName(g) == "unicode/utf8.RuneCountInString" || extName(g) == "unicode/utf8.RuneCount") {
			return "the number of characters of a text", ""
		}
		return "", ""
	case *ssa.BinOp:
		if x.Op == token.SUB {
			ph, ok := x.Y.(*ssa.Phi)
			if !ok {
				return "", ""
			}
			init, loops, strange, steps := "", false, false, false
			for _, e := range ph.Edges {
				if c, ok := e.(*ssa.Const); ok && c.Value != nil {
					init = c.Value.ExactString()
				} else if e == x.X {
					loops = true
				} else if e == ph {
					steps = true
				} else if e == x {
					strange = true
				} else if in, ok := e.(*ssa.Phi); ok && sometimes(in, x.X, ph) {
					strange = true
				} else {
					return "", ""
				}
			}
			switch {
			case strange || steps && loops:
				return "the difference to something other than the previous key", ""
			case loops && init != "" && len(ph.Edges) == 2:
				return "the difference to the previous key, from " + init, ""
			}
			return "", ""
		}
	case *ssa.Lookup:
		m, _ := settle(x.X, vf)
		mm, ok := m.(*ssa.MakeMap)
		if !ok {
			return "", ""
		}
		n := 0
		for _, ref := range *mm.Referrers() {
			u, ok := ref.(*ssa.MapUpdate)
			if !ok || u.Map != mm {
				continue
			}
			n++
			i, _ := plainInt(u.Value, vf)
			off := ""
			if b, ok := i.(*ssa.BinOp); ok && b.Op == token.ADD {
				if c, isC := b.Y.(*ssa.Const); isC && c.Value != nil && c.Value.Kind() == constant.Int {
					if ph, isPhi := b.X.(*ssa.Phi); isPhi && indexes(b) {
						_ = ph
					} else if indexes(b.X) {
						off = c.Value.ExactString()
					} else {
						return "", ""
					}
				}
			}
			if off != "" && off != "0" {
				return "an index into the texts plus " + off, ""
			}
			if off == "" && !indexes(i) {
				return "", ""
			}
			if in := y.reordered(i, u); in != nil {
				return "an index into the texts as they were before " + extName(in.Call.StaticCallee()), ""
			}
		}
		if n > 0 {
			return "an index into the texts", ""
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
				return "an element as it is", ""
			}
		}
	}
	return "", ""
}

// sometimes tells whether a value is now the key, now what it was.
func sometimes(in *ssa.Phi, key ssa.Value, ph *ssa.Phi) bool {
	a, b := false, false
	for _, e := range in.Edges {
		switch e {
		case key:
			a = true
		case ph:
			b = true
		default:
			return false
		}
	}
	return a && b
}

// reordered finds a call that puts the texts in another order after they were numbered and before they are joined.
func (y *layout) reordered(i ssa.Value, at *ssa.MapUpdate) *ssa.Call {
	lists := map[ssa.Value]bool{}
	for _, v := range []ssa.Value{i} {
		for _, ref := range *v.Referrers() {
			if ia, ok := ref.(*ssa.IndexAddr); ok && ia.Index == v {
				lists[ia.X] = true
			}
		}
	}
	var joins []*ssa.BasicBlock
	fn := at.Parent()
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && extName(c.Call.StaticCallee()) == "strings.Join" && lists[c.Call.Args[0]] {
				joins = append(joins, b)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 {
				continue
			}
			a, _ := settle(c.Call.Args[0], nil)
			if !lists[a] {
				continue
			}
			switch extName(c.Call.StaticCallee()) {
			case "sort.Strings", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
			default:
				continue
			}
			// after the numbering, in the same round of any loop around the making of the list
			if b.Dominates(at.Block()) || !reach(at.Block(), b) {
				continue
			}
			for _, j := range joins {
				if b.Dominates(j) {
					return c
				}
			}
		}
	}
	return nil
}

// indexes tells whether a value is used to take an element of a list.
func indexes(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok && ia.Index == v {
			return true
		}
	}
	return false
}

// separators compares how texts are joined and split.
func (l *layouts) separators(w, r *layout, m lpair) {
	t, _ := plainInt(m.w.val, m.w.fr)
	c, ok := t.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || extName(c.Call.StaticCallee()) != "strings.Join" {
		l.left = append(l.left, l.p.InstrPos(m.w.in)+": how the texts are joined")
		return
	}
	join, ok := c.Call.Args[1].(*ssa.Const)
	var split *ssa.Const
	for _, blk := range m.r.fr.fn.Blocks {
		for _, in := range blk.Instrs {
			if x, ok := in.(*ssa.Call); ok && x.Call.StaticCallee() != nil && extName(x.Call.StaticCallee()) == "strings.Split" {
				if s, _ := plainInt(x.Call.Args[0], m.r.fr); s == m.r.val {
					split, _ = x.Call.Args[1].(*ssa.Const)
				}
			}
		}
	}
	if !ok || split == nil {
		l.left = append(l.left, l.p.InstrPos(m.r.in)+": how the texts are split")
		return
	}
	if join.Value.ExactString() != split.Value.ExactString() {
		l.r.Failf("separator", fnName(w.fn), l.p.InstrPos(c), "texts are joined with %s and split at %s (%s)", join.Value.ExactString(), split.Value.ExactString(), fnName(r.fn))
		return
	}
	l.r.Ok("%s texts are joined and split at %s", l.p.InstrPos(c), join.Value.ExactString())
}

// ---- narrowing ---------------------------------------------------------------------------------

type upper struct {
	max  int64 // math.MaxInt64: no limit
	open bool  // something not followed might limit it
}

var noLimit = upper{max: math.MaxInt64}

func (l *layouts) narrow() {
	for _, fn := range l.p.Funcs {
		if fn.Blocks == nil || isLibraryPath(fnPkgPath(fn)) || l.frames == nil {
			continue
		}
		// functions of the package that writes tables
		same := false
		for f := range l.frames {
			same = same || fnPkgPath(f) == fnPkgPath(fn)
		}
		if !same {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				c, ok := in.(*ssa.Convert)
				if !ok {
					continue
				}
				to, ok1 := c.Type().Underlying().(*types.Basic)
				from, ok2 := c.X.Type().Underlying().(*types.Basic)
				if !ok1 || !ok2 || from.Info()&types.IsInteger == 0 || to.Info()&types.IsInteger == 0 {
					continue
				}
				max := typeMax(to)
				if max > 0xffff {
					continue
				}
				l.r.Count("narrowing conversions", 1)
				u := l.upper(c.X, blk, 0, map[ssa.Value]bool{})
				switch {
				case u.max <= max:
					l.r.Ok("%s %s fits %s", l.p.InstrPos(c), fnName(fn), to)
				case u.open:
					l.left = append(l.left, l.p.InstrPos(c)+" "+fnName(fn)+": whether the value fits "+to.Name())
				case u.max == math.MaxInt64:
					l.r.Failf("narrow", fnName(fn), l.p.InstrPos(c), "a value nothing limits is cut to %s", to)
				default:
					l.r.Failf("narrow", fnName(fn), l.p.InstrPos(c), "a value that may be %d is cut to %s", u.max, to)
				}
			}
		}
	}
}

func typeMax(b *types.Basic) int64 {
	switch b.Kind() {
	case types.Int8:
		return math.MaxInt8
	case types.Uint8:
		return math.MaxUint8
	case types.Int16:
		return math.MaxInt16
	case types.Uint16:
		return math.MaxUint16
	case types.Int32:
		return math.MaxInt32
	case types.Uint32:
		return math.MaxUint32
	}
	return math.MaxInt64
}

func sameQuantity(a, b ssa.Value) bool {
	if c, ok := a.(*ssa.Convert); ok {
		if t, ok := c.Type().Underlying().(*types.Basic); ok && typeMax(t) > math.MaxInt32 {
			return sameQuantity(c.X, b)
		}
	}
	if c, ok := b.(*ssa.Convert); ok {
		if t, ok := c.Type().Underlying().(*types.Basic); ok && typeMax(t) > math.MaxInt32 {
			return sameQuantity(a, c.X)
		}
	}
	if a == b {
		return true
	}
	x, ok1 := lenOf(a)
	y, ok2 := lenOf(b)
	return ok1 && ok2 && sameValue(x, y)
}

// upper is the most a value can be where a block is entered.
func (l *layouts) upper(v ssa.Value, blk *ssa.BasicBlock, depth int, on map[ssa.Value]bool) upper {
	if depth > 12 || on[v] {
		return noLimit
	}
	if c, ok := v.(*ssa.Const); ok {
		if c.Value != nil && c.Value.Kind() == constant.Int {
			if n, exact := constant.Int64Val(c.Value); exact {
				return upper{max: n}
			}
		}
		return noLimit
	}
	best := noLimit
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		best.max = typeMax(b)
	}
	take := func(u upper) {
		if u.max < best.max {
			best.max = u.max
		}
		best.open = best.open || u.open
	}
	on[v] = true
	defer delete(on, v)
	// conditions passed on the way
	for b := blk; b != nil && b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		yes := d.Succs[0] != d.Succs[1] && len(d.Succs[0].Preds) == 1 && d.Succs[0].Dominates(blk)
		no := d.Succs[0] != d.Succs[1] && len(d.Succs[1].Preds) == 1 && d.Succs[1].Dominates(blk)
		// the other side never comes here
		if !yes && !no {
			if !reach(d.Succs[0], blk) {
				no = true
			} else if !reach(d.Succs[1], blk) {
				yes = true
			}
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			if l.touches(iff.Cond, v, 0) {
				best.open = true
			}
			continue
		}
		if !yes && !no {
			continue
		}
		op, x, w := c.Op, c.X, c.Y
		if sameQuantity(w, v) && !sameQuantity(x, v) {
			x, w = w, x
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		}
		if !sameQuantity(x, v) {
			// of a position only the next one is compared, which is seen where that is looked at
			if _, ph := v.(*ssa.Phi); !ph && l.touches(c, v, 0) {
				best.open = true
			}
			continue
		}
		if no {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		switch op {
		case token.LSS:
			u := l.upper(w, blk, depth+1, on)
			if u.max != math.MaxInt64 {
				u.max--
			}
			take(u)
		case token.LEQ, token.EQL:
			take(l.upper(w, blk, depth+1, on))
		}
	}
	// calls that may have looked at it
	for b := blk; b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				if f := ci.Call.StaticCallee(); f != nil && inRepo(fnPkgPath(f)) {
					for _, a := range ci.Call.Args {
						if l.touches(a, v, 0) && ssa.Value(ci) != v {
							best.open = true
						}
					}
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Convert:
		take(l.upper(x.X, blk, depth+1, on))
	case *ssa.ChangeType:
		take(l.upper(x.X, blk, depth+1, on))
	case *ssa.Phi:
		m := upper{max: math.MinInt64}
		for i, e := range x.Edges {
			u := l.upper(e, x.Block().Preds[i], depth+1, on)
			if u.max > m.max {
				m.max = u.max
			}
			m.open = m.open || u.open
		}
		take(m)
	case *ssa.BinOp:
		switch x.Op {
		case token.AND, token.REM:
			if c, ok := x.Y.(*ssa.Const); ok {
				u := l.upper(c, blk, depth+1, on)
				take(u)
			}
		case token.SUB:
			if c, ok := x.Y.(*ssa.Const); ok {
				u := l.upper(x.X, blk, depth+1, on)
				if n, exact := constant.Int64Val(c.Value); exact && u.max != math.MaxInt64 {
					u.max -= n
				}
				take(u)
			}
		case token.ADD:
			if c, ok := x.Y.(*ssa.Const); ok {
				u := l.upper(x.X, blk, depth+1, on)
				if n, exact := constant.Int64Val(c.Value); exact && u.max < math.MaxInt32 {
					u.max += n
				}
				take(u)
			}
		}
	case *ssa.Lookup:
		take(l.stored(x.X, depth, on))
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 0 {
			take(l.stored(lk.X, depth, on))
		} else if c, ok := x.Tuple.(*ssa.Call); !ok || c.Call.StaticCallee() == nil || !strings.HasPrefix(extName(c.Call.StaticCallee()), "encoding/binary.Read") {
			best.open = true
		}
	case *ssa.Parameter:
		take(l.fromCallers(x, depth, on, false))
	case *ssa.UnOp:
		best.open = true
	case *ssa.Call:
		if arr, ok := lenOf(x); ok {
			if prm, ok := arr.(*ssa.Parameter); ok {
				take(l.fromCallers(prm, depth, on, true))
			}
			break
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "min" {
				for _, a := range x.Call.Args {
					take(l.upper(a, blk, depth+1, on))
				}
			}
			break
		}
		f := x.Call.StaticCallee()
		if f == nil || !inRepo(fnPkgPath(f)) || f.Blocks == nil {
			best.open = true
			break
		}
		m := upper{max: math.MinInt64}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				u := l.upper(r.Results[0], b, depth+1, on)
				m.max = max(m.max, u.max)
				m.open = m.open || u.open
			}
		}
		if m.max > math.MinInt64 {
			take(m)
		}
	}
	return best
}

// stored is the most any value put into a map can be.
func (l *layouts) stored(m ssa.Value, depth int, on map[ssa.Value]bool) upper {
	mm, ok := m.(*ssa.MakeMap)
	if !ok {
		return upper{max: math.MaxInt64, open: true}
	}
	out := upper{max: 0}
	for _, ref := range *mm.Referrers() {
		switch x := ref.(type) {
		case *ssa.MapUpdate:
			if x.Map != mm {
				return upper{max: math.MaxInt64, open: true}
			}
			u := l.upper(x.Value, x.Block(), depth+1, on)
			out.max = max(out.max, u.max)
			out.open = out.open || u.open
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				return upper{max: math.MaxInt64, open: true}
			}
		default:
			return upper{max: math.MaxInt64, open: true}
		}
	}
	return out
}

func (l *layouts) fromCallers(prm *ssa.Parameter, depth int, on map[ssa.Value]bool, length bool) upper {
	fn := prm.Parent()
	i := -1
	for j, q := range fn.Params {
		if q == prm {
			i = j
		}
	}
	out, n := upper{max: math.MinInt64}, 0
	for _, c := range l.p.Funcs {
		for _, b := range c.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if ci.Common().StaticCallee() != fn {
					for _, op := range in.Operands(nil) {
						if *op == fn {
							out.open = true
						}
					}
					continue
				}
				n++
				a := ci.Common().Args[i]
				u := noLimit
				if length {
					// a length of this value that conditions speak of
					found := false
					for _, b2 := range c.Blocks {
						for _, in2 := range b2.Instrs {
							if v, ok := in2.(ssa.Value); ok && !found {
								if arr, ok := lenOf(v); ok && arr == a {
									u = l.upper(v, b, depth+1, on)
									found = true
								}
							}
						}
					}
					if p2, ok := a.(*ssa.Parameter); ok && !found {
						u = l.fromCallers(p2, depth+1, on, true)
					}
				} else {
					u = l.upper(a, b, depth+1, on)
				}
				out.max = max(out.max, u.max)
				out.open = out.open || u.open
			}
		}
	}
	if n == 0 || depth > 8 {
		return upper{max: math.MaxInt64, open: true}
	}
	return out
}

// touches tells whether a value is made of another, or of what that is the length of.
func (l *layouts) touches(a, v ssa.Value, n int) bool {
	if n > 5 || a == nil {
		return false
	}
	if sameQuantity2(a, v) {
		return true
	}
	if arr, ok := lenOf(v); ok && a == arr {
		return true
	}
	switch x := a.(type) {
	case *ssa.BinOp:
		return l.touches(x.X, v, n+1) || l.touches(x.Y, v, n+1)
	case *ssa.UnOp:
		return l.touches(x.X, v, n+1)
	case *ssa.Convert:
		return l.touches(x.X, v, n+1)
	case *ssa.Extract:
		return l.touches(x.Tuple, v, n+1)
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok && n > 0 {
			return false
		}
		for _, arg := range x.Call.Args {
			if l.touches(arg, v, n+1) {
				return true
			}
		}
	}
	return false
}

func sameQuantity2(a, v ssa.Value) bool {
	if _, ok := a.(*ssa.Const); ok {
		return false
	}
	if _, ok := a.Type().Underlying().(*types.Basic); !ok {
		return a == v
	}
	return sameQuantity(a, v)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
