package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// An abstract interpreter for the characters texts can hold: numbers and characters are sets of
// ranges, a text is a fixed beginning and the set of characters that may follow.

type span struct{ lo, hi int64 }
type iset []span

const (
	minI = math.MinInt64 / 4
	maxI = math.MaxInt64 / 4
)

func norms(s iset) iset {
	sort.Slice(s, func(i, j int) bool { return s[i].lo < s[j].lo })
	var out iset
	for _, x := range s {
		if x.lo > x.hi {
			continue
		}
		if n := len(out); n > 0 && x.lo <= out[n-1].hi+1 {
			out[n-1].hi = max(out[n-1].hi, x.hi)
			continue
		}
		out = append(out, x)
	}
	for len(out) > 250 { // close the smallest gap
		b := 1
		for i := 1; i < len(out); i++ {
			if out[i].lo-out[i-1].hi < out[b].lo-out[b-1].hi {
				b = i
			}
		}
		out[b-1].hi = out[b].hi
		out = append(out[:b], out[b+1:]...)
	}
	return out
}

func (s iset) or(o iset) iset { return norms(append(append(iset{}, s...), o...)) }
func (s iset) and(o iset) iset {
	var out iset
	for _, a := range s {
		for _, b := range o {
			if lo, hi := max(a.lo, b.lo), min(a.hi, b.hi); lo <= hi {
				out = append(out, span{lo, hi})
			}
		}
	}
	return norms(out)
}
func (s iset) not() iset {
	var out iset
	at := int64(minI)
	for _, a := range s {
		if a.lo > at {
			out = append(out, span{at, a.lo - 1})
		}
		at = a.hi + 1
	}
	if at <= maxI {
		out = append(out, span{at, maxI})
	}
	return out
}
func (s iset) within(o iset) bool { return len(s.and(o.not())) == 0 }
func (s iset) has(x int64) bool {
	for _, a := range s {
		if a.lo <= x && x <= a.hi {
			return true
		}
	}
	return false
}
func (s iset) String() string {
	var b strings.Builder
	for i, a := range s {
		if i > 0 {
			b.WriteString(" ")
		}
		if i > 6 {
			b.WriteString("...")
			break
		}
		show := func(x int64) string {
			if x > 32 && x < 127 {
				return string(rune(x))
			}
			return fmt.Sprintf("U+%04X", x)
		}
		b.WriteString(show(a.lo))
		if a.hi > a.lo {
			b.WriteString("-" + show(a.hi))
		}
	}
	return b.String()
}

var (
	anyInt  = iset{{minI, maxI}}
	anyRune = iset{{0, unicode.MaxRune}}
	boolT   = iset{{1, 1}}
	boolF   = iset{{0, 0}}
	anyBool = iset{{0, 1}}
	digits  = iset{{'0', '9'}}
)

// cval is what is known of a value.
type cval struct {
	k     string // int (numbers, characters, truth values), text, ptr, tuple, map, fn, msg, nil, top
	set   iset   // int: values; text: characters after the beginning
	pre   string // text
	unk   bool   // what bounds it is not understood
	obj   int    // ptr: object
	outs  []cout // tuple: the ways of returning
	g     string // map: name
	fn    *ssa.Function
	bind  []*cval
	fld   string     // msg: field of the message, "" the message itself
	keys  iset       // map
	vals  *cval      // map: all values; elem: what the element holds
	pairs [][2]*cval // map: keys and values
}

type cout struct {
	vals []*cval
	args []*cval // what is known of the arguments then
	heap cheap
}

type cheap map[string]*cval

func intv(s iset) *cval { return &cval{k: "int", set: s} }
func textv(pre string, s iset) *cval {
	return &cval{k: "text", pre: pre, set: s}
}

var topv = &cval{k: "top", unk: true}

func runesOfStr(s string) iset {
	var out iset
	for _, r := range s {
		out = append(out, span{int64(r), int64(r)})
	}
	return norms(out)
}

func (v *cval) all() iset { return runesOfStr(v.pre).or(v.set) }

func (v *cval) key() string {
	if v == nil {
		return "_"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s %v %q %v %d %s %s", v.k, []span(v.set), v.pre, v.unk, v.obj, v.g, v.fld)
	if v.k == "elem" {
		b.WriteString(v.vals.key())
	}
	if v.fn != nil {
		b.WriteString(v.fn.String())
		for _, x := range v.bind {
			b.WriteString(x.key() + ";")
		}
	}
	for _, o := range v.outs {
		b.WriteString("|")
		for _, x := range o.vals {
			b.WriteString(x.key() + ";")
		}
		b.WriteString("/")
		for _, x := range o.args {
			b.WriteString(x.key() + ";")
		}
	}
	return b.String()
}

func cjoin(a, b *cval) *cval {
	if a == nil || a == b {
		return b
	}
	if b == nil {
		return a
	}
	if a.key() == b.key() {
		return a
	}
	if a.k == "nil" && b.k == "text" {
		a = textv("", nil)
	}
	if b.k == "nil" && a.k == "text" {
		b = textv("", nil)
	}
	if a.k != b.k {
		if a.k == "nil" && b.k != "int" {
			return b
		}
		if b.k == "nil" && a.k != "int" {
			return a
		}
		return topv
	}
	unk := a.unk || b.unk
	switch a.k {
	case "int":
		return &cval{k: "int", set: a.set.or(b.set), unk: unk}
	case "text":
		if a.pre == b.pre {
			return &cval{k: "text", pre: a.pre, set: a.set.or(b.set), unk: unk}
		}
		n := 0
		for n < len(a.pre) && n < len(b.pre) && a.pre[n] == b.pre[n] {
			n++
		}
		return &cval{k: "text", pre: a.pre[:n], set: runesOfStr(a.pre[n:]).or(runesOfStr(b.pre[n:])).or(a.set).or(b.set), unk: unk}
	case "tuple":
		r := &cval{k: "tuple", unk: unk}
		at := map[string]int{}
		for _, o := range append(append([]cout{}, a.outs...), b.outs...) {
			k := o.sign()
			if i, ok := at[k]; ok {
				r.outs[i] = joinOut(r.outs[i], o)
				continue
			}
			at[k] = len(r.outs)
			r.outs = append(r.outs, o)
		}
		return r
	case "elem":
		return &cval{k: "elem", vals: cjoin(a.vals, b.vals), unk: unk}
	}
	return topv
}

func ccat(a, b *cval) *cval {
	if a.k != "text" || b.k != "text" {
		return &cval{k: "text", set: anyRune, unk: true}
	}
	r := &cval{k: "text", unk: a.unk || b.unk}
	if len(a.set) == 0 {
		r.pre, r.set = a.pre+b.pre, b.set
		if len(r.pre) > 40 {
			r.set = r.set.or(runesOfStr(r.pre[40:]))
			r.pre = r.pre[:40]
		}
		return r
	}
	r.pre, r.set = a.pre, a.set.or(b.all())
	return r
}

// ---- running -----------------------------------------------------------------------------------

type chars struct {
	p      *Program
	b      *bprover
	objs   int
	depth  int
	stack  map[*ssa.Function]int
	globs  map[string]*cval
	made   map[string]int
	ctx    string
	nonneg map[*ssa.BinOp]bool
	tests  map[string]iset
	msg    map[string]*cval // what the fields of the message are assumed to hold
	steps  int
	cuts   []string
}

func (c *chars) topOf(t types.Type, unk bool) *cval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &cval{k: "int", set: anyBool, unk: unk}
		case u.Info()&types.IsString != 0:
			return &cval{k: "text", set: anyRune, unk: unk}
		case u.Info()&types.IsInteger != 0:
			return &cval{k: "int", set: rangeOf(u), unk: unk}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && (b.Kind() == types.Byte || b.Kind() == types.Int32) {
			return &cval{k: "text", set: anyRune, unk: unk}
		}
	}
	return topv
}

func rangeOf(b *types.Basic) iset {
	switch b.Kind() {
	case types.Uint8:
		return iset{{0, 255}}
	case types.Uint16:
		return iset{{0, 65535}}
	case types.Int32:
		return iset{{math.MinInt32, math.MaxInt32}}
	case types.Uint32:
		return iset{{0, math.MaxUint32}}
	case types.Int8:
		return iset{{-128, 127}}
	case types.Int16:
		return iset{{-32768, 32767}}
	case types.Uint, types.Uint64, types.Uintptr:
		return iset{{0, maxI}}
	}
	return anyInt
}

type cstate struct {
	env  map[ssa.Value]*cval
	heap cheap
}

func (s *cstate) clone() *cstate {
	n := &cstate{map[ssa.Value]*cval{}, cheap{}}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func cmerge(a *cstate, b *cstate) (*cstate, bool) {
	if a == nil {
		return b.clone(), true
	}
	changed := false
	for k, v := range b.env {
		o := a.env[k]
		n := cjoin(o, v)
		if o == nil || n.key() != o.key() {
			a.env[k] = n
			changed = true
		}
	}
	for k, v := range b.heap {
		o := a.heap[k]
		n := cjoin(o, v)
		if o == nil || n.key() != o.key() {
			a.heap[k] = n
			changed = true
		}
	}
	return a, changed
}

type charsGiveUp struct{ why string }

// run interprets a function.
func (c *chars) run(fn *ssa.Function, args []*cval, bind []*cval, heap cheap) []cout {
	c.depth++
	c.stack[fn]++
	defer func() { c.depth--; c.stack[fn]-- }()
	in := map[*ssa.BasicBlock]*cstate{}
	visits := map[*ssa.BasicBlock]int{}
	st := &cstate{map[ssa.Value]*cval{}, cheap{}}
	for k, v := range heap {
		st.heap[k] = v
	}
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			st.env[f] = bind[i]
		}
	}
	in[fn.Blocks[0]] = st
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	rets := map[string]cout{}
	edge := func(from *ssa.BasicBlock, i int, s *cstate) {
		to := from.Succs[i]
		n := s.clone()
		// which edge of to is this
		idx := -1
		k := 0
		for j, p := range to.Preds {
			if p == from {
				if k == 0 || from.Succs[0] == from.Succs[1] && i == 1 {
					idx = j
				}
				k++
			}
		}
		var vals []*cval
		var phis []*ssa.Phi
		for _, x := range to.Instrs {
			ph, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, ph)
			vals = append(vals, c.val(n, ph.Edges[idx]))
		}
		for j, ph := range phis {
			n.env[ph] = vals[j]
		}
		m, changed := cmerge(in[to], n)
		in[to] = m
		if changed {
			visits[to]++
			if visits[to] > 6 { // widen
				for v, x := range m.env {
					if x.k == "int" && n.env[v] != nil {
						if ph, ok := v.(*ssa.Phi); ok && ph.Block() == to {
							m.env[v] = c.widen(v, x)
						}
					}
				}
			}
			if visits[to] > 60 {
				panic(charsGiveUp{"no fixpoint in " + fnName(fn)})
			}
			work = append(work, to)
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		c.steps++
		if c.steps > 20000 {
			panic(charsGiveUp{"too much work"})
		}
		s := in[b].clone()
		dead := false
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case *ssa.Phi:
			case *ssa.If:
				for i, want := range []bool{true, false} {
					n := s.clone()
					if c.assume(n, x.Cond, want, 0) {
						edge(b, i, n)
					}
				}
			case *ssa.Jump:
				edge(b, 0, s)
			case *ssa.Return:
				for _, f := range c.forks(s, x, b, in) {
					o := cout{heap: f.heap}
					for _, r := range x.Results {
						o.vals = append(o.vals, c.val(f, r))
					}
					for _, p := range fn.Params {
						o.args = append(o.args, f.env[p])
					}
					key := o.sign()
					if old, ok := rets[key]; ok {
						o = joinOut(old, o)
					}
					rets[key] = o
				}
			case *ssa.Panic:
				dead = true
			default:
				if !c.step(s, x) {
					dead = true
				}
			}
			if dead {
				break
			}
		}
	}
	var out []cout
	for _, o := range ordered(rets) {
		out = append(out, o)
	}
	return out
}

// sign tells apart the ways of returning by the truth values returned.
func (o cout) sign() string {
	key := ""
	for _, r := range o.vals {
		switch {
		case r.k == "int" && (r.set.within(boolT) || r.set.within(boolF)):
			key += " " + r.set.String()
		case r.k == "nil":
			key += " nil"
		default:
			key += " *"
		}
	}
	return key
}

func joinOut(a, b cout) cout {
	o := cout{heap: cheap{}}
	for i := range a.vals {
		o.vals = append(o.vals, cjoin(a.vals[i], b.vals[i]))
	}
	if len(a.args) == len(b.args) {
		for i := range a.args {
			o.args = append(o.args, cjoin(a.args[i], b.args[i]))
		}
	}
	for k, v := range a.heap {
		o.heap[k] = v
	}
	for k, v := range b.heap {
		o.heap[k] = cjoin(o.heap[k], v)
	}
	return o
}

func (c *chars) widen(v ssa.Value, x *cval) *cval {
	if len(x.set) == 0 {
		return x
	}
	full := c.topOf(v.Type(), x.unk)
	if full.k != "int" {
		return x
	}
	// characters and truth values do not grow
	n := *full
	if x.set[0].lo >= 0 && len(full.set) > 0 {
		n.set = iset{{0, full.set[0].hi}}
	}
	return &n
}

// forks splits the state at a return by the truth of what is returned.
func (c *chars) forks(s *cstate, r *ssa.Return, b *ssa.BasicBlock, in map[*ssa.BasicBlock]*cstate) []*cstate {
	out := []*cstate{s}
	for _, v := range r.Results {
		bt, ok := v.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsBoolean == 0 {
			continue
		}
		if _, isC := v.(*ssa.Const); isC {
			continue
		}
		var next []*cstate
		for _, f := range out {
			for _, want := range []bool{true, false} {
				n := f.clone()
				if c.assume(n, v, want, 0) {
					next = append(next, n)
				}
			}
		}
		out = next
	}
	return out
}

func (c *chars) val(s *cstate, v ssa.Value) *cval {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &cval{k: "fn", fn: x}
	case *ssa.Global:
		return &cval{k: "glob", g: x.String()}
	}
	if r := s.env[v]; r != nil {
		return r
	}
	return c.topOf(v.Type(), true)
}

func constVal(x *ssa.Const) *cval {
	if x.Value == nil {
		if isText(x.Type()) {
			return textv("", nil)
		}
		switch u := x.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
				return intv(iset{{0, 0}})
			}
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && (b.Kind() == types.Byte || b.Kind() == types.Int32) {
				return textv("", nil)
			}
		}
		return &cval{k: "nil"}
	}
	switch x.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(x.Value) {
			return intv(boolT)
		}
		return intv(boolF)
	case constant.String:
		return textv(constant.StringVal(x.Value), nil)
	case constant.Int:
		if n, ok := constant.Int64Val(x.Value); ok {
			n = max(min(n, maxI), minI)
			return intv(iset{{n, n}})
		}
		return intv(iset{{maxI, maxI}})
	}
	return topv
}

// assume narrows the state by the truth of a condition; false if it cannot be so.
func (c *chars) assume(s *cstate, v ssa.Value, want bool, depth int) bool {
	cur := c.val(s, v)
	w := boolF
	if want {
		w = boolT
	}
	if cur.k == "int" {
		n := cur.set.and(w)
		if len(n) == 0 {
			return false
		}
		if _, isC := v.(*ssa.Const); !isC {
			s.env[v] = &cval{k: "int", set: n}
		}
	}
	if depth > 4 {
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return c.assume(s, x.X, !want, depth+1)
		}
	case *ssa.BinOp:
		return c.compare(s, x, want)
	case *ssa.Extract:
		t := s.env[x.Tuple]
		if t == nil || t.k != "tuple" {
			break
		}
		n := &cval{k: "tuple", unk: t.unk}
		var ar []*cval
		for _, o := range t.outs {
			if r := o.vals[x.Index]; r.k == "int" && len(r.set.and(w)) == 0 {
				continue
			}
			n.outs = append(n.outs, o)
			for i, a := range o.args {
				if len(ar) <= i {
					ar = append(ar, nil)
				}
				ar[i] = cjoin(ar[i], a)
			}
		}
		if len(n.outs) == 0 {
			return false
		}
		s.env[x.Tuple] = n
		for _, r := range *x.Tuple.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && s.env[e] != nil && e != x {
				s.env[e] = extract(n, e.Index)
			}
		}
		c.narrowArgs(s, x.Tuple, ar)
	case *ssa.Call:
		// what the function found out about its arguments
		t := s.env[outsOf{x}]
		if t == nil {
			if a, set, ok := c.charTest(s, x); ok {
				if !want {
					set = set.not()
				}
				return c.narrow(s, a, set, false)
			}
			// what was asked about is no longer just what it was
			for _, a := range x.Call.Args {
				if v := s.env[a]; v != nil && (v.k == "int" || v.k == "text") && !v.unk {
					n := *v
					n.unk = true
					s.env[a] = &n
				}
			}
			return true
		}
		var ar []*cval
		some := false
		for _, o := range t.outs {
			if r := o.vals[0]; r.k == "int" && len(r.set.and(w)) == 0 {
				continue
			}
			some = true
			for i, a := range o.args {
				if len(ar) <= i {
					ar = append(ar, nil)
				}
				ar[i] = cjoin(ar[i], a)
			}
		}
		if !some {
			return false
		}
		c.narrowArgs(s, x, ar)
	}
	return true
}

// outsOf is a key under which the ways a call can return are kept.
type outsOf struct{ *ssa.Call }

func (c *chars) narrowArgs(s *cstate, v ssa.Value, ar []*cval) {
	var args []ssa.Value
	switch x := v.(type) {
	case *ssa.Call:
		args = x.Call.Args
	case *ssa.Lookup:
		args = []ssa.Value{x.Index}
	}
	for i, a := range ar {
		if i < len(args) && a != nil && a.k == "int" {
			c.narrow(s, args[i], a.set, a.unk)
		}
	}
}

// narrow restricts a number or character.
func (c *chars) narrow(s *cstate, v ssa.Value, to iset, unk bool) bool {
	cur := c.val(s, v)
	if cur.k != "int" {
		return true
	}
	n := cur.set.and(to)
	if len(n) == 0 {
		return false
	}
	if _, isC := v.(*ssa.Const); isC {
		return true
	}
	s.env[v] = &cval{k: "int", set: n, unk: cur.unk || unk}
	switch x := v.(type) {
	case *ssa.Convert:
		return c.narrow(s, x.X, to, unk)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			var m func(rune) rune
			switch extName(f) {
			case "unicode.ToUpper":
				m = unicode.ToUpper
			case "unicode.ToLower":
				m = unicode.ToLower
			}
			if m != nil {
				var pre iset
				for r := rune(0); r <= unicode.MaxRune; r++ {
					if to.has(int64(m(r))) {
						if k := len(pre); k > 0 && pre[k-1].hi == int64(r)-1 {
							pre[k-1].hi = int64(r)
						} else {
							pre = append(pre, span{int64(r), int64(r)})
						}
					}
				}
				return c.narrow(s, x.Call.Args[0], norms(pre), unk)
			}
		}
	}
	return true
}

func (c *chars) compare(s *cstate, x *ssa.BinOp, want bool) bool {
	a, b := c.val(s, x.X), c.val(s, x.Y)
	op := x.Op
	if !want {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	if y, ok := x.X.(*ssa.Call); ok && b.k == "int" { // strings.IndexRune(set, r) >= 0
		if f := y.Call.StaticCallee(); f != nil && (extName(f) == "strings.IndexRune" || extName(f) == "strings.IndexByte") {
			if t := c.val(s, y.Call.Args[0]); t.k == "text" && !t.unk && len(t.set) == 0 {
				lo, hi, ok := hull(b.set)
				in := ok && lo == hi && (op == token.GEQ && lo == 0 || op == token.GTR && lo == -1 || op == token.NEQ && lo == -1)
				out := ok && lo == hi && (op == token.LSS && lo == 0 || op == token.EQL && lo == -1)
				switch {
				case in:
					return c.narrow(s, y.Call.Args[1], runesOfStr(t.pre), false)
				case out:
					return c.narrow(s, y.Call.Args[1], runesOfStr(t.pre).not(), false)
				}
			}
		}
	}
	if a.k == "int" && b.k == "int" && len(a.set) > 0 && len(b.set) > 0 {
		lim := func(o *cval, op token.Token) iset {
			lo, hi := o.set[0].lo, o.set[len(o.set)-1].hi
			switch op {
			case token.LSS:
				return iset{{minI, hi - 1}}
			case token.LEQ:
				return iset{{minI, hi}}
			case token.GTR:
				return iset{{lo + 1, maxI}}
			case token.GEQ:
				return iset{{lo, maxI}}
			case token.EQL:
				return o.set
			case token.NEQ:
				if lo == hi {
					return iset{{lo, lo}}.not()
				}
			}
			return anyInt
		}
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
		la, lb := lim(b, op), lim(a, flip)
		// what is compared with something not understood is not understood
		if !c.narrow(s, x.X, la, false) || !c.narrow(s, x.Y, lb, false) {
			return false
		}
		return true
	}
	if a.k == "text" && b.k == "text" && (op == token.EQL || op == token.NEQ) {
		ea, eb := len(a.set) == 0 && !a.unk, len(b.set) == 0 && !b.unk
		if ea && eb && (a.pre == b.pre) != (op == token.EQL) {
			return false
		}
		if op == token.EQL && ea {
			s.env[x.Y] = a
		}
		if op == token.EQL && eb {
			s.env[x.X] = b
		}
	}
	if a.k == "nil" && b.k == "nil" {
		return op == token.EQL
	}
	if (a.k == "nil" && (b.k == "ptr" || b.k == "fn" || b.k == "map") || b.k == "nil" && (a.k == "ptr" || a.k == "fn" || a.k == "map")) && op == token.EQL {
		return false
	}
	return true
}

func extract(t *cval, i int) *cval {
	var r *cval
	for _, o := range t.outs {
		r = cjoin(r, o.vals[i])
	}
	if r == nil {
		return topv
	}
	return r
}

func hk(obj int, path string) string { return fmt.Sprintf("%d%s", obj, path) }

func (c *chars) cut(what string) {
	if os.Getenv("PHC") != "" {
		fmt.Println("CHARS", what)
	}
	c.cuts = append(c.cuts, what)
}
