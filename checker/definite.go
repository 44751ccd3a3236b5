package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An obligation that cannot be shown is reported only where the way it fails is plain: on some path,
// what is left to show speaks of nothing but inputs and the results of functions whose meaning is
// known, every condition on the path that mentions these is understood, and together they leave room
// for the obligation to fail. Anything else is left open.

func (b *bprover) quietly(f func()) {
	b.quiet++
	f()
	b.quiet--
}

// decide shows the goal, or tells why it certainly fails if it does.
func (b *bprover) decide(p bpoint, goal bgoal) (ok bool, why string) {
	b.quiet = 1
	b.within(600, func() { ok = b.prove(p, goal, 8) })
	if !ok && !b.wordsPresent(goal) {
		b.found, b.quiet = "", 0
		b.within(600, func() { ok = b.prove(p, goal, 8) })
		why = b.found
		b.found, b.quiet = "", 1
	}
	return
}

// wordsPresent: all the goal asks is that what formatting writes is not empty.
func (b *bprover) wordsPresent(goal bgoal) bool {
	if goal.key != "ge" {
		return false
	}
	l := b.e.lin(goal.ts[0])
	if len(l.m) != 1 {
		return false
	}
	for a, k := range ordered(l.m) {
		return a.op == "len" && a.args[0].op == "call" && strings.HasPrefix(a.args[0].sym, modPath+".Format") && l.k+k >= 0
	}
	return false
}

// consider notes that the goal certainly fails here.
func (b *bprover) consider(p bpoint, w *world, hyps []lin, goal bgoal) bool {
	return b.considerAs(p, w, hyps, goal, false)
}

// considerAs: texts whose making is beyond what can be followed may be said to have any length.
func (b *bprover) considerAs(p bpoint, w *world, hyps []lin, goal bgoal, texts bool) bool {
	if b.quiet > 0 || b.found != "" {
		return b.found != "" && b.quiet == 0
	}
	base := map[*term]bool{}
	switch goal.key {
	case "ge":
		for a := range ordered(b.e.lin(goal.ts[0]).m) {
			if !b.free(p.c, a, 0) && !(texts && b.anyLength(p.c, a)) {
				return false
			}
			aboutText(base, a)
		}
	case "nonnil":
		t := goal.ts[0]
		if t != b.e.nilT && !b.mayBeNil(p.c, t) {
			return false
		}
		base[t] = true
		// what one table has for a key may follow from what another has
		if look := lookupIn(t); look != nil {
			key := map[*term]bool{look.args[1]: true}
			for l := range ordered(w.lits) {
				if x := lookupIn(l); x != nil && x.args[0] != look.args[0] && (speaksOf(l, key) || look.args[1].isConst()) {
					return false
				}
			}
		}
	default:
		return false
	}
	if len(base) == 0 || base[b.e.nilT] {
		// whether the path is ever taken is all that counts
		for l := range ordered(w.lits) {
			if !l.isConst() && (!b.plain(p.c, l) || lookupIn(l) != nil) {
				return false
			}
		}
	}
	// what the path knows of these
	for changed := true; changed; {
		changed = false
		for l, v := range ordered(w.lits) {
			if l.isConst() || !speaksOf(l, base) {
				continue
			}
			if v && l.op == "call" && strings.HasPrefix(l.sym, "(*regexp.Regexp).Match") {
				return false // what matches says much about it
			}
			if !b.plain(p.c, l) && !(texts && (l.op == "lt" || l.op == "eq") && b.linear(p.c, l)) {
				return false
			}
			if l.op == "lt" || l.op == "eq" {
				for _, a := range l.args {
					for x := range ordered(b.e.lin(a).m) {
						if !base[x] && !x.isConst() {
							aboutText(base, x)
							changed = true
						}
					}
				}
			}
		}
	}
	b.found = fmt.Sprintf("in %s, on a path on which %s", fnName(p.c.fn), b.pathText(w, base))
	if btrace {
		fmt.Println("DEFINITE", goal.ts, b.found)
	}
	return true
}

// aboutText adds a quantity and the texts it is taken from.
func aboutText(base map[*term]bool, a *term) {
	base[a] = true
	if a.op == "len" {
		a = a.args[0]
		base[a] = true
	}
	if a.op == "call" && modelled(a.sym) {
		for _, x := range a.args {
			if !x.isConst() && (x.typ == nil || isSeq(x.typ)) {
				base[x] = true
			}
		}
	}
}

func (b *bprover) pathText(w *world, base map[*term]bool) string {
	var out []string
	for l, v := range ordered(w.lits) {
		if speaksOf(l, base) {
			s := shortTerm(l)
			if !v {
				s = "not " + s
			}
			out = append(out, s)
		}
	}
	if len(out) == 0 {
		return "nothing is known of it"
	}
	sortStrings(out)
	if len(out) > 4 {
		out = out[:4]
	}
	return "only this is known: " + strings.Join(out, "; ")
}

// lookupIn finds a table entry in a term.
func lookupIn(t *term) *term {
	if (t.op == "lookup" || t.op == "has") && len(t.args) == 2 {
		return t
	}
	for _, a := range t.args {
		if x := lookupIn(a); x != nil {
			return x
		}
	}
	return nil
}

// speaksOf: one of the terms occurs in the term.
func speaksOf(t *term, base map[*term]bool) bool {
	seen := map[*term]bool{}
	var f func(t *term) bool
	f = func(t *term) bool {
		if base[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// plain: the condition is understood.
func (b *bprover) plain(c *fctx, l *term) bool {
	switch l.op {
	case "not":
		return b.plain(c, l.args[0])
	case "lt", "eq", "flt", "has":
		for _, a := range l.args {
			if a != b.e.nilT && !b.free(c, a, 0) {
				return false
			}
		}
		return true
	}
	return b.free(c, l, 0)
}

// known meaning: results are bounded only by what callFacts and lengthOf say of them.
func modelled(n string) bool {
	if strings.HasPrefix(n, "(*regexp.Regexp).Find") || strings.HasPrefix(n, "(*regexp.Regexp).Match") {
		return true
	}
	pkg, name, _ := strings.Cut(n, ".")
	switch pkg {
	case "strings", "bytes":
		for _, p := range []string{"Index", "LastIndex", "HasPrefix", "HasSuffix", "Contains", "Trim", "Split", "Fields"} {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
	case "strconv", "unicode/utf8", "unicode":
		return true
	}
	return false
}

// free: an input, or what a function of known meaning makes of inputs.
func (b *bprover) free(c *fctx, t *term, depth int) bool {
	if depth > 12 {
		return false
	}
	args := func(as []*term) bool {
		for _, a := range as {
			if !b.free(c, a, depth+1) {
				return false
			}
		}
		return true
	}
	if t.isConst() || t == b.e.nilT {
		return true
	}
	switch t.op {
	case "const", "regexp", "gload", "glob":
		return true
	case "param":
		i := strings.LastIndexByte(t.sym, '$')
		fn := c.fn
		return t.sym[:i] == fn.String() && b.e.isAPI(fn)
	case "get", "fld", "len", "maplen", "idx", "elem", "slice", "sum", "res", "lookup", "has", "str", "bytes", "runes", "eq", "lt", "not":
		return args(t.args)
	case "call":
		return modelled(t.sym) && args(t.args)
	case "phi":
		ph := c.phis[t]
		return ph != nil && stepsByOne(ph)
	}
	return false
}

// anyLength: the length of a text made in a way that cannot be followed.
func (b *bprover) anyLength(c *fctx, a *term) bool {
	if a.op != "len" {
		// a place looked for in such a text
		if a.op == "call" && modelled(a.sym) {
			for _, x := range a.args {
				if !b.free(c, x, 0) && !b.madeText(c, x) && !isRegexp(x) {
					return false
				}
			}
			return true
		}
		if a.op == "elem" && a.args[0].op == "call" && a.args[1].isConst() && strings.Contains(a.args[0].sym, "SubmatchIndex") {
			return b.anyLength(c, a.args[0])
		}
		return false
	}
	return b.madeText(c, a.args[0])
}

func isRegexp(x *term) bool {
	return x.typ != nil && x.typ.String() == "*regexp.Regexp"
}

func (b *bprover) madeText(c *fctx, x *term) bool {
	switch x.op {
	case "get", "fld":
		// what a rule found somehow says
		for x.op == "get" || x.op == "fld" || x.op == "elem" {
			x = x.args[0]
		}
		return x.op == "call" || x.op == "res" || x.op == "lookup"
	case "call", "res":
		if x.op == "res" && x.args[0].op != "call" {
			return false
		}
		return x.typ == nil || isSeq(x.typ)
	case "slice":
		return b.madeText(c, x.args[0])
	}
	return false
}

// linear: a comparison of lengths and places.
func (b *bprover) linear(c *fctx, l *term) bool {
	for _, a := range l.args {
		for x := range ordered(b.e.lin(a).m) {
			if !b.free(c, x, 0) && !b.anyLength(c, x) {
				return false
			}
		}
	}
	return true
}

// stepsByOne: a loop counter that starts somewhere fixed and takes every value in turn.
func stepsByOne(ph *ssa.Phi) bool {
	steps := 0
	for _, e := range ph.Edges {
		switch x := e.(type) {
		case *ssa.Const:
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if x.Op != token.ADD || x.X != ssa.Value(ph) || !ok || k.Value == nil || k.Value.String() != "1" {
				return false
			}
			steps++
		default:
			return false
		}
	}
	return steps > 0
}

var mayReturnNil = map[string]bool{
	"golang.org/x/text/language/display.Regions": true, "golang.org/x/text/language/display.Languages": true,
	"golang.org/x/text/language/display.Tags": true, "golang.org/x/text/language/display.Scripts": true,
}

// mayBeNil: the value is nothing for some input.
func (b *bprover) mayBeNil(c *fctx, t *term) bool {
	switch t.op {
	case "param":
		return b.free(c, t, 0) && !b.trusted(t)
	case "lookup":
		return b.free(c, t, 0)
	case "get", "fld":
		if !b.free(c, t, 0) {
			return false
		}
		i := strings.LastIndexByte(t.sym, '.')
		if strings.HasPrefix(t.sym, metaPath+".PhoneMetadata.") && b.e.p.dataAlways()[t.sym[i+1:]] {
			return t.op == "get" && b.mayBeNil(c, t.args[0])
		}
		return true
	case "call":
		return mayReturnNil[t.sym]
	case "op":
		if s, ok := b.e.siteOf(t).(*ssa.Call); ok {
			if g := s.Call.StaticCallee(); g != nil {
				return mayReturnNil[extName(g)]
			}
		}
	}
	return false
}
