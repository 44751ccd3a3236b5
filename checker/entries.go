package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Facts that hold whenever a function is entered: guessed from its parameters, assumed of every
// function at once, and struck out until every call of every function is shown to establish what
// is left. What holds by then holds by induction over the calls made.

// off is the place of a text within another it was cut from.
func (e *engine) off(of, s *term) *term {
	if of == s {
		return e.zero
	}
	if s.op == "slice" && len(s.args) == 3 {
		return e.arith("+", e.off(of, s.args[0]), s.args[1])
	}
	if s.op == "call" && len(s.args) > 0 {
		switch s.sym {
		case "strings.TrimRight", "strings.TrimSuffix", "strings.TrimRightFunc":
			return e.off(of, s.args[0])
		case "strings.TrimLeft", "strings.TrimPrefix", "strings.TrimLeftFunc":
			l := e.lin(e.off(of, s.args[0])).add(e.lin(e.length(s.args[0])), 1).add(e.lin(e.length(s)), -1)
			return e.unlin(l)
		}
	}
	return e.mk("off", "", of, s)
}

type entryFact struct {
	t    *term // >= 0
	name string
}

// entry lists what is known on entry to the function.
func (b *bprover) entry(fn *ssa.Function) []lin {
	if b.entries == nil {
		b.findEntries()
	}
	if !b.useEntries {
		return nil
	}
	var out []lin
	for _, f := range b.entries[fn] {
		out = append(out, b.e.lin(f.t))
	}
	return out
}

// textFields lists the unexported text fields of the structure a parameter points to.
func textFields(t types.Type) []string {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n := namedOf(pt.Elem())
	if n == nil || n.Obj().Pkg() == nil || !inRepo(n.Obj().Pkg().Path()) {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); !token.IsExported(f.Name()) && isText(f.Type()) {
			out = append(out, n.Obj().Pkg().Path()+"."+n.Obj().Name()+"."+f.Name())
		}
	}
	return out
}

func isText(t types.Type) bool {
	u, ok := t.Underlying().(*types.Basic)
	return ok && u.Info()&types.IsString != 0
}

func isInt(t types.Type) bool {
	u, ok := t.Underlying().(*types.Basic)
	return ok && u.Kind() == types.Int
}

func (b *bprover) findEntries() {
	e := b.e
	b.entries = map[*ssa.Function][]entryFact{}
	b.useEntries = true
	sites := map[*ssa.Function][]ssa.CallInstruction{}
	var fns []*ssa.Function
	for _, fn := range e.p.LibFuncs() {
		if fn.Blocks == nil || b.skip != nil && b.skip(fn) || e.isAPI(fn) {
			continue
		}
		var ints, texts []*term
		var holders []*term
		c := e.fctx(fn)
		for _, p := range fn.Params {
			switch {
			case isInt(p.Type()):
				ints = append(ints, c.t(p))
			case isText(p.Type()):
				texts = append(texts, c.t(p))
			default:
				for _, k := range textFields(p.Type()) {
					m := e.mem("fld", k, nil, c.t(p))
					m.typ = types.Typ[types.String]
					holders = append(holders, m)
				}
			}
		}
		if len(ints) == 0 {
			continue
		}
		cs, open := b.callSites(fn)
		if open || len(cs) == 0 {
			continue
		}
		var fs []entryFact
		add := func(name string, l lin) {
			fs = append(fs, entryFact{e.unlin(l), name})
		}
		for _, i := range ints {
			add("not negative", e.lin(i))
			for _, s := range texts {
				add("within the text given", e.lin(e.length(s)).add(e.lin(i), -1))
			}
			for _, h := range holders {
				add("within the text", e.lin(e.length(h)).add(e.lin(i), -1))
				for _, s := range texts {
					add("room for the part", e.lin(e.length(h)).add(e.lin(i), -1).add(e.lin(e.length(s)), -1))
					d := e.lin(e.off(h, s)).add(e.lin(i), -1)
					add("part begins there", d)
					add("part begins there", konst(0).add(d, -1))
				}
			}
		}
		b.entries[fn] = fs
		sites[fn] = cs
		fns = append(fns, fn)
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			var keep []entryFact
			for _, f := range b.entries[fn] {
				good := true
				for _, ci := range sites[fn] {
					if !b.entryAt(fn, ci, f) {
						good = false
						break
					}
				}
				if good {
					keep = append(keep, f)
				} else {
					changed = true
				}
				if os.Getenv("PHENTRY") != "" {
					fmt.Println("ENTRY", good, fnName(fn), f.name, shortTerm(f.t))
				}
			}
			b.entries[fn] = keep
			if changed {
				// what was shown may have leant on what was struck out
				b.invs, b.objs, b.memo = map[*ssa.BasicBlock][]lin{}, map[string]bool{}, map[string]bool{}
				b.lows = map[any]int{}
			}
		}
	}
}

// entryAt shows the fact at a call.
func (b *bprover) entryAt(fn *ssa.Function, ci ssa.CallInstruction, f entryFact) bool {
	e := b.e
	gc := e.fctx(ci.Parent())
	var args []*term
	for _, a := range ci.Common().Args {
		args = append(args, gc.t(a))
	}
	if len(args) < len(fn.Params) {
		return false
	}
	goal := atLeastZero(e, e.lin(f.t)).mapped(func(t *term) *term {
		return e.substM(t, fn, args, func(k string) *term { return gc.verAt(ci.(ssa.Instruction), k) }, nil, map[*term]*term{})
	})
	q := bpoint{c: gc, blk: ci.Block(), at: ci.(ssa.Instruction), via: -1, lits: map[*term]bool{}}
	ok := false
	b.quietly(func() {
		b.within(150, func() { ok = b.prove(q, goal, 7) })
	})
	return ok
}
