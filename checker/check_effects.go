package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effectRoots are the operations a program can invoke: the exported API and the exported functions
// of the metadata package, the test-only metadata override excluded.
func effectRoots(p *Program) []*ssa.Function {
	if r, ok := p.facts["roots"].([]*ssa.Function); ok {
		return r
	}
	var out []*ssa.Function
	for _, f := range p.ExportedAPI(append(append([]string{}, apiPackages...), modPath+"/metadata")...) {
		if fnPkgPath(f) == modPath+"/metadata" && (f.Name() == "Use" || f.Name() == "Merge") {
			continue
		}
		out = append(out, f)
	}
	p.facts["roots"] = out
	return out
}

// closureRun: what running a function value returned by a root does, in the root's own graph.
type rootEffects struct {
	fn       *ssa.Function
	s        *Summary
	acc      []*Access
	free     []*Access // accesses of returned closures to variables they captured
	clos     []*Summary
	callback []cbArg
	problems []lockProblem
}

type cbArg struct {
	loc locSet
	typ types.Type
	pos string
}

func rootsEffects(p *Program) []*rootEffects {
	if r, ok := p.facts["rootEffects"].([]*rootEffects); ok {
		return r
	}
	e := NewEffects(p)
	var out []*rootEffects
	for _, fn := range effectRoots(p) {
		s := e.Summarise(fn)
		r := &rootEffects{fn: fn, s: s}
		// function values that are handed out run later, with no lock held
		for _, ret := range s.rets {
			for _, l := range sortedLocs(ret) {
				if l.n.kind != nFunc || l.n.fn.Blocks == nil || !inRepo(fnPkgPath(l.n.fn)) {
					continue
				}
				cs := e.Summarise(l.n.fn)
				r.clos = append(r.clos, cs)
				for _, k := range cs.accOrder {
					if a := cs.acc[k]; a.loc.n.root().kind == nFree {
						r.free = append(r.free, a)
					}
				}
				args := make([]locSet, len(l.n.fn.Params))
				for i, pr := range l.n.fn.Params {
					if pointerful(pr.Type()) {
						n := s.node(fmt.Sprintf("cbparam%d", i), func() *Node { return &Node{kind: nParam, idx: 1000 + i, typ: pr.Type()} })
						args[i] = locSet{Loc{n, ""}: true}
					}
				}
				s.recording = true
				e.enter(s, l.n.site, l.n, l.n.fn, args, map[string]bool{})
			}
		}
		for _, k := range s.accOrder {
			r.acc = append(r.acc, s.acc[k])
		}
		dk := make([]string, 0, len(s.deferred))
		for k := range s.deferred {
			dk = append(dk, k)
		}
		sort.Strings(dk)
		for _, k := range dk {
			d := s.deferred[k]
			for i, a := range d.args {
				var t types.Type
				if i < len(d.types) {
					t = d.types[i]
				}
				r.callback = append(r.callback, cbArg{a, t, p.Pos(d.pos)})
			}
		}
		out = append(out, r)
	}
	p.facts["rootEffects"] = out
	return out
}

func sortedLocs(ls locSet) []Loc {
	var out []Loc
	for l := range ls {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].n.key != out[j].n.key {
			return out[i].n.key < out[j].n.key
		}
		return out[i].path < out[j].path
	})
	return out
}

func accPath(p *Program, root *ssa.Function, a *Access) []string {
	out := []string{"entry " + fnName(root)}
	for _, v := range a.via {
		out = append(out, "calls "+v)
	}
	return append(out, fmt.Sprintf("%s at %s", a.what, p.Pos(a.pos)))
}

// Once wrappers generated for protobuf descriptors are not part of the library's own state.
func ignoredGlobal(g *ssa.Global) bool {
	return strings.HasPrefix(g.Name(), "file_") || g.Name() == "init$guard"
}

func globalRoot(l Loc) *ssa.Global {
	if r := l.n.root(); r.kind == nGlobal {
		return r.global
	}
	return nil
}

func lockNames(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "phonenumbers.")
	if s == "" {
		return "none"
	}
	return s
}

func effectCoverage(p *Program, r *Report) *Effects {
	e := NewEffects(p)
	roots := rootsEffects(p)
	r.Count("entry_points", len(roots))
	r.Count("functions_summarised", len(e.sums))
	r.Count("call_sites_instantiated", e.calls)
	r.Count("external_functions_modelled", len(e.ext))
	r.Require("entry_points", 60)
	r.Require("functions_summarised", 150)
	r.Assume("functions outside the repository write only the memory the checker's table says they write (pointer receivers by default), and proto getters and setters behave as generated")
	return e
}

// C02
func checkRaces(p *Program, r *Report) {
	r.Rule("every pair of accesses to a package level location, one of them a write after initialisation, must have a lock (write side exclusive) or a one-time initialisation in common, over all entry points;")
	r.Rule("a function either holds a lock on all of its returns or on none, entry points on none, and no lock is acquired while it may be held already.")
	e := effectCoverage(p, r)
	type ga struct {
		a    *Access
		root *ssa.Function
		path string
	}
	byNode := map[string][]ga{}
	locName := map[string]string{}
	for _, re := range rootsEffects(p) {
		for _, a := range re.acc {
			g := globalRoot(a.loc)
			if g == nil || ignoredGlobal(g) {
				continue
			}
			// the object is named by the chain of pointers leading to it
			full := a.loc.n.name() + a.loc.path
			k, path := full, ""
			if i := strings.LastIndex(full, "->"); i >= 0 {
				k, path = full[:i+2], full[i+2:]
			} else {
				k, path = a.loc.n.name(), a.loc.path
			}
			byNode[k] = append(byNode[k], ga{a, re.fn, path})
			locName[k] = k
		}
		for _, a := range re.free {
			if a.write {
				r.Failf("closure-state", fnName(re.fn), p.Pos(a.pos), "the function value %s returns writes %s, which it shares with every other run of it", re.fn.Name(), a.loc)
			}
		}
		for _, k := range sortedKeys(re.s.exitHeld) {
			if k[0] != 'O' {
				r.Failf("lock-release", fnName(re.fn), p.Pos(re.fn.Pos()), "the entry point returns with lock %s held", re.s.lockLocs[k].loc)
			}
		}
	}
	keys := sortedKeys(byNode)
	shared, pairs := 0, 0
	for _, k := range keys {
		as := byNode[k]
		// distinct by path, mode and locks
		type cls struct {
			path, locks string
			write       bool
		}
		rep := map[cls]ga{}
		var order []cls
		for _, x := range as {
			c := cls{x.path, x.a.locks, x.a.write}
			if _, ok := rep[c]; !ok {
				rep[c] = x
				order = append(order, c)
			}
		}
		sort.Slice(order, func(i, j int) bool {
			return fmt.Sprint(order[i]) < fmt.Sprint(order[j])
		})
		written := false
		for _, w := range order {
			if !w.write {
				continue
			}
			written = true
			for _, x := range order {
				if !overlap(w.path, x.path) {
					continue
				}
				pairs++
				if commonLock(w.locks, x.locks, x.write) {
					r.Ok("%s%s: write under {%s} and access under {%s} are ordered", locName[k], w.path, lockNames(w.locks), lockNames(x.locks))
					continue
				}
				wa, xa := rep[w], rep[x]
				kind := "read"
				if x.write {
					kind = "write"
				}
				r.Fail(Violation{Rule: "race", Construct: locName[k] + w.path, Pos: p.Pos(wa.a.pos),
					Detail: fmt.Sprintf("written at %s holding {%s} and %s at %s holding {%s}: nothing orders the two", p.Pos(wa.a.pos), lockNames(w.locks), kind, p.Pos(xa.a.pos), lockNames(x.locks)),
					Path:   append(append(accPath(p, wa.root, wa.a), "against"), accPath(p, xa.root, xa.a)...)})
			}
		}
		if written {
			shared++
		}
	}
	for _, fn := range p.LibFuncs() {
		if s := e.sums[fn]; s != nil {
			for _, pr := range s.problems {
				r.Failf("lock-release", fnName(fn), p.Pos(pr.pos), "%s: %s", pr.key, pr.text)
			}
		}
	}
	r.Count("global_locations_accessed", len(byNode))
	r.Count("global_locations_written_after_init", shared)
	r.Count("access_pairs_checked", pairs)
	r.Require("global_locations_accessed", 10)
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func overlap(a, b string) bool {
	return a == b || strings.HasPrefix(a, b) || strings.HasPrefix(b, a)
}

func commonLock(w, x string, xWrite bool) bool {
	for _, lw := range strings.Split(w, ",") {
		if !strings.HasPrefix(lw, "W:") {
			continue
		}
		for _, lx := range strings.Split(x, ",") {
			if len(lx) < 2 || lx[2:] != lw[2:] {
				continue
			}
			if lx[0] == 'W' || (!xWrite && (lx[0] == 'R' || lx[0] == 'O')) {
				return true
			}
		}
	}
	return false
}

// the documented exceptions to "arguments are not modified"
func mayModify(fn *ssa.Function, idx int) bool {
	switch {
	case fn.Signature.Recv() != nil && idx == 0:
		return isNamed(deref(fn.Signature.Recv().Type()), modPath, "AsYouTypeFormatter")
	case fnPkgPath(fn) == modPath && (fn.Name() == "ParseToNumber" || fn.Name() == "ParseAndKeepRawInputToNumber"):
		return idx < len(fn.Params) && isNamed(deref(fn.Params[idx].Type()), modPath, "PhoneNumber")
	case fnPkgPath(fn) == modPath && fn.Name() == "TruncateTooLongNumber":
		return idx == 0
	}
	return false
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// isMetadataType: objects of these types are shared with the library's tables wherever they are reachable from.
func isMetadataType(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/metadata"
}

// inMetadata: is the location part of an object of a metadata type (or of something it holds)?
func inMetadata(l Loc) bool {
	for n := l.n; n != nil; n = n.parent {
		if n.kind == nLoad && isMetadataType(n.typ) {
			return true
		}
	}
	return false
}

// C03
func checkArguments(p *Program, r *Report) {
	r.Rule("no entry point, directly or through anything it calls, writes memory reachable from one of its parameters, except the destination of a parse, the number being truncated and the as-you-type formatter's own fields.")
	effectCoverage(p, r)
	params := 0
	for _, re := range rootsEffects(p) {
		if !isAPIPath(fnPkgPath(re.fn)) {
			continue
		}
		for i, pr := range re.fn.Params {
			if !pointerful(pr.Type()) {
				continue
			}
			params++
			bad := false
			for _, a := range re.acc {
				if !a.write {
					continue
				}
				root := a.loc.n.root()
				if root.kind != nParam || root.idx != i {
					continue
				}
				if mayModify(re.fn, i) && !inMetadata(a.loc) {
					continue
				}
				bad = true
				r.Fail(Violation{Rule: "argument-write", Construct: fnName(re.fn) + " parameter " + pr.Name(), Pos: p.Pos(a.pos),
					Detail: fmt.Sprintf("%s of %s, reached from the caller's argument %s", a.what, strings.Replace(a.loc.String(), fmt.Sprintf("param%d", i), pr.Name(), 1), pr.Name()),
					Path:   accPath(p, re.fn, a)})
			}
			if !bad {
				r.Ok("%s does not write through %s", fnName(re.fn), pr.Name())
			}
		}
	}
	r.Count("pointer_parameters", params)
	r.Require("pointer_parameters", 30)
}

// sharesMutable: walks what a caller can reach from a value and looks for library memory.
func sharesMutable(s *Summary, l Loc, t types.Type, depth int, seen map[string]bool) (Loc, bool) {
	if t == nil || depth > 6 {
		return Loc{}, false
	}
	if isErrorType(t) || isNamed(deref(t), "regexp", "Regexp") {
		return Loc{}, false
	}
	k := l.n.key + "|" + l.path + "|" + t.String()
	if seen[k] {
		return Loc{}, false
	}
	seen[k] = true
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature, *types.Chan:
		return Loc{}, false
	case *types.Interface:
		if globalRoot(l) != nil {
			return l, true
		}
		return Loc{}, false
	case *types.Pointer:
		if globalRoot(l) != nil && mutableByCaller(u.Elem()) {
			return l, true
		}
		return sharesIn(s, l, u.Elem(), depth+1, seen)
	case *types.Slice:
		if globalRoot(l) != nil {
			return l, true
		}
		return sharesContent(s, Loc{l.n, l.path + "[]"}, u.Elem(), depth+1, seen)
	case *types.Map:
		if globalRoot(l) != nil {
			return l, true
		}
		return sharesContent(s, Loc{l.n, l.path + "[]"}, u.Elem(), depth+1, seen)
	case *types.Struct, *types.Array:
		return sharesIn(s, l, t, depth, seen)
	}
	return Loc{}, false
}

// mutableByCaller: can code outside the library change an object of this type through a pointer to it?
func mutableByCaller(t types.Type) bool {
	if st, ok := t.Underlying().(*types.Struct); ok {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			// a struct without exported fields can still be overwritten as a whole
			_ = n
		}
		_ = st
	}
	return true
}

// sharesIn looks inside the object of type t at l.
func sharesIn(s *Summary, l Loc, t types.Type, depth int, seen map[string]bool) (Loc, bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() || !pointerful(f.Type()) {
				continue
			}
			if x, bad := sharesContent(s, Loc{l.n, l.path + "." + f.Name()}, f.Type(), depth+1, seen); bad {
				return x, true
			}
		}
	case *types.Array:
		return sharesContent(s, Loc{l.n, l.path + "[]"}, u.Elem(), depth+1, seen)
	default:
		return sharesContent(s, l, t, depth+1, seen)
	}
	return Loc{}, false
}

// sharesContent looks at the values stored at a location.
func sharesContent(s *Summary, l Loc, t types.Type, depth int, seen map[string]bool) (Loc, bool) {
	if !pointerful(t) {
		return Loc{}, false
	}
	for _, x := range sortedLocs(s.lookup(l, t)) {
		if y, bad := sharesMutable(s, x, t, depth, seen); bad {
			return y, true
		}
	}
	return Loc{}, false
}

// C04
func checkIsolation(p *Program, r *Report) {
	r.Rule("nothing a caller can reach and change from a result or callback argument of an entry point is memory reachable from a package level variable;")
	r.Rule("no pointer, slice or map reachable from an argument is stored into memory reachable from a package level variable.")
	effectCoverage(p, r)
	results := 0
	for _, re := range rootsEffects(p) {
		if !isAPIPath(fnPkgPath(re.fn)) {
			continue
		}
		sig := re.fn.Signature
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			if !pointerful(t) {
				continue
			}
			results++
			bad := false
			if i < len(re.s.rets) {
				for _, l := range sortedLocs(re.s.rets[i]) {
					if x, is := sharesMutable(re.s, l, t, 0, map[string]bool{}); is {
						bad = true
						r.Failf("shared-result", fnName(re.fn), p.Pos(re.fn.Pos()), "result %d (%s) gives the caller access to %s, which the library keeps using", i, t, x)
					}
				}
			}
			if !bad {
				r.Ok("result %d of %s shares nothing with the library", i, fnName(re.fn))
			}
		}
		for _, cb := range re.callback {
			results++
			if cb.typ == nil {
				continue
			}
			for _, l := range sortedLocs(cb.loc) {
				if x, is := sharesMutable(re.s, l, cb.typ, 0, map[string]bool{}); is {
					r.Failf("shared-callback", fnName(re.fn), cb.pos, "the callback receives access to %s, which the library keeps using", x)
				}
			}
		}
		// arguments kept by the library
		for _, nk := range sortedKeys(re.s.nodes) {
			n := re.s.nodes[nk]
			if n.root().kind != nGlobal || ignoredGlobal(n.root().global) {
				continue
			}
			for _, path := range sortedKeys(n.edges) {
				for _, l := range sortedLocs(n.edges[path]) {
					if rt := l.n.root(); rt.kind == nParam {
						name := fmt.Sprint("callback parameter")
						if rt.idx < len(re.fn.Params) {
							name = re.fn.Params[rt.idx].Name()
						}
						r.Failf("argument-kept", fnName(re.fn), p.Pos(re.fn.Pos()), "memory of the caller's argument %s is kept in %s%s", name, n.name(), pathName(path))
					} else if !l.n.outside() {
						if leak := paramInside(re.s, l, 0, map[*Node]bool{}); leak != nil {
							r.Failf("argument-kept", fnName(re.fn), p.Pos(re.fn.Pos()), "memory of a caller's argument is kept in %s%s", n.name(), pathName(path))
						}
					}
				}
			}
		}
	}
	r.Count("results_and_callback_arguments", results)
	r.Require("results_and_callback_arguments", 30)
	r.Assume("error values and compiled patterns are immutable")
}

func paramInside(s *Summary, l Loc, depth int, seen map[*Node]bool) *Node {
	if seen[l.n] || depth > 8 {
		return nil
	}
	seen[l.n] = true
	for _, ls := range l.n.edges {
		for x := range ls {
			if x.n.root().kind == nParam {
				return x.n
			}
			if !x.n.outside() {
				if y := paramInside(s, x, depth+1, seen); y != nil {
					return y
				}
			}
		}
	}
	return nil
}

// C05
func checkHistory(p *Program, r *Report) {
	r.Rule("after initialisation an entry point writes package level memory only (a) inside a one-time initialisation, with values that depend on nothing but package level data, or (b) as an entry of a table whose value is determined by its key and package level data;")
	r.Rule("function values handed out keep no state between runs, and objects of the metadata types are never written once they are reachable from outside the function that builds them.")
	effectCoverage(p, r)
	writes := 0
	d := newDeps(p)
	done := map[string]bool{}
	for _, re := range rootsEffects(p) {
		for _, a := range re.free {
			if a.write {
				r.Failf("closure-state", fnName(re.fn), p.Pos(a.pos), "the function value %s returns keeps state in %s between runs", re.fn.Name(), a.loc)
			}
		}
		clean := true
		for _, a := range re.acc {
			if !a.write {
				continue
			}
			g := globalRoot(a.loc)
			if g == nil {
				if inMetadata(a.loc) {
					clean = false
					r.Fail(Violation{Rule: "metadata-write", Construct: fnName(re.fn), Pos: p.Pos(a.pos),
						Detail: fmt.Sprintf("%s of %s: metadata objects are shared by all calls", a.what, a.loc), Path: accPath(p, re.fn, a)})
				}
				continue
			}
			if ignoredGlobal(g) {
				continue
			}
			key := fmt.Sprintf("%s|%d|%v", a.loc, a.pos, strings.Contains(a.locks, ".once"))
			if done[key] {
				continue
			}
			done[key] = true
			writes++
			once := false
			for _, lk := range strings.Split(a.locks, ",") {
				if strings.HasPrefix(lk, "W:") && strings.HasSuffix(lk, "once") {
					once = true
				}
			}
			switch {
			case once:
				if why := d.independent(a); why == "" {
					r.Ok("%s is set once, from package level data only (%s)", a.loc, p.Pos(a.pos))
				} else {
					clean = false
					r.Fail(Violation{Rule: "once-from-arguments", Construct: a.loc.String(), Pos: p.Pos(a.pos), Detail: "initialised once, but from a value that " + why, Path: accPath(p, re.fn, a)})
				}
			case a.key != nil && a.val != nil:
				if why := d.memo(a); why == "" {
					r.Ok("%s is a table whose values are determined by their keys (%s)", a.loc, p.Pos(a.pos))
				} else {
					clean = false
					r.Fail(Violation{Rule: "not-a-memo", Construct: a.loc.String(), Pos: p.Pos(a.pos), Detail: "the stored value " + why, Path: accPath(p, re.fn, a)})
				}
			default:
				clean = false
				r.Fail(Violation{Rule: "global-write", Construct: a.loc.String(), Pos: p.Pos(a.pos),
					Detail: fmt.Sprintf("%s after initialisation: later calls can observe it", a.what), Path: accPath(p, re.fn, a)})
			}
		}
		if clean {
			r.Ok("%s leaves nothing behind but memoised values", fnName(re.fn))
		}
	}
	r.Count("package_level_writes_after_init", writes)
	r.Require("package_level_writes_after_init", 1)
}
