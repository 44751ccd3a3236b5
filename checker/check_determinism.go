package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C07: no effects outside the library ----------------------------------------------------

var deniedPackages = []string{"os", "net", "log", "syscall", "plugin", "expvar", "testing", "io/ioutil", "runtime", "math/rand", "crypto/rand",
	"os/exec", "os/signal", "os/user", "log/slog", "log/syslog", "net/http", "runtime/debug", "runtime/pprof", "runtime/trace", "database/sql", "math/rand/v2", "golang.org/x/sys"}

var deniedFuncs = map[string]bool{
	"fmt.Print": true, "fmt.Printf": true, "fmt.Println": true, "fmt.Scan": true, "fmt.Scanf": true, "fmt.Scanln": true,
	"path/filepath.Glob": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.EvalSymlinks": true, "path/filepath.Abs": true,
	"time.Now": true, "time.Since": true, "time.Until": true, "time.Sleep": true, "time.After": true, "time.AfterFunc": true, "time.Tick": true,
	"time.NewTimer": true, "time.NewTicker": true, "time.LoadLocation": true,
}

func deniedPkg(path string) bool {
	for _, d := range deniedPackages {
		if path == d || (d != "runtime" && strings.HasPrefix(path, d+"/")) {
			return true
		}
	}
	return false
}

// builtinInitOnly: packages whose own initialiser is called because of an import
func isInitCall(f *ssa.Function) bool { return f.Name() == "init" && f.Synthetic != "" }

func checkAmbient(p *Program, r *Report) {
	r.Rule("no function of the library packages calls, refers to or starts anything from the operating system, network, process, logging, console, clock, random-number or environment packages, and there are no go statements.")
	fns, refs := 0, 0
	for _, fn := range p.LibFuncs() {
		fns++
		bad := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					bad = true
					r.Failf("goroutine", fnName(fn), p.InstrPos(in), "starts a goroutine")
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o == nil {
						continue
					}
					switch x := (*o).(type) {
					case *ssa.Function:
						if inRepo(fnPkgPath(x)) || isInitCall(x) {
							continue
						}
						refs++
						n := extName(x)
						if deniedPkg(fnPkgPath(x)) || deniedFuncs[n] {
							bad = true
							r.Failf("ambient", fnName(fn), p.InstrPos(in), "uses %s", n)
						}
					case *ssa.Global:
						if x.Pkg != nil && deniedPkg(x.Pkg.Pkg.Path()) {
							bad = true
							r.Failf("ambient", fnName(fn), p.InstrPos(in), "uses %s", x)
						}
					case *ssa.Builtin:
						if x.Name() == "print" || x.Name() == "println" {
							bad = true
							r.Failf("ambient", fnName(fn), p.InstrPos(in), "writes to standard error with %s", x.Name())
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					if pk := c.Common().Method.Pkg(); pk != nil && deniedPkg(pk.Path()) {
						bad = true
						r.Failf("ambient", fnName(fn), p.InstrPos(in), "calls %s", c.Common().Method.FullName())
					}
				}
			}
		}
		if !bad {
			r.Ok("%s uses nothing outside the program", fnName(fn))
		}
	}
	// imports are the outer fence: a blank or cgo import can act during initialisation
	for path, pk := range p.Pkgs {
		if !isLibraryPath(path) {
			continue
		}
		for ip := range pk.Imports {
			if ip == "C" || ip == "plugin" || ip == "unsafe" && !hasGenerated(pk.GoFiles) {
				r.Failf("ambient", path, "-", "imports %s", ip)
			}
		}
		if len(pk.OtherFiles) > 0 {
			for _, f := range pk.OtherFiles {
				if strings.HasSuffix(f, ".s") || strings.HasSuffix(f, ".c") {
					r.Failf("ambient", path, f, "contains code that is not Go")
				}
			}
		}
	}
	r.Count("functions", fns)
	r.Count("external_references", refs)
	r.Require("functions", 200)
	r.Require("external_references", 300)
	r.Assume("the remaining external packages (strings, regexp, protobuf, x/text, compress, ...) have no effects of that kind themselves")
}

func hasGenerated(fs []string) bool {
	for _, f := range fs {
		if strings.HasSuffix(f, ".pb.go") {
			return true
		}
	}
	return false
}

// ---- C06: determinism ------------------------------------------------------------------------

var nondetFuncs = map[string]string{
	"time.Now": "the clock", "time.Since": "the clock", "time.Until": "the clock",
	"os.Getenv": "the environment", "os.LookupEnv": "the environment", "os.Environ": "the environment", "os.ExpandEnv": "the environment",
	"os.Getpid": "the process", "os.Getppid": "the process", "os.Hostname": "the machine", "os.Getwd": "the working directory", "os.TempDir": "the environment",
	"os.MkdirTemp": "random names", "os.CreateTemp": "random names",
	"(*os.File).Readdir": "directory order", "(*os.File).Readdirnames": "directory order", "(*os.File).ReadDir": "directory order",
	"(io/fs.FileInfo).ModTime": "file times", "(os.FileInfo).ModTime": "file times",
	"runtime.NumGoroutine": "scheduling", "runtime.NumCPU": "the machine", "runtime.GOMAXPROCS": "the machine",
}

var nondetPackages = []string{"math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "os/user", "runtime", "runtime/debug"}

func c06Scope(fn *ssa.Function) bool {
	pp := fnPkgPath(fn)
	return isLibraryPath(pp) || pp == modPath+"/internal/metadatabuilder" || pp == modPath+"/cmd/buildmetadata"
}

type orderCheck struct {
	p *Program
	r *Report
	d *deps
	// functions whose i-th result is a slice in map order
	unordered map[*ssa.Function]map[int]string
}

func checkDeterminism(p *Program, r *Report) {
	r.Rule("the body of every iteration over a map must be insensitive to order: it may fill maps under keys of the iteration or with loop-invariant values, set flags, add up, and append to slices that are sorted before any other use; it may leave early only with loop-invariant results;")
	r.Rule("clock, random numbers, environment, addresses, hash seeds, multi-way select, unsorted map keys and (in the library) goroutines are not used at all.")
	oc := &orderCheck{p: p, r: r, d: newDeps(p), unordered: map[*ssa.Function]map[int]string{}}
	fns, loops := 0, 0
	for _, fn := range p.Funcs {
		if !c06Scope(fn) {
			continue
		}
		fns++
		oc.sources(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if rg, ok := in.(*ssa.Range); ok {
					if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
						loops++
						oc.mapLoop(fn, rg)
					}
				}
			}
		}
	}
	// results in map order have to be sorted by whoever receives them
	for changed := true; changed; {
		changed = false
		for _, fn := range p.Funcs {
			res := oc.unordered[fn]
			if res == nil {
				continue
			}
			for i, why := range res {
				if why == "" {
					continue
				}
				res[i] = ""
				changed = true
				oc.unorderedResult(fn, i, why)
			}
		}
	}
	r.Count("functions", fns)
	r.Count("map_iterations", loops)
	r.Require("functions", 200)
	r.Require("map_iterations", 1)
}

func (oc *orderCheck) sources(fn *ssa.Function) {
	p, r := oc.p, oc.r
	lib := isLibraryPath(fnPkgPath(fn))
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				if len(x.States) > 1 || !x.Blocking {
					r.Failf("nondeterminism", fnName(fn), p.InstrPos(in), "select between several events")
				}
			case *ssa.Go:
				if lib {
					r.Failf("nondeterminism", fnName(fn), p.InstrPos(in), "starts a goroutine")
				}
			case *ssa.Convert:
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr && !oc.p.isGenerated(fn) {
					if xb, ok := x.X.Type().Underlying().(*types.Basic); ok && xb.Kind() == types.UnsafePointer {
						r.Failf("nondeterminism", fnName(fn), p.InstrPos(in), "turns an address into a number")
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				com := c.Common()
				if com.IsInvoke() {
					if why := nondetFuncs[com.Method.FullName()]; why != "" {
						r.Failf("nondeterminism", fnName(fn), p.InstrPos(in), "depends on %s through %s", why, com.Method.FullName())
					}
				}
				if f := com.StaticCallee(); f != nil {
					n := extName(f)
					switch n {
					case "maps.Keys", "maps.Values", "maps.All":
						oc.iterator(fn, c)
					case "(*sync.Map).Range":
						r.Failf("map-order", fnName(fn), p.InstrPos(in), "iterates over a sync.Map")
					case "(reflect.Value).MapKeys", "(reflect.Value).MapRange":
						r.Failf("map-order", fnName(fn), p.InstrPos(in), "iterates over a map by reflection")
					case "fmt.Sprintf", "fmt.Errorf", "fmt.Fprintf", "fmt.Sprint", "fmt.Sprintln":
						for _, a := range com.Args {
							if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
								r.Failf("nondeterminism", fnName(fn), p.InstrPos(in), "formats an address")
							}
						}
					}
				}
			}
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if f, ok := (*o).(*ssa.Function); ok && !inRepo(fnPkgPath(f)) && !isInitCall(f) {
					n := extName(f)
					if why := nondetFuncs[n]; why != "" {
						r.Failf("nondeterminism", fnName(fn), p.InstrPos(in), "depends on %s through %s", why, n)
					}
					for _, d := range nondetPackages {
						if fnPkgPath(f) == d {
							r.Failf("nondeterminism", fnName(fn), p.InstrPos(in), "uses %s", n)
						}
					}
				}
			}
		}
	}
}

// iterator: maps.Keys and friends must go straight into something that does not depend on order.
func (oc *orderCheck) iterator(fn *ssa.Function, c ssa.CallInstruction) {
	v, ok := c.(*ssa.Call)
	if !ok || v.Referrers() == nil {
		return
	}
	for _, ref := range *v.Referrers() {
		var use ssa.Instruction = ref
		if cv, ok := ref.(*ssa.ChangeType); ok && cv.Referrers() != nil && len(*cv.Referrers()) == 1 {
			use = (*cv.Referrers())[0]
		}
		if uc, ok := use.(*ssa.Call); ok {
			if f := uc.Call.StaticCallee(); f != nil {
				switch extName(f) {
				case "slices.Sorted", "maps.Collect":
					oc.r.Ok("%s sorts the keys it iterates over (%s)", fnName(fn), oc.p.InstrPos(c))
					continue
				case "slices.SortedFunc", "slices.SortedStableFunc":
					if basicElem(uc.Type()) {
						oc.r.Ok("%s sorts the keys it iterates over (%s)", fnName(fn), oc.p.InstrPos(c))
						continue
					}
				case "slices.Collect":
					oc.sliceUses(fn, uc, uc.Block(), uc, fmt.Sprintf("collected in map order at %s", oc.p.InstrPos(c)))
					continue
				}
			}
			// for k := range maps.Keys(m) calls the iterator with a generated body
			if uc.Call.Value == ssa.Value(v) {
				oc.r.Failf("map-order", fnName(fn), oc.p.InstrPos(c), "iterates over a map's keys in map order through an iterator")
				continue
			}
		}
		if _, ok := use.(*ssa.DebugRef); ok {
			continue
		}
		oc.r.Failf("map-order", fnName(fn), oc.p.InstrPos(c), "passes on a map's keys or values in map order")
	}
}

func basicElem(t types.Type) bool {
	if s, ok := t.Underlying().(*types.Slice); ok {
		_, b := s.Elem().Underlying().(*types.Basic)
		return b
	}
	return false
}

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	next   *ssa.Next
	exit   *ssa.BasicBlock // where the loop goes when exhausted
}

func mapLoopOf(rg *ssa.Range) *loopInfo {
	for _, ref := range *rg.Referrers() {
		nx, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		li := &loopInfo{head: nx.Block(), next: nx, blocks: map[*ssa.BasicBlock]bool{}}
		li.blocks[li.head] = true
		var add func(b *ssa.BasicBlock)
		add = func(b *ssa.BasicBlock) {
			if li.blocks[b] {
				return
			}
			li.blocks[b] = true
			for _, pb := range b.Preds {
				add(pb)
			}
		}
		for _, pb := range li.head.Preds {
			if li.head.Dominates(pb) {
				add(pb)
			}
		}
		// blocks that can only be reached from inside and never come back (return or panic) are part of the body too
		for _, s := range li.head.Succs {
			if !li.blocks[s] {
				li.exit = s
			}
		}
		return li
	}
	return nil
}

// addrKey names a memory cell within a function.
func addrKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return fmt.Sprintf("%T:%s", x, v.Name())
	case *ssa.FieldAddr:
		return addrKey(x.X) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return "*" + addrKey(x.X)
		}
	case *ssa.Phi:
		return "phi:" + x.Name()
	}
	return fmt.Sprintf("val:%p", v)
}

func (oc *orderCheck) mapLoop(fn *ssa.Function, rg *ssa.Range) {
	p, r := oc.p, oc.r
	li := mapLoopOf(rg)
	pos := p.InstrPos(rg)
	if li == nil {
		r.Ok("%s: iteration at %s has no body", fnName(fn), pos)
		return
	}
	name := fmt.Sprintf("%s, map iteration over %s", fnName(fn), describeVal(rg.X))
	before := len(r.Violations)
	fail := func(in ssa.Instruction, format string, a ...any) {
		ps := pos
		if in != nil {
			ps = p.InstrPos(in)
		}
		r.Failf("map-order", name, ps, "%s", fmt.Sprintf(format, a...))
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && li.blocks[in.Block()]
	}
	invariant := func(v ssa.Value) bool { return !inLoop(v) }
	key := func(v ssa.Value) bool { // the iteration key itself (injective image included)
		for {
			switch x := v.(type) {
			case *ssa.Extract:
				return x.Tuple == ssa.Value(li.next) && x.Index == 1
			case *ssa.Convert:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.UnOp:
				// a per-iteration variable
				if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
					if st := singleStore(al); st != nil {
						v = st.Val
						continue
					}
				}
				return false
			default:
				return false
			}
		}
	}
	// body: loop blocks plus blocks leaving the loop other than by exhaustion
	body := map[*ssa.BasicBlock]bool{}
	for b := range li.blocks {
		body[b] = true
	}
	var leave func(b *ssa.BasicBlock)
	leave = func(b *ssa.BasicBlock) {
		if body[b] || b == li.exit {
			return
		}
		// only blocks that belong to the early exit (dominated by the loop body and not the exit)
		body[b] = true
		for _, s := range b.Succs {
			leave(s)
		}
	}
	earlyExits := 0
	for b := range li.blocks {
		for _, s := range b.Succs {
			if li.blocks[s] || (b == li.head && s == li.exit) {
				continue
			}
			// an edge out of the loop before it is exhausted
			if endsInPanic(s, map[*ssa.BasicBlock]bool{}) {
				continue // which of several bad entries is reported first does not matter
			}
			earlyExits++
			// values carried out of the loop must not depend on the iteration
			oc.earlyExit(fn, li, b, s, fail, invariant)
		}
	}
	// cells updated by the loop
	written := map[string][]*ssa.MapUpdate{}
	for _, b := range fn.Blocks {
		if !li.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b == li.head {
					oc.carried(fn, li, x, fail, invariant)
				}
			case *ssa.MapUpdate:
				written[addrKey(x.Map)] = append(written[addrKey(x.Map)], x)
				if key(x.Key) || invariant(x.Value) || (isConst(x.Value)) || derivedOnlyFromKey(x.Value, x.Key) || zeroSized(x.Value) {
					continue
				}
				if oc.freshPerIteration(x.Map, li) {
					continue
				}
				fail(in, "stores a value that depends on the entry under a key that several entries can have; which one stays depends on the iteration order")
			case *ssa.Store:
				oc.storeInLoop(fn, li, x, fail, invariant)
			case *ssa.Send:
				fail(in, "sends in map order")
			case *ssa.Defer:
				fail(in, "defers calls in map order")
			case *ssa.Call:
				oc.callInLoop(fn, li, x, fail)
			}
		}
	}
	// tables written in the loop may be read in it only to ask whether the same key has been seen
	for _, b := range fn.Blocks {
		if !li.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			lk, ok := in.(*ssa.Lookup)
			if !ok {
				continue
			}
			ups := written[addrKey(lk.X)]
			if len(ups) == 0 || oc.freshPerIteration(lk.X, li) {
				continue
			}
			for _, u := range ups {
				if u.Key != lk.Index && !(key(u.Key) && key(lk.Index)) {
					fail(in, "reads a table that the same loop fills, under a different key")
				} else if !isConst(u.Value) && !key(u.Key) && !zeroSized(u.Value) && !derivedOnlyFromKey(u.Value, u.Key) {
					fail(in, "reads back what an earlier iteration stored")
				}
			}
		}
	}
	if len(r.Violations) == before {
		r.Ok("%s at %s does not depend on the order (%d blocks, %d early exits)", name, pos, len(li.blocks), earlyExits)
	}
}

func zeroSized(v ssa.Value) bool {
	st, ok := v.Type().Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

func singleStore(al *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	for _, ref := range *al.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
			if st != nil {
				return nil
			}
			st = s
		}
	}
	return st
}

func derivedOnlyFromKey(v, key ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Convert:
		return derivedOnlyFromKey(x.X, key)
	case *ssa.BinOp:
		return derivedOnlyFromKey(x.X, key) && derivedOnlyFromKey(x.Y, key)
	}
	return v == key
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func describeVal(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return describeVal(x.X)
	case *ssa.FieldAddr:
		return describeVal(x.X) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Global:
		return globalName(x)
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Alloc:
		return x.Comment
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return "result of " + f.Name()
		}
	case *ssa.MakeMap:
		return "local map"
	}
	return "map"
}

func endsInPanic(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	switch x := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		return false
	default:
		_ = x
	}
	for _, s := range b.Succs {
		if !endsInPanic(s, seen) {
			return false
		}
	}
	return len(b.Succs) > 0
}

// freshPerIteration: a map made inside the loop body cannot carry anything to the next iteration.
func (oc *orderCheck) freshPerIteration(m ssa.Value, li *loopInfo) bool {
	mm, ok := m.(*ssa.MakeMap)
	return ok && li.blocks[mm.Block()]
}

func (oc *orderCheck) earlyExit(fn *ssa.Function, li *loopInfo, from, to *ssa.BasicBlock, fail func(ssa.Instruction, string, ...any), invariant func(ssa.Value) bool) {
	// phi nodes at the target: the edge value must be loop invariant
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pb := range to.Preds {
			if pb == from && !invariant(ph.Edges[i]) {
				fail(from.Instrs[len(from.Instrs)-1], "leaves the loop early with a value of the entry it stopped at")
			}
		}
	}
	// other values of the loop used after leaving
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || li.blocks[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if *o != nil && !invariant(*o) {
					if ret, isRet := in.(*ssa.Return); isRet && errorOnly(ret, *o) {
						continue // which of several errors is reported does not affect successful results
					}
					if in2, ok := (*o).(ssa.Instruction); ok && in2.Block() == li.head {
						if _, isPhi := in2.(*ssa.Phi); isPhi {
							fail(in, "uses a partial result after leaving the loop early")
							continue
						}
					}
					fail(in, "uses a value of the entry at which the loop was left early")
				}
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(to)
}

// errorOnly: the value is only the error result of the return.
func errorOnly(ret *ssa.Return, v ssa.Value) bool {
	n := len(ret.Results)
	if n == 0 || !isErrorType(ret.Results[n-1].Type()) || isNilConst(ret.Results[n-1]) {
		return false
	}
	for i, x := range ret.Results {
		if x == v && i != n-1 {
			return false
		}
	}
	return true
}

func isNilConst(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }

// carried examines a value the loop carries from one iteration to the next.
func (oc *orderCheck) carried(fn *ssa.Function, li *loopInfo, ph *ssa.Phi, fail func(ssa.Instruction, string, ...any), invariant func(ssa.Value) bool) {
	ups := map[ssa.Value]bool{}
	for i, e := range ph.Edges {
		if li.blocks[ph.Block().Preds[i]] {
			collectUpdates(e, ph, li, ups, map[ssa.Value]bool{})
		}
	}
	delete(ups, ph)
	kind := ""
	for u := range ups {
		k := updateKind(u, ph, li)
		if k == "" || (kind != "" && kind != k) {
			kind = "?"
			break
		}
		kind = k
	}
	switch {
	case len(ups) == 0:
		return
	case kind == "append":
		// the growing slice must not steer the loop
		grow := map[ssa.Value]bool{ph: true}
		for u := range ups {
			grow[u] = true
		}
		for v := range grow {
			for _, ref := range *v.Referrers() {
				if !li.blocks[ref.Block()] {
					continue
				}
				switch y := ref.(type) {
				case *ssa.Phi, *ssa.DebugRef:
				case *ssa.Call:
					if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && y.Call.Args[0] == v {
						continue
					}
					fail(ref, "uses the slice while it is being filled in map order")
				default:
					fail(ref, "uses the slice while it is being filled in map order")
				}
			}
		}
		oc.sliceUses(fn, ph, li.exit, nil, "filled in map order")
	case kind == "sum" || kind == "flag" || kind == "extreme":
		// an accumulator must not be read by the rest of the body
		for v := range withPhi(ups, ph) {
			for _, ref := range *v.Referrers() {
				if !li.blocks[ref.Block()] {
					continue
				}
				if rv, ok := ref.(ssa.Value); ok && (ups[rv] || rv == ssa.Value(ph)) {
					continue
				}
				switch y := ref.(type) {
				case *ssa.Phi, *ssa.DebugRef:
					continue
				case *ssa.BinOp:
					if kind == "extreme" && isCompare(y.Op) {
						continue
					}
				case *ssa.If:
					if kind == "flag" {
						continue // leaving early once the flag is set; the exit rules apply
					}
				}
				fail(ref, "reads a running total in the middle of a map iteration")
			}
		}
	default:
		fail(ph, "carries %s from one entry to the next", valueName(ph))
	}
}

func withPhi(m map[ssa.Value]bool, ph ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{ph: true}
	for k := range m {
		out[k] = true
	}
	return out
}

func valueName(v ssa.Value) string {
	if ph, ok := v.(*ssa.Phi); ok && ph.Comment != "" {
		return ph.Comment
	}
	return v.Name()
}

func isCompare(op token.Token) bool {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return true
	}
	return false
}

// collectUpdates finds the values that can reach the back edge, looking through phis of the body.
func collectUpdates(v ssa.Value, head *ssa.Phi, li *loopInfo, out, seen map[ssa.Value]bool) {
	if v == ssa.Value(head) || seen[v] {
		return
	}
	seen[v] = true
	if ph, ok := v.(*ssa.Phi); ok && li.blocks[ph.Block()] {
		for _, e := range ph.Edges {
			collectUpdates(e, head, li, out, seen)
		}
		return
	}
	out[v] = true
}

// reaches: does v lead back to the loop phi through phis or appends?
func leadsTo(v ssa.Value, head *ssa.Phi, li *loopInfo, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(head) {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		if !li.blocks[x.Block()] {
			return false
		}
		for _, e := range x.Edges {
			if !leadsTo(e, head, li, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return leadsTo(x.Call.Args[0], head, li, seen)
		}
	case *ssa.BinOp:
		if commutes(x.Op, x.Type()) {
			return leadsTo(x.X, head, li, seen) || leadsTo(x.Y, head, li, seen)
		}
	}
	return false
}

func commutes(op token.Token, t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 && b.Info()&types.IsBoolean == 0 {
		return false
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		return true
	}
	return false
}

func updateKind(u ssa.Value, head *ssa.Phi, li *loopInfo) string {
	switch x := u.(type) {
	case *ssa.Const:
		return "flag"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if leadsTo(x.Call.Args[0], head, li, map[ssa.Value]bool{}) {
					return "append"
				}
			case "max", "min":
				return "extreme"
			}
		}
	case *ssa.BinOp:
		if commutes(x.Op, x.Type()) && leadsTo(x, head, li, map[ssa.Value]bool{}) {
			return "sum"
		}
	}
	// x = candidate, guarded by a comparison of exactly these two values
	if head.Referrers() != nil {
		for _, ref := range *head.Referrers() {
			if bo, ok := ref.(*ssa.BinOp); ok && (bo.Op == token.LSS || bo.Op == token.GTR || bo.Op == token.LEQ || bo.Op == token.GEQ) {
				if (bo.X == u && bo.Y == ssa.Value(head)) || (bo.Y == u && bo.X == ssa.Value(head)) {
					if _, basic := u.Type().Underlying().(*types.Basic); basic {
						return "extreme"
					}
				}
			}
		}
	}
	return ""
}

// sortsValue: is the instruction a sort of v (or of a load of the cell named by ck)?
func sortsValue(in ssa.Instruction, same func(ssa.Value) bool) (sorts, decided bool) {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false, true
	}
	f := c.Call.StaticCallee()
	if f == nil || len(c.Call.Args) == 0 {
		return false, true
	}
	a := c.Call.Args[0]
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	if ct, ok := a.(*ssa.ChangeType); ok {
		a = ct.X
	}
	if !same(a) {
		return false, true
	}
	switch extName(f) {
	case "sort.Ints", "sort.Strings", "sort.Float64s", "slices.Sort":
		return true, true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return true, basicElem(a.Type())
	case "sort.Sort", "sort.Stable":
		return true, basicElem(a.Type())
	}
	return false, true
}

// sliceUses: from the start block on, v (in map order) must be sorted before anything else looks at it.
func (oc *orderCheck) sliceUses(fn *ssa.Function, v ssa.Value, start *ssa.BasicBlock, after ssa.Instruction, why string) {
	alias := map[ssa.Value]bool{v: true}
	for grow := true; grow; {
		grow = false
		for a := range alias {
			if a.Referrers() == nil {
				continue
			}
			for _, ref := range *a.Referrers() {
				if ph, ok := ref.(*ssa.Phi); ok && !alias[ph] {
					alias[ph] = true
					grow = true
				}
			}
		}
	}
	same := func(x ssa.Value) bool { return alias[x] }
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		if from == 0 {
			if seen[b] {
				return
			}
			seen[b] = true
		}
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if s, decided := sortsValue(in, same); s {
				if !decided {
					oc.r.Failf("map-order", fnName(fn), oc.p.InstrPos(in), "a slice %s is sorted by a comparison that may leave equal elements in map order", why)
				}
				return
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.MakeInterface, *ssa.ChangeType, *ssa.MakeClosure:
				continue
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
			case *ssa.Return:
				hit := false
				for ri, rv := range x.Results {
					if alias[rv] {
						hit = true
						if oc.unordered[fn] == nil {
							oc.unordered[fn] = map[int]string{}
						}
						if _, done := oc.unordered[fn][ri]; !done {
							oc.unordered[fn][ri] = why
						}
					}
				}
				if hit {
					return
				}
			}
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if *o != nil && alias[*o] {
					oc.r.Failf("map-order", fnName(fn), oc.p.InstrPos(in), "uses a slice that was %s before sorting it", why)
					return
				}
			}
		}
		for _, s := range b.Succs {
			walk(s, 0)
		}
	}
	if start == nil {
		return
	}
	if after != nil {
		for i, in := range after.Block().Instrs {
			if in == after {
				walk(after.Block(), i+1)
			}
		}
		return
	}
	walk(start, 0)
}

func (oc *orderCheck) unorderedResult(fn *ssa.Function, i int, why string) {
	if fn.Object() != nil && fn.Object().Exported() && isAPIPath(fnPkgPath(fn)) {
		oc.r.Failf("map-order", fnName(fn), oc.p.Pos(fn.Pos()), "result %d is a slice %s", i, why)
		return
	}
	if oc.d.escapes[fn] {
		oc.r.Failf("map-order", fnName(fn), oc.p.Pos(fn.Pos()), "result %d is a slice %s and its users are unknown", i, why)
		return
	}
	for _, cfn := range oc.p.Funcs {
		for _, b := range cfn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != fn {
					continue
				}
				var v ssa.Value = c
				var at ssa.Instruction = c
				if fn.Signature.Results().Len() > 1 {
					v = nil
					for _, ref := range *c.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
							v, at = ex, ex
						}
					}
				}
				if v != nil {
					oc.sliceUses(cfn, v, b, at, why)
				}
			}
		}
	}
}

// storeInLoop: assignments to memory cells.
func (oc *orderCheck) storeInLoop(fn *ssa.Function, li *loopInfo, st *ssa.Store, fail func(ssa.Instruction, string, ...any), invariant func(ssa.Value) bool) {
	// variables that belong to one iteration
	base := st.Addr
	for {
		switch x := base.(type) {
		case *ssa.FieldAddr:
			base = x.X
			continue
		case *ssa.IndexAddr:
			base = x.X
			continue
		case *ssa.Slice:
			base = x.X
			continue
		}
		break
	}
	if in, ok := base.(ssa.Instruction); ok && li.blocks[in.Block()] {
		switch base.(type) {
		case *ssa.Alloc, *ssa.MakeSlice:
			return
		}
	}
	if isConst(st.Val) || invariant(st.Val) {
		if invariant(st.Addr) || isFieldOfInvariant(st.Addr, invariant) {
			return // every iteration that stores, stores the same
		}
	}
	ck := addrKey(st.Addr)
	isLoad := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && addrKey(u.X) == ck
	}
	switch x := st.Val.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && isLoad(x.Call.Args[0]) {
			oc.cellSorted(fn, li, ck, st, fail)
			return
		}
	case *ssa.BinOp:
		if commutes(x.Op, x.Type()) && (isLoad(x.X) || isLoad(x.Y)) {
			return
		}
	}
	// an object reached through the entry itself (its value) belongs to that entry
	if ownedByEntry(st.Addr, li) {
		return
	}
	fail(st, "assigns a value that depends on the entry; which entry comes last depends on the iteration order")
}

func isFieldOfInvariant(v ssa.Value, invariant func(ssa.Value) bool) bool {
	for {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return invariant(v)
		}
		v = fa.X
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = u.X
		}
	}
}

func ownedByEntry(addr ssa.Value, li *loopInfo) bool {
	v := addr
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Extract:
			return x.Tuple == ssa.Value(li.next) && x.Index == 2
		default:
			return false
		}
	}
}

// cellSorted: a cell appended to in map order is sorted on every way out of the function after the loop.
func (oc *orderCheck) cellSorted(fn *ssa.Function, li *loopInfo, ck string, st *ssa.Store, fail func(ssa.Instruction, string, ...any)) {
	same := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && addrKey(u.X) == ck
	}
	seen := map[*ssa.BasicBlock]bool{}
	bad := false
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || bad {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if s, decided := sortsValue(in, same); s {
				if !decided {
					fail(in, "the slice is sorted by a comparison that may leave equal elements in map order")
				}
				return
			}
			if ret, ok := in.(*ssa.Return); ok {
				bad = true
				fail(ret, "returns while a slice filled in map order has not been sorted")
				return
			}
			if u, ok := in.(*ssa.UnOp); ok && same(u) {
				for _, ref := range *u.Referrers() {
					if c, ok := ref.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "append") {
							continue
						}
						if s, _ := sortsValue(c, same); s {
							continue
						}
					}
					if mi, ok := ref.(*ssa.MakeInterface); ok {
						okAll := true
						for _, r2 := range *mi.Referrers() {
							if s, _ := sortsValue(r2, same); !s {
								okAll = false
							}
						}
						if okAll {
							continue
						}
					}
					if _, ok := ref.(*ssa.DebugRef); ok {
						continue
					}
					bad = true
					fail(ref, "uses a slice filled in map order before sorting it")
					return
				}
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(li.exit)
}

// callInLoop: calls made in map order must not have effects whose order can be observed.
func (oc *orderCheck) callInLoop(fn *ssa.Function, li *loopInfo, c *ssa.Call, fail func(ssa.Instruction, string, ...any)) {
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return
	}
	if c.Call.IsInvoke() {
		switch c.Call.Method.Name() {
		case "Write", "WriteString", "WriteByte", "WriteRune":
			fail(c, "writes output in map order")
		}
		return
	}
	f := c.Call.StaticCallee()
	if f == nil {
		fail(c, "calls a function value in map order")
		return
	}
	if !inRepo(fnPkgPath(f)) {
		n := extName(f)
		if strings.HasPrefix(n, "encoding/binary.Write") || strings.HasPrefix(n, "fmt.Fprint") || strings.Contains(n, ").Write") || strings.HasPrefix(n, "io.WriteString") {
			if rcv := firstArg(c); rcv != nil {
				if in, ok := rcv.(ssa.Instruction); ok && li.blocks[in.Block()] {
					return // a writer that belongs to this iteration
				}
				if mi, ok := rcv.(*ssa.MakeInterface); ok {
					if in, ok := mi.X.(ssa.Instruction); ok && li.blocks[in.Block()] {
						return
					}
				}
			}
			fail(c, "writes output in map order through %s", n)
		}
		return
	}
	// what the callee writes through arguments that outlive the iteration
	e := NewEffects(oc.p)
	s := e.Summarise(f)
	for _, k := range s.accOrder {
		a := s.acc[k]
		if !a.write {
			continue
		}
		root := a.loc.n.root()
		if root.kind != nParam || root.idx >= len(c.Call.Args) {
			continue
		}
		arg := c.Call.Args[root.idx]
		if in, ok := arg.(ssa.Instruction); ok && li.blocks[in.Block()] {
			continue
		}
		if a.what == "map update" && isConst(a.val) {
			continue
		}
		if strings.HasPrefix(a.what, "append") || a.what == "assignment" || strings.Contains(a.what, "Write") {
			fail(c, "%s writes %s in map order", fnName(f), a.loc)
			return
		}
	}
}

func firstArg(c *ssa.Call) ssa.Value {
	if len(c.Call.Args) == 0 {
		return nil
	}
	return c.Call.Args[0]
}
