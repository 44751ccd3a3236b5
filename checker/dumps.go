package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	dumps["mapranges"] = func(p *Program, _ []string) {
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Range); ok {
						if _, ok := r.X.Type().Underlying().(*types.Map); ok {
							fmt.Println(fnName(fn), p.InstrPos(in))
						}
					}
				}
			}
		}
	}
	dumps["ssa"] = func(p *Program, a []string) {
		for _, fn := range p.Funcs {
			for _, n := range a {
				if fn.Name() == n {
					fn.WriteTo(stdout{})
				}
			}
		}
	}
	dumps["ext"] = func(p *Program, a []string) {
		seen := map[string]bool{}
		for _, fn := range p.Funcs {
			if len(a) > 0 && fnPkgPath(fn) != modPath+"/"+a[0] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if f := c.Common().StaticCallee(); f != nil && !inRepo(fnPkgPath(f)) {
							seen[extName(f)] = true
						}
					}
				}
			}
		}
		for _, k := range sortedKeys(seen) {
			fmt.Println(k)
		}
	}
}

type stdout struct{}

func (stdout) Write(b []byte) (int, error) { return fmt.Print(string(b)) }

func init() {
	dumps["sinks"] = func(p *Program, a []string) {
		v := newProv(p)
		for _, s := range v.sinks(p.LibFuncs()) {
			for _, l := range v.lift(s.fn, []*pnode{v.expr(s.site.Common().Args[s.arg])}, false) {
				fmt.Println(s.kind, fnName(s.fn), p.InstrPos(s.site), v.closed(l[0], 0))
			}
		}
	}
}
