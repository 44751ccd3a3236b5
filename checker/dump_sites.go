package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	dumps["sites"] = func(p *Program, args []string) {
		n := map[string]int{}
		for _, fn := range p.LibFuncs() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					k := ""
					switch x := in.(type) {
					case *ssa.IndexAddr:
						k = "indexaddr"
						if c, ok := x.Index.(*ssa.Const); ok {
							if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && c.Int64() < a.Len() {
								continue
							}
						}
					case *ssa.Index:
						k = "index"
					case *ssa.Lookup:
						if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
							k = "strindex"
						}
					case *ssa.Slice:
						if x.Low != nil || x.High != nil {
							k = "slice"
						}
					case *ssa.TypeAssert:
						if !x.CommaOk {
							k = "assert"
						}
					case *ssa.BinOp:
						if x.Op == token.QUO || x.Op == token.REM {
							if _, ok := x.Y.(*ssa.Const); !ok {
								k = "div"
							}
						}
					case *ssa.Panic:
						k = "panic"
					case *ssa.FieldAddr:
						k = "field"
						switch x.X.(type) {
						case *ssa.Alloc:
							continue
						}
					case *ssa.UnOp:
						if x.Op == token.MUL {
							switch x.X.(type) {
							case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar:
								continue
							}
							k = "deref"
						}
					case *ssa.MapUpdate:
						k = "mapupdate"
					}
					if k == "" {
						continue
					}
					n[k]++
					if len(args) > 0 && args[0] == k {
						fmt.Println(fnName(fn), p.InstrPos(in), in)
					}
				}
			}
		}
		fmt.Println(n)
	}
}
