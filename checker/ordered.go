package main

import (
	"cmp"
	"fmt"
	"iter"
	"slices"

	"golang.org/x/tools/go/ssa"
)

// ordered goes through a map in a fixed order, so that what is found does not depend on the order
// maps happen to have. Entries deleted on the way are left out.
func ordered[K comparable, V any](m map[K]V) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		if len(m) == 0 {
			return
		}
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		if len(keys) > 1 {
			sortKeys(keys)
		}
		for _, k := range keys {
			v, ok := m[k]
			if ok && !yield(k, v) {
				return
			}
		}
	}
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []*term:
		slices.SortFunc(ks, func(a, b *term) int { return cmp.Compare(a.id, b.id) })
	case []string:
		slices.Sort(ks)
	case []int:
		slices.Sort(ks)
	case []*ssa.BasicBlock:
		slices.SortFunc(ks, func(a, b *ssa.BasicBlock) int {
			if a.Parent() != b.Parent() {
				return cmp.Compare(a.Parent().String(), b.Parent().String())
			}
			return cmp.Compare(a.Index, b.Index)
		})
	default:
		names := map[K]string{}
		for _, k := range keys {
			names[k] = keyName(k)
		}
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(names[a], names[b]) })
	}
}

func keyName(k any) string {
	switch x := k.(type) {
	case ssa.Instruction:
		i := 0
		if b := x.Block(); b != nil {
			for j, in := range b.Instrs {
				if in == x {
					i = j
				}
			}
			return fmt.Sprintf("%s %05d %05d", x.Parent(), b.Index, i)
		}
	case *ssa.Parameter:
		return fmt.Sprintf("%s %s", x.Parent(), x.Name())
	case *ssa.FreeVar:
		return fmt.Sprintf("%s %s", x.Parent(), x.Name())
	case fmt.Stringer:
		return x.String()
	}
	return fmt.Sprint(k)
}
