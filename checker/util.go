package main

import (
	"fmt"
	"go/types"
	"strings"
)

func fieldNameOf(t any, i int) string {
	tt, ok := t.(types.Type)
	if !ok {
		return "?"
	}
	if st, ok := deref(tt).Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return "?"
}

// tstr names a type with aliases resolved, so that one type has one name.
func tstr(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Pointer:
		return "*" + tstr(x.Elem())
	case *types.Slice:
		return "[]" + tstr(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), tstr(x.Elem()))
	case *types.Map:
		return "map[" + tstr(x.Key()) + "]" + tstr(x.Elem())
	case *types.Basic:
		if x.Kind() < types.UntypedBool && int(x.Kind()) < len(types.Typ) {
			return types.Typ[x.Kind()].Name()
		}
		return x.Name()
	default:
		return types.TypeString(x, nil)
	}
}

// brief drops the import paths from a rendering.
func brief(s string) string {
	s = strings.ReplaceAll(s, modPath+"/metadata.", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "")
	return s
}

type typesType = types.Type

// arrLen: the length of an array or of what points to one, or -1.
func arrLen(t types.Type) int64 {
	if a, ok := deref(t).Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}
