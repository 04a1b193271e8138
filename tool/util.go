package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
)

func sortStrings(s []string) { sort.Strings(s) }

const eql = token.EQL

type tokenPos = token.Pos

// consts lists the constants declared with the type, by value.
func (w *World) consts(t *types.Named) []*types.Const {
	var out []*types.Const
	sc := t.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), t) {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, _ := constInt(out[i].Val())
		b, _ := constInt(out[j].Val())
		return a < b || a == b && out[i].Name() < out[j].Name()
	})
	return out
}

func constInt(v constant.Value) (int64, bool) {
	if v == nil || v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}
