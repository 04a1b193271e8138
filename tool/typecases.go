package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// typeCases lists the types a function tests one of its interface parameters
// for, wherever in the call tree of helpers the test is written.
type typeCase struct {
	T    types.Type
	Site Site
	In   *ssa.TypeAssert
}

func (w *World) typeCases(root *ssa.Function, param int) []typeCase {
	if root == nil || param >= len(root.Params) {
		return nil
	}
	var out []typeCase
	p := root.Params[param]
	w.Explore(root, ExploreOpts{Depth: 2}, func(s Site) {
		ta, ok := s.In.(*ssa.TypeAssert)
		if !ok || !ta.CommaOk {
			return
		}
		v, e := w.resolve(ta.X, s.Env)
		if v == ssa.Value(p) && (e == nil || e.fn == root) {
			out = append(out, typeCase{ta.AssertedType, s, ta})
		}
	})
	return out
}

func typeSet(cs []typeCase) map[string]types.Type {
	m := map[string]types.Type{}
	for _, c := range cs {
		m[TypeStr(c.T)] = c.T
	}
	return m
}

// isFacts extracts the T of every fact is[T](term).
func isFacts(fs FactSet, term string) []string {
	var o []string
	for f := range fs {
		if strings.HasPrefix(f, "is[") && strings.HasSuffix(f, "]("+term+")") {
			o = append(o, strings.TrimSuffix(strings.TrimPrefix(f, "is["), "]("+term+")"))
		}
	}
	sortStrings(o)
	return o
}

// roleFunc finds a function by name or, when it was renamed, by what it does:
// the function of package cli with that signature which tests its parameter
// for the most concrete pointer types.
func (w *World) roleFunc(name string, param int, sig string) *ssa.Function {
	if f := w.Func(name); f != nil {
		return f
	}
	pkg := strings.SplitN(name, ".", 2)[0]
	var best *ssa.Function
	n := 7
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Pkg == nil || shortPkg(f.Pkg.Pkg) != pkg {
			continue
		}
		if sigStr(f.Signature) != sig {
			continue
		}
		if k := len(typeSet(w.typeCases(f, param))); k > n {
			n, best = k, f
		}
	}
	return best
}

func sigStr(s *types.Signature) string {
	var a, r []string
	for i := 0; i < s.Params().Len(); i++ {
		a = append(a, TypeStr(s.Params().At(i).Type()))
	}
	for i := 0; i < s.Results().Len(); i++ {
		r = append(r, TypeStr(s.Results().At(i).Type()))
	}
	return "(" + strings.Join(a, ",") + ")(" + strings.Join(r, ",") + ")"
}
