package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Functions of the standard library are known from export data only.  Those whose
// meaning is a few lines of Go are written out here and interpreted like any other.
const modelSrc = `package models

func slices_Contains[S ~[]E, E comparable](s S, v E) bool {
	for _, x := range s {
		if x == v {
			return true
		}
	}
	return false
}

func slices_ContainsFunc[S ~[]E, E any](s S, f func(E) bool) bool {
	for _, x := range s {
		if f(x) {
			return true
		}
	}
	return false
}

func slices_Index[S ~[]E, E comparable](s S, v E) int {
	for i, x := range s {
		if x == v {
			return i
		}
	}
	return -1
}

func slices_IndexFunc[S ~[]E, E any](s S, f func(E) bool) int {
	for i, x := range s {
		if f(x) {
			return i
		}
	}
	return -1
}

func slices_Delete[S ~[]E, E any](s S, i, j int) S {
	n := len(s)
	res := append(s[:i], s[j:]...)
	var zero E
	for k := len(res); k < n; k++ {
		s[k] = zero
	}
	return res
}

func slices_DeleteFunc[S ~[]E, E any](s S, del func(E) bool) S {
	res := s[:0]
	for _, x := range s {
		if !del(x) {
			res = append(res, x)
		}
	}
	var zero E
	for k := len(res); k < len(s); k++ {
		s[k] = zero
	}
	return res
}

func slices_Insert[S ~[]E, E any](s S, i int, v ...E) S {
	return append(append(append(S(nil), s[:i]...), v...), s[i:]...)
}

func slices_Clone[S ~[]E, E any](s S) S {
	if s == nil {
		return nil
	}
	return append(S(nil), s...)
}

func slices_Concat[S ~[]E, E any](ss ...S) S {
	var res S
	for _, s := range ss {
		res = append(res, s...)
	}
	return res
}

func maps_Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	for k, v := range src {
		dst[k] = v
	}
}

func cmp_Or[T comparable](vals ...T) T {
	var zero T
	for _, v := range vals {
		if v != zero {
			return v
		}
	}
	return zero
}

func cmp_Compare[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~string](x, y T) int {
	if x < y {
		return -1
	}
	if x == y {
		return 0
	}
	return 1
}

func cmp_Less[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~string](x, y T) bool {
	return x < y
}

func strings_Compare(x, y string) int {
	if x < y {
		return -1
	}
	if x == y {
		return 0
	}
	return 1
}

func slices_Reverse[S ~[]E, E any](s S) {
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

func slices_All[S ~[]E, E any](s S) func(func(int, E) bool) {
	return func(yield func(int, E) bool) {
		for i, v := range s {
			if !yield(i, v) {
				return
			}
		}
	}
}

func slices_Backward[S ~[]E, E any](s S) func(func(int, E) bool) {
	return func(yield func(int, E) bool) {
		for i := len(s) - 1; i >= 0; i-- {
			if !yield(i, s[i]) {
				return
			}
		}
	}
}

func slices_Values[S ~[]E, E any](s S) func(func(E) bool) {
	return func(yield func(E) bool) {
		for _, v := range s {
			if !yield(v) {
				return
			}
		}
	}
}

func slices_Collect[E any](seq func(func(E) bool)) []E {
	var res []E
	seq(func(v E) bool {
		res = append(res, v)
		return true
	})
	return res
}

func slices_Sorted[E ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~string](seq func(func(E) bool)) []E {
	var res []E
	seq(func(v E) bool {
		i := len(res)
		for i > 0 && v < res[i-1] {
			i--
		}
		res = append(append(append([]E(nil), res[:i]...), v), res[i:]...)
		return true
	})
	return res
}

func maps_Keys[M ~map[K]V, K comparable, V any](m M) func(func(K) bool) {
	return func(yield func(K) bool) {
		for k := range m {
			if !yield(k) {
				return
			}
		}
	}
}

func maps_Values[M ~map[K]V, K comparable, V any](m M) func(func(V) bool) {
	return func(yield func(V) bool) {
		for _, v := range m {
			if !yield(v) {
				return
			}
		}
	}
}

func maps_All[M ~map[K]V, K comparable, V any](m M) func(func(K, V) bool) {
	return func(yield func(K, V) bool) {
		for k, v := range m {
			if !yield(k, v) {
				return
			}
		}
	}
}

func strings_Join(elems []string, sep string) string {
	res := ""
	for i, e := range elems {
		if i > 0 {
			res += sep
		}
		res += e
	}
	return res
}
`

func (w *World) typeAndBuild(name, src string, im types.Importer) (*ssa.Package, error) {
	f, err := parser.ParseFile(w.Fset, name+".go", src, 0)
	if err != nil {
		return nil, err
	}
	pkg := types.NewPackage(name, name)
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
	if err := types.NewChecker(&types.Config{Importer: im}, w.Fset, pkg, info).Files([]*ast.File{f}); err != nil {
		return nil, err
	}
	sp := w.Prog.CreatePackage(pkg, []*ast.File{f}, info, false)
	sp.Build()
	return sp, nil
}

func (w *World) loadModels() error {
	sp, err := w.typeAndBuild("models", modelSrc, nil)
	if err != nil {
		return err
	}
	w.models = map[string]*ssa.Function{}
	for n, m := range sp.Members {
		if fn, ok := m.(*ssa.Function); ok && n != "init" {
			w.models[strings.Replace(n, "_", ".", 1)] = fn
		}
	}
	return nil
}

// fold evaluates a pure function of the standard library on known text and numbers.
func fold(n string, args []AV, st *aState) (AV, bool) {
	if r, ok := st.wordFold(n, args); ok {
		return r, true
	}
	if n == "cmp.Or" && len(args) == 1 {
		es, ok := st.Elems(args[0])
		for i, e := range es {
			e = st.norm(e)
			k, isK := e.(aConst)
			if !isK || k.v == nil {
				return nil, false
			}
			if i == len(es)-1 {
				return e, ok
			}
			switch k.v.Kind() {
			case constant.String:
				if constant.StringVal(k.v) != "" {
					return e, ok
				}
			case constant.Int, constant.Float:
				if constant.Sign(k.v) != 0 {
					return e, ok
				}
			case constant.Bool:
				if constant.BoolVal(k.v) {
					return e, ok
				}
			default:
				return nil, false
			}
		}
		return nil, false
	}
	if n == "fmt.Sprint" && len(args) == 1 || n == "fmt.Sprintf" && len(args) == 2 {
		format := ""
		es, ok := st.Elems(args[len(args)-1])
		if len(args) == 2 {
			k, isK := st.norm(args[0]).(aConst)
			if !isK || k.v == nil || k.v.Kind() != constant.String {
				return nil, false
			}
			format = constant.StringVal(k.v)
		}
		if ok && len(es) == 1 && (len(args) == 1 || format == "%v" || format == "%s") {
			if i, isI := st.norm(es[0]).(aIface); isI && i.t != nil && types.Identical(i.t, types.Typ[types.String]) {
				return st.norm(i.v), true
			}
		}
		var vs []any
		for _, e := range es {
			e = st.norm(e)
			if i, isI := e.(aIface); isI {
				e = st.norm(i.v)
			}
			k, isK := e.(aConst)
			if !isK || k.v == nil || k.t == nil || !types.Identical(k.t, types.Default(k.t)) {
				ok = false
				break
			}
			if _, named := k.t.(*types.Named); named {
				ok = false
				break
			}
			switch k.v.Kind() {
			case constant.String:
				vs = append(vs, constant.StringVal(k.v))
			case constant.Int:
				i, _ := constant.Int64Val(k.v)
				vs = append(vs, i)
			default:
				ok = false
			}
		}
		if ok && len(args) == 2 {
			return KStr(fmt.Sprintf(format, vs...)), true
		}
		if ok {
			return KStr(fmt.Sprint(vs...)), true
		}
		return nil, false
	}
	var ss []string
	var is []int64
	if (n == "path/filepath.Join" || n == "path.Join") && len(args) == 1 {
		es, ok := st.Elems(args[0])
		for _, e := range es {
			k, isK := st.norm(e).(aConst)
			if !isK || k.v == nil || k.v.Kind() != constant.String {
				ok = false
				break
			}
			ss = append(ss, constant.StringVal(k.v))
		}
		if !ok {
			return nil, false
		}
		return KStr(filepath.Join(ss...)), true
	}
	for _, a := range args {
		k, ok := st.norm(a).(aConst)
		if !ok || k.v == nil {
			return nil, false
		}
		switch k.v.Kind() {
		case constant.String:
			ss = append(ss, constant.StringVal(k.v))
		case constant.Int:
			i, _ := constant.Int64Val(k.v)
			is = append(is, i)
		default:
			return nil, false
		}
	}
	switch {
	case len(ss) == 1 && len(is) == 0:
		switch n {
		case "strings.ToLower":
			return KStr(strings.ToLower(ss[0])), true
		case "strings.ToUpper":
			return KStr(strings.ToUpper(ss[0])), true
		case "strings.Fields":
			return st.strSlice(strings.Fields(ss[0])), true
		case "unicode/utf8.RuneCountInString":
			return KInt(int64(utf8.RuneCountInString(ss[0])), types.Typ[types.Int]), true
		case "unicode/utf8.DecodeRuneInString":
			r, size := utf8.DecodeRuneInString(ss[0])
			return aTuple{KInt(int64(r), types.Typ[types.Rune]), KInt(int64(size), types.Typ[types.Int])}, true
		case "strings.TrimSpace":
			return KStr(strings.TrimSpace(ss[0])), true
		case "strconv.Quote":
			return KStr(strconv.Quote(ss[0])), true
		case "path/filepath.Clean", "path.Clean":
			return KStr(filepath.Clean(ss[0])), true
		case "path/filepath.Dir", "path.Dir":
			return KStr(filepath.Dir(ss[0])), true
		case "path/filepath.Base", "path.Base":
			return KStr(filepath.Base(ss[0])), true
		case "path/filepath.Ext", "path.Ext":
			return KStr(filepath.Ext(ss[0])), true
		case "path/filepath.IsAbs", "path.IsAbs":
			return KBool(filepath.IsAbs(ss[0])), true
		}
	case len(ss) == 2 && len(is) == 0:
		switch n {
		case "strings.HasPrefix":
			return KBool(strings.HasPrefix(ss[0], ss[1])), true
		case "strings.HasSuffix":
			return KBool(strings.HasSuffix(ss[0], ss[1])), true
		case "strings.Contains":
			return KBool(strings.Contains(ss[0], ss[1])), true
		case "strings.ContainsAny":
			return KBool(strings.ContainsAny(ss[0], ss[1])), true
		case "strings.EqualFold":
			return KBool(strings.EqualFold(ss[0], ss[1])), true
		case "strings.TrimPrefix":
			return KStr(strings.TrimPrefix(ss[0], ss[1])), true
		case "strings.TrimSuffix":
			return KStr(strings.TrimSuffix(ss[0], ss[1])), true
		case "strings.TrimLeft":
			return KStr(strings.TrimLeft(ss[0], ss[1])), true
		case "strings.TrimRight":
			return KStr(strings.TrimRight(ss[0], ss[1])), true
		case "strings.Trim":
			return KStr(strings.Trim(ss[0], ss[1])), true
		case "strings.Index":
			return KInt(int64(strings.Index(ss[0], ss[1])), types.Typ[types.Int]), true
		case "strings.LastIndex":
			return KInt(int64(strings.LastIndex(ss[0], ss[1])), types.Typ[types.Int]), true
		case "strings.IndexAny":
			return KInt(int64(strings.IndexAny(ss[0], ss[1])), types.Typ[types.Int]), true
		case "strings.Count":
			return KInt(int64(strings.Count(ss[0], ss[1])), types.Typ[types.Int]), true
		case "strings.Cut":
			a, b, ok := strings.Cut(ss[0], ss[1])
			return aTuple{KStr(a), KStr(b), KBool(ok)}, true
		case "strings.CutPrefix":
			a, ok := strings.CutPrefix(ss[0], ss[1])
			return aTuple{KStr(a), KBool(ok)}, true
		case "strings.CutSuffix":
			a, ok := strings.CutSuffix(ss[0], ss[1])
			return aTuple{KStr(a), KBool(ok)}, true
		case "strings.Split":
			return st.strSlice(strings.Split(ss[0], ss[1])), true
		}
	case len(ss) == 1 && len(is) == 1:
		switch n {
		case "strings.Repeat":
			if is[0] >= 0 && is[0] < 1000 {
				return KStr(strings.Repeat(ss[0], int(is[0]))), true
			}
		case "strings.IndexByte":
			return KInt(int64(strings.IndexByte(ss[0], byte(is[0]))), types.Typ[types.Int]), true
		case "strings.LastIndexByte":
			return KInt(int64(strings.LastIndexByte(ss[0], byte(is[0]))), types.Typ[types.Int]), true
		case "strings.ContainsRune":
			return KBool(strings.ContainsRune(ss[0], rune(is[0]))), true
		case "strings.IndexRune":
			return KInt(int64(strings.IndexRune(ss[0], rune(is[0]))), types.Typ[types.Int]), true
		}
	case len(ss) == 2 && len(is) == 1 && n == "strings.SplitN":
		return st.strSlice(strings.SplitN(ss[0], ss[1], int(is[0]))), true
	case len(ss) == 3 && len(is) == 0 && n == "strings.ReplaceAll":
		return KStr(strings.ReplaceAll(ss[0], ss[1], ss[2])), true
	case len(ss) == 3 && len(is) == 1 && n == "strings.Replace":
		return KStr(strings.Replace(ss[0], ss[1], ss[2], int(is[0]))), true
	case len(ss) == 0 && len(is) == 1 && n == "strconv.Itoa":
		return KStr(strconv.Itoa(int(is[0]))), true
	}
	return nil, false
}

// Slice makes a slice of known elements.
func (s *aState) Slice(t types.Type, es ...AV) aSlice {
	obj := s.fresh("new:given")
	r := &aRegion{cells: map[string]AV{}}
	s.mem[obj] = r
	for i, e := range es {
		r.cells["["+strconv.Itoa(i)+"]"] = e
	}
	return aSlice{obj: obj, n: len(es), t: t}
}

func (s *aState) strSlice(ss []string) AV {
	var es []AV
	for _, x := range ss {
		es = append(es, KStr(x))
	}
	return s.Slice(types.NewSlice(types.Typ[types.String]), es...)
}

// modelled has functions of the driver stand in for others.
func (w *World) modelled(m map[string]string) {
	for n, d := range m {
		if f := w.SSA["driver"].Func(d); f != nil {
			w.models[n] = f
		}
	}
}

// boundLookup finds the type that looks up values in a binding it has, and its method.
func (w *World) boundLookup() (*types.Named, *ssa.Function) {
	ct := w.Type("cli", "Context")
	if ct == nil {
		return nil, nil
	}
	cs, _ := ct.Underlying().(*types.Struct)
	var core *types.Interface
	for i := 0; cs != nil && i < cs.NumFields(); i++ {
		if it, ok := cs.Field(i).Type().Underlying().(*types.Interface); ok && cs.Field(i).Embedded() && it.NumMethods() == 1 {
			core = it
		}
	}
	if core == nil {
		return nil, nil
	}
	var rt *types.Named
	var rg *ssa.Function
	scope := ct.Obj().Pkg().Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok || t.TypeParams().Len() > 0 {
			continue
		}
		st, ok := t.Underlying().(*types.Struct)
		has := false
		for i := 0; ok && i < st.NumFields(); i++ {
			has = has || TypeStr(st.Field(i).Type()) == "cli.Binding"
		}
		if !has || !types.Implements(types.NewPointer(t), core) {
			continue
		}
		g := w.method(types.NewPointer(t), core.Method(0).Name())
		if g == nil || g.Synthetic != "" {
			continue
		}
		if rg != nil {
			return nil, nil
		}
		rt, rg = t, g
	}
	return rt, rg
}

// native: what a driver can ask for that has no exported name.
//
//	contextOf(target any, t cli.Timing, parent *cli.Context) *cli.Context   a context
//	liveContextOf                                                           one with whatever a context of a run has
//	asked(target any, mark string) bool                                     what a question about marks answers
func (ip *interp) native(s *aState, f *ssa.Function, args []AV) (AV, *ssa.Function, []AV, bool) {
	if f.Pkg == nil || f.Pkg != ip.w.SSA["driver"] {
		return nil, nil, nil, false
	}
	w := ip.w
	switch f.Name() {
	case "contextOf", "liveContextOf":
		b, ok := s.norm(args[0]).(aIface)
		if !ok {
			return nil, nil, nil, false
		}
		ct := w.Type("cli", "Context")
		obj := s.fresh("new:context")
		s.mem[obj] = &aRegion{cells: map[string]AV{}}
		w.putCtx(s, obj, b.v, b.t, args[1], args[2])
		if f.Name() == "liveContextOf" {
			it, _ := w.targetKinds()
			cs := ct.Underlying().(*types.Struct)
			for i := 0; i < cs.NumFields(); i++ {
				g := cs.Field(i)
				n, ok := g.Type().(*types.Named)
				if ok && types.IsInterface(n) && n.Obj().Pkg() == ct.Obj().Pkg() && g.Name() != w.targetField(it) {
					s.store(aPtr{obj: obj, path: "." + g.Name()}, aSym{name: s.fresh("live:" + g.Name()), t: n, nonNil: true})
				}
			}
		}
		return aPtr{obj: obj, t: ct}, nil, nil, true
	case "childOf":
		// a context made as those of the targets within another are
		ct := w.Type("cli", "Context")
		b, ok := s.norm(args[1]).(aIface)
		if !ok || ct == nil {
			return nil, nil, nil, false
		}
		g := w.Func("cli.(Context).newChild")
		if g == nil {
			return nil, nil, nil, false
		}
		return nil, g, []AV{args[0], aIface{v: b.v, t: b.t}}, true
	case "shellOf":
		k, ok := s.norm(args[0]).(aConst)
		if !ok || k.v == nil {
			return nil, nil, nil, false
		}
		if g := w.Func("cli." + constant.StringVal(k.v)); g != nil && g.Signature.Params().Len() == 0 {
			return nil, g, nil, true
		}
		return nil, nil, nil, false
	case "perform", "itemsOf":
		// a function of the context, by its name
		k, ok := s.norm(args[0]).(aConst)
		if !ok {
			return nil, nil, nil, false
		}
		g := w.Func("cli." + constant.StringVal(k.v))
		if g == nil || g.Signature.Params().Len() != 1 {
			return nil, nil, nil, false
		}
		a := args[1]
		if pt := g.Signature.Params().At(0).Type(); types.IsInterface(pt) {
			a = aIface{v: a, t: types.NewPointer(w.Type("cli", "Context"))}
		}
		return nil, g, []AV{a}, true
	case "boundLookup":
		// what looks up values among the flags and args of a binding
		t, g := w.boundLookup()
		if g == nil {
			return nil, nil, nil, false
		}
		obj := s.fresh("new:lookup")
		s.mem[obj] = &aRegion{cells: map[string]AV{}}
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if TypeStr(st.Field(i).Type()) == "cli.Binding" {
				s.store(aPtr{obj: obj, path: "." + st.Field(i).Name()}, args[0])
			}
		}
		return nil, g, []AV{aPtr{obj: obj, t: t}, args[1]}, true
	case "shown":
		// the text found along a path of named parts, each element of a list in turn
		k, ok := s.norm(args[1]).(aConst)
		if !ok || k.v == nil {
			return nil, nil, nil, false
		}
		var out []AV
		var walk func(v AV, t types.Type, path []string) bool
		walk = func(v AV, t types.Type, path []string) bool {
			v = s.norm(v)
			if i, ok := v.(aIface); ok {
				return walk(i.v, i.t, path)
			}
			switch u := t.Underlying().(type) {
			case *types.Slice:
				es, ok := s.Elems(v)
				for _, e := range es {
					ok = ok && walk(e, u.Elem(), path)
				}
				return ok
			case *types.Basic:
				out = append(out, v)
				return len(path) == 0
			}
			var p aPtr
			pt, isPtr := t.Underlying().(*types.Pointer)
			if isPtr {
				if p, ok = s.ptrOf(v); !ok {
					return isNilAV(v)
				}
				t = pt.Elem()
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok || len(path) == 0 {
				return false
			}
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); f.Name() == path[0] {
					if isPtr {
						return walk(s.load(aPtr{obj: p.obj, path: p.path + "." + f.Name(), t: f.Type()}, f.Type()), f.Type(), path[1:])
					}
					return walk(s.part(v, "."+f.Name(), f.Type()), f.Type(), path[1:])
				}
			}
			return false
		}
		if !walk(args[0], types.NewInterfaceType(nil, nil), strings.Split(constant.StringVal(k.v), ".")) {
			out = nil
			return aTuple{s.Slice(types.NewSlice(types.Typ[types.String])), KBool(false)}, nil, nil, true
		}
		return aTuple{s.Slice(types.NewSlice(types.Typ[types.String]), out...), KBool(true)}, nil, nil, true
	case "asked":
		b, ok := s.norm(args[0]).(aIface)
		p, ok2 := s.ptrOf(b.v)
		k, ok3 := s.norm(args[1]).(aConst)
		if !ok || !ok2 || !ok3 {
			return nil, nil, nil, false
		}
		g := w.Func("cli.(internalFlags)." + constant.StringVal(k.v))
		if g == nil {
			return nil, nil, nil, false
		}
		mt := g.Signature.Recv().Type()
		var find func(t types.Type, path string, d int) string
		find = func(t types.Type, path string, d int) string {
			st, ok := t.Underlying().(*types.Struct)
			for i := 0; ok && d < 4 && i < st.NumFields(); i++ {
				v := st.Field(i)
				if types.Identical(v.Type(), mt) {
					return path + "." + v.Name()
				}
				if v.Embedded() {
					if r := find(v.Type(), path+"."+v.Name(), d+1); r != "" {
						return r
					}
				}
			}
			return ""
		}
		if path := find(deref(b.t), p.path, 0); path != "" {
			return nil, g, []AV{s.load(aPtr{obj: p.obj, path: path, t: mt}, mt)}, true
		}
	}
	return nil, nil, nil, false
}
