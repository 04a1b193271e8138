package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// origins walks back from a value to what it may have been made of: through
// variables, fields (every assignment to the same field in the module),
// parameters (every caller), and results (every callee). visit is given each
// value on the way and returns true to go no further on that branch; a value
// that cannot be followed is given with last true.
func (w *World) origins(v ssa.Value, visit func(v ssa.Value, last bool) bool) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, idx int)
	type ext struct {
		v ssa.Value
		i int
	}
	seenX := map[ext]bool{}
	var fn func(f *ssa.Function, idx int)
	fn = func(f *ssa.Function, idx int) {
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				walk(r.Results[idx], 0)
			}
		}
	}
	walk = func(v ssa.Value, idx int) {
		if v == nil {
			return
		}
		if idx == 0 {
			if seen[v] {
				return
			}
			seen[v] = true
		} else {
			if seenX[ext{v, idx}] {
				return
			}
			seenX[ext{v, idx}] = true
		}
		if visit(v, false) {
			return
		}
		n := 0
		go1 := func(v ssa.Value, i int) { n++; walk(v, i) }
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				go1(e, 0)
			}
		case *ssa.ChangeType:
			go1(x.X, 0)
		case *ssa.ChangeInterface:
			go1(x.X, 0)
		case *ssa.MakeInterface:
			go1(x.X, 0)
		case *ssa.TypeAssert:
			if !x.CommaOk || idx == 0 {
				go1(x.X, 0)
			}
		case *ssa.Extract:
			go1(x.Tuple, x.Index)
		case *ssa.Slice:
			go1(x.X, 0)
		case *ssa.FreeVar:
			if mc := w.parent[x.Parent()]; mc != nil {
				for i, fv := range x.Parent().FreeVars {
					if fv == x {
						go1(mc.Bindings[i], 0)
					}
				}
			}
		case *ssa.Parameter:
			f := x.Parent()
			for i, p := range f.Params {
				if p != x {
					continue
				}
				for _, cs := range w.Callers(f) {
					c := cs.Common()
					if c.IsInvoke() {
						if i == 0 {
							go1(c.Value, 0)
						} else if i-1 < len(c.Args) {
							go1(c.Args[i-1], 0)
						}
					} else if i < len(c.Args) {
						go1(c.Args[i], 0)
					}
				}
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				break
			}
			switch a := x.X.(type) {
			case *ssa.Global:
				for _, s := range w.storesTo(a) {
					go1(s.Val, 0)
				}
			case *ssa.Alloc, *ssa.FreeVar:
				for _, s := range w.storesTo(a) {
					go1(s.Val, 0)
				}
			case *ssa.FieldAddr:
				for _, s := range w.fieldStores(a.X.Type(), a.Field) {
					go1(s.Val, 0)
				}
			}
		case *ssa.Field:
			for _, s := range w.fieldStores(x.X.Type(), x.Field) {
				go1(s.Val, 0)
			}
		case *ssa.Call:
			c := x.Common()
			if c.IsInvoke() {
				for _, f := range w.Impls(c.Method) {
					n++
					fn(f, idx)
				}
			} else if f := c.StaticCallee(); f != nil {
				if len(f.Blocks) > 0 && w.InModule(f) {
					n++
					fn(f, idx)
				}
			} else {
				w.origins(c.Value, func(v ssa.Value, last bool) bool {
					switch g := v.(type) {
					case *ssa.Function:
						n++
						fn(g, idx)
						return true
					case *ssa.MakeClosure:
						n++
						fn(g.Fn.(*ssa.Function), idx)
						return true
					}
					return false
				})
			}
		}
		if n == 0 {
			visit(v, true)
		}
	}
	walk(v, 0)
}

// storesTo lists the assignments of a variable (of the package, or of a function and its closures).
func (w *World) storesTo(a ssa.Value) []*ssa.Store {
	w.indexStores()
	if fv, ok := a.(*ssa.FreeVar); ok {
		for {
			mc := w.parent[fv.Parent()]
			if mc == nil {
				return nil
			}
			var b ssa.Value
			for i, x := range fv.Parent().FreeVars {
				if x == fv {
					b = mc.Bindings[i]
				}
			}
			n, ok := b.(*ssa.FreeVar)
			if !ok {
				a = b
				break
			}
			fv = n
		}
	}
	out := w.varStores[a]
	// closures assign their captured variables
	if al, ok := a.(*ssa.Alloc); ok && al.Referrers() != nil {
		for _, r := range *al.Referrers() {
			mc, ok := r.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for i, b := range mc.Bindings {
				if b == a {
					out = append(out[:len(out):len(out)], w.captured(mc.Fn.(*ssa.Function).FreeVars[i])...)
				}
			}
		}
	}
	return out
}

func (w *World) captured(fv *ssa.FreeVar) []*ssa.Store {
	out := w.varStores[fv]
	if fv.Referrers() == nil {
		return out
	}
	for _, r := range *fv.Referrers() {
		if mc, ok := r.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				if b == fv {
					out = append(out[:len(out):len(out)], w.captured(mc.Fn.(*ssa.Function).FreeVars[i])...)
				}
			}
		}
	}
	return out
}

type fieldID struct {
	t string
	i int
}

func fieldKey(t types.Type, i int) fieldID {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		t = n.Origin()
	}
	return fieldID{types.TypeString(t, nil), i}
}

func (w *World) fieldStores(t types.Type, i int) []*ssa.Store {
	w.indexStores()
	return w.fldStores[fieldKey(t, i)]
}

func (w *World) indexStores() {
	if w.varStores != nil {
		return
	}
	w.varStores = map[ssa.Value][]*ssa.Store{}
	w.fldStores = map[fieldID][]*ssa.Store{}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := s.Addr.(type) {
				case *ssa.Global, *ssa.Alloc, *ssa.FreeVar:
					w.varStores[a] = append(w.varStores[a], s)
				case *ssa.FieldAddr:
					k := fieldKey(a.X.Type(), a.Field)
					w.fldStores[k] = append(w.fldStores[k], s)
				}
			}
		}
	}
}

// constStrings are the constant texts that a value may be; ok is false when it may be something else.
func (w *World) constStrings(v ssa.Value) (out []string, ok bool) {
	ok = true
	seen := map[string]bool{}
	w.origins(v, func(v ssa.Value, last bool) bool {
		if c, is := v.(*ssa.Const); is {
			if s, is := constText(c); is {
				if !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
			return true
		}
		if last {
			ok = false
		}
		return false
	})
	return out, ok
}

func constText(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}
