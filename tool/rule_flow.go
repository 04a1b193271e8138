package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// node is a value, or the address of a cell that is filled in place.
type node struct {
	v    ssa.Value
	addr ssa.Value
	env  *Env
}

func (n node) zero() bool { return n.v == nil && n.addr == nil }

// cellAt finds what is stored at an address that is written once.
func cellAt(addr ssa.Value, env *Env) node {
	if addr.Referrers() != nil {
		var st *ssa.Store
		k := 0
		for _, r := range *addr.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == addr {
				st = s
				k++
			}
		}
		if k == 1 {
			return node{v: st.Val, env: env}
		}
		if k > 1 {
			return node{}
		}
	}
	return node{addr: addr, env: env}
}

// globalInit is the value a package variable is initialised with, if it is
// assigned once, by the package's initialisation.
func (w *World) globalInit(g *ssa.Global) (ssa.Value, bool) {
	if w.ginit == nil {
		w.ginit = map[*ssa.Global][]*ssa.Store{}
		for _, f := range w.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							w.ginit[g] = append(w.ginit[g], s)
						}
					}
				}
			}
		}
	}
	ss := w.ginit[g]
	if len(ss) != 1 || !strings.HasPrefix(rootFn(ss[0].Parent()).Name(), "init") {
		return nil, false
	}
	return ss[0].Val, true
}

// elem picks a field or element out of a composite value.
func (w *World) elem(n node, i int) node {
	if n.zero() {
		return node{}
	}
	if n.v != nil {
		v, env := w.resolve(n.v, n.env)
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op.String() != "*" {
			return node{}
		}
		switch x := u.X.(type) {
		case *ssa.Alloc:
			n = node{addr: x, env: env}
		case *ssa.Global:
			iv, ok := w.globalInit(x)
			if !ok {
				return node{}
			}
			return w.elem(node{v: iv}, i)
		default:
			return node{}
		}
	}
	if g, ok := n.addr.(*ssa.Global); ok {
		iv, ok := w.globalInit(g)
		if !ok {
			return node{}
		}
		return w.elem(node{v: iv}, i)
	}
	if n.addr.Referrers() == nil {
		return node{}
	}
	for _, r := range *n.addr.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if x.Field == i {
				return cellAt(x, n.env)
			}
		case *ssa.IndexAddr:
			if c, ok := x.Index.(*ssa.Const); ok {
				if k, _ := constant.Int64Val(c.Value); int(k) == i {
					return cellAt(x, n.env)
				}
			}
		}
	}
	return node{}
}

// sliceElems lists the elements of a slice literal or variadic argument.
func (w *World) sliceElems(v ssa.Value, env *Env) ([]node, bool) {
	v, env = w.resolve(v, env)
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok || s.Low != nil || s.High != nil {
		return nil, false
	}
	arr, ok := deref(al.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	var out []node
	for i := 0; i < int(arr.Len()); i++ {
		out = append(out, w.elem(node{addr: al, env: env}, i))
	}
	return out, true
}

// Step is a function that runs as part of a pipeline.
type Step struct {
	Fn    *ssa.Function
	Env   *Env
	Guard string
	Pos   string
}

// steps lists, in order, what runs when an action value is executed.
func (w *World) steps(n node, guard string, depth int) ([]Step, bool) {
	if n.zero() {
		return nil, true
	}
	if n.v == nil {
		return nil, false
	}
	if depth > 12 {
		return nil, false
	}
	v, env := w.resolve(n.v, n.env)
	switch x := v.(type) {
	case *ssa.Const:
		return nil, x.Value == nil
	case *ssa.Function:
		return []Step{{x, nil, guard, w.Pos(x.Pos())}}, true
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		ne := &Env{fn: f, bind: map[ssa.Value]bound{}, up: env}
		for i, fv := range f.FreeVars {
			if i < len(x.Bindings) {
				ne.bind[fv] = bound{x.Bindings[i], env}
			}
		}
		return []Step{{f, ne, guard, w.InstrPos(x)}}, true
	case *ssa.Slice:
		es, ok := w.sliceElems(v, env)
		if !ok {
			return nil, false
		}
		var out []Step
		for _, e := range es {
			s, ok := w.steps(e, guard, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			if iv, ok := w.globalInit(g); ok {
				return w.steps(node{v: iv}, guard, depth+1)
			}
		}
		return nil, false
	case *ssa.Call:
		f, ne := w.Enter(x, env)
		if f == nil || len(f.Blocks) == 0 {
			return nil, false
		}
		// a condition put around an action
		fi, ai := -1, -1
		for i, p := range f.Params {
			switch TypeStr(p.Type()) {
			case "cli.ContextFilter":
				fi = i
			case "cli.Action":
				ai = i
			}
		}
		if fi >= 0 && ai >= 0 {
			return w.steps(node{v: x.Call.Args[ai], env: env}, guard+"if "+w.Term(x.Call.Args[fi], env)+";", depth+1)
		}
		var ret ssa.Value
		k := 0
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				ret = r.Results[0]
				k++
			}
		}
		if k != 1 {
			return nil, false
		}
		// copies of the variadic parameter, as in Pipeline: fall back on the arguments
		s, ok := w.steps(node{v: ret, env: ne}, guard, depth+1)
		if ok {
			return s, true
		}
		if f.Signature.Variadic() && len(x.Call.Args) == 1 {
			return w.steps(node{v: x.Call.Args[0], env: env}, guard, depth+1)
		}
		return nil, false
	}
	return nil, false
}

// exploreFrom is Explore starting with an environment.
func (w *World) exploreFrom(root *ssa.Function, env *Env, o ExploreOpts, visit func(Site)) {
	if o.Depth == 0 {
		o.Depth = 4
	}
	if env == nil {
		env = &Env{fn: root, bind: map[ssa.Value]bound{}}
	}
	w.explore(root, env, o, visit)
}
