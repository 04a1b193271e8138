package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Terms: a value of the program, rendered independently of local names,
// statement order, temporaries and helper functions.
// ---------------------------------------------------------------------------

type Env struct {
	up    *Env
	site  ssa.CallInstruction // call through which this frame was entered
	fn    *ssa.Function
	bind  map[ssa.Value]bound
	depth int
}

type bound struct {
	v   ssa.Value
	env *Env
}

func (e *Env) lookup(v ssa.Value) (bound, bool) {
	if e == nil {
		return bound{}, false
	}
	b, ok := e.bind[v]
	return b, ok
}

// resolve follows parameter and free variable bindings, interface wrapping and
// type changes back to the value that is really meant.
func (w *World) resolve(v ssa.Value, env *Env) (ssa.Value, *Env) {
	for i := 0; i < 64; i++ {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			if b, ok := env.lookup(v); ok {
				v, env = b.v, b.env
				continue
			}
			return v, env
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, aenv := w.resolveAddr(x.X, env); al != nil {
					if s := soleStore(al); s != nil {
						v, env = s.Val, aenv
						continue
					}
				}
			}
			return v, env
		default:
			return v, env
		}
	}
	return v, env
}

// concreteOf follows an interface value back to the concrete value it holds,
// keeping that value's own type.
func (w *World) concreteOf(v ssa.Value, env *Env) (ssa.Value, *Env) {
	for i := 0; i < 64; i++ {
		if !types.IsInterface(v.Type()) {
			return v, env
		}
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			b, ok := env.lookup(v)
			if !ok {
				return v, env
			}
			v, env = b.v, b.env
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v, env
			}
			al, aenv := w.resolveAddr(x.X, env)
			if al == nil {
				return v, env
			}
			s := soleStore(al)
			if s == nil {
				return v, env
			}
			v, env = s.Val, aenv
		default:
			return v, env
		}
	}
	return v, env
}

// resolveAddr finds the Alloc behind an address (through captured variables).
func (w *World) resolveAddr(v ssa.Value, env *Env) (*ssa.Alloc, *Env) {
	for i := 0; i < 16; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, env
		case *ssa.FreeVar, *ssa.Parameter:
			if b, ok := env.lookup(v); ok {
				v, env = b.v, b.env
				continue
			}
			// a closure that is analysed on its own: look at its creation
			if fv, ok := v.(*ssa.FreeVar); ok {
				if mc := w.parent[fv.Parent()]; mc != nil {
					for i, f := range fv.Parent().FreeVars {
						if f == fv && i < len(mc.Bindings) {
							v = mc.Bindings[i]
							env = nil
						}
					}
					if v != ssa.Value(fv) {
						continue
					}
				}
			}
			return nil, nil
		default:
			return nil, nil
		}
	}
	return nil, nil
}

// soleStore returns the only store into a local cell, if there is exactly one
// in the function that owns it and in the closures that capture it.
func soleStore(a *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	n := 0
	var scan func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	scan = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					n++
					st = x
				} else {
					n += 2
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && i < len(f.FreeVars) {
						scan(f.FreeVars[i])
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr, *ssa.IndexAddr:
			case ssa.CallInstruction:
				n += 2
			case *ssa.Phi, *ssa.MakeInterface:
				n += 2
			}
		}
	}
	scan(a)
	if n == 1 {
		return st
	}
	return nil
}

// Callee resolves the function a call runs, if only one is possible.
func (w *World) Callee(c *ssa.CallCommon, env *Env) (*ssa.Function, []bound, *ssa.MakeClosure, *Env) {
	if c.IsInvoke() {
		// an interface value whose concrete type is visible here
		v, venv := w.concreteOf(c.Value, env)
		if _, isI := v.Type().Underlying().(*types.Interface); !isI && w.Prog.MethodSets.MethodSet(v.Type()).Lookup(c.Method.Pkg(), c.Method.Name()) != nil {
			if f := w.Prog.LookupMethod(v.Type(), c.Method.Pkg(), c.Method.Name()); f != nil {
				args := []bound{{v, venv}}
				for _, a := range c.Args {
					args = append(args, bound{a, env})
				}
				return f, args, nil, nil
			}
		}
		return nil, nil, nil, nil
	}
	v, venv := w.resolve(c.Value, env)
	var args []bound
	for _, a := range c.Args {
		args = append(args, bound{a, env})
	}
	switch x := v.(type) {
	case *ssa.Function:
		return x, args, nil, nil
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function), args, x, venv
	}
	return nil, nil, nil, nil
}

// Enter builds the environment of a call.
func (w *World) Enter(site ssa.CallInstruction, env *Env) (*ssa.Function, *Env) {
	f, args, mc, mcenv := w.Callee(site.Common(), env)
	if f == nil {
		return nil, nil
	}
	if f.Origin() != nil && len(f.Blocks) == 0 {
		f = f.Origin()
	}
	ne := &Env{up: env, site: site, fn: f, bind: map[ssa.Value]bound{}, depth: 1}
	if env != nil {
		ne.depth = env.depth + 1
	}
	for i, p := range f.Params {
		if i < len(args) {
			ne.bind[p] = args[i]
		}
	}
	if mc != nil {
		for i, fv := range f.FreeVars {
			if i < len(mc.Bindings) {
				ne.bind[fv] = bound{mc.Bindings[i], mcenv}
			}
		}
	}
	return f, ne
}

func (w *World) InModule(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if d := w.SSA["driver"]; d != nil && f.Pkg == d {
		return true
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "models" {
		return true
	}
	return w.fnSet[f] || (len(f.Blocks) > 0 && f.Pkg == nil) // wrappers, bound methods
}

// pureInline reports whether a callee can be folded into the term: one block,
// no effects, one result.
func (w *World) pureInline(f *ssa.Function) *ssa.Return {
	if f == nil || len(f.Blocks) != 1 {
		return nil
	}
	var ret *ssa.Return
	for _, in := range f.Blocks[0].Instrs {
		switch x := in.(type) {
		case *ssa.Store:
			if _, ok := x.Addr.(*ssa.Alloc); !ok {
				return nil
			}
		case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.Send:
			return nil
		case *ssa.Return:
			ret = x
		}
	}
	return ret
}

func (w *World) Term(v ssa.Value, env *Env) string { return w.term(v, env, 0) }

func (w *World) term(v ssa.Value, env *Env, d int) string {
	if v == nil {
		return "_"
	}
	if d > 24 {
		return "…"
	}
	v, env = w.resolve(v, env)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return `""`
			}
			return "nil"
		}
		if x.Value.Kind() == constant.String {
			return fmt.Sprintf("%q", constant.StringVal(x.Value))
		}
		return x.Value.ExactString()
	case *ssa.Parameter:
		return "param:" + paramKey(x)
	case *ssa.FreeVar:
		return "free:" + x.Name()
	case *ssa.Global:
		return "&" + globalName(x)
	case *ssa.Function:
		return "func:" + FName(x)
	case *ssa.Builtin:
		return "builtin:" + x.Name()
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		if b := boundMethod(f); b != "" && len(x.Bindings) == 1 {
			return "bound:" + b + "(" + w.term(x.Bindings[0], env, d+1) + ")"
		}
		return "closure:" + FName(f)
	case *ssa.Alloc:
		if x.Comment == "complit" || x.Comment == "new" || x.Comment == "slicelit" || x.Comment == "varargs" {
			return "new:" + TypeStr(deref(x.Type())) + "@" + fmt.Sprint(int(x.Pos()))
		}
		return "local:" + x.Comment
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return loadOf(w.term(x.X, env, d+1))
		case token.NOT:
			return "!(" + w.term(x.X, env, d+1) + ")"
		default:
			return x.Op.String() + "(" + w.term(x.X, env, d+1) + ")"
		}
	case *ssa.FieldAddr:
		return "&" + loadOf(w.term(x.X, env, d+1)) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Field:
		return w.term(x.X, env, d+1) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		b := w.term(x.X, env, d+1)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			b = loadOf(b)
		}
		return "&" + b + "[" + w.term(x.Index, env, d+1) + "]"
	case *ssa.Index:
		return w.term(x.X, env, d+1) + "[" + w.term(x.Index, env, d+1) + "]"
	case *ssa.Lookup:
		s := w.term(x.X, env, d+1) + "[" + w.term(x.Index, env, d+1) + "]"
		return s
	case *ssa.Slice:
		return "slice(" + w.term(x.X, env, d+1) + "," + w.term(x.Low, env, d+1) + "," + w.term(x.High, env, d+1) + ")"
	case *ssa.Convert:
		return "conv[" + TypeStr(x.Type()) + "](" + w.term(x.X, env, d+1) + ")"
	case *ssa.MultiConvert:
		return "conv[" + TypeStr(x.Type()) + "](" + w.term(x.X, env, d+1) + ")"
	case *ssa.SliceToArrayPointer:
		return w.term(x.X, env, d+1)
	case *ssa.TypeAssert:
		return "assert[" + TypeStr(x.AssertedType) + "](" + w.term(x.X, env, d+1) + ")"
	case *ssa.Extract:
		t, te := w.resolve(x.Tuple, env)
		switch tt := t.(type) {
		case *ssa.TypeAssert:
			s := "[" + TypeStr(tt.AssertedType) + "](" + w.term(tt.X, te, d+1) + ")"
			if x.Index == 1 {
				return "is" + s
			}
			return "assert" + s
		case *ssa.Lookup:
			s := w.term(tt, te, d+1)
			if x.Index == 1 {
				return "has(" + s + ")"
			}
			return s
		case *ssa.Next:
			return w.term(tt, te, d+1) + fmt.Sprintf("#%d", x.Index)
		case *ssa.Call:
			if f, ne := w.Enter(tt, te); f != nil && w.InModule(f) && ne.depth < 12 {
				if r := w.pureInline(f); r != nil && x.Index < len(r.Results) {
					return w.term(r.Results[x.Index], ne, d+1)
				}
			}
		}
		return w.term(x.Tuple, env, d+1) + fmt.Sprintf("#%d", x.Index)
	case *ssa.Next:
		return "next(" + w.term(x.Iter, env, d+1) + ")"
	case *ssa.Range:
		return "range(" + w.term(x.X, env, d+1) + ")"
	case *ssa.BinOp:
		return normBin(x.Op, w.term(x.X, env, d+1), w.term(x.Y, env, d+1))
	case *ssa.Phi:
		// a value merged from identical terms is that term
		if d < 12 {
			var first string
			same := true
			for i, e := range x.Edges {
				if e == ssa.Value(x) {
					continue
				}
				if p, ok := e.(*ssa.Phi); ok && p.Block().Dominates(x.Block()) == false {
					same = false
					break
				}
				t := w.term(e, env, d+8)
				if i == 0 || first == "" {
					first = t
				} else if t != first {
					same = false
					break
				}
			}
			if same && first != "" {
				return first
			}
		}
		return "phi@" + FName(x.Parent()) + ":" + x.Name()
	case *ssa.Call:
		return w.callTerm(x, env, d)
	case *ssa.MakeMap:
		return "map@" + fmt.Sprint(int(x.Pos()))
	case *ssa.MakeSlice:
		return "make@" + fmt.Sprint(int(x.Pos()))
	case *ssa.MakeChan:
		return "chan@" + fmt.Sprint(int(x.Pos()))
	}
	return fmt.Sprintf("%T:%s", v, v.Name())
}

func (w *World) callTerm(x *ssa.Call, env *Env, d int) string {
	c := x.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() + "(" + w.termList(c.Args, env, d) + ")"
	}
	f, ne := w.Enter(x, env)
	if f != nil {
		if w.InModule(f) && ne.depth < 12 {
			if r := w.pureInline(f); r != nil && len(r.Results) == 1 {
				return w.term(r.Results[0], ne, d+1)
			}
		}
		var as []string
		for _, a := range f.Params {
			if b, ok := ne.bind[a]; ok {
				as = append(as, w.term(b.v, b.env, d+1))
			}
		}
		if len(f.Params) == 0 {
			for _, a := range c.Args {
				as = append(as, w.term(a, env, d+1))
			}
		}
		return CalleeName(f) + "(" + strings.Join(as, ",") + ")"
	}
	if c.IsInvoke() {
		return "invoke:" + recvName(c.Value.Type()) + "." + c.Method.Name() + "(" + strings.Join(append([]string{w.term(c.Value, env, d+1)}, w.terms(c.Args, env, d)...), ",") + ")"
	}
	return "dyn:" + w.term(c.Value, env, d+1) + "(" + w.termList(c.Args, env, d) + ")"
}

func (w *World) terms(vs []ssa.Value, env *Env, d int) []string {
	var o []string
	for _, v := range vs {
		o = append(o, w.term(v, env, d+1))
	}
	return o
}

func (w *World) termList(vs []ssa.Value, env *Env, d int) string {
	return strings.Join(w.terms(vs, env, d), ",")
}

// CalleeName names a resolved callee, looking through generic instances and wrappers.
func CalleeName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}
	return FName(f)
}

func boundMethod(f *ssa.Function) string {
	if f.Synthetic != "" && strings.HasSuffix(f.Name(), "$bound") {
		if o, ok := f.Object().(*types.Func); ok {
			sig := o.Type().(*types.Signature)
			if r := sig.Recv(); r != nil {
				return shortPkg(o.Pkg()) + ".(" + recvName(r.Type()) + ")." + o.Name()
			}
		}
	}
	return ""
}

func paramKey(p *ssa.Parameter) string {
	f := p.Parent()
	for i, q := range f.Params {
		if q == p {
			return fmt.Sprintf("%s#%d", FName(f), i)
		}
	}
	return p.Name()
}

func globalName(g *ssa.Global) string { return shortPkg(g.Pkg.Pkg) + "." + g.Name() }

func loadOf(addr string) string {
	if strings.HasPrefix(addr, "&") {
		return addr[1:]
	}
	return "*" + addr
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldName(t types.Type, i int) string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return fmt.Sprint(i)
	}
	return st.Field(i).Name()
}

func normBin(op token.Token, a, b string) string {
	switch op {
	case token.EQL, token.NEQ, token.ADD, token.AND, token.OR, token.XOR, token.MUL:
		if op != token.ADD && b < a {
			a, b = b, a
		}
	case token.GTR: // a > b  ==  b < a
		a, b, op = b, a, token.LSS
	case token.GEQ: // a >= b == !(a < b)
		return "!(" + normBin(token.LSS, a, b) + ")"
	case token.LEQ: // a <= b == !(b < a)
		return "!(" + normBin(token.LSS, b, a) + ")"
	}
	if op == token.NEQ {
		return "!(" + normBin(token.EQL, a, b) + ")"
	}
	return "(" + a + " " + op.String() + " " + b + ")"
}

// ---------------------------------------------------------------------------
// Facts: what must hold when an instruction runs.
// ---------------------------------------------------------------------------

type FactSet map[string]bool

func (f FactSet) List() []string {
	var o []string
	for k := range f {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func (f FactSet) clone() FactSet {
	n := FactSet{}
	for k := range f {
		n[k] = true
	}
	return n
}

func (f FactSet) add(g FactSet) FactSet {
	n := f.clone()
	for k := range g {
		n[k] = true
	}
	return n
}

func intersect(a, b FactSet) FactSet {
	n := FactSet{}
	for k := range a {
		if b[k] {
			n[k] = true
		}
	}
	return n
}

func neg(s string) string {
	if strings.HasPrefix(s, "!(") && matchedParen(s[1:]) {
		return s[2 : len(s)-1]
	}
	return "!(" + s + ")"
}

func matchedParen(s string) bool {
	if !strings.HasPrefix(s, "(") || !strings.HasSuffix(s, ")") {
		return false
	}
	d := 0
	inq := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			inq = !inq
		case '\\':
			if inq {
				i++
			}
		case '(':
			if !inq {
				d++
			}
		case ')':
			if !inq {
				d--
				if d == 0 && i < len(s)-1 {
					return false
				}
			}
		}
	}
	return d == 0
}

// CondFacts: facts implied by v being pol.
func (w *World) CondFacts(v ssa.Value, pol bool, env *Env, d int) FactSet {
	out := FactSet{}
	if d > 8 {
		return out
	}
	v, env = w.resolve(v, env)
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return w.CondFacts(x.X, !pol, env, d+1)
		}
	case *ssa.BinOp:
		// b == true, b != false
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && (x.Op == token.EQL || x.Op == token.NEQ) {
			p := constant.BoolVal(c.Value)
			if x.Op == token.NEQ {
				p = !p
			}
			if !pol {
				p = !p
			}
			return w.CondFacts(x.X, p, env, d+1)
		}
	case *ssa.Phi:
		var acc FactSet
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
				if constant.BoolVal(c.Value) != pol {
					continue // this edge contradicts
				}
			}
			pb := x.Block().Preds[i]
			fs := w.edgeFacts(pb, x.Block(), env, d+1)
			fs = fs.add(w.localFacts(pb, env, d+1))
			if _, isC := e.(*ssa.Const); !isC {
				fs = fs.add(w.CondFacts(e, pol, env, d+1))
			}
			if acc == nil {
				acc = fs
			} else {
				acc = intersect(acc, fs)
			}
		}
		if acc == nil {
			acc = FactSet{}
		}
		return acc
	case *ssa.Call:
		if f, ne := w.Enter(x, env); f != nil && w.InModule(f) && ne.depth < 8 && f.Signature.Results().Len() == 1 {
			if fs, ok := w.resultFacts(f, 0, pol, ne, d); ok {
				if w.pureInline(f) == nil {
					t := w.Term(v, env)
					if !pol {
						t = neg(t)
					}
					fs = fs.clone()
					fs[t] = true
				}
				return fs
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f, ne := w.Enter(c, env); f != nil && w.InModule(f) && ne.depth < 8 {
				if fs, ok := w.resultFacts(f, x.Index, pol, ne, d); ok {
					t := w.Term(v, env)
					if !pol {
						t = neg(t)
					}
					fs = fs.clone()
					fs[t] = true
					return fs
				}
			}
		}
	}
	t := w.Term(v, env)
	if !pol {
		t = neg(t)
	}
	out[t] = true
	return out
}

func (w *World) resultFacts(f *ssa.Function, idx int, pol bool, ne *Env, d int) (FactSet, bool) {
	var acc FactSet
	n := 0
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(r.Results) {
			continue
		}
		if b2, ok := r.Results[idx].Type().Underlying().(*types.Basic); !ok || b2.Kind() != types.Bool {
			return nil, false
		}
		if c, ok := r.Results[idx].(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != pol {
			continue
		}
		n++
		fs := w.localFacts(b, ne, d+1)
		if _, isC := r.Results[idx].(*ssa.Const); !isC {
			fs = fs.add(w.CondFacts(r.Results[idx], pol, ne, d+1))
		}
		if acc == nil {
			acc = fs
		} else {
			acc = intersect(acc, fs)
		}
	}
	if acc == nil {
		acc = FactSet{}
	}
	return acc, n > 0
}

func (w *World) edgeFacts(from, to *ssa.BasicBlock, env *Env, d int) FactSet {
	if len(from.Instrs) == 0 || d > 8 {
		return FactSet{}
	}
	if iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok {
		if from.Succs[0] == from.Succs[1] {
			return FactSet{}
		}
		return w.CondFacts(iff.Cond, from.Succs[0] == to, env, d+1)
	}
	return FactSet{}
}

type factKey struct {
	f   *ssa.Function
	env *Env
}

var factCache = map[factKey][]FactSet{}

// localFacts: facts that hold on entry to b, within its function.
func (w *World) localFacts(b *ssa.BasicBlock, env *Env, d int) FactSet {
	if d > 8 {
		return FactSet{}
	}
	f := b.Parent()
	k := factKey{f, env}
	if c, ok := factCache[k]; ok && c != nil {
		return c[b.Index]
	} else if ok {
		return FactSet{} // being computed
	}
	factCache[k] = nil
	n := len(f.Blocks)
	in := make([]FactSet, n)
	type ek struct{ a, b int }
	ef := map[ek]FactSet{}
	for _, x := range f.Blocks {
		for _, s := range x.Succs {
			ef[ek{x.Index, s.Index}] = w.edgeFacts(x, s, env, d+1)
		}
	}
	in[0] = FactSet{}
	for changed := true; changed; {
		changed = false
		for _, x := range f.DomPreorder() {
			if x.Index == 0 {
				continue
			}
			var acc FactSet
			for _, p := range x.Preds {
				if in[p.Index] == nil {
					continue
				}
				fs := in[p.Index].add(ef[ek{p.Index, x.Index}])
				if acc == nil {
					acc = fs
				} else {
					acc = intersect(acc, fs)
				}
			}
			if acc == nil {
				continue
			}
			if in[x.Index] == nil || len(acc) != len(in[x.Index]) {
				in[x.Index] = acc
				changed = true
			}
		}
	}
	for i := range in {
		if in[i] == nil {
			in[i] = FactSet{}
		}
	}
	factCache[k] = in
	return in[b.Index]
}

// ---------------------------------------------------------------------------
// Explore: every instruction that a root can run, with the facts that must
// hold when it runs, following resolvable calls into the module.
// ---------------------------------------------------------------------------

type Site struct {
	In    ssa.Instruction
	Env   *Env
	Facts FactSet
	W     *World
}

func (s Site) Term(v ssa.Value) string { return s.W.Term(v, s.Env) }

// Chain is the call path from the root.
func (s Site) Chain() string {
	var parts []string
	for e := s.Env; e != nil && e.site != nil; e = e.up {
		parts = append([]string{FName(e.fn)}, parts...)
	}
	if len(parts) == 0 {
		return FName(s.In.Parent())
	}
	return strings.Join(parts, " → ")
}

type ExploreOpts struct {
	Depth int
	Into  func(f *ssa.Function, s Site) bool
}

func (w *World) Explore(root *ssa.Function, o ExploreOpts, visit func(Site)) {
	w.exploreFrom(root, nil, o, visit)
}

func (w *World) explore(root *ssa.Function, env *Env, o ExploreOpts, visit func(Site)) {
	var rec func(f *ssa.Function, env *Env, facts FactSet, stack []*ssa.Function)
	rec = func(f *ssa.Function, env *Env, facts FactSet, stack []*ssa.Function) {
		for _, b := range f.Blocks {
			if b.Index != 0 && len(b.Preds) == 0 && b != f.Recover {
				continue
			}
			fs := facts.add(w.localFacts(b, env, 0))
			for _, in := range b.Instrs {
				s := Site{in, env, fs, w}
				visit(s)
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if len(stack) > o.Depth {
					continue
				}
				g, ne := w.Enter(call, env)
				if g == nil || !w.InModule(g) {
					continue
				}
				dup := false
				for _, x := range stack {
					if x == g {
						dup = true
					}
				}
				if dup || (o.Into != nil && !o.Into(g, s)) {
					continue
				}
				rec(g, ne, fs, append(stack[:len(stack):len(stack)], g))
			}
		}
	}
	rec(root, env, FactSet{}, []*ssa.Function{root})
}

// ---------------------------------------------------------------------------
// Lookup of program elements
// ---------------------------------------------------------------------------

// Func finds a function by its stable name, e.g. "cli.setCore",
// "cli.(Context).Execute".
func (w *World) Func(name string) *ssa.Function {
	for _, f := range w.Funcs {
		if f.Parent() == nil && FName(f) == name {
			return f
		}
	}
	return nil
}

func (w *World) Type(pkg, name string) *types.Named {
	p := w.ByPath[pkgPath(pkg)]
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func pkgPath(short string) string {
	switch short {
	case "cli", "":
		return modPath
	case "value", "internal/synopsis", "internal/support", "internal/joe", "internal/build", "cmd/joe", "cmd/min":
		return modPath + "/" + short
	}
	return modPath + "/extensions/" + short
}

// Callers lists static call sites of each module function.
func (w *World) Callers(f *ssa.Function) []ssa.CallInstruction {
	if w.callers == nil {
		w.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range w.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if h, _, _, _ := w.Callee(c.Common(), nil); h != nil {
							if h.Origin() != nil {
								h = h.Origin()
							}
							w.callers[h] = append(w.callers[h], c)
						}
					}
				}
			}
		}
	}
	return w.callers[f]
}

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

// errIndex is the index of the error result, or -1.
func errIndex(sig *types.Signature) int {
	r := sig.Results()
	for i := r.Len() - 1; i >= 0; i-- {
		if isError(r.At(i).Type()) {
			return i
		}
	}
	return -1
}

// implementations in the module of an interface method
func (w *World) Impls(m *types.Func) []*ssa.Function {
	it, ok := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := m.Pkg().Path() + "." + m.Name() + types.TypeString(m.Type(), nil) + types.TypeString(it, nil)
	if w.impls == nil {
		w.impls = map[string][]*ssa.Function{}
	}
	if r, ok := w.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, p := range w.Pkgs {
		if excludedPkg(p.PkgPath) {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.IsInterface(t) || !types.Implements(t, it) {
					continue
				}
				f := w.Prog.LookupMethod(t, m.Pkg(), m.Name())
				if f != nil && f.Synthetic != "" {
					if o, ok := f.Object().(*types.Func); ok {
						if g := w.Prog.FuncValue(o); g != nil {
							f = g
						}
					}
				}
				if f != nil && !seen[f] && len(f.Blocks) > 0 {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	w.impls[key] = out
	return out
}
