package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C26",
		Explanation: "For each kind of target, each attribute that can be set is set to an unknown and every attribute is then read back: the one set gives the unknown, all others give what they gave before. This is done through the target's own methods and through the context. Methods named after a field write that field and no other. Setters of a value pass the text on to the value's own method of the same name. Each action named after a context operation performs that operation once with its own arguments in order. Everything that an app and its root command both have is handed over.",
		Rules: []RuleDoc{
			{"pair", "what is set is what is read, and nothing else changes", 15},
			{"context", "the same through the context", 20},
			{"field", "a method named after a field writes that field only", 15},
			{"forward", "a setter of a value is passed on to the value under its own name", 6},
			{"action", "an action named after an operation performs it with its own arguments", 25},
			{"app", "what the app defines is defined for its root command", 12},
			{"data", "metadata set under a name is found under that name", 3},
		},
		Run: func(c *Ctx) {
			rulePairs(c)
			ruleContextAttrs(c)
			ruleFieldSetters(c)
			ruleForward(c)
			ruleNamedActions(c)
			ruleAppFields(c)
			ruleDataRoundTrip(c)
		}})
}

// targetKinds lists the named struct types that can be the target of a context.
func (w *World) targetKinds() (*types.Interface, []types.Type) {
	ct := w.Type("cli", "Context")
	flag := w.Type("cli", "Flag")
	if ct == nil || flag == nil {
		return nil, nil
	}
	st, _ := ct.Underlying().(*types.Struct)
	var it *types.Interface
	for i := 0; st != nil && i < st.NumFields(); i++ {
		x, ok := st.Field(i).Type().Underlying().(*types.Interface)
		if !ok || x.NumMethods() < 10 {
			continue
		}
		if types.Implements(types.NewPointer(flag), x) {
			it = x
		}
	}
	if it == nil {
		return nil, nil
	}
	var out []types.Type
	for _, p := range w.Prog.AllPackages() {
		if !strings.HasSuffix(p.Pkg.Path(), "joe-cli") {
			continue
		}
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if _, ok := t.Type().Underlying().(*types.Struct); !ok {
				continue
			}
			if pt := types.NewPointer(t.Type()); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return TypeStr(out[i]) < TypeStr(out[j]) })
	return it, out
}

// targetField is the name of the context's field that holds its target.
func (w *World) targetField(it *types.Interface) string {
	st := w.Type("cli", "Context").Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().Underlying() == it {
			return st.Field(i).Name()
		}
	}
	return ""
}

type attrPair struct{ name, set, get string }

// attrPairs finds the methods set<X>(T) and <x>() T.
func attrPairs(ms *types.MethodSet) []attrPair {
	byLow := map[string]*types.Func{}
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		byLow[strings.ToLower(f.Name())] = f
	}
	var out []attrPair
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		low := strings.ToLower(f.Name())
		if !strings.HasPrefix(low, "set") {
			continue
		}
		s := f.Type().(*types.Signature)
		g := byLow[low[3:]]
		if g == nil || s.Params().Len() != 1 {
			continue
		}
		gs := g.Type().(*types.Signature)
		if gs.Params().Len() == 0 && gs.Results().Len() == 1 && types.Identical(gs.Results().At(0).Type(), s.Params().At(0).Type()) {
			out = append(out, attrPair{g.Name(), f.Name(), g.Name()})
		}
	}
	return out
}

func withMem(mem map[string]*aRegion) func(*aState) {
	return func(st *aState) {
		for k, r := range mem {
			n := &aRegion{cells: map[string]AV{}, root: r.root, order: append([]string(nil), r.order...)}
			for p, v := range r.cells {
				n.cells[p] = v
			}
			st.mem[k] = n
		}
	}
}

func rets(ps []APath) string {
	m := map[string]bool{}
	for _, p := range ps {
		if p.Panicked {
			m["panic"] = true
			continue
		}
		for _, r := range p.Ret {
			m[p.St.norm(r).str()] = true
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " | ")
}

// setThenGet decides the pairs for one receiver.
func (c *Ctx) setThenGet(rule, who string, t types.Type, recv AV, setup func(*aState), pairs []attrPair, all []attrPair) {
	w := c.W
	run := func(name string, args []AV, setup func(*aState)) ([]APath, bool) {
		f := w.method(t, name)
		if f == nil {
			return nil, false
		}
		return w.Interp(f, args, AOpts{Setup: setup})
	}
	before := map[string]string{}
	for _, a := range all {
		ps, ok := run(a.get, []AV{recv}, setup)
		if ok {
			before[a.name] = rets(ps)
		}
	}
	for _, a := range pairs {
		f := w.method(t, a.set)
		g := w.method(t, a.get)
		if f == nil || g == nil {
			continue
		}
		key, where := who+" "+a.name, w.Pos(f.Pos())
		vt := f.Signature.Params().At(0).Type()
		v := aSym{name: "given", t: vt, nonNil: true}
		ps, ok := run(a.set, []AV{recv, v}, setup)
		bad := ""
		if !ok || len(ps) == 0 {
			bad = "setting it could not be interpreted"
		}
		for _, p := range ps {
			if p.Panicked {
				bad = "setting it panics"
				continue
			}
			for _, b := range all {
				qs, ok := run(b.get, []AV{recv}, withMem(p.St.mem))
				if !ok {
					continue
				}
				r := rets(qs)
				switch {
				case b.name == a.name && r != "given":
					bad = "after it is set, reading it gives " + r
				case b.name != a.name && r != before[b.name]:
					bad = "setting it changes " + b.name + " to " + r
				}
			}
		}
		c.That(bad == "", rule, key, where, "%s", bad)
	}
}

func rulePairs(c *Ctx) {
	w := c.W
	_, kinds := w.targetKinds()
	if len(kinds) == 0 {
		c.Missing("pair", "the kinds of targets")
		return
	}
	for _, t := range kinds {
		st := deref(t).Underlying().(*types.Struct)
		var pairs []attrPair
		all := attrPairs(w.Prog.MethodSets.MethodSet(t))
		for _, p := range all {
			// attributes the target has itself
			for i := 0; i < st.NumFields(); i++ {
				if strings.EqualFold(st.Field(i).Name(), p.name) {
					pairs = append(pairs, p)
				}
			}
		}
		c.setThenGet("pair", TypeStr(t), t, aSym{name: "target", t: t, nonNil: true}, nil, pairs, pairs)
	}
}

// onTarget makes the context's target an unknown of that type.
func (w *World) onTarget(it *types.Interface, t types.Type) func(*aState) {
	fld := w.targetField(it)
	return func(st *aState) {
		st.store(aPtr{obj: "*ctx", path: "." + fld}, aIface{v: aSym{name: "target", t: t, nonNil: true}, t: t})
		cs := w.Type("cli", "Context").Underlying().(*types.Struct)
		for i := 0; i < cs.NumFields(); i++ {
			if TypeStr(cs.Field(i).Type()) == "cli.Timing" {
				st.store(aPtr{obj: "*ctx", path: "." + cs.Field(i).Name()}, w.timingK("InitialTiming"))
			}
		}
	}
}

func ruleContextAttrs(c *Ctx) {
	w := c.W
	it, kinds := w.targetKinds()
	if it == nil {
		return
	}
	ct := types.NewPointer(w.Type("cli", "Context"))
	recv := aSym{name: "ctx", t: ct, nonNil: true}
	all := attrPairs(w.Prog.MethodSets.MethodSet(ct))
	for _, t := range kinds {
		st := deref(t).Underlying().(*types.Struct)
		var pairs []attrPair
		for _, p := range all {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == p.name && p.name != "Name" {
					pairs = append(pairs, p)
				}
			}
		}
		if len(pairs) == 0 {
			continue
		}
		c.setThenGet("context", "context of "+TypeStr(t), ct, recv, w.onTarget(it, t), pairs, pairs)
		// getters without a setter, and setters without a getter, by field
		fs := w.Prog.MethodSets.MethodSet(ct)
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			if !fl.Exported() {
				continue
			}
			if m := fs.Lookup(w.Type("cli", "Context").Obj().Pkg(), fl.Name()); m != nil {
				g := w.method(ct, fl.Name())
				sig := m.Type().(*types.Signature)
				if g != nil && sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), fl.Type()) && fl.Name() != "Name" {
					ps, ok := w.Interp(g, []AV{recv}, AOpts{Setup: w.onTarget(it, t)})
					r := rets(ps)
					if _, sl := fl.Type().Underlying().(*types.Slice); sl {
						continue
					}
					good := r == "*target."+fl.Name()
					if _, isI := fl.Type().Underlying().(*types.Interface); isI && fl.Type().Underlying().(*types.Interface).NumMethods() > 0 {
						good = strings.Contains(r, "*target."+fl.Name()) // or a default
					}
					c.That(ok && good, "context", "context of "+TypeStr(t)+" reads "+fl.Name(), w.Pos(g.Pos()), "for a %s it gives %s", TypeStr(t), r)
				}
			}
			if g := w.method(ct, "Set"+fl.Name()); g != nil && g.Signature.Params().Len() == 1 && fl.Name() != "Value" {
				v := aSym{name: "given", t: g.Signature.Params().At(0).Type(), nonNil: true}
				ps, ok := w.Interp(g, []AV{recv, v}, AOpts{Setup: w.onTarget(it, t)})
				bad := ""
				for _, p := range ps {
					if p.Panicked {
						bad = "it panics"
						continue
					}
					for _, q := range p.stored("*target") {
						if q.path != "."+fl.Name() {
							bad = "it writes " + strings.TrimPrefix(q.path, ".")
						} else if !isSym("given")(p.St.norm(q.val)) {
							bad = "it stores " + q.val.str()
						}
					}
					if len(p.stored("*target")) == 0 && types.Identical(fl.Type(), v.t) {
						bad = "it does not set it"
					}
				}
				c.That(ok && bad == "", "context", "context of "+TypeStr(t)+" sets "+fl.Name(), w.Pos(g.Pos()), "for a %s %s", TypeStr(t), bad)
			}
		}
	}
}

type aWrite struct {
	path string
	val  AV
}

// stored lists what the path wrote into the object.
func (p *APath) stored(obj string) []aWrite {
	var out []aWrite
	for _, e := range p.Events {
		if e.Store != nil && e.Store.obj == obj {
			out = append(out, aWrite{e.Store.path, e.Val})
		}
	}
	return out
}

// ruleFieldSetters: methods Set<X>(v) of types that have a field X of that type.
func ruleFieldSetters(c *Ctx) {
	w := c.W
	for _, f := range w.Funcs {
		r := f.Signature.Recv()
		if r == nil || f.Synthetic != "" || f.Signature.Params().Len() != 1 || f.Pkg == nil || strings.Contains(f.Pkg.Pkg.Path(), "fakes") {
			continue
		}
		low := strings.ToLower(f.Name())
		if !strings.HasPrefix(low, "set") {
			continue
		}
		pt, ok := r.Type().(*types.Pointer)
		if !ok {
			continue
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		fld := ""
		for i := 0; i < st.NumFields(); i++ {
			if strings.EqualFold(st.Field(i).Name(), low[3:]) && types.AssignableTo(f.Signature.Params().At(0).Type(), st.Field(i).Type()) && st.Field(i).Exported() {
				fld = st.Field(i).Name()
			}
		}
		if fld == "" {
			continue
		}
		recv := aSym{name: "target", t: r.Type(), nonNil: true}
		v := aSym{name: "given", t: f.Signature.Params().At(0).Type(), nonNil: true}
		ps, ok := w.Interp(f, []AV{recv, v}, AOpts{})
		bad := ""
		for _, p := range ps {
			if p.Panicked {
				bad = "it panics"
				continue
			}
			n := 0
			for _, q := range p.stored("*target") {
				if q.path != "."+fld {
					bad = "it writes " + strings.TrimPrefix(q.path, ".")
				} else if !p.St.derives(q.val, isSym("given")) {
					bad = "it stores " + q.val.str()
				} else {
					n++
				}
			}
			if n == 0 && bad == "" {
				bad = "it does not set " + fld
			}
		}
		c.That(ok && bad == "", "field", FName(f), w.Pos(f.Pos()), "%s", bad)
	}
}

// ruleForward: setters of a type that stands for a value of unknown type.
func ruleForward(c *Ctx) {
	w := c.W
	_, kinds := w.targetKinds()
	for _, t := range kinds {
		st := deref(t).Underlying().(*types.Struct)
		own := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "HelpText" {
				own = true
			}
		}
		if own {
			continue
		}
		ms := w.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			f := w.Prog.MethodValue(ms.At(i))
			if f == nil || f.Synthetic != "" || f.Signature.Params().Len() == 0 || !strings.HasPrefix(strings.ToLower(f.Name()), "set") {
				continue
			}
			ps, ok := w.Interp(f, nil, AOpts{})
			hit, bad := 0, ""
			for _, p := range ps {
				here := hit
				for _, e := range p.Events {
					if e.Store != nil || !strings.HasPrefix(e.Method, "invoke:") {
						continue
					}
					n := e.Method[strings.LastIndex(e.Method, ".")+1:]
					if !strings.EqualFold(n, f.Name()) {
						if strings.HasPrefix(n, "Set") {
							bad = "it calls " + n + " on the value"
						}
						continue
					}
					hit++
					for i := range e.Args {
						k := i + 1
						if k < len(f.Params) && !p.St.derives(e.Args[i], isSym(paramSym(f, k))) {
							bad = "it passes on " + e.Args[i].str()
						}
					}
				}
				for k, yes := range p.St.tfact {
					if yes && hit == here && !p.Panicked && strings.HasPrefix(strings.ToLower(k), "is[interface{"+strings.ToLower(f.Name())+"(") {
						bad = "the value has the method but is not always told"
					}
				}
			}
			if hit == 0 && bad == "" {
				if w.writesReceiver(ps) {
					continue // kept here
				}
				bad = "the value is never told"
			}
			c.That(ok && bad == "", "forward", FName(f), w.Pos(f.Pos()), "%s", bad)
		}
	}
}

func (w *World) writesReceiver(ps []APath) bool {
	for _, p := range ps {
		for _, e := range p.Events {
			if e.Store != nil && strings.HasPrefix(e.Store.obj, "*param:") {
				return true
			}
		}
	}
	return false
}

// ruleNamedActions: func X(args) Action performs Context.X or Context.SetX with args.
func ruleNamedActions(c *Ctx) {
	w := c.W
	ctt := w.Type("cli", "Context")
	act := w.Type("cli", "Action")
	if ctt == nil || act == nil {
		c.Missing("action", "the context")
		return
	}
	ct := types.NewPointer(ctt)
	alias := map[string]string{"Named": "SetName", "Alias": "AddAlias", "Data": "SetData", "ContextValue": "SetContextValue", "Transform": "SetTransform"}
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Pkg == nil || f.Signature.Recv() != nil || shortPkg(f.Pkg.Pkg) != "cli" || !ast.IsExported(f.Name()) {
			continue
		}
		if f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), act) {
			continue
		}
		var op *ssa.Function
		for _, n := range []string{"Set" + f.Name(), f.Name(), alias[f.Name()]} {
			if g := w.method(ct, n); g != nil && g.Synthetic == "" && sameParams(g.Signature, f.Signature) {
				op = g
				break
			}
		}
		if op == nil || f.Name() == "At" || f.Name() == "Before" || f.Name() == "After" {
			continue // C06 decides these
		}
		key, where := f.Name()+" performs "+op.Name(), w.Pos(f.Pos())
		n, bad := 0, ""
		for _, r := range w.runAction(f, nil, nil, op) {
			if r.why != "" {
				bad = r.why
				continue
			}
			p := r.p
			k := 0
			for _, e := range p.Events {
				if e.Fn != op {
					continue
				}
				k++
				if !isSym("ctx")(p.St.norm(e.Args[0])) {
					bad = "it acts on another context: " + p.St.norm(e.Args[0]).str()
				}
				for i := 1; i < len(e.Args); i++ {
					if g := p.St.norm(e.Args[i]); !isSym(paramSym(f, i-1))(g) && !sliceOf(p.St, g, paramSym(f, i-1)) {
						bad = fmt.Sprintf("argument %d is %s", i, g.str())
					}
				}
				if e.Fn.Signature.Results().Len() > 0 && !p.Panicked && op.Signature.Results().Len() == 1 && !p.St.derives(p.Ret[0], func(v AV) bool { return v.str() == e.Res.str() }) && !isNilAV(p.St.norm(e.Res)) {
					bad = "its result is not what the operation returned"
				}
			}
			if k > 1 {
				bad = "it performs the operation more than once"
			}
			n += k
		}
		if n == 0 && bad == "" {
			bad = "it does not perform the operation"
		}
		c.That(bad == "", "action", key, where, "%s", bad)
	}
}

func sliceOf(st *aState, v AV, name string) bool {
	return v.str() == name
}

func sameParams(a, b *types.Signature) bool {
	if a.Params().Len() != b.Params().Len() || a.Variadic() != b.Variadic() {
		return false
	}
	for i := 0; i < a.Params().Len(); i++ {
		if !types.Identical(a.Params().At(i).Type(), b.Params().At(i).Type()) {
			return false
		}
	}
	return true
}

type actionRun struct {
	p   APath
	why string
}

// runAction makes the action by calling f, then executes it in context ctx,
// not going into op.
func (w *World) runAction(f *ssa.Function, args []AV, setup func(*aState), op ...*ssa.Function) []actionRun {
	ps, ok := w.Interp(f, args, AOpts{})
	if !ok || len(ps) == 0 {
		return []actionRun{{why: "it could not be interpreted"}}
	}
	var out []actionRun
	for _, p := range ps {
		if p.Panicked || len(p.Ret) == 0 {
			continue
		}
		out = append(out, w.execAction(p.St, p.Ret[0], setup, op...)...)
	}
	return out
}

func (w *World) execAction(st0 *aState, a AV, setup func(*aState), op ...*ssa.Function) []actionRun {
	iv, ok := st0.norm(a).(aIface)
	if !ok {
		return []actionRun{{why: "the action it makes is not known: " + a.str()}}
	}
	ex := w.method(iv.t, "Execute")
	if ex == nil {
		return []actionRun{{why: "the action it makes cannot be executed"}}
	}
	ct := types.NewPointer(w.Type("cli", "Context"))
	ctx := aIface{v: aSym{name: "ctx", t: ct, nonNil: true}, t: ct}
	qs, ok := w.Interp(ex, []AV{iv.v, ctx}, AOpts{
		Setup: func(st *aState) {
			withMem(st0.mem)(st)
			for k, v := range st0.bindS {
				st.bindS[k] = v
			}
			if setup != nil {
				setup(st)
			}
		},
		Inline: func(g *ssa.Function, st *aState, args []AV) bool {
			for _, o := range op {
				if g == o {
					return false
				}
			}
			return CalleeName(g) != "cli.FromContext"
		},
		Result: func(e *AEvent, st *aState) (AV, bool) {
			if e.Fn != nil && CalleeName(e.Fn) == "cli.FromContext" && st.derives(e.Args[0], isSym("ctx")) {
				return ctx.v, true
			}
			return nil, false
		},
	})
	var out []actionRun
	if !ok {
		out = append(out, actionRun{why: "executing it could not be interpreted"})
	}
	for _, q := range qs {
		out = append(out, actionRun{p: q})
	}
	return out
}

// ruleAppFields: what an app and a command both define is handed to the root command.
func ruleAppFields(c *Ctx) {
	w := c.W
	app, cmd := w.Type("cli", "App"), w.Type("cli", "Command")
	if app == nil || cmd == nil {
		c.Missing("app", "the app")
		return
	}
	var f *ssa.Function
	for _, g := range w.Funcs {
		if r := g.Signature.Recv(); r != nil && types.Identical(r.Type(), types.NewPointer(app)) && g.Signature.Params().Len() == 0 && g.Signature.Results().Len() == 1 && types.Identical(g.Signature.Results().At(0).Type(), types.NewPointer(cmd)) {
			f = g
		}
	}
	if f == nil {
		c.Missing("app", "what makes the root command of an app")
		return
	}
	ps, ok := w.Interp(f, []AV{aSym{name: "app", t: types.NewPointer(app), nonNil: true}}, AOpts{})
	as, cs := app.Underlying().(*types.Struct), cmd.Underlying().(*types.Struct)
	for i := 0; i < cs.NumFields(); i++ {
		fl := cs.Field(i)
		if !fl.Exported() {
			continue
		}
		from := ""
		for j := 0; j < as.NumFields(); j++ {
			if !types.Identical(as.Field(j).Type(), fl.Type()) || !as.Field(j).Exported() {
				continue
			}
			if as.Field(j).Name() == fl.Name() || strings.HasSuffix(TypeStr(fl.Type()), "*cli.Command") {
				from = as.Field(j).Name()
			}
		}
		if from == "" {
			continue
		}
		n, bad := 0, ""
		for _, p := range ps {
			if p.Panicked || len(p.Ret) == 0 {
				continue
			}
			ptr, ok := p.St.norm(p.Ret[0]).(aPtr)
			if !ok || !strings.HasPrefix(ptr.obj, "new:") {
				continue // the command it was made from
			}
			n++
			ptr.path += "." + fl.Name()
			if v := p.St.norm(p.St.load(ptr, fl.Type())); v.str() != "*app."+from {
				bad = "for " + fl.Name() + " the root command has " + v.str()
			}
		}
		c.That(ok && n > 0 && bad == "", "app", "App."+from, w.Pos(f.Pos()), "%s", bad)
	}
}

// ruleDataRoundTrip: SetData(name, v) then LookupData(name) gives v.
func ruleDataRoundTrip(c *Ctx) {
	w := c.W
	_, kinds := w.targetKinds()
	for _, t := range kinds {
		set, get := w.method(t, "SetData"), w.method(t, "LookupData")
		if set == nil || get == nil {
			continue
		}
		st := deref(t).Underlying().(*types.Struct)
		has := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Data" {
				has = true
			}
		}
		if !has {
			continue
		}
		recv := aSym{name: "target", t: t, nonNil: true}
		key := aSym{name: "key", t: types.Typ[types.String]}
		bad := ""
		for _, v := range []AV{aSym{name: "given", t: types.NewInterfaceType(nil, nil), nonNil: true}, zeroT(types.NewInterfaceType(nil, nil))} {
			ps, ok := w.Interp(set, []AV{recv, key, v}, AOpts{})
			dbgPaths(set, ps, ok)
			if !ok || len(ps) == 0 {
				bad = "setting data could not be interpreted"
			}
			for _, p := range ps {
				if p.Panicked {
					bad = "setting data can panic"
					continue
				}
				qs, _ := w.Interp(get, []AV{recv, key}, AOpts{Setup: func(s *aState) {
					withMem(p.St.mem)(s)
					for k, v := range p.St.bindS {
						s.bindS[k] = v
					}
					for k, v := range p.St.nn {
						s.nn[k] = v
					}
				}})
				dbgPaths(get, qs, ok)
				for _, q := range qs {
					if q.Panicked {
						bad = "reading data can panic"
						continue
					}
					found, k := isTrue(q.St.norm(q.Ret[1]))
					if isNilAV(v) {
						if k && found {
							bad = "data that was removed is still found"
						}
						continue
					}
					if !k || !found || !isSym("given")(q.St.norm(q.Ret[0])) {
						bad = "data that was set is not what is found: " + q.St.norm(q.Ret[0]).str()
					}
				}
			}
		}
		c.That(bad == "", "data", TypeStr(t), w.Pos(set.Pos()), "%s", bad)
	}
}
