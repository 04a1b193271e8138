package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C09",
		Explanation: "Every assignment, map update, append and call that changes what it is given is traced back, through variables, fields, parameters, results and closures of the whole module, to what it changes: " +
			"nothing a variable of a package holds is changed after initialization, and no action keeps state of its own. For lists and actions that are used several times, drivers are interpreted as laws.",
		Rules: []RuleDoc{
			{"variables", "No variable of a package is assigned after the package is initialized", 40},
			{"shared", "Nothing that a variable of a package refers to is changed after the package is initialized", 200},
			{"kept", "No function that is kept to be called in runs changes what was made with it", 40},
			{"lists", "A list that is given or returned is not changed by a later operation on something else", 15},
			{"reuse", "An action has the same effect on each target it is used for, and a provider on each use of it", 8},
		},
		Run: ruleShare})
}

// mutators are the methods of types outside of the module that change what they are called on.
var mutators = map[string]string{
	"sync.Map":               "Store LoadOrStore Swap Delete LoadAndDelete CompareAndSwap CompareAndDelete Clear",
	"text/template.Template": "New Funcs Parse AddParseTree Delims Option ParseFiles ParseGlob ParseFS",
	"html/template.Template": "New Funcs Parse AddParseTree Delims Option",
	"bytes.Buffer":           "Write WriteString WriteByte WriteRune Reset Truncate ReadFrom Grow",
	"strings.Builder":        "Write WriteString WriteByte WriteRune Reset Grow",
	"container/list.List":    "PushBack PushFront Init Remove InsertBefore InsertAfter",
}

func mutates(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil {
		return false
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	key := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	if n.Obj().Pkg().Path() == "sync/atomic" {
		switch f.Name() {
		case "Store", "Add", "Swap", "CompareAndSwap", "And", "Or":
			return true
		}
	}
	for _, m := range strings.Fields(mutators[key]) {
		if m == f.Name() {
			return true
		}
	}
	return false
}

// changers are the functions outside of the module that change their first operand.
func changer(f *ssa.Function) bool {
	if f.Pkg == nil && f.Origin() == nil {
		return false
	}
	g := f
	if o := f.Origin(); o != nil {
		g = o
	}
	if g.Pkg == nil {
		return false
	}
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "maps.Copy", "maps.DeleteFunc", "maps.Insert", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse",
		"slices.Delete", "slices.DeleteFunc", "slices.Insert", "slices.Replace", "slices.Compact", "slices.CompactFunc",
		"sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints":
		return true
	}
	return false
}

func addrRoot(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
			continue
		case *ssa.IndexAddr:
			a = x.X
			continue
		}
		return a
	}
}

func inInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Synthetic == "package initializer" || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// onlyAtInit: f is only called while packages are initialized.
func (w *World) onlyAtInit(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if inInit(f) || w.onceOnly()[f] {
		return true
	}
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Parent() != nil {
		return w.onlyAtInit(f.Parent(), seen) && false
	}
	if f.Object() == nil || f.Object().Exported() {
		return false
	}
	cs := w.Callers(f)
	if len(cs) == 0 {
		return false
	}
	for _, cs := range cs {
		if !w.onlyAtInit(cs.Parent(), seen) {
			return false
		}
	}
	return true
}

// onceOnly are the functions that sync.Once or sync.OnceValue calls once in the process: initialization that is put off.
func (w *World) onceOnly() map[*ssa.Function]bool {
	if w.once != nil {
		return w.once
	}
	uses, once := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	w.eachInstr(func(g *ssa.Function, in ssa.Instruction) {
		if _, ok := in.(*ssa.MakeClosure); ok {
			return
		}
		for _, op := range in.Operands(nil) {
			if op == nil || *op == nil {
				continue
			}
			v := *op
			if mc, ok := v.(*ssa.MakeClosure); ok {
				v = mc.Fn
			}
			f, ok := v.(*ssa.Function)
			if !ok || f.Pkg == nil {
				continue
			}
			uses[f]++
			call, ok := in.(ssa.CallInstruction)
			if !ok || call.Common().StaticCallee() == nil {
				continue
			}
			switch n := CalleeName(call.Common().StaticCallee()); {
			case strings.HasSuffix(n, "Once.Do") || strings.HasSuffix(n, "Once).Do"):
				if _, ok := call.Common().Args[0].(*ssa.Global); ok {
					once[f]++
				}
			case strings.HasPrefix(n, "sync.Once"):
				if inInit(g) {
					once[f]++
				}
			}
		}
	})
	w.once = map[*ssa.Function]bool{}
	for f, n := range once {
		w.once[f] = n == uses[f]
	}
	return w.once
}

// filled is a variable that only ever holds lists without room behind their end.
func (w *World) filled(g *ssa.Global) bool {
	stores, full := 0, 0
	w.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
			stores++
			if sl, ok := st.Val.(*ssa.Slice); ok && sl.High == nil {
				if _, ok := sl.X.(*ssa.Alloc); ok {
					full++
				}
			}
		}
	})
	return stores > 0 && stores == full
}

// heldBy is the variable of a package of the module that v may be, or refers to, or nil.
func (w *World) heldBy(v ssa.Value) *ssa.Global {
	var hit *ssa.Global
	w.origins(v, func(v ssa.Value, last bool) bool {
		if hit != nil {
			return true
		}
		switch v := v.(type) {
		case *ssa.Global:
			hit = v
			return true
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if g, ok := addrRoot(v.X).(*ssa.Global); ok {
					hit = g
					return true
				}
			}
		}
		return false
	})
	if hit != nil && (hit.Pkg == nil || !w.fnSetHasPkg(hit.Pkg)) {
		return nil
	}
	return hit
}

// isFake is a package of stand-ins for tests.
func isFake(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "fakes")
}

func takesContext(f *ssa.Function) bool {
	for _, p := range f.Params {
		t := p.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Context" {
			return true
		}
	}
	return false
}

func ruleShare(c *Ctx) {
	w := c.W

	assigned := map[*ssa.Global]string{}
	globals := map[*ssa.Global]bool{}
	w.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		for _, op := range in.Operands(nil) {
			if op == nil || *op == nil {
				continue
			}
			if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && w.fnSetHasPkg(g.Pkg) && !strings.Contains(g.Name(), "$") {
				globals[g] = true
			}
		}
		if isFake(f) || w.onlyAtInit(f, map[*ssa.Function]bool{}) {
			return
		}
		where := w.InstrPos(in)
		change := func(v ssa.Value, how string) {
			if g := w.heldBy(v); g != nil && !(how == "appends" && w.filled(g)) {
				c.Bad("shared", g.Name()+" in "+shortFn(f), where, "%s what the variable %s holds, which is shared by all apps", how, g.Name())
				return
			}
			c.Ok("shared", shortFn(f)+" at "+where, where)
			w.keptChange(c, f, v, where, how)
		}
		switch x := in.(type) {
		case *ssa.Store:
			r := addrRoot(x.Addr)
			switch r := r.(type) {
			case *ssa.Global:
				if w.fnSetHasPkg(r.Pkg) && assigned[r] == "" {
					assigned[r] = shortFn(f) + " at " + where
				}
				return
			case *ssa.Alloc:
				return
			case *ssa.FreeVar:
				w.keptStore(c, f, r, where)
				return
			}
			if r != x.Addr {
				change(r, "assigns")
			}
		case *ssa.MapUpdate:
			change(x.Map, "updates")
		case ssa.CallInstruction:
			com := x.Common()
			if b, ok := com.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear", "copy", "append":
					change(com.Args[0], b.Name()+"s")
				}
				return
			}
			g := com.StaticCallee()
			if g == nil || len(com.Args) == 0 {
				return
			}
			if mutates(g) {
				if own, ok := x.(*ssa.Call); ok && setter(f, own) {
					return
				}
				change(com.Args[0], "calls "+g.Name()+" on")
			} else if changer(g) {
				change(com.Args[0], "calls "+g.Name()+" on")
			}
		}
	})
	for g := range globals {
		at := assigned[g]
		c.That(at == "", "variables", g.Pkg.Pkg.Name()+"."+g.Name(), w.Pos(g.Pos()), "assigned in %s, so one app changes what another sees", at)
	}
	c.shareLaws()
}

// setter: an exported function that stores what it is given.
func setter(f *ssa.Function, call *ssa.Call) bool {
	if f.Object() == nil || !f.Object().Exported() || f.Signature.Recv() != nil || len(call.Call.Args) < 2 {
		return false
	}
	v := call.Call.Args[1]
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	p, ok := v.(*ssa.Parameter)
	return ok && p.Parent() == f
}

// keptStore: f assigns a variable of a function around it.
func (w *World) keptStore(c *Ctx, f *ssa.Function, fv *ssa.FreeVar, where string) {
	owner := w.ownerOf(fv)
	if owner == nil {
		return
	}
	c.That(!w.outlives(f, owner), "kept", fv.Name()+" in "+shortFn(f), where, "assigns %s, a variable of %s, each time it is called in a run", fv.Name(), shortFn(owner))
}

// keptChange: f changes something that was made by a function around it.
func (w *World) keptChange(c *Ctx, f *ssa.Function, v ssa.Value, where, how string) {
	if f.Parent() == nil {
		return
	}
	var owner *ssa.Function
	w.origins(v, func(v ssa.Value, last bool) bool {
		switch v := v.(type) {
		case *ssa.MakeMap:
			if v.Parent() != f && encloses(v.Parent(), f) {
				owner = v.Parent()
			}
			return true
		case *ssa.Alloc:
			if v.Heap && v.Parent() != f && encloses(v.Parent(), f) && v.Comment != "varargs" {
				if v.Comment == "complit" || v.Comment == "new" || v.Comment == "slicelit" || v.Comment == "makeslice" {
					owner = v.Parent()
				}
			}
			return true
		case *ssa.MakeSlice:
			if v.Parent() != f && encloses(v.Parent(), f) {
				owner = v.Parent()
			}
			return true
		case *ssa.Parameter, *ssa.Call:
			return true
		}
		return owner != nil
	})
	if owner == nil {
		c.Ok("kept", shortFn(f)+" at "+where, where)
		return
	}
	c.That(!w.outlives(f, owner), "kept", shortFn(f), where, "%s what %s made, each time it is called in a run", how, shortFn(owner))
}

func encloses(g, f *ssa.Function) bool {
	for f = f.Parent(); f != nil; f = f.Parent() {
		if f == g {
			return true
		}
	}
	return false
}

// outlives: f, within owner, is called in a run, and owner is not.
func (w *World) outlives(f, owner *ssa.Function) bool {
	for g := owner; g != nil; g = g.Parent() {
		if takesContext(g) {
			return false
		}
	}
	in := false
	for g := f; g != nil && g != owner; g = g.Parent() {
		if takesContext(g) {
			in = true
		}
	}
	return in
}

func (w *World) ownerOf(fv *ssa.FreeVar) *ssa.Function {
	for {
		mc := w.parent[fv.Parent()]
		if mc == nil {
			return nil
		}
		var b ssa.Value
		for i, x := range fv.Parent().FreeVars {
			if x == fv {
				b = mc.Bindings[i]
			}
		}
		switch x := b.(type) {
		case *ssa.FreeVar:
			fv = x
			continue
		case *ssa.Alloc:
			return x.Parent()
		}
		return nil
	}
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), "github.com/Carbonfrost/joe-cli", "cli")
}

const shareDriver = `package driver

import (
	"bytes"
	"context"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/provider"
)

// known to the interpreter
func liveContextOf(target any, t cli.Timing, parent *cli.Context) *cli.Context { panic("a context") }
func childOf(parent *cli.Context, target any) *cli.Context                    { panic("a context") }

func mClip[S ~[]E, E any](s S) S { return s[:len(s):len(s)] }
func mMapClone[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	r := M{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

type failed struct{}

func (failed) Error() string { return "" }

func at(target any) *cli.Context { return liveContextOf(target, cli.InitialTiming, nil) }

var _ bytes.Buffer
var _ context.Context
var _ = strings.Join
`

func (c *Ctx) shareLaws() {
	var ls []law
	add := func(rule, key, body string) { ls = append(ls, law{rule, key, "resetBuffers(); " + body}) }

	// what is behind the end of a list belongs to somebody else
	for _, k := range []struct{ kind, field, elem, mk string }{
		{"flag", "Flags", "*cli.Flag", "&cli.Flag{Name: %q}"},
		{"arg", "Args", "*cli.Arg", "&cli.Arg{Name: %q}"},
		{"command", "Subcommands", "*cli.Command", "&cli.Command{Name: %q}"},
	} {
		mk := func(s string) string { return fmt.Sprintf(k.mk, s) }
		op := strings.ToUpper(k.kind[:1]) + k.kind[1:]
		const head = "a, b, fx := %s, %s, %s; _ = fx; all := []%s{a, b, nil, nil}; list := all[:2]; one, two := &cli.Command{Name: \"one\", %s: list}, &cli.Command{Name: \"two\", %[5]s: list}; "
		h := fmt.Sprintf(head, mk("a"), mk("b"), mk("x"), k.elem, k.field)
		same := fmt.Sprintf("list[0] == a && list[1] == b && all[2] == nil && len(two.%[1]s) == 2 && two.%[1]s[0] == a && two.%[1]s[1] == b", k.field)
		add("lists", "add "+k.kind, h+fmt.Sprintf("if at(one).Add%s(fx) != nil { return true }; return %s && len(one.%s) == 3", op, same, k.field))
		add("lists", "add twice "+k.kind, h+fmt.Sprintf("fy := %s; if at(one).Add%s(fx) != nil || at(two).Add%[2]s(fy) != nil { return true }; return len(one.%[3]s) == 3 && one.%[3]s[2] == fx && len(two.%[3]s) == 3 && two.%[3]s[2] == fy && all[2] == nil", mk("y"), op, k.field))
		add("lists", "remove "+k.kind, h+fmt.Sprintf("if at(one).Remove%s(\"a\") != nil { return true }; return %s && len(one.%s) == 1", op, same, k.field))
		add("lists", "several "+k.kind+"s", h+fmt.Sprintf("if cli.Add%ss(fx).Execute(at(one)) != nil { return true }; return %s && len(one.%s) == 3", op, same, k.field))
	}
	for _, k := range []struct{ kind, mk string }{
		{"flag", "&cli.Flag{Name: \"f\", Aliases: list}"},
		{"command", "&cli.Command{Name: \"f\", Aliases: list}"},
	} {
		h := fmt.Sprintf("all := []string{\"a\", \"b\", \"\", \"\"}; list := all[:2]; one, two := %s, %[1]s; ", k.mk)
		same := "list[0] == \"a\" && list[1] == \"b\" && all[2] == \"\" && len(two.Aliases) == 2 && two.Aliases[0] == \"a\" && two.Aliases[1] == \"b\""
		add("lists", "add alias of "+k.kind, h+"if at(one).AddAlias(\"x\") != nil { return true }; return "+same+" && len(one.Aliases) == 3")
		add("lists", "remove alias of "+k.kind, h+"if at(one).RemoveAlias(\"a\") != nil { return true }; return "+same+" && len(one.Aliases) == 1")
		add("lists", "names of "+k.kind, h+"n := one.Names(); n[0], n[1] = \"y\", \"z\"; m := one.Names(); return one.Name == \"f\" && m[0] != \"y\" && m[1] != \"z\" && "+same)
	}
	const pipes = "var got []int; act := func(n int) cli.Action { return cli.ActionFunc(func(*cli.Context) error { got = append(got, n); return nil }) }; all := cli.ActionPipeline{act(0), nil, nil, nil}; base := all[:1]; "
	add("lists", "append", pipes+"p := base.Append(act(1)); q := base.Append(act(2)); return len(p) == 2 && len(q) == 2 && len(base) == 1 && all[1] == nil && p.Execute(at(&cli.Command{})) == nil && len(got) == 2 && got[0] == 0 && got[1] == 1")
	add("lists", "prepend", pipes+"p := base.Prepend(act(1)); q := base.Prepend(act(2)); return len(p) == 2 && len(q) == 2 && len(base) == 1 && p.Execute(at(&cli.Command{})) == nil && len(got) == 2 && got[0] == 1 && got[1] == 0")
	add("lists", "prepend a list", pipes+"whole := []cli.Action{act(5), nil, nil}; front := whole[:1]; base.Prepend(front...); return whole[1] == nil")
	for _, k := range []struct{ get, field, elem string }{
		{"VisibleFlags", "Flags", "cli.Flag"},
		{"VisibleArgs", "Args", "cli.Arg"},
		{"VisibleSubcommands", "Subcommands", "cli.Command"},
	} {
		add("lists", k.get, fmt.Sprintf("a, b := &%s{Name: \"a\"}, &%[1]s{Name: \"b\"}; cmd := &cli.Command{%s: []*%[1]s{a, b}}; l := cmd.%[3]s(); l[0], l[1] = nil, nil; m := cmd.%[3]s(); return len(m) == 2 && m[0] == a && m[1] == b && cmd.%[2]s[0] == a && cmd.%[2]s[1] == b", k.elem, k.field, k.get))
	}

	// actions that are used for several targets
	for _, k := range []struct{ key, act, mk, same string }{
		{"alias", "cli.Alias(\"x\")", "&cli.Flag{Name: \"f\"}", "len(one.Aliases) == 1 && len(two.Aliases) == 1 && one.Aliases[0] == \"x\" && two.Aliases[0] == \"x\""},
		{"category", "cli.Category(v)", "&cli.Flag{Name: \"f\"}", "one.Category == v && two.Category == v"},
		{"help", "cli.HelpText(v)", "&cli.Arg{Name: \"f\"}", "one.HelpText == v && two.HelpText == v"},
		{"description", "cli.Description(v)", "&cli.Command{Name: \"f\"}", "one.Description == any(v) && two.Description == any(v)"},
		{"hidden", "cli.Hidden", "&cli.Flag{Name: \"f\"}", "len((&cli.Command{Flags: []*cli.Flag{one, two}}).VisibleFlags()) == 0"},
		{"data", "cli.Data(\"k\", v)", "&cli.Flag{Name: \"f\"}", "one.Data[\"k\"] == any(v) && two.Data[\"k\"] == any(v)"},
		{"data of its own", "cli.Data(\"k\", v)", "&cli.Command{Name: \"f\"}", "func() bool { one.SetData(\"own\", 1); _, ok := two.Data[\"own\"]; return !ok }()"},
		{"data of a prototype", "cli.Prototype{Data: map[string]any{\"k\": v}}", "&cli.Flag{Name: \"f\"}", "func() bool { one.SetData(\"own\", 1); _, ok := two.Data[\"own\"]; return !ok && one.Data[\"k\"] == any(v) && two.Data[\"k\"] == any(v) }()"},
		{"prototype", "cli.Prototype{Name: \"n\", Category: v, HelpText: w}", "&cli.Flag{}", "one.Name == \"n\" && two.Name == \"n\" && one.Category == v && two.Category == v && one.HelpText == w && two.HelpText == w"},
		{"pipeline", "cli.Pipeline(cli.Category(v), cli.HelpText(w), cli.Alias(\"x\"))", "&cli.Flag{Name: \"f\"}", "one.Category == v && two.Category == v && one.HelpText == w && two.HelpText == w && len(one.Aliases) == 1 && len(two.Aliases) == 1"},
		{"flags", "cli.AddFlag(fx)", "&cli.Command{Name: \"f\"}", "len(one.Flags) == 1 && len(two.Flags) == 1 && one.Flags[0] == fx && two.Flags[0] == fx"},
	} {
		x := ""
		if strings.Contains(k.act, "(fx)") {
			x = "fx := &cli.Flag{Name: \"x\"}; "
		}
		add("reuse", k.key, x+fmt.Sprintf("act := cli.ActionOf(%s); one, two := %s, %[2]s; return act.Execute(at(one)) == nil && act.Execute(at(two)) == nil && (%s)", k.act, k.mk, k.same))
	}

	const prov = "var got []map[string]string; defaults := map[string]string{\"a\": v}; opts := map[string]string{\"b\": w}; r := &provider.Registry{Name: \"r\", Providers: provider.Details{\"p\": {Defaults: defaults, Factory: func(o map[string]string) (any, error) { got = append(got, o); return nil, nil }}}}; "
	add("reuse", "provider", prov+"r.New(\"p\", opts); r.New(\"p\", nil); return len(got) == 2 && len(got[0]) == 2 && got[0][\"a\"] == v && got[0][\"b\"] == w && len(got[1]) == 1 && got[1][\"a\"] == v")
	add("reuse", "what a provider is given", prov+"r.New(\"p\", opts); got[0][\"c\"] = x; got[0][\"a\"] = x; return len(defaults) == 1 && defaults[\"a\"] == v && len(opts) == 1 && opts[\"b\"] == w")

	dw, err := c.W.Driven(shareDriver + bufferModels + sortModels + lawSource(ls))
	if err != nil {
		c.Bad("reuse", "actions", "-", "actions cannot be used as documented: %v", err)
		return
	}
	dw.modelled(bufferNames)
	dw.modelled(sortNames)
	dw.modelled(map[string]string{"slices.Clip": "mClip", "maps.Clone": "mMapClone"})
	c.lawful(dw, ls, "action.go", AOpts{Depth: 40, MaxSteps: 2000000, Copies: true})
}
