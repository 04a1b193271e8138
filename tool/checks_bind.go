package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C23",
		Explanation: "Small functions that use each binder and each form of late-bound action are added to the program (in memory), so that every generic function is there for actual types, and interpreted with unknown functions, binders and contexts: which binder is asked, in which order, what the function is given, and what becomes of errors.",
		Rules: []RuleDoc{
			{"order", "the function is given what its binders gave, in order", 9},
			{"type", "a binder reads the value of its own type and name", 50},
			{"name", "a binder without a name takes the current or the corresponding one", 4},
			{"exact", "an exact value is the value", 4},
			{"init", "the flag or arg gets a value of the binder's type", 4},
		},
		Run: ruleBind})
}

// bindTypes are the types that there is a binder for.
var bindTypes = []struct{ name, t string }{
	{"Bool", "bool"}, {"String", "string"}, {"List", "[]string"},
	{"Int", "int"}, {"Int8", "int8"}, {"Int16", "int16"}, {"Int32", "int32"}, {"Int64", "int64"},
	{"Uint", "uint"}, {"Uint8", "uint8"}, {"Uint16", "uint16"}, {"Uint32", "uint32"}, {"Uint64", "uint64"},
	{"Float32", "float32"}, {"Float64", "float64"}, {"Duration", "time.Duration"},
	{"File", "*cli.File"}, {"FileSet", "*cli.FileSet"}, {"Map", "map[string]string"},
	{"NameValue", "*cli.NameValue"}, {"NameValues", "[]*cli.NameValue"}, {"URL", "*url.URL"},
	{"Regexp", "*regexp.Regexp"}, {"IP", "net.IP"}, {"BigInt", "*big.Int"}, {"BigFloat", "*big.Float"}, {"Bytes", "[]byte"},
}

func bindDriver() string {
	var b strings.Builder
	b.WriteString("package driver\n\nimport (\n")
	for _, p := range []string{"context", "math/big", "net", "net/url", "regexp", "time", modPath + "/extensions/bind", modPath + "/extensions/expr"} {
		fmt.Fprintf(&b, "\t%q\n", p)
	}
	fmt.Fprintf(&b, "\tcli %q\n)\n\nvar _ context.Context\nvar _ time.Duration\n", modPath)
	ts := []string{"int", "string", "bool"}
	tv := []string{"t", "u", "v"}
	for n := 1; n <= 3; n++ {
		sfx := ""
		if n > 1 {
			sfx = fmt.Sprint(n)
		}
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("%s bind.Binder[%s]", tv[i], ts[i]))
		}
		sig, params, vars := strings.Join(ts[:n], ", "), strings.Join(ps, ", "), strings.Join(tv[:n], ", ")
		fmt.Fprintf(&b, "func Call%d(c context.Context, fn func(%s) error, %s) error { return bind.Call%s(fn, %s).Execute(c) }\n", n, sig, params, sfx, vars)
		fmt.Fprintf(&b, "func Action%d(c context.Context, fn func(%s) cli.Action, %s) error { return bind.Action%s(fn, %s).Execute(c) }\n", n, sig, params, sfx, vars)
		fmt.Fprintf(&b, "func Evaluator%d(c context.Context, fn func(%s) expr.Evaluator, %s, arg any, yield func(any) error) error { return bind.Evaluator%s(fn, %s).Evaluate(c, arg, yield) }\n", n, sig, params, sfx, vars)
	}
	for _, t := range bindTypes {
		fmt.Fprintf(&b, "func By%s(c context.Context, name any) (%s, error) { return bind.%s(name).Bind(c) }\n", t.name, t.t, t.name)
		fmt.Fprintf(&b, "func For%s(c context.Context, name any) (%s, error) { return bind.For[%s](name).Bind(c) }\n", t.name, t.t, t.t)
		fmt.Fprintf(&b, "func Uses%s(c context.Context) error { return bind.Call(func(%s) error { return nil }, bind.%s()).Execute(c) }\n", t.name, t.t, t.name)
	}
	b.WriteString(`
func ByInterface(c context.Context, name any) (any, error) { return bind.Interface(name).Bind(c) }
func ByValue(c context.Context, name any) (int, error) { return bind.Value[int](name).Bind(c) }
func ByExact(c context.Context, v int) (int, error) { return bind.Exact(v).Bind(c) }
func ByContext(c context.Context) (*cli.Context, error) { return bind.Context().Bind(c) }
func ByContextValue(c context.Context, name any) (int, error) { return bind.ContextValue[int](name).Bind(c) }
func ByFromContext(c context.Context, fn func(context.Context) int) (int, error) { return bind.FromContext(fn).Bind(c) }
func ByFunc(c context.Context, fn func(*cli.Context) (int, error)) (int, error) { return bind.Func[int](fn).Bind(c) }

func Named(first, then context.Context, fn func(int, string) error) error {
	a := bind.Call2(fn, bind.Int(), bind.String())
	a.Execute(first)
	return a.Execute(then)
}
func Given(first, then context.Context, fn func(int, string) error) error {
	a := bind.Call2(fn, bind.Int("a"), bind.String("b"))
	a.Execute(first)
	return a.Execute(then)
}
func GivenAt(first, then context.Context, fn func(int, string) error) error {
	a := bind.Call2(fn, bind.Int(1), bind.String(0))
	a.Execute(first)
	return a.Execute(then)
}
func GivenChar(first, then context.Context, fn func(int, string) error) error {
	a := bind.Call2(fn, bind.Int('x'), bind.String(""))
	a.Execute(first)
	return a.Execute(then)
}
func Indirect(c context.Context, fn func(*cli.FileSet, bool) error) error { return bind.Indirect("other", fn).Execute(c) }
func IndirectTo(c context.Context, fn func(*cli.FileSet, bool) error, v bool) error { return bind.Indirect("other", fn, v).Execute(c) }
func Redirect(c context.Context) error { return bind.Redirect[string]("other").Execute(c) }
func RedirectTo(c context.Context, v string) error { return bind.Redirect("other", v).Execute(c) }
`)
	return b.String()
}

func ruleBind(c *Ctx) {
	w, err := c.W.Driven(bindDriver())
	if err != nil {
		c.Bad("order", "binders", "-", "the binders cannot be used as documented: %v", err)
		return
	}
	d := w.SSA["driver"]
	ct := w.Type("cli", "Context")
	cpt := types.NewPointer(ct)
	accessor := func(g *ssa.Function) bool {
		r := g.Signature.Recv()
		return r != nil && types.Identical(r.Type(), cpt) && g.Signature.Params().Len() == 1 && g.Signature.Results().Len() >= 1 && TypeStr(g.Signature.Params().At(0).Type()) == "any" && g.Name() != "ContextOf"
	}
	run := func(name string, timing string, kind string, o AOpts, args ...AV) ([]APath, bool) {
		f := d.Func(name)
		ch := ctxChain{{kind: kind, name: "here"}}
		if kind != "Command" {
			ch = append(ch, lvl{kind: "Command", name: "app"})
		}
		s := o.Setup
		o.Models, o.Reenter, o.Forks, o.Depth = true, true, 8, 30
		tf := w.ctxFieldOf(func(v *types.Var) bool { return TypeStr(v.Type()) == "cli.Timing" })
		o.Setup = func(st *aState) {
			for i, l := range ch {
				// targets without any actions of their own
				kt := deref(w.kindType(l.kind))
				st.store(aPtr{obj: fmt.Sprintf("new:t%d", i), t: kt}, zeroT(kt))
			}
			w.putChain(st, ch)
			st.store(aPtr{obj: "new:x0", path: "." + tf}, w.timingK(timing))
			if s != nil {
				s(st)
			}
		}
		return w.Interp(f, append([]AV{boxed(aPtr{obj: "new:x0", t: ct}, cpt)}, args...), o)
	}
	sym := func(f *ssa.Function, i int, name string) AV {
		return aSym{name: name, t: f.Signature.Params().At(i).Type(), nonNil: true}
	}
	// order
	for n := 1; n <= 3; n++ {
		for _, kind := range []string{"Call", "Action", "Evaluator"} {
			name := fmt.Sprintf("%s%d", kind, n)
			f := d.Func(name)
			args := []AV{sym(f, 1, "fn")}
			for i := 0; i < n; i++ {
				args = append(args, sym(f, 2+i, fmt.Sprintf("b%d", i)))
			}
			if kind == "Evaluator" {
				args = append(args, sym(f, 2+n, "operand"), sym(f, 3+n, "yield"))
			}
			ps, ok := run(name, "ActionTiming", "Command", AOpts{}, args...)
			dbgPaths(f, ps, ok)
			msg := ""
			if !ok || len(ps) == 0 {
				msg = "it could not be interpreted"
			}
			for _, p := range ps {
				if m := bindOrder(&p, kind, n); m != "" {
					msg = m
				}
			}
			c.That(msg == "", "order", name, "extensions/bind", "%s", msg)
		}
	}
	notAccessor := func(g *ssa.Function, st *aState, args []AV) bool {
		if !accessor(g) {
			return true
		}
		// the context looked up in itself
		if iv, ok := st.norm(args[len(args)-1]).(aIface); ok {
			_, key := iv.t.Underlying().(*types.Struct)
			return key
		}
		return false
	}
	// one: on each path one value is read, by that name, and it is what is given
	one := func(rt types.Type, ps []APath, ok bool, name string) string {
		if !ok || len(ps) == 0 {
			return "it could not be interpreted"
		}
		for _, p := range ps {
			if p.Panicked {
				return "it panics: " + p.PanicVal.str()
			}
			n := 0
			for _, e := range p.Events {
				if e.Fn == nil || e.Store != nil || !accessor(e.Fn) {
					continue
				}
				n++
				if avText(p.St, e.Args[0]) != "x0" {
					return "it reads from another context"
				}
				if avText(p.St, e.Args[1]) != name {
					return "it reads the value named " + orNone(avText(p.St, e.Args[1]))
				}
				if at := e.Fn.Signature.Results().At(0).Type(); !types.IsInterface(at) && !types.Identical(at, rt) {
					return "it reads a value of type " + TypeStr(at)
				}
				res := p.St.norm(e.Res)
				if t, isT := res.(aTuple); isT {
					res = t[0]
				}
				if !p.is(p.Ret[0], res) && !p.St.derives(p.Ret[0], func(v AV) bool { return v.str() == res.str() }) {
					return "it gives something else than it read"
				}
			}
			if n != 1 {
				return fmt.Sprintf("it reads %d values", n)
			}
			if len(p.Ret) > 1 && !isNilAV(p.St.norm(p.Ret[1])) {
				return "it fails"
			}
		}
		return ""
	}
	for _, t := range append(bindTypes, struct{ name, t string }{"Interface", "any"}, struct{ name, t string }{"Value", "any"}) {
		for _, kind := range []string{"By", "For"} {
			f := d.Func(kind + t.name)
			if f == nil {
				continue
			}
			ps, ok := run(f.Name(), "ActionTiming", "Command", AOpts{Inline: notAccessor}, sym(f, 1, "name"))
			dbgPaths(f, ps, ok)
			msg := ""
			if t.name == "Value" {
				// the value must have the type that was asked for
				var qs []APath
				for _, p := range ps {
					if !p.Panicked {
						qs = append(qs, p)
					}
				}
				ps = qs
			}
			msg = one(f.Signature.Results().At(0).Type(), ps, ok, "name")
			c.That(msg == "", "type", kind+" "+t.name, "extensions/bind", "%s", msg)
		}
	}
	// name
	for _, kind := range []string{"Command", "Flag", "Arg"} {
		for _, by := range []string{"Named", "Given", "GivenAt", "GivenChar"} {
			f := d.Func(by)
			want := []string{"0", "1"}
			if kind != "Command" {
				want = []string{"", ""}
			}
			switch by {
			case "Given":
				want = []string{"a", "b"}
			case "GivenAt":
				want = []string{"1", "0"}
			case "GivenChar":
				want = []string{"120", ""}
			}
			kt := w.kindType(kind)
			ps, ok := run(by, "InitialTiming", kind, AOpts{
				Inline: func(g *ssa.Function, st *aState, args []AV) bool {
					return notAccessor(g, st, args) && g.Name() != "ContextOf" && !isProtoExecute(g)
				},
				Setup: func(st *aState) {
					w.putCtx(st, "new:y0", aSym{name: "ty", t: kt, nonNil: true}, kt, w.timingK("ActionTiming"), zeroT(cpt))
				},
			}, boxed(aPtr{obj: "new:y0", t: ct}, cpt), sym(f, 2, "fn"))
			dbgPaths(f, ps, ok)
			msg := ""
			if !ok || len(ps) == 0 {
				msg = "it could not be interpreted"
			}
			for _, p := range ps {
				if p.Panicked {
					msg = "it panics: " + p.PanicVal.str()
					continue
				}
				var names []string
				for _, e := range p.Events {
					if e.Fn != nil && e.Store == nil && accessor(e.Fn) && avText(p.St, e.Args[0]) == "y0" {
						names = append(names, orNone(avText(p.St, e.Args[1])))
					}
				}
				if got := strings.Join(names, " "); got != orNone(want[0])+" "+orNone(want[1]) {
					msg = fmt.Sprintf("the values read are named %s instead of %s %s", got, orNone(want[0]), orNone(want[1]))
				}
			}
			c.That(msg == "", "name", by+" "+kind, "extensions/bind", "for a %s, %s", strings.ToLower(kind), msg)
		}
	}
	// exact
	for _, x := range []string{"ByExact", "ByContext", "ByContextValue", "ByFromContext", "ByFunc"} {
		f := d.Func(x)
		var args []AV
		for i := 1; i < f.Signature.Params().Len(); i++ {
			args = append(args, sym(f, i, "given"))
		}
		ps, ok := run(x, "ActionTiming", "Command", AOpts{Inline: notAccessor}, args...)
		dbgPaths(f, ps, ok)
		msg := ""
		if !ok || len(ps) == 0 {
			msg = "it could not be interpreted"
		}
		for _, p := range ps {
			if p.Panicked {
				if x != "ByContextValue" {
					msg = "it panics: " + p.PanicVal.str()
				}
				continue
			}
			r := p.Ret[0]
			switch x {
			case "ByExact":
				if avText(p.St, r) != "given" {
					msg = "it gives " + avText(p.St, r)
				}
			case "ByContext":
				if avText(p.St, r) != "x0" {
					msg = "it gives " + avText(p.St, r)
				}
			default:
				hit := false
				for _, e := range p.Events {
					if e.Store != nil || e.Res == nil {
						continue
					}
					res := p.St.norm(e.Res)
					var first, second AV = res, nil
					if t, isT := res.(aTuple); isT && len(t) == 2 {
						first, second = t[0], t[1]
					}
					if strings.HasPrefix(e.Method, "dyn:") && len(e.Args) == 1 && avText(p.St, e.Args[0]) == "x0" && p.is(r, first) && (second == nil || p.is(p.Ret[1], second)) {
						hit = true
					}
					if e.Fn != nil && accessor(e.Fn) && avText(p.St, e.Args[0]) == "x0" && avText(p.St, e.Args[1]) == "given" && p.St.derives(r, func(v AV) bool { return v.str() == first.str() }) {
						hit = true
					}
				}
				if !hit {
					msg = "it gives " + avText(p.St, r)
				}
			}
		}
		c.That(msg == "", "exact", strings.TrimPrefix(x, "By"), "extensions/bind", "%s", msg)
	}
	// indirect, redirect
	for _, x := range []string{"Indirect", "IndirectTo", "Redirect", "RedirectTo"} {
		f := d.Func(x)
		var args []AV
		for i := 1; i < f.Signature.Params().Len(); i++ {
			n := "fn"
			if f.Signature.Params().At(i).Name() == "v" {
				n = "given"
			}
			args = append(args, sym(f, i, n))
		}
		for _, kind := range []string{"Flag", "Arg"} {
			kt := w.kindType(kind)
			setup := func(st *aState) {
				w.putCtx(st, "new:y0", aSym{name: "ty", t: kt, nonNil: true}, kt, w.timingK("ActionTiming"), zeroT(cpt))
			}
			var args2 []AV
			args2 = append(args2, args...)
			ps, ok := run(x, "ActionTiming", kind, AOpts{Setup: setup, Inline: func(g *ssa.Function, st *aState, args []AV) bool {
				return notAccessor(g, st, args) && g.Name() != "ContextOf" && g.Name() != "SetValue"
			}, Result: func(e *AEvent, st *aState) (AV, bool) {
				if e.Fn != nil && e.Fn.Name() == "ContextOf" {
					return aPtr{obj: "new:y0", t: ct}, true
				}
				return nil, false
			}}, args2...)
			dbgPaths(f, ps, ok)
			msg := ""
			if !ok || len(ps) == 0 {
				msg = "it could not be interpreted"
			}
			for _, p := range ps {
				if p.Panicked {
					continue // a value of another type
				}
				if m := indirect(&p, x, accessor); m != "" {
					msg = m
				}
			}
			c.That(msg == "", "exact", x+" from "+kind, "extensions/bind", "%s", msg)
		}
	}
	// init
	for _, t := range bindTypes {
		f := d.Func("Uses" + t.name)
		vt := d.Func("By" + t.name).Signature.Results().At(0).Type()
		made := ""
		n := 0
		ps, ok := run(f.Name(), "InitialTiming", "Flag", AOpts{
			Setup: func(st *aState) {
				kt := w.kindType("Flag")
				w.putCtx(st, "new:y0", aSym{name: "ty", t: kt, nonNil: true}, kt, w.timingK("InitialTiming"), zeroT(cpt))
			},
			Inline: func(g *ssa.Function, st *aState, args []AV) bool {
				return g.Name() != "ContextOf" && !isProtoExecute(g) && !strings.HasSuffix(CalleeName(g), ".BindSupportedValue")
			},
			Result: func(e *AEvent, st *aState) (AV, bool) {
				if e.Fn == nil {
					return nil, false
				}
				switch {
				case e.Fn.Name() == "ContextOf":
					return aPtr{obj: "new:y0", t: ct}, true
				case strings.HasSuffix(CalleeName(e.Fn), ".BindSupportedValue"):
					return st.norm(e.Args[0]), true
				case isProtoExecute(e.Fn):
					n++
					made = "nothing"
					pp, isP := st.norm(e.Args[0]).(aPtr)
					if !isP {
						pp = aPtr{obj: "new:proto"}
						st.store(aPtr{obj: pp.obj, t: deref(e.Fn.Signature.Recv().Type())}, e.Args[0])
					}
					if ft := fieldOfT(e.Fn.Signature.Recv().Type(), "Value"); ft != nil {
						v := st.norm(st.load(aPtr{obj: pp.obj, path: pp.path + ".Value"}, ft))
						if iv, isI := v.(aIface); isI {
							made = TypeStr(iv.t)
							if types.Identical(iv.t, types.NewPointer(vt)) || types.Identical(iv.t, vt) {
								made = ""
							}
						}
					}
				}
				return nil, false
			},
		})
		dbgPaths(f, ps, ok)
		msg := ""
		if !ok || len(ps) == 0 {
			msg = "it could not be interpreted"
		} else if n == 0 {
			msg = "no value is set up"
		} else if made != "" {
			msg = "the value set up is a " + made
		}
		c.That(msg == "", "init", t.name, "extensions/bind", "%s", msg)
	}
}

func isProtoExecute(g *ssa.Function) bool {
	r := g.Signature.Recv()
	return g.Name() == "Execute" && r != nil && strings.HasSuffix(TypeStr(r.Type()), "Prototype")
}

// indirect: the values handed to the function.
func indirect(p *APath, x string, accessor func(*ssa.Function) bool) string {
	read := func(v AV) string {
		for _, e := range p.Events {
			if e.Fn != nil && e.Store == nil && accessor(e.Fn) {
				res := p.St.norm(e.Res)
				if t, isT := res.(aTuple); isT {
					res = t[0]
				}
				if p.St.derives(v, func(y AV) bool { return y.str() == res.str() }) {
					return "value of " + orNone(avText(p.St, e.Args[1]))
				}
			}
		}
		return avText(p.St, v)
	}
	val := "value of nothing"
	if strings.HasSuffix(x, "To") {
		val = "given"
	}
	n := 0
	for _, e := range p.Events {
		if e.Store != nil {
			continue
		}
		switch {
		case strings.HasPrefix(x, "Indirect") && strings.HasPrefix(e.Method, "dyn:"):
			n++
			if len(e.Args) != 2 || read(e.Args[0]) != "value of other" || read(e.Args[1]) != val {
				return fmt.Sprintf("the function is given the %s and the %s", read(e.Args[0]), read(e.Args[1]))
			}
			if !p.is(p.Ret[0], e.Res) {
				return "its result is lost"
			}
		case strings.HasPrefix(x, "Redirect") && e.Fn != nil && e.Fn.Name() == "SetValue":
			n++
			if avText(p.St, e.Args[0]) != "y0" {
				return "another value is set"
			}
			if read(e.Args[1]) != val {
				return "it is set to the " + read(e.Args[1])
			}
			if !p.is(p.Ret[0], e.Res) {
				return "its result is lost"
			}
		case e.Fn != nil && e.Fn.Name() == "ContextOf" && avText(p.St, e.Args[1]) != "other":
			return "the context of " + avText(p.St, e.Args[1]) + " is used"
		}
	}
	if n != 1 {
		return fmt.Sprintf("it happens %d times", n)
	}
	return ""
}

// bindOrder says what is wrong with the order of events.
func bindOrder(p *APath, kind string, n int) string {
	if p.Panicked {
		return "it panics: " + p.PanicVal.str()
	}
	var got []AV
	var failed AV
	called, ran := 0, 0
	var fnRes, runRes AV
	for _, e := range p.Events {
		if e.Store != nil {
			continue
		}
		switch {
		case strings.HasSuffix(e.Method, ".Bind") || strings.HasSuffix(strings.SplitN(e.Method, "[", 2)[0], "Bind"):
			if failed != nil {
				return "a binder is asked after an error"
			}
			if avText(p.St, e.Recv) != fmt.Sprintf("b%d", len(got)) {
				return fmt.Sprintf("binder %s is asked as number %d", avText(p.St, e.Recv), len(got)+1)
			}
			if len(e.Args) != 1 || avText(p.St, e.Args[0]) != "x0" {
				return "a binder is asked with another context"
			}
			t, _ := p.St.norm(e.Res).(aTuple)
			if len(t) != 2 {
				return "what a binder gives is not known"
			}
			got = append(got, t[0])
			if ev := p.St.norm(t[1]); !isNilAV(ev) {
				failed = ev
			}
		case strings.HasPrefix(e.Method, "dyn:"):
			if failed != nil {
				return "the function is called in spite of an error"
			}
			if len(got) != n || len(e.Args) != n {
				return fmt.Sprintf("the function is called after %d binders", len(got))
			}
			for i, a := range e.Args {
				if !p.is(a, got[i]) {
					return fmt.Sprintf("argument %d is %s instead of %s", i+1, avText(p.St, a), avText(p.St, got[i]))
				}
			}
			called++
			fnRes = e.Res
		case fnRes != nil && e.Recv != nil && p.is(e.Recv, fnRes) || fnRes != nil && len(e.Args) > 0 && p.St.derives(e.Args[len(e.Args)-1], func(v AV) bool { return v.str() == fnRes.str() }):
			ran++
			runRes = e.Res
		}
	}
	r := p.Ret[len(p.Ret)-1]
	switch {
	case failed != nil:
		if !p.is(r, failed) {
			return "the error of a binder is lost"
		}
		return ""
	case called != 1:
		return fmt.Sprintf("the function is called %d times", called)
	case kind == "Call":
		if !p.is(r, fnRes) {
			return "its result is lost"
		}
	case ran != 1 && !isNilAV(p.St.norm(fnRes)):
		return fmt.Sprintf("what the function gives is carried out %d times", ran)
	case ran == 1 && !p.is(r, runRes):
		return "the result is lost"
	}
	return ""
}
