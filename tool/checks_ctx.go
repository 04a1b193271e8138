package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C14",
		Explanation: "Every way of asking a context for the context of something else is interpreted for each kind of target, and what is made is compared, field by field, with its parent. The questions about ancestors are interpreted on chains of up to four known contexts and compared with the answer that the chain dictates; data, raw values and values are looked up with unknown answers at every level. What a context does as a Go context, and what it prints, is checked to go to the Go context and the stream it has.",
		Rules: []RuleDoc{
			{"inherit", "a context made from another carries on what it has", 15},
			{"go", "it behaves as the Go context it wraps", 6},
			{"up", "questions about ancestors are answered by the chain of parents", 60},
			{"nearest", "the nearest context that knows the answer gives it", 8},
			{"print", "what is printed goes to the right stream", 8},
			{"phase", "the phase is the one it was given", 4},
		},
		Run: ruleContext})
}

// lvl describes a context of a chain.
type lvl struct {
	kind  string // Command, Flag, Arg, valueTarget
	name  string
	path  string
	flags []string
	args  []string
}

type ctxChain []lvl

func (ch ctxChain) String() string {
	var s []string
	for _, l := range ch {
		s = append(s, l.path)
	}
	return strings.Join(s, " < ")
}

func (w *World) ctxFieldOf(match func(*types.Var) bool) string {
	cs := w.Type("cli", "Context").Underlying().(*types.Struct)
	for i := 0; i < cs.NumFields(); i++ {
		if match(cs.Field(i)) {
			return cs.Field(i).Name()
		}
	}
	return ""
}

func fieldOfT(t types.Type, name string) types.Type {
	st, _ := deref(t).Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

// kindType finds the target type of the kind; the one that holds values has no exported name.
func (w *World) kindType(kind string) types.Type {
	if kind != "value" {
		if n := w.Type("cli", kind); n != nil {
			return types.NewPointer(n)
		}
		return nil
	}
	_, kinds := w.targetKinds()
	for _, k := range kinds {
		if n, ok := deref(k).(*types.Named); ok && !n.Obj().Exported() {
			return k
		}
	}
	return nil
}

// putChain makes contexts x0 (innermost), x1, ... of the targets t0, t1, ...
func (w *World) putChain(st *aState, ch ctxChain) {
	ct := types.NewPointer(w.Type("cli", "Context"))
	internal := w.ctxFieldOf(func(v *types.Var) bool { return w.isInternalLookup(v.Type()) })
	for i, l := range ch {
		kt := w.kindType(l.kind)
		var parent AV = zeroT(ct)
		if i+1 < len(ch) {
			parent = aPtr{obj: fmt.Sprintf("new:x%d", i+1), t: deref(ct)}
		}
		obj := fmt.Sprintf("new:x%d", i)
		w.putCtx(st, obj, aPtr{obj: fmt.Sprintf("new:t%d", i), t: deref(kt)}, kt, w.timingK("InitialTiming"), parent)
		for _, n := range []string{"Stdin", "Stdout", "Stderr", "FS"} {
			if t := fieldOfT(ct, n); t != nil {
				st.store(aPtr{obj: obj, path: "." + n}, aSym{name: fmt.Sprintf("%s%d", n, i), t: t, nonNil: true})
			}
		}
		if internal != "" {
			st.store(aPtr{obj: obj, path: "." + internal}, aSym{name: fmt.Sprintf("internal%d", i), t: fieldOfT(ct, internal), nonNil: true})
		}
		cs := deref(ct).Underlying().(*types.Struct)
		for k := 0; k < cs.NumFields(); k++ {
			f := cs.Field(k)
			p := aPtr{obj: obj, path: "." + f.Name()}
			switch {
			case TypeStr(f.Type()) == "context.Context":
				st.store(p, aSym{name: fmt.Sprintf("go%d", i), t: f.Type(), nonNil: true})
			case strings.HasSuffix(TypeStr(f.Type()), "CompletionRequest"):
				st.store(p, aSym{name: fmt.Sprintf("request%d", i), t: f.Type()})
			case TypeStr(f.Type()) == "cli.ContextPath":
				st.store(p, zeroT(f.Type()))
			}
		}
		tobj := fmt.Sprintf("new:t%d", i)
		ts := deref(kt).Underlying().(*types.Struct)
		for k := 0; k < ts.NumFields(); k++ {
			f := ts.Field(k)
			switch {
			case strings.EqualFold(f.Name(), "name"):
				st.store(aPtr{obj: tobj, path: "." + f.Name()}, KStr(l.name))
			case f.Name() == "Flags" || f.Name() == "Args":
				names := l.flags
				el := w.kindType("Flag")
				if f.Name() == "Args" {
					names, el = l.args, w.kindType("Arg")
				}
				var es []AV
				for _, n := range names {
					o := fmt.Sprintf("new:%s%d_%s", strings.ToLower(f.Name()[:1]), i, n)
					for _, g := range []string{"Name"} {
						st.store(aPtr{obj: o, path: "." + g}, KStr(n))
					}
					if at := fieldOfT(el, "Aliases"); at != nil {
						st.store(aPtr{obj: o, path: ".Aliases"}, zeroT(at))
					}
					es = append(es, aPtr{obj: o, t: deref(el)})
				}
				st.store(aPtr{obj: tobj, path: "." + f.Name()}, st.namedSlice(fmt.Sprintf("new:list%d%s", i, f.Name()), f.Type(), es...))
			case TypeStr(f.Type()) == "*cli.App":
				if i == len(ch)-1 {
					st.store(aPtr{obj: tobj, path: "." + f.Name()}, aSym{name: "app", t: f.Type(), nonNil: true})
				} else {
					st.store(aPtr{obj: tobj, path: "." + f.Name()}, zeroT(f.Type()))
				}
			}
		}
	}
}

func (w *World) isInternalLookup(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "RawOccurrences" {
			return true
		}
	}
	return false
}

func avText(st *aState, v AV) string {
	v = st.norm(v)
	if t, ok := v.(aIface); ok {
		return avText(st, t.v)
	}
	if isNilAV(v) {
		return "nil"
	}
	if sl, ok := v.(aSlice); ok || strings.HasPrefix(v.str(), "[") {
		_ = sl
		es, whole := st.Elems(v)
		if whole {
			var s []string
			for _, e := range es {
				s = append(s, avText(st, e))
			}
			return "[" + strings.Join(s, " ") + "]"
		}
	}
	return strings.TrimPrefix(strings.Trim(v.str(), `"&`), "new:")
}

// ask interprets a method on the first context of the chain.
func (w *World) ask(f *ssa.Function, ch ctxChain, o AOpts, args ...AV) ([]APath, bool) {
	ct := w.Type("cli", "Context")
	o.Models, o.Reenter, o.Forks, o.Depth = true, true, 8, 25
	s := o.Setup
	o.Setup = func(st *aState) {
		w.putChain(st, ch)
		if s != nil {
			s(st)
		}
	}
	return w.Interp(f, append([]AV{aPtr{obj: "new:x0", t: ct}}, args...), o)
}

func boxed(v AV, t types.Type) AV { return aIface{v: v, t: t} }

func ruleContext(c *Ctx) {
	w := c.W
	n := w.Type("cli", "Context")
	if n == nil || w.kindType("value") == nil {
		c.Missing("inherit", "contexts")
		return
	}
	ct := types.NewPointer(n)
	root := lvl{kind: "Command", name: "app", path: "app", flags: []string{"deep", "both"}, args: []string{"deep", "both"}}
	bare := lvl{kind: "Command", name: "", path: "", flags: []string{"deep"}}
	sub := lvl{kind: "Command", name: "sub", path: "sub", flags: []string{"mid", "both"}, args: []string{"mid", "both"}}
	sub2 := lvl{kind: "Command", name: "leaf", path: "leaf", flags: []string{"own"}, args: []string{"own"}}
	fl := lvl{kind: "Flag", name: "count", path: "--count"}
	short := lvl{kind: "Flag", name: "c", path: "-c"}
	ar := lvl{kind: "Arg", name: "file", path: "<file>"}
	val := lvl{kind: "value", name: "expr", path: "<-expr>"}
	chains := []ctxChain{
		{root}, {sub, root}, {sub2, sub, root}, {sub2, sub, bare}, {bare, bare},
		{fl, root}, {short, sub, root}, {fl, sub2, sub, root},
		{ar, root}, {ar, sub, root}, {val, sub, root}, {val, fl, sub, root}, {ar, val, sub, root},
	}
	m := func(rule, name string) *ssa.Function {
		f := w.method(ct, name)
		if f == nil {
			c.Missing(rule, "Context."+name)
		}
		return f
	}
	idx := func(ch ctxChain, kind string) int {
		for i, l := range ch {
			if l.kind == kind {
				return i
			}
		}
		return -1
	}
	at := func(p string, i int) string {
		if i < 0 {
			return "nil"
		}
		return fmt.Sprintf("%s%d", p, i)
	}
	flags := func(ch ctxChain, from int) []string {
		var out []string
		for i := len(ch) - 1; i >= from; i-- {
			for _, n := range ch[i].flags {
				out = append(out, fmt.Sprintf("f%d_%s", i, n))
			}
		}
		return out
	}
	list := func(s []string) string { return "[" + strings.Join(s, " ") + "]" }
	type q struct {
		name string
		want func(ch ctxChain) string
	}
	isK := func(k ...string) func(ctxChain) string {
		return func(ch ctxChain) string {
			for _, x := range k {
				if ch[0].kind == x {
					return "true"
				}
			}
			return "false"
		}
	}
	qs := []q{
		{"Parent", func(ch ctxChain) string {
			if len(ch) < 2 {
				return "nil"
			}
			return "x1"
		}},
		{"Root", func(ch ctxChain) string { return at("x", len(ch)-1) }},
		{"App", func(ch ctxChain) string { return "app" }},
		{"Command", func(ch ctxChain) string { return at("t", idx(ch, "Command")) }},
		{"Flag", func(ch ctxChain) string { return at("t", idx(ch, "Flag")) }},
		{"Arg", func(ch ctxChain) string { return at("t", idx(ch, "Arg")) }},
		{"IsCommand", isK("Command")}, {"IsFlag", isK("Flag")}, {"IsArg", isK("Arg")},
		{"HasValue", isK("Flag", "Arg", "value")},
		{"Name", func(ch ctxChain) string { return ch[0].path }},
		{"Path", func(ch ctxChain) string {
			var s []string
			for i := len(ch) - 1; i >= 0; i-- {
				if i < len(ch)-1 || ch[i].path != "" {
					s = append(s, ch[i].path)
				}
			}
			return list(s)
		}},
		{"Lineage", func(ch ctxChain) string {
			var s []string
			for i := range ch {
				s = append(s, at("x", i))
			}
			return list(s)
		}},
		{"Flags", func(ch ctxChain) string {
			if ch[0].kind != "Command" {
				return "nil"
			}
			return list(flags(ch, 0))
		}},
		{"PersistentFlags", func(ch ctxChain) string {
			if ch[0].kind != "Command" {
				return "nil"
			}
			return list(flags(ch, 1))
		}},
		{"LocalFlags", func(ch ctxChain) string {
			if ch[0].kind != "Command" {
				return "nil"
			}
			return list(flags(ch[:1], 0))
		}},
		{"Target", func(ch ctxChain) string {
			if ch[0].kind == "value" {
				return ""
			}
			return "t0"
		}},
	}
	for _, q := range qs {
		f := m("up", q.name)
		if f == nil {
			continue
		}
		bad := map[string]string{}
		for _, ch := range chains {
			want := q.want(ch)
			if want == "" && q.name != "Name" {
				continue
			}
			ps, ok := w.ask(f, ch, AOpts{})
			dbgPaths(f, ps, ok)
			msg := ""
			if !ok || len(ps) == 0 {
				msg = "it could not be interpreted"
			}
			for _, p := range ps {
				if p.Panicked {
					msg = "it panics"
					continue
				}
				got := avText(p.St, p.Ret[0])
				if got != want && !(want == "[]" && got == "nil") && !(want == "nil" && got == "[]") {
					msg = fmt.Sprintf("it is %s instead of %s", orNone(got), orNone(want))
				}
			}
			bad[ch.String()] = msg
			c.That(msg == "", "up", q.name+" at "+ch.String(), w.Pos(f.Pos()), "at %s, %s", ch, msg)
		}
	}
	c.ctxLookups(ct, chains)
	c.ctxInherit(ct)
	c.ctxGo(ct)
	c.ctxNearest(ct)
	c.ctxPrint(ct)
	c.ctxPhase(ct)
}

func orNone(s string) string {
	if s == "" {
		return "nothing"
	}
	return s
}

// ctxLookups: a lookup by name finds the nearest flag or argument of that name.
func (c *Ctx) ctxLookups(ct types.Type, chains []ctxChain) {
	w := c.W
	for _, x := range []struct{ m, p string }{{"LookupFlag", "f"}, {"LookupArg", "a"}} {
		f := w.method(ct, x.m)
		if f == nil {
			c.Missing("up", "Context."+x.m)
			continue
		}
		for _, ch := range chains {
			for _, n := range []string{"own", "mid", "deep", "both", "other"} {
				want := "nil"
				for i, l := range ch {
					names := l.flags
					if x.p == "a" {
						names = l.args
					}
					if contains(names, n) && want == "nil" {
						want = fmt.Sprintf("%s%d_%s", x.p, i, n)
					}
				}
				ps, ok := w.ask(f, ch, AOpts{}, boxed(KStr(n), types.Typ[types.String]))
				dbgPaths(f, ps, ok)
				msg := ""
				if !ok || len(ps) == 0 {
					msg = "it could not be interpreted"
				}
				for _, p := range ps {
					if p.Panicked {
						msg = "it panics"
						continue
					}
					got := avText(p.St, p.Ret[0])
					found, known := isTrue(p.St.norm(p.Ret[1]))
					// a value target may have arguments of its own, of any name
					if ch.hasValue() && x.p == "a" && (strings.Contains(got, "t0") || strings.Contains(got, "t1") || strings.Contains(got, "LocalArgs")) {
						continue
					}
					if got != want || !known || found != (want != "nil") {
						msg = fmt.Sprintf("%s is %s instead of %s", n, got, want)
					}
				}
				c.That(msg == "", "up", fmt.Sprintf("%s %s at %s", x.m, n, ch), w.Pos(f.Pos()), "at %s, %s", ch, msg)
			}
		}
	}
}

func (ch ctxChain) hasValue() bool {
	for _, l := range ch {
		if l.kind == "value" {
			return true
		}
	}
	return false
}

// ctxInherit: what a new context has.
func (c *Ctx) ctxInherit(ct types.Type) {
	w := c.W
	root := lvl{kind: "Command", name: "app", path: "app", flags: []string{"x"}, args: []string{"y"}}
	sub := lvl{kind: "Command", name: "sub", path: "sub", flags: []string{"f"}, args: []string{"a"}}
	fl := lvl{kind: "Flag", name: "count", path: "--count"}
	it, _ := w.targetKinds()
	cs := deref(ct).Underlying().(*types.Struct)
	type way struct {
		m    string
		ch   ctxChain
		args []AV
		from int
		of   string
	}
	sym := func(name, kind string) AV {
		return aSym{name: name, t: w.kindType(kind), nonNil: true}
	}
	str := types.Typ[types.String]
	var ways []way
	for _, ch := range []ctxChain{{sub, root}, {root}, {fl, sub, root}} {
		from := 0
		if ch[0].kind != "Command" {
			from = 1
		}
		for _, k := range []string{"Flag", "Arg", "Command"} {
			ways = append(ways, way{"ContextOf", ch, []AV{boxed(sym("given", k), w.kindType(k))}, from, "given"})
		}
		ways = append(ways, way{"ValueContextOf", ch, []AV{KStr("n"), boxed(aSym{name: "given", t: types.NewPointer(types.Typ[types.Int]), nonNil: true}, types.NewPointer(types.Typ[types.Int]))}, 0, "value"})
	}
	ways = append(ways,
		way{"ContextOf", ctxChain{sub, root}, []AV{boxed(KStr("f"), str)}, 0, "f0_f"},
		way{"ContextOf", ctxChain{sub, root}, []AV{boxed(KStr("a"), str)}, 0, "a0_a"},
		way{"ContextOf", ctxChain{sub, root}, []AV{boxed(KStr("x"), str)}, 0, "f1_x"},
		way{"ContextOf", ctxChain{sub, root}, []AV{boxed(KStr("none"), str)}, 0, "nil"},
		way{"ContextOf", ctxChain{sub, root}, []AV{boxed(KStr(""), str)}, 0, "self"},
	)
	for _, y := range ways {
		f := w.method(ct, y.m)
		if f == nil {
			c.Missing("inherit", "Context."+y.m)
			continue
		}
		ps, ok := w.ask(f, y.ch, AOpts{}, y.args...)
		dbgPaths(f, ps, ok)
		msg := ""
		if !ok || len(ps) == 0 {
			msg = "it could not be interpreted"
		}
		for _, p := range ps {
			if p.Panicked {
				msg = "it panics: " + p.PanicVal.str()
				continue
			}
			r := p.St.norm(p.Ret[0])
			if y.of == "nil" || isNilAV(r) {
				if y.of != "nil" || !isNilAV(r) {
					msg = "it is " + avText(p.St, r)
				}
				continue
			}
			if y.of == "self" {
				if avText(p.St, r) != "x0" {
					msg = "it is " + avText(p.St, r)
				}
				continue
			}
			o, isP := r.(aPtr)
			if !isP || !strings.HasPrefix(o.obj, "new:") {
				msg = "what it gives is not known"
				continue
			}
			for i := 0; i < cs.NumFields(); i++ {
				fd := cs.Field(i)
				fp := aPtr{obj: o.obj, path: o.path + "." + fd.Name()}
				got := p.St.norm(p.St.load(fp, fd.Type()))
				want := ""
				switch {
				case fd.Exported() && !fd.Embedded():
					want = fmt.Sprintf("%s%d", fd.Name(), y.from)
				case TypeStr(fd.Type()) == "context.Context":
					want = fmt.Sprintf("go%d", y.from)
				case strings.HasSuffix(TypeStr(fd.Type()), "CompletionRequest"):
					want = fmt.Sprintf("request%d", y.from)
				case types.Identical(fd.Type(), ct):
					want = fmt.Sprintf("x%d", y.from)
				case fd.Name() == w.targetField(it):
					if y.of != "value" {
						want = y.of
					} else if iv, isI := got.(aIface); !isI || !types.Identical(iv.t, w.kindType("value")) {
						msg = "its target is not the value"
					} else if vp, isP := p.St.norm(iv.v).(aPtr); isP {
						in := false
						if r := p.St.mem[vp.obj]; r != nil {
							for _, v := range r.cells {
								in = in || p.St.derives(v, isSym("given"))
							}
						}
						if !in {
							msg = "its target is not the value"
						}
					}
				}
				if want != "" && avText(p.St, got) != want {
					msg = fmt.Sprintf("its %s is %s instead of %s", fd.Name(), avText(p.St, got), want)
				}
			}
		}
		c.That(msg == "", "inherit", fmt.Sprintf("%s(%s %s) at %s", y.m, y.of, typeName(y.args[len(y.args)-1]), y.ch), w.Pos(f.Pos()), "%s at %s: %s", y.m, y.ch, msg)
	}
}

func typeName(v AV) string {
	if b, ok := v.(aIface); ok {
		return TypeStr(b.t)
	}
	return ""
}

// ctxGo: a context as a Go context.
func (c *Ctx) ctxGo(ct types.Type) {
	w := c.W
	ch := ctxChain{{kind: "Command", name: "sub"}, {kind: "Command", name: "app"}}
	key := types.NewStruct(nil, nil)
	for _, x := range []string{"Deadline", "Done", "Err", "Value"} {
		f := w.method(ct, x)
		if f == nil {
			c.Missing("go", "Context."+x)
			continue
		}
		var args []AV
		if x == "Value" {
			args = []AV{boxed(aSym{name: "key", t: key}, key)}
		}
		ps, ok := w.ask(f, ch, AOpts{}, args...)
		dbgPaths(f, ps, ok)
		msg := ""
		if !ok || len(ps) == 0 {
			msg = "it could not be interpreted"
		}
		for _, p := range ps {
			if p.Panicked {
				msg = "it panics"
				continue
			}
			hit := false
			for _, e := range p.Events {
				if strings.HasSuffix(e.Method, "Context."+x) && e.Recv != nil && avText(p.St, e.Recv) == "go0" {
					hit = x != "Value" || len(e.Args) > 0 && p.St.derives(e.Args[len(e.Args)-1], isSym("key"))
					for i, r := range p.Ret {
						var rv AV = e.Res
						if t, ok := p.St.norm(e.Res).(aTuple); ok && i < len(t) {
							rv = t[i]
						}
						if !p.is(r, rv) {
							msg = "the answer is not that of the Go context"
						}
					}
				}
			}
			if !hit {
				msg = "the Go context is not asked"
			}
		}
		c.That(msg == "", "go", x, w.Pos(f.Pos()), "%s", msg)
	}
	if f := w.method(ct, "SetContext"); f == nil {
		c.Missing("go", "Context.SetContext")
	} else {
		for _, by := range []string{"SetContext", "SetContextValue"} {
			f := w.method(ct, by)
			if f == nil {
				c.Missing("go", "Context."+by)
				continue
			}
			var args []AV
			if by == "SetContext" {
				args = []AV{aSym{name: "given", t: f.Signature.Params().At(0).Type(), nonNil: true}}
			} else {
				str := types.Typ[types.String]
				args = []AV{boxed(aSym{name: "key", t: str}, str), boxed(aSym{name: "val", t: str}, str)}
			}
			ps, ok := w.ask(f, ch, AOpts{}, args...)
			dbgPaths(f, ps, ok)
			msg := ""
			if !ok || len(ps) == 0 {
				msg = "it could not be interpreted"
			}
			get := w.method(ct, "Context")
			for _, p := range ps {
				if p.Panicked || !isNilAV(p.St.norm(p.Ret[0])) {
					msg = "it fails"
					continue
				}
				if get == nil {
					continue
				}
				qs, ok := w.Interp(get, []AV{aPtr{obj: "new:x0", t: deref(ct)}}, AOpts{Models: true, Setup: withMem(p.St.mem)})
				if !ok || len(qs) != 1 || qs[0].Panicked {
					msg = "the Go context could not be read"
					continue
				}
				r := qs[0].St.norm(qs[0].Ret[0])
				if by == "SetContext" {
					if r.str() != "given" {
						msg = "the Go context is then " + r.str()
					}
					continue
				}
				hit := false
				for _, e := range p.Events {
					if e.Name() == "context.WithValue" && len(e.Args) == 3 {
						hit = avText(p.St, e.Args[0]) == "go0" && p.St.derives(e.Args[1], isSym("key")) && p.St.derives(e.Args[2], isSym("val")) && r.str() == p.St.norm(e.Res).str()
					}
				}
				if !hit {
					msg = "the Go context is then " + r.str()
				}
			}
			c.That(msg == "", "go", by, w.Pos(f.Pos()), "%s", msg)
		}
	}
	// a context is found in itself
	if f := w.Func("cli.FromContext"); f == nil {
		c.Missing("go", "FromContext")
	} else {
		gt := f.Signature.Params().At(0).Type()
		for _, nilC := range []bool{false, true} {
			var arg AV = boxed(aPtr{obj: "new:x0", t: deref(ct)}, ct)
			want := "x0"
			if nilC {
				arg, want = zeroT(gt), "nil"
			}
			ps, ok := w.Interp(f, []AV{arg}, AOpts{Models: true, Setup: func(st *aState) { w.putChain(st, ch) }})
			dbgPaths(f, ps, ok)
			msg := ""
			if !ok || len(ps) == 0 {
				msg = "it could not be interpreted"
			}
			for _, p := range ps {
				if p.Panicked {
					msg = "it panics"
				} else if got := avText(p.St, p.Ret[0]); got != want {
					msg = "it is " + got
				}
			}
			c.That(msg == "", "go", "FromContext of "+want, w.Pos(f.Pos()), "%s", msg)
		}
	}
}

// ctxNearest: lookups whose answers are not known.
func (c *Ctx) ctxNearest(ct types.Type) {
	w := c.W
	str := types.Typ[types.String]
	mk := func(n int) ctxChain {
		var ch ctxChain
		for i := 0; i < n; i++ {
			ch = append(ch, lvl{kind: "Command", name: fmt.Sprintf("c%d", i)})
		}
		return ch
	}
	for depth := 1; depth <= 3; depth++ {
		if f := w.method(ct, "LookupData"); f == nil {
			c.Missing("nearest", "Context.LookupData")
		} else {
			ps, ok := w.ask(f, mk(depth), AOpts{Inline: func(g *ssa.Function, st *aState, args []AV) bool {
				return g.Name() != "LookupData" || g == f
			}}, KStr("key"))
			dbgPaths(f, ps, ok)
			msg := ""
			if !ok || len(ps) == 0 {
				msg = "it could not be interpreted"
			}
			for _, p := range ps {
				if p.Panicked {
					msg = "it panics"
					continue
				}
				var tup [][]AV
				seen := -1
				for _, e := range p.Events {
					if !strings.HasSuffix(strings.SplitN(e.Name(), "(", 2)[0], "LookupData") && !strings.HasSuffix(e.Name(), "LookupData") {
						continue
					}
					a := append([]AV{}, e.Args...)
					if e.Recv != nil {
						a = append([]AV{e.Recv}, a...)
					}
					t, _ := p.St.norm(e.Res).(aTuple)
					if len(a) == 2 && avText(p.St, a[0]) == fmt.Sprintf("t%d", seen+1) && avText(p.St, a[1]) == "key" && len(t) == 2 {
						seen++
						tup = append(tup, t)
					} else {
						msg = "it asks " + avText(p.St, a[0])
					}
				}
				found, kn := isTrue(p.St.norm(p.Ret[1]))
				if !kn || len(tup) == 0 {
					msg = "it asks nobody"
					continue
				}
				for i, t := range tup {
					y, k := isTrue(p.St.norm(t[1]))
					last := i == len(tup)-1
					switch {
					case !k:
						msg = "an answer is not looked at"
					case y && !last:
						msg = "it goes on after an answer"
					case y && (!found || !p.is(p.Ret[0], t[0])):
						msg = "the answer is not returned"
					case !y && last && (found || len(tup) < depth):
						msg = fmt.Sprintf("it stops after %d of %d contexts", len(tup), depth)
					}
				}
			}
			c.That(msg == "", "nearest", fmt.Sprintf("data of %d contexts", depth), w.Pos(f.Pos()), "%s", msg)
		}
		for _, n := range []string{"Raw", "RawOccurrences"} {
			f := w.method(ct, n)
			if f == nil {
				c.Missing("nearest", "Context."+n)
				continue
			}
			ps, ok := w.ask(f, mk(depth), AOpts{}, boxed(KStr("key"), str))
			dbgPaths(f, ps, ok)
			msg := ""
			if !ok || len(ps) == 0 {
				msg = "it could not be interpreted"
			}
			for _, p := range ps {
				if p.Panicked {
					msg = "it panics"
					continue
				}
				var last AV
				k := 0
				for _, e := range p.Events {
					if !strings.HasPrefix(e.Method, "invoke:") || e.Recv == nil || !strings.HasPrefix(avText(p.St, e.Recv), "internal") {
						continue
					}
					if !strings.HasSuffix(e.Method, "."+n) || avText(p.St, e.Recv) != fmt.Sprintf("internal%d", k) || len(e.Args) != 1 || avText(p.St, e.Args[0]) != "key" {
						msg = fmt.Sprintf("it asks %s %s", avText(p.St, e.Recv), e.Method)
					}
					k++
					last = e.Res
				}
				if k == 0 {
					msg = "it asks nobody"
					continue
				}
				r := p.St.norm(p.Ret[0])
				if p.is(r, last) {
					continue
				}
				if es, whole := p.St.Elems(r); k == depth && (isNilAV(r) || whole && len(es) == 0) {
					continue
				}
				msg = fmt.Sprintf("after %d of %d contexts it gives %s", k, depth, r.str())
			}
			c.That(msg == "", "nearest", fmt.Sprintf("%s of %d contexts", n, depth), w.Pos(f.Pos()), "%s", msg)
		}
	}
	// values: a child's lookup falls back on its parent's
	for _, k := range []string{"Command", "Flag", "Arg"} {
		cof, val := w.method(ct, "ContextOf"), w.method(ct, "Value")
		if cof == nil || val == nil {
			c.Missing("nearest", "Context.Value")
			continue
		}
		lc := w.ctxFieldOf(func(v *types.Var) bool {
			it, ok := v.Type().Underlying().(*types.Interface)
			return ok && it.NumMethods() == 1 && !v.Exported()
		})
		ps, ok := w.ask(cof, mk(1), AOpts{Setup: func(st *aState) {
			if lc != "" {
				st.store(aPtr{obj: "new:x0", path: "." + lc}, aSym{name: "lookup0", t: fieldOfT(ct, lc), nonNil: true})
			}
		}}, boxed(aSym{name: "given", t: w.kindType(k), nonNil: true}, w.kindType(k)))
		msg := ""
		if !ok || len(ps) == 0 || lc == "" {
			msg = "it could not be interpreted"
		}
		asked := false
		for _, p := range ps {
			if p.Panicked {
				continue
			}
			qs, ok := w.Interp(val, []AV{p.St.norm(p.Ret[0]), boxed(KStr("key"), str)}, AOpts{Models: true, Reenter: true, Forks: 8, Depth: 20, MaxPaths: 4000, Setup: withMem(p.St.mem)})
			dbgPaths(val, qs, ok)
			if !ok {
				msg = "it could not be interpreted"
			}
			for _, q := range qs {
				if q.Panicked {
					continue
				}
				up := false
				for _, e := range q.Events {
					if e.Recv != nil && (avText(q.St, e.Recv) == "lookup0" || avText(q.St, e.Recv) == "internal0") {
						up = true
					}
				}
				asked = asked || up
				if isNilAV(q.St.norm(q.Ret[0])) && !up {
					msg = "nothing is found without asking the parent"
				}
			}
		}
		if msg == "" && !asked {
			msg = "the parent is never asked"
		}
		c.That(msg == "", "nearest", "value below "+k, w.Pos(val.Pos()), "%s", msg)
	}
}

// ctxPrint: where output goes.
func (c *Ctx) ctxPrint(ct types.Type) {
	w := c.W
	ch := ctxChain{{kind: "Command", name: "app"}}
	for _, n := range []string{"Print", "Println", "Printf", "Fprint", "Fprintln", "Fprintf"} {
		f := w.method(ct, n)
		if f == nil {
			c.Missing("print", "Context."+n)
			continue
		}
		to := strings.HasPrefix(n, "F")
		kind := strings.TrimPrefix(strings.TrimPrefix(n, "F"), "P")
		kind = strings.TrimPrefix(kind, "p")
		for _, nilW := range []bool{false, true} {
			if nilW && !to {
				continue
			}
			var args []AV
			want := "Stdout0"
			for i := 0; i < f.Signature.Params().Len(); i++ {
				pt := f.Signature.Params().At(i).Type()
				switch {
				case i == 0 && to && nilW:
					args, want = append(args, zeroT(pt)), "Stderr0"
				case i == 0 && to:
					args, want = append(args, aSym{name: "given", t: pt, nonNil: true}), "given"
				default:
					args = append(args, aSym{name: fmt.Sprintf("a%d", i), t: pt, nonNil: true})
				}
			}
			ps, ok := w.ask(f, ch, AOpts{}, args...)
			dbgPaths(f, ps, ok)
			msg := ""
			if !ok || len(ps) == 0 {
				msg = "it could not be interpreted"
			}
			for _, p := range ps {
				if p.Panicked {
					msg = "it panics"
					continue
				}
				hit := false
				for _, e := range p.Events {
					en := e.Name()
					if !strings.HasPrefix(en, "fmt.Fp") && !strings.HasPrefix(en, "io.WriteString") {
						continue
					}
					if got := avText(p.St, e.Args[0]); got != want {
						msg = "it writes to " + got + " instead of " + want
						continue
					}
					hit = true
					if en != "fmt.Fp"+kind {
						msg = "it writes in the manner of " + en
					}
					off := 0
					if to {
						off = 1
					}
					for i, a := range e.Args[1:] {
						if avText(p.St, a) != fmt.Sprintf("a%d", i+off) {
							msg = "it writes something else than it is given"
						}
					}
				}
				if !hit && msg == "" {
					msg = "nothing is written"
				}
			}
			key := n
			if nilW {
				key += " to nil"
			}
			c.That(msg == "", "print", key, w.Pos(f.Pos()), "%s", msg)
		}
	}
	for _, n := range []string{"SetColor", "AutodetectColor"} {
		f := w.method(ct, n)
		if f == nil {
			c.Missing("print", "Context."+n)
			continue
		}
		var args []AV
		if f.Signature.Params().Len() > 0 {
			args = []AV{aSym{name: "on", t: types.Typ[types.Bool]}}
		}
		ps, ok := w.ask(f, ch, AOpts{}, args...)
		msg := ""
		if !ok || len(ps) == 0 {
			msg = "it could not be interpreted"
		}
		for _, p := range ps {
			hit := map[string]bool{}
			for _, e := range p.Events {
				if e.Recv == nil || e.Store != nil {
					continue
				}
				want := "SetColorCapable"
				if n != "SetColor" {
					want = "ResetColorCapable"
				}
				if strings.HasSuffix(e.Method, "."+want) && (len(e.Args) == 0 || avText(p.St, e.Args[0]) == "on") {
					hit[avText(p.St, e.Recv)] = true
				} else {
					msg = "it calls " + e.Method
				}
			}
			if p.Panicked || !hit["Stdout0"] || !hit["Stderr0"] {
				msg = "not both streams are set"
			}
		}
		c.That(msg == "", "print", n, w.Pos(f.Pos()), "%s", msg)
	}
}

// ctxPhase: which phase it is.
func (c *Ctx) ctxPhase(ct types.Type) {
	w := c.W
	_, timings := w.timingGrid()
	for name, tm := range map[string]string{"IsInitializing": "InitialTiming", "IsBefore": "BeforeTiming", "IsAction": "ActionTiming", "IsAfter": "AfterTiming"} {
		f := w.method(ct, name)
		if f == nil {
			c.Missing("phase", "Context."+name)
			continue
		}
		msg := ""
		for _, t := range timings {
			if w.constVal(t) != w.constVal("InitialTiming") && w.constVal(t) != w.constVal("BeforeTiming") && w.constVal(t) != w.constVal("ActionTiming") && w.constVal(t) != w.constVal("AfterTiming") {
				continue
			}
			ps, ok := w.Interp(f, []AV{aPtr{obj: "new:x0", t: deref(ct)}}, AOpts{Models: true, Setup: func(st *aState) {
				cmd := w.kindType("Command")
				w.putCtx(st, "new:x0", aSym{name: "t", t: cmd, nonNil: true}, cmd, w.timingK(t), zeroT(ct))
			}})
			if !ok || len(ps) == 0 {
				msg = "it could not be interpreted"
			}
			for _, p := range ps {
				y, k := false, false
				if !p.Panicked {
					y, k = isTrue(p.St.norm(p.Ret[0]))
				}
				if !k || y != (w.constVal(t) == w.constVal(tm)) {
					msg = fmt.Sprintf("at %s it is %v", t, y)
				}
			}
		}
		c.That(msg == "", "phase", name, w.Pos(f.Pos()), "%s", msg)
	}
}

// is: the values are the same on the path.
func (p *APath) is(a, b AV) bool {
	if a == nil || b == nil {
		return false
	}
	a, b = p.St.norm(a), p.St.norm(b)
	return isNilAV(a) && isNilAV(b) || avText(p.St, a) == avText(p.St, b)
}
