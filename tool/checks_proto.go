package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C17",
		Explanation: "A prototype that defines one attribute is interpreted against each kind of target, once with the attribute blank and once with it defined, for every attribute the prototype has. Afterwards a blank attribute has the prototype's value, a defined one keeps its own, merged ones hold both, no other attribute of the target is written, and nothing panics. A prototype that defines nothing writes nothing. Where set-up has been prevented nothing is written at all.",
		Rules: []RuleDoc{
			{"fill", "a blank attribute takes the prototype's, a defined one is kept", 50},
			{"merge", "data, options, variables and aliases are merged", 12},
			{"nothing", "a prototype that defines nothing changes nothing", 4},
			{"prevented", "where set-up is prevented nothing is changed", 4},
			{"value", "a value is told what the prototype defines, and nothing else", 6},
			{"setup", "the prototype's own set-up is carried out", 1},
		},
		Run: ruleProto})
}

// protoRun interprets the prototype on a target.
func (w *World) protoRun(ex *ssa.Function, proto AV, t types.Type, it *types.Interface, cells map[string]AV, prevented bool, op ...*ssa.Function) ([]APath, bool) {
	ct := types.NewPointer(w.Type("cli", "Context"))
	ctx := aSym{name: "ctx", t: ct, nonNil: true}
	cs := w.Type("cli", "Context").Underlying().(*types.Struct)
	return w.Interp(ex, []AV{proto, aIface{v: ctx, t: ct}}, AOpts{
		Depth: 40, Reenter: true, MaxPaths: 3000, MaxSteps: 3000000,
		Setup: func(st *aState) {
			w.onTarget(it, t)(st)
			for i := 0; i < cs.NumFields(); i++ {
				if types.Identical(cs.Field(i).Type(), ct) {
					st.store(aPtr{obj: "*ctx", path: "." + cs.Field(i).Name()}, zeroT(ct))
				}
			}
			for k, v := range cells {
				st.store(aPtr{obj: "*target", path: k}, v)
			}
			w.setFlags(st, t, prevented)
		},
		Inline: func(g *ssa.Function, st *aState, args []AV) bool {
			for _, o := range op {
				if g == o {
					return false
				}
			}
			return CalleeName(g) != "cli.FromContext" && g.Name() != "SkipImplicitSetup"
		},
		Result: func(e *AEvent, st *aState) (AV, bool) {
			if e.Fn != nil && CalleeName(e.Fn) == "cli.FromContext" {
				return ctx, true
			}
			if e.Fn != nil && e.Fn.Name() == "SkipImplicitSetup" {
				return KBool(prevented), true
			}
			return nil, false
		},
	})
}

// setFlags makes the target's internal flags known.
func (w *World) setFlags(st *aState, t types.Type, prevented bool) {
	if s, ok := deref(t).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			in, ok := f.Type().Underlying().(*types.Struct)
			if !ok || !f.Embedded() {
				continue
			}
			for j := 0; j < in.NumFields(); j++ {
				if b := basic(in.Field(j).Type()); b != nil && b.Info()&types.IsInteger != 0 {
					st.store(aPtr{obj: "*target", path: "." + f.Name() + "." + in.Field(j).Name()}, KInt(0, in.Field(j).Type()))
				}
			}
		}
	}
}

func ruleProto(c *Ctx) {
	w := c.W
	pt := w.Type("cli", "Prototype")
	it, kinds := w.targetKinds()
	if pt == nil || it == nil {
		c.Missing("fill", "the prototype")
		return
	}
	ex := w.method(pt, "Execute")
	if ex == nil {
		c.Missing("fill", "what a prototype does")
		return
	}
	ps := pt.Underlying().(*types.Struct)
	where := w.Pos(ex.Pos())
	var setup *ssa.Function
	if s := w.Type("cli", "Setup"); s != nil {
		setup = w.method(s, "Execute")
	}
	for _, t := range kinds {
		ts := deref(t).Underlying().(*types.Struct)
		own := false
		for i := 0; i < ts.NumFields(); i++ {
			own = own || ts.Field(i).Name() == "HelpText"
		}
		// nothing defined
		rs, ok := w.protoRun(ex, aAgg{t: pt, over: map[string]AV{}}, t, it, nil, false)
		dbgPaths(ex, rs, ok)
		bad := ""
		if !ok || len(rs) == 0 {
			bad = "it could not be interpreted"
		}
		for _, p := range rs {
			if p.Panicked {
				bad = "it panics: " + p.PanicVal.str()
			}
			for _, s := range p.stored("*target") {
				if v := p.St.norm(s.val).str(); v != "*target"+s.path && !strings.Contains(v, "*target"+s.path+" |") && !unchanged(p.St, s, "*target") {
					bad = "it sets " + strings.TrimPrefix(s.path, ".") + " to " + v
				}
			}
			for _, e := range p.Events {
				if strings.HasPrefix(e.Method, "invoke:interface") && strings.Contains(e.Method, ".Set") {
					bad = "it calls " + e.Method[strings.LastIndex(e.Method, ".")+1:] + " of the value"
				}
			}
		}
		c.That(bad == "", "nothing", TypeStr(t), where, "%s", bad)
		// everything defined, set-up prevented
		all := map[string]AV{}
		for i := 0; i < ps.NumFields(); i++ {
			f := ps.Field(i)
			all["."+f.Name()] = aSym{name: "given" + f.Name(), t: f.Type(), nonNil: true}
		}
		rs, ok = w.protoRun(ex, aAgg{t: pt, over: all}, t, it, nil, true)
		bad = ""
		if !ok {
			bad = "it could not be interpreted"
		}
		for _, p := range rs {
			for _, s := range p.stored("*target") {
				bad = "it sets " + strings.TrimPrefix(s.path, ".")
			}
			for _, e := range p.Events {
				if e.Store == nil && (strings.Contains(e.Method, ".Set") || strings.Contains(e.Method, ".set") || e.Fn == setup && setup != nil || e.Fn != nil && strings.HasSuffix(CalleeName(e.Fn), "Context).act")) {
					bad = "it calls " + e.Name()
				}
				if e.Fn != nil && strings.HasPrefix(CalleeName(e.Fn), "maps.") {
					bad = "it calls " + e.Name()
				}
			}
		}
		c.That(bad == "", "prevented", TypeStr(t), where, "%s", bad)
		for i := 0; i < ps.NumFields(); i++ {
			f := ps.Field(i)
			if st, ok := f.Type().Underlying().(*types.Struct); ok && st != nil {
				continue // the set-up, below
			}
			if !own {
				c.protoValue(ex, t, it, pt, f, where)
				continue
			}
			var fl *types.Var
			for j := 0; j < ts.NumFields(); j++ {
				if ts.Field(j).Name() == f.Name() && types.Identical(ts.Field(j).Type(), f.Type()) {
					fl = ts.Field(j)
				}
			}
			if fl == nil {
				continue
			}
			c.protoField(ex, t, it, pt, f, where)
		}
	}
	// the set-up
	if setup != nil {
		st := w.Type("cli", "Setup")
		fld := ""
		for i := 0; i < ps.NumFields(); i++ {
			if types.Identical(ps.Field(i).Type(), st) {
				fld = ps.Field(i).Name()
			}
		}
		if fld == "" {
			c.Missing("setup", "the prototype's set-up")
			return
		}
		for _, t := range kinds {
			rs, ok := w.protoRun(ex, aAgg{t: pt, over: map[string]AV{"." + fld: aSym{name: "given", t: st}}}, t, it, nil, false, setup)
			bad := ""
			if !ok {
				bad = "it could not be interpreted"
			}
			for _, p := range rs {
				n := 0
				failed := false
				for _, e := range p.Events {
					if e.Fn == setup {
						n++
						if !p.St.derives(e.Args[0], isSym("given")) {
							bad = "another set-up is carried out"
						}
					}
				}
				if len(p.Ret) == 1 && !isNilAV(p.St.norm(p.Ret[0])) && n == 0 {
					failed = true
				}
				if n != 1 && !failed && !p.Panicked {
					bad = fmt.Sprintf("the set-up is carried out %d times", n)
				}
			}
			c.That(bad == "", "setup", TypeStr(t), where, "%s", bad)
		}
	}
}

// unchanged: what is stored is what was there (a merge with nothing).
func unchanged(st *aState, s aWrite, obj string) bool {
	v := st.norm(s.val)
	if y, ok := v.(aSym); ok {
		for _, d := range y.deps {
			if d.str() == obj+s.path {
				return true
			}
		}
		if strings.HasPrefix(y.name, "("+obj+s.path+" ") || y.name == obj+s.path {
			return true
		}
	}
	if sl, ok := v.(aSlice); ok && sl.n == 0 {
		return st.derives(v, isSym(obj+s.path)) || len(sl.tail) == 0
	}
	// the blank is stored where it was blank
	if t := typeOfAV(v); t != nil && st.norm(aSym{name: obj + s.path, t: t}).str() == v.str() {
		return true
	}
	for k, b := range st.bindS {
		if y, kn := isTrue(b); kn && y && (k == "("+v.str()+" == "+obj+s.path+")" || k == "("+obj+s.path+" == "+v.str()+")") {
			return true
		}
	}
	return false
}

func (c *Ctx) protoField(ex *ssa.Function, t types.Type, it *types.Interface, pt types.Type, f *types.Var, where string) {
	w := c.W
	path := "." + f.Name()
	given := AV(aSym{name: "given", t: f.Type(), nonNil: true})
	old := AV(aSym{name: "old", t: f.Type(), nonNil: true})
	rule := "fill"
	b := basic(f.Type())
	switch f.Type().Underlying().(type) {
	case *types.Slice, *types.Map:
		rule = "merge"
	case *types.Basic:
		if b.Info()&types.IsString != 0 {
			old, given = KStr("old"), KStr("given")
		}
		if b.Info()&types.IsInteger != 0 {
			rule = "merge"
			old, given = KInt(4, f.Type()), KInt(32, f.Type())
		}
	}
	for _, blank := range []bool{true, false} {
		cell := old
		what := "defined"
		if blank {
			cell, what = zeroAV(f.Type()), "blank"
		}
		if cell == nil {
			cell = zeroT(f.Type())
		}
		rs, ok := w.protoRun(ex, aAgg{t: pt, over: map[string]AV{path: given}}, t, it, map[string]AV{path: cell}, false)
		dbgPaths(ex, rs, ok)
		key := fmt.Sprintf("%s %s, %s", TypeStr(t), f.Name(), what)
		bad := ""
		if !ok || len(rs) == 0 {
			bad = "it could not be interpreted"
		}
		done := 0
		for _, p := range rs {
			// what is there already is neither nil nor blank
			if v, k := p.holds(`""`, "old"); k && v {
				continue
			}
			if p.Panicked {
				bad = "it panics: " + p.PanicVal.str()
				continue
			}
			done++
			for _, s := range p.stored("*target") {
				if s.path != path && !strings.HasPrefix(s.path, path) && !unchanged(p.St, s, "*target") && basic(typeOfAV(s.val)) == nil {
					bad = "it also sets " + strings.TrimPrefix(s.path, ".")
				}
			}
			v := p.St.norm(p.St.load(aPtr{obj: "*target", path: path}, f.Type()))
			isG := func(x AV) bool { return isSym("given")(x) || x.str() == KStr("given").str() }
			isO := func(x AV) bool { return isSym("old")(x) || x.str() == KStr("old").str() }
			touched := func(is func(AV) bool) bool {
				if p.St.derives(v, is) {
					return true
				}
				// merged in place
				for _, e := range p.Events {
					if e.Store != nil && e.Recv != nil && e.Recv.str() == v.str() && p.St.derives(e.Val, is) {
						return true
					}
					if e.Fn != nil && strings.HasPrefix(CalleeName(e.Fn), "maps.") && len(e.Args) == 2 && is(p.St.norm(e.Args[1])) && (p.St.derives(e.Args[0], isO) || e.Args[0].str() == v.str()) {
						return true
					}
				}
				return false
			}
			switch {
			case rule == "fill" && blank && !isG(v):
				bad = "it ends up as " + v.str()
			case rule == "fill" && !blank && !isO(v):
				bad = "it is overwritten with " + v.str()
			case rule == "merge" && b != nil:
				want := "36"
				if blank {
					want = "32"
				}
				if k, _ := constOf(p.St, v); k != want {
					bad = "the options are not united: " + v.str()
				}
			case rule == "merge" && !touched(isG):
				if m, isMap := v.(aMap); isMap {
					if r := p.St.mem[m.obj]; r != nil && len(r.order) > 0 {
						continue
					}
				}
				if _, isMap := f.Type().Underlying().(*types.Map); isMap && p.emptied("given") {
					continue
				}
				bad = "it does not hold what the prototype has: " + v.str()
			case rule == "merge" && !blank && !p.St.derives(v, isO):
				bad = "it does not hold what it had: " + v.str()
			}
		}
		if done == 0 && bad == "" {
			bad = "there is no way through it"
		}
		c.That(bad == "", rule, key, where, "%s", bad)
	}
}

// emptied: the path assumed the map or slice to be empty.
func (p *APath) emptied(name string) bool {
	for k, v := range p.St.bindS {
		if b, kn := isTrue(v); strings.Contains(k, name) && (strings.HasPrefix(k, "len(") && v.str() == "0" || kn && !b && (strings.HasPrefix(k, "more(") || strings.Contains(k, "more(") || strings.HasPrefix(k, "(0 < len("))) {
			return true
		}
	}
	return false
}

func typeOfAV(v AV) types.Type {
	switch x := v.(type) {
	case aConst:
		return x.t
	case aSym:
		return x.t
	case aPre:
		return x.t
	}
	return nil
}

// protoValue: the target stands for a value, which is told through its own setters.
func (c *Ctx) protoValue(ex *ssa.Function, t types.Type, it *types.Interface, pt types.Type, f *types.Var, where string) {
	w := c.W
	if w.method(t, "set"+f.Name()) == nil && w.method(t, "Set"+f.Name()) == nil {
		return
	}
	given := AV(aSym{name: "given", t: f.Type(), nonNil: true})
	rs, ok := w.protoRun(ex, aAgg{t: pt, over: map[string]AV{"." + f.Name(): given}}, t, it, nil, false)
	dbgPaths(ex, rs, ok)
	hit, bad := 0, ""
	if !ok {
		bad = "it could not be interpreted"
	}
	for _, p := range rs {
		for _, e := range p.Events {
			if e.Store != nil || !strings.HasPrefix(e.Method, "invoke:") {
				continue
			}
			n := e.Method[strings.LastIndex(e.Method, ".")+1:]
			if !strings.HasPrefix(n, "Set") {
				continue
			}
			if n != "Set"+f.Name() {
				bad = "it calls " + n + " of the value"
				continue
			}
			for _, a := range e.Args {
				if p.St.derives(a, isSym("given")) {
					hit++
				}
			}
		}
	}
	if hit == 0 && bad == "" && f.Name() != "Completion" {
		bad = "the value is not told"
	}
	c.That(bad == "", "value", "value "+f.Name(), where, "%s", bad)
}
