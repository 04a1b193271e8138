package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func dbgPaths(f *ssa.Function, ps []APath, ok bool) {
	if os.Getenv("JC_DBG") == "" || os.Getenv("JC_DBG") != "1" && !strings.Contains(FName(f), os.Getenv("JC_DBG")) {
		return
	}
	fmt.Println("==", FName(f), ok, len(ps))
	for _, p := range ps {
		fmt.Print("  path")
		if p.Panicked {
			fmt.Print(" PANIC")
		}
		for _, e := range p.Events {
			fmt.Print(" | ", e.Name())
			if e.Store != nil {
				fmt.Print("store ", e.Store.str(), "=", e.Val.str())
				continue
			}
			fmt.Print("(")
			for _, a := range e.Args {
				fmt.Print(p.St.norm(a).str(), ",")
			}
			fmt.Print(")")
		}
		fmt.Print(" -> ")
		for _, r := range p.Ret {
			fmt.Print(p.St.norm(r).str(), " ")
		}
		if os.Getenv("JC_BIND") != "" {
			for k, v := range p.St.bindS {
				fmt.Print("\n        ", k, " := ", v.str())
			}
		}
		fmt.Println()
	}
}

func init() {
	register(&Check{ID: "C16",
		Explanation: "Every typed accessor of every lookup family is interpreted with an unknown name: it reads exactly once, under the name it was given, and hands back what it read with its own type. Each kind of name (text, rune, flag, arg, position) is followed to the text that is looked up. The functions that find a flag, arg or sub-command by name return an element only when its name or one of its aliases equals the name, and give up only after comparing every element. A lookup that fails in the present scope continues in the enclosing one with the same name and returns what that gives; one that succeeds does not.",
		Rules: []RuleDoc{
			{"accessor", "an accessor reads the name it was given, once, and returns what it read", 70},
			{"name", "each kind of name is looked up by its own text", 15},
			{"match", "an item is found by its name or alias, and only then", 6},
			{"nearest", "the present scope is asked first, then the enclosing one, for the same name", 6},
			{"alias", "a value is read by the name and by each alias of its flag, and the nearest one wins", 8},
			{"about", "what is said of a name is said of the item that has it", 2},
		},
		Run: func(c *Ctx) {
			if os.Getenv("JC_F") != "" {
				f := c.W.Func(os.Getenv("JC_F"))
				ps, ok := c.W.Interp(f, nil, AOpts{})
				dbgPaths(f, ps, ok)
				return
			}
			ruleAccessors(c)
			ruleNameKinds(c)
			ruleMatch(c)
			ruleNearest(c)
			ruleAbout(c)
			ruleAlias(c, "alias", true)
		}})
}

// lookupFamilies lists the types that declare the typed accessors themselves.
func (w *World) lookupFamilies() (*types.Interface, []types.Type) {
	it := w.Type("cli", "Lookup")
	if it == nil {
		return nil, nil
	}
	iface, _ := it.Underlying().(*types.Interface)
	if iface == nil {
		return nil, nil
	}
	n := map[string]int{}
	ty := map[string]types.Type{}
	for _, f := range w.Funcs {
		r := f.Signature.Recv()
		if r == nil || f.Pkg == nil || f.Synthetic != "" {
			continue
		}
		for i := 0; i < iface.NumMethods(); i++ {
			m := iface.Method(i)
			if m.Name() == f.Name() && types.Identical(m.Type().(*types.Signature).Params(), f.Signature.Params()) && types.Identical(m.Type().(*types.Signature).Results(), f.Signature.Results()) {
				k := TypeStr(r.Type())
				n[k]++
				ty[k] = r.Type()
			}
		}
	}
	var out []types.Type
	for _, k := range keysOf(ty) {
		if n[k] >= 10 && types.AssignableTo(ty[k], it) {
			out = append(out, ty[k])
		}
	}
	return iface, out
}

func (w *World) method(t types.Type, name string) *ssa.Function {
	ms := w.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func paramSym(f *ssa.Function, i int) string { return "param:" + paramKey(f.Params[i]) }

// isSym: the value is the unknown of that name, as it is.
func isSym(name string) func(AV) bool {
	return func(v AV) bool {
		if i, ok := v.(aIface); ok {
			v = i.v
		}
		y, ok := v.(aSym)
		return ok && y.name == name
	}
}

func ruleAccessors(c *Ctx) {
	w := c.W
	it, fams := w.lookupFamilies()
	if it == nil {
		c.Missing("accessor", "the interface of typed accessors")
		return
	}
	for _, t := range fams {
		val := w.method(t, "Value")
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			f := w.method(t, m.Name())
			sig := m.Type().(*types.Signature)
			if f == nil || m.Name() == "Value" || sig.Results().Len() != 1 || f.Synthetic != "" {
				continue
			}
			key, where := FName(f), w.Pos(f.Pos())
			want := sig.Results().At(0).Type()
			held := aSym{name: "held", t: want, nonNil: true}
			ps, ok := w.Interp(f, nil, AOpts{
				Inline: func(g *ssa.Function, st *aState, args []AV) bool { return g != val },
				Result: func(e *AEvent, st *aState) (AV, bool) {
					if e.Fn == val {
						return aIface{v: held, t: want}, true
					}
					return nil, false
				},
			})
			dbgPaths(f, ps, ok)
			if !ok || len(ps) == 0 {
				c.Bad("accessor", key, where, "the ways through the accessor could not be enumerated")
				continue
			}
			bad := ""
			for _, p := range ps {
				n := 0
				for _, e := range p.Events {
					if e.Fn != val {
						continue
					}
					n++
					if !isSym(paramSym(f, 0))(p.St.norm(e.Args[0])) {
						bad = "it reads another lookup than its own"
					}
					if !isSym(paramSym(f, 1))(p.St.norm(e.Args[1])) {
						bad = "it reads the name " + p.St.norm(e.Args[1]).str() + " and not the one it was given"
					}
				}
				switch {
				case bad != "":
				case p.Panicked:
					bad = "it panics though the value has its type"
				case n == 0:
					bad = "it does not read the value"
				case !isSym("held")(p.St.norm(p.Ret[0])):
					bad = "it returns " + p.St.norm(p.Ret[0]).str() + " and not the value it read"
				}
			}
			c.That(bad == "", "accessor", key, where, "%s", bad)
		}
	}
}

// nameKinds are the kinds of name, and how to recognise the text each stands for.
func (w *World) nameKinds() []nameKind {
	s := types.Typ[types.String]
	out := []nameKind{
		{"text", aIface{v: aSym{name: "text", t: s}, t: s}, isSym("text")},
		{"rune", aIface{v: aSym{name: "rune", t: types.Typ[types.Rune]}, t: types.Typ[types.Rune]}, isSym("rune")},
	}
	for _, n := range []string{"Flag", "Arg"} {
		t := w.Type("cli", n)
		if t == nil {
			continue
		}
		pt := types.NewPointer(t)
		sym := strings.ToLower(n)
		out = append(out, nameKind{sym, aIface{v: aSym{name: sym, t: pt, nonNil: true}, t: pt}, isSym("*" + sym + ".Name")})
	}
	return out
}

type nameKind struct {
	what string
	v    AV
	is   func(AV) bool
}

func ruleNameKinds(c *Ctx) {
	w := c.W
	_, fams := w.lookupFamilies()
	kinds := w.nameKinds()
	for _, t := range fams {
		ks := kinds
		if TypeStr(t) == "*cli.Context" {
			ks = append(ks[:len(ks):len(ks)], nameKind{"position", aIface{v: aSym{name: "pos", t: types.Typ[types.Int]}, t: types.Typ[types.Int]}, func(v AV) bool {
				y, ok := v.(aSym)
				return ok && strings.HasSuffix(y.name, ".Name") && strings.Contains(y.name, "pos]") || ok && strings.Contains(y.name, "pos)]")
			}})
		}
		for _, m := range []string{"Value", "Interface"} {
			f := w.method(t, m)
			if f == nil {
				continue
			}
			for _, k := range ks {
				if k.what == "position" && m != "Value" {
					continue
				}
				c.reads("name", f, 1, k)
			}
		}
	}
	if t := w.Type("cli", "Context"); t != nil {
		for _, m := range []string{"Raw", "RawOccurrences"} {
			f := w.method(types.NewPointer(t), m)
			if f == nil {
				c.Missing("name", "the accessor of raw text "+m)
				continue
			}
			for _, k := range kinds {
				c.reads("name", f, 1, k)
			}
		}
	}
}

// reads: with that kind of name, what f returns was looked up under the text the name stands for.
func (c *Ctx) reads(rule string, f *ssa.Function, param int, k nameKind) {
	w := c.W
	key, where := FName(f)+" by "+k.what, w.Pos(f.Pos())
	args := make([]AV, len(f.Params))
	args[param] = k.v
	ps, ok := w.Interp(f, args, AOpts{})
	dbgPaths(f, ps, ok)
	if !ok {
		c.Bad(rule, key, where, "the ways through it could not be enumerated")
		return
	}
	good, bad := 0, ""
	for _, p := range ps {
		if p.Panicked || len(p.Ret) == 0 {
			continue
		}
		r := p.St.norm(p.Ret[0])
		if isNilAV(r) || p.St.derives(r, func(v AV) bool { s, ok := v.(aSlice); return ok && s.n == 0 && len(s.tail) == 0 }) {
			continue
		}
		if p.St.derives(r, k.is) {
			good++
		} else {
			bad = "it can return " + r.str() + ", which was not looked up by the " + k.what + " it was given"
		}
	}
	if good == 0 && bad == "" {
		bad = "it never returns anything for a " + k.what
	}
	c.That(bad == "", rule, key, where, "%s", bad)
}

// holds looks up what the path assumed about a comparison that involves both texts.
func (p *APath) holds(parts ...string) (val, known bool) {
	for k, v := range p.St.bindS {
		all := true
		for _, x := range parts {
			if !strings.Contains(k, x) {
				all = false
			}
		}
		if !all {
			continue
		}
		if b, kn := isTrue(v); kn {
			if b {
				return true, true
			}
			known = true
		}
	}
	return false, known
}

// mentions: the path assumed something about it.
func (p *APath) mentions(part string) bool {
	for k := range p.St.bindS {
		if strings.Contains(k, part) {
			return true
		}
	}
	return false
}

func ruleMatch(c *Ctx) {
	w := c.W
	n := 0
	for _, f := range w.Funcs {
		// ([]*T, any) (*T, int, bool) where T has a name
		s := f.Signature
		if f.Pkg == nil || s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 3 || !isBoolT(s.Results().At(2).Type()) {
			continue
		}
		sl, ok := s.Params().At(0).Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), s.Results().At(0).Type()) || !types.IsInterface(s.Params().At(1).Type()) {
			continue
		}
		st, ok := deref(sl.Elem()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var byName []string
		for i := 0; i < st.NumFields(); i++ {
			if nm := st.Field(i).Name(); nm == "Name" || nm == "Aliases" {
				byName = append(byName, nm)
			}
		}
		if len(byName) == 0 {
			continue
		}
		n++
		t := types.Typ[types.String]
		args := []AV{nil, aIface{v: aSym{name: "text", t: t}, t: t}}
		ps, ok := w.Interp(f, args, AOpts{})
		dbgPaths(f, ps, ok)
		key, where := FName(f)+" by text", w.Pos(f.Pos())
		if !ok {
			c.Bad("match", key, where, "the ways through it could not be enumerated")
			continue
		}
		bad := ""
		found := map[string]bool{}
		list := paramSym(f, 0)
		for _, p := range ps {
			if p.Panicked {
				bad = "it panics"
				continue
			}
			hit, kn := isTrue(p.St.norm(p.Ret[2]))
			if !kn {
				bad = "whether it found something is not decided"
				continue
			}
			// which elements exist on this path
			el := func(i int) string { return fmt.Sprintf("%s[%d]", list, i) }
			if hit {
				r := p.St.norm(p.Ret[0]).str()
				ok := false
				for _, b := range byName {
					if v, k := p.holds("*"+r+"."+b, "text"); k && v {
						ok = true
						found[b] = true
					}
				}
				if !ok {
					bad = "it can return " + r + " though neither its name nor an alias equals the name asked for"
				}
				if ix, ok := constOf(p.St, p.Ret[1]); ok && !strings.HasSuffix(r, "["+ix+"]") {
					bad = "it returns the index " + ix + " for " + r
				}
				continue
			}
			for i := 0; i < 2; i++ {
				if _, seen := p.holds("*"+el(i)+".", "text"); !seen {
					break
				}
				for _, b := range byName {
					if v, k := p.holds("*"+el(i)+"."+b, "text"); v || !k && !p.mentions("*"+el(i)+"."+b) {
						bad = "it can give up without comparing the " + strings.ToLower(b) + " of an item"
					}
				}
			}
		}
		for _, b := range byName {
			if !found[b] && bad == "" {
				bad = "no item is ever found by its " + strings.ToLower(b)
			}
		}
		c.That(bad == "", "match", key, where, "%s", bad)
		c.matchKnown(f, sl, byName)
		// by the item itself
		args[1] = aIface{v: aSym{name: "item", t: sl.Elem(), nonNil: true}, t: sl.Elem()}
		ps, ok = w.Interp(f, args, AOpts{})
		bad, key = "", FName(f)+" by item"
		hits := 0
		for _, p := range ps {
			if p.Panicked {
				continue
			}
			if hit, _ := isTrue(p.St.norm(p.Ret[2])); hit {
				hits++
				r := p.St.norm(p.Ret[0]).str()
				i, _ := constOf(p.St, p.Ret[1])
				if r != "item" && !(i != "" && strings.HasSuffix(r, "["+i+"]")) {
					bad = "it returns " + r
				}
				el := list + "[" + i + "]"
				if v, k := p.holds(el, "item"); !(k && v) && p.St.norm(aSym{name: el, t: sl.Elem()}).str() != "item" && p.St.norm(aSym{name: "item", t: sl.Elem()}).str() != el {
					bad = "it reports the item at a place where it is not"
				}
			}
		}
		if hits == 0 {
			bad = "it never finds an item that is in the list"
		}
		c.That(bad == "" && ok, "match", key, where, "%s", bad)
	}
	if n == 0 {
		c.Missing("match", "the functions that find an item by name")
	}
}

func ruleNearest(c *Ctx) {
	w := c.W
	// the composed lookup
	var mk *ssa.Function
	if mk = w.Func("cli.newLookupCore"); mk == nil {
		c.Missing("nearest", "the composition of lookups")
	} else {
		args := []AV{aSym{name: "own", t: mk.Params[0].Type(), nonNil: true}, aSym{name: "outer", t: mk.Params[1].Type(), nonNil: true}}
		ps, _ := w.Interp(mk, args, AOpts{})
		bad := "it could not be interpreted"
		for _, p := range ps {
			if p.Panicked || len(p.Ret) != 1 {
				continue
			}
			iv, ok := p.St.norm(p.Ret[0]).(aIface)
			if !ok {
				continue
			}
			g := w.method(iv.t, "lookupValue")
			if g == nil {
				continue
			}
			qs, _ := w.Interp(g, []AV{iv.v}, AOpts{Setup: func(st *aState) {
				for k, r := range p.St.mem {
					st.mem[k] = r
				}
			}})
			bad = ""
			cont := false
			for _, q := range qs {
				var asked []string
				for _, e := range q.Events {
					if e.Recv == nil {
						continue
					}
					asked = append(asked, q.St.norm(e.Recv).str())
					if len(e.Args) > 0 && !isSym(paramSym(g, 1))(q.St.norm(e.Args[len(e.Args)-1])) {
						bad = "it asks for another name"
					}
				}
				s := strings.Join(asked, " ")
				switch {
				case s == "own":
					if v, k := isTrue(q.St.norm(q.Ret[1])); !k || !v {
						bad = "it gives up without asking the enclosing scope"
					}
				case s == "own outer":
					cont = true
					if !q.St.derives(q.Ret[0], isSym("outer")) || !q.St.derives(q.Ret[1], isSym("outer")) {
						bad = "it does not return what the enclosing scope gave"
					}
				default:
					bad = "it asks " + s
				}
			}
			if !cont && bad == "" {
				bad = "the enclosing scope is never asked"
			}
		}
		c.That(bad == "", "nearest", "values", w.Pos(mk.Pos()), "%s", bad)
	}
	ct := w.Type("cli", "Context")
	if ct == nil {
		c.Missing("nearest", "the context")
		return
	}
	pt := types.NewPointer(ct)
	str := types.Typ[types.String]
	// lookups that recurse along the contexts
	for _, m := range []struct {
		name string
		arg  AV
		own  string // the part of the receiver that is asked
	}{
		{"LookupData", aSym{name: "text", t: str}, ".target"},
		{"LookupFlag", aIface{v: aSym{name: "text", t: str}, t: str}, ".Flags"},
		{"LookupArg", aIface{v: aSym{name: "text", t: str}, t: str}, "Args"},
		{"Raw", aIface{v: aSym{name: "text", t: str}, t: str}, ".internal"},
		{"RawOccurrences", aIface{v: aSym{name: "text", t: str}, t: str}, ".internal"},
	} {
		f := w.method(pt, m.name)
		if f == nil {
			c.Missing("nearest", "Context."+m.name)
			continue
		}
		key, where := FName(f), w.Pos(f.Pos())
		recv := aSym{name: "ctx", t: pt, nonNil: true}
		ps, ok := w.Interp(f, []AV{recv, m.arg}, AOpts{Setup: func(st *aState) {
			st.neq["text"] = map[string]bool{`""`: true}
		}})
		dbgPaths(f, ps, ok)
		bad := ""
		if !ok {
			bad = "the ways through it could not be enumerated"
		}
		up, here := 0, 0
		for _, p := range ps {
			if p.Panicked || len(p.Ret) == 0 {
				continue
			}
			if v, k := isTrue(p.St.norm(Sym(`("" == text)`, types.Typ[types.Bool]))); k && v {
				continue
			}
			r := p.St.norm(p.Ret[0])
			parent := isSym("*ctx.parent")
			rel := func(e AEvent) bool {
				for _, a := range append([]AV{e.Recv}, e.Args...) {
					if a != nil && parent(p.St.norm(a)) {
						return true
					}
				}
				return false
			}
			var asked *AEvent
			for i := range p.Events {
				if e := &p.Events[i]; e.Store == nil && rel(*e) {
					asked = e
				}
			}
			if asked != nil {
				up++
				if !p.St.derives(asked.Args[len(asked.Args)-1], isSym("text")) {
					okn := false
					for _, a := range asked.Args {
						if p.St.derives(a, isSym("text")) {
							okn = true
						}
					}
					if !okn {
						bad = "the enclosing scope is asked for another name"
					}
				}
				if !p.St.derives(r, parent) {
					bad = "what the enclosing scope gives is not what is returned"
				}
				for _, a := range asked.Args {
					if fn, ok := p.St.norm(a).(aFn); ok && strings.Contains(m.name, "Raw") && strings.Contains(FName(fn.f), "RawOccurrences") != (m.name == "RawOccurrences") {
						bad = "the enclosing scope is asked for something else"
					}
				}
				continue
			}
			if isNilAV(r) {
				// nothing was found and nobody else was asked: only if there is nothing to ask
				if _, kn := p.holds("text"); kn {
					bad = "it gives up without asking the enclosing scope"
				}
				for _, e := range p.Events {
					if e.Store == nil && e.Recv != nil && len(e.Args) > 0 {
						bad = "it gives up without asking the enclosing scope"
					}
				}
				continue
			}
			here++
			if p.St.derives(r, parent) {
				bad = "it returns something of the enclosing scope that it was not given"
			}
		}
		if bad == "" && up == 0 {
			bad = "the enclosing scope is never asked"
		}
		if bad == "" && here == 0 {
			bad = "the present scope is never answered from"
		}
		c.That(bad == "", "nearest", key, where, "%s", bad)
	}
}

// ruleAbout: the occurrence accessors speak of the item that the lookup by name gives.
func ruleAbout(c *Ctx) {
	w := c.W
	ct := w.Type("cli", "Context")
	if ct == nil {
		return
	}
	pt := types.NewPointer(ct)
	for _, m := range []string{"Seen", "Occurrences"} {
		f := w.method(pt, m)
		if f == nil {
			c.Missing("about", "Context."+m)
			continue
		}
		look := func(g *ssa.Function) bool {
			return g.Name() == "LookupFlag" || g.Name() == "LookupArg"
		}
		str := types.Typ[types.String]
		ps, ok := w.Interp(f, []AV{nil, aIface{v: aSym{name: "text", t: str}, t: str}}, AOpts{Inline: func(g *ssa.Function, st *aState, a []AV) bool { return !look(g) },
			Setup: func(st *aState) { st.neq["text"] = map[string]bool{`""`: true} }})
		dbgPaths(f, ps, ok)
		bad := ""
		kinds := map[string]bool{}
		for _, p := range ps {
			if p.Panicked {
				bad = "it can panic"
				continue
			}
			found := ""
			for _, e := range p.Events {
				if e.Fn != nil && look(e.Fn) {
					if !isSym("text")(p.St.norm(e.Args[1])) {
						bad = "it looks for another name"
					}
					if tp, ok := e.Res.(aTuple); ok {
						if v, k := isTrue(p.St.norm(tp[1])); k && v {
							found = e.Fn.Name()
						}
					}
				}
			}
			if found == "" {
				if v, k := constOf(p.St, p.Ret[0]); !k || (v != "false" && v != "-1") {
					bad = "for a name that is not known it returns " + p.St.norm(p.Ret[0]).str()
				}
				continue
			}
			kinds[found] = true
			if !p.St.derives(p.Ret[0], func(v AV) bool {
				y, ok := v.(aSym)
				return ok && strings.Contains(y.name, found+"(") && strings.Contains(y.name, "text")
			}) {
				bad = "what it returns is not about the item found by " + found
			}
		}
		if bad == "" && len(kinds) != 2 {
			bad = "it does not look for both flags and args"
		}
		c.That(ok && bad == "", "about", FName(f), w.Pos(f.Pos()), "%s", bad)
	}
}

// matchKnown looks for each name and alias of known items.
func (c *Ctx) matchKnown(f *ssa.Function, sl *types.Slice, byName []string) {
	w := c.W
	t := types.Typ[types.String]
	want := map[string]int{"zz": -1, "": -1}
	items := func(st *aState) AV {
		var es []AV
		for i := 0; i < 3; i++ {
			obj := fmt.Sprintf("new:i%d", i)
			name := fmt.Sprintf("n%d", i)
			st.store(aPtr{obj: obj, path: ".Name"}, KStr(name))
			want[name] = i
			if contains(byName, "Aliases") {
				at := types.NewSlice(t)
				var as []AV
				for _, x := range []string{"a", "b", "c"} {
					a := fmt.Sprintf("%s%d", x, i)
					as = append(as, KStr(a))
					want[a] = i
				}
				st.store(aPtr{obj: obj, path: ".Aliases"}, st.namedSlice(obj+"aliases", at, as...))
			}
			es = append(es, aPtr{obj: obj, t: deref(sl.Elem())})
		}
		return st.namedSlice("*items", f.Params[0].Type(), es...)
	}
	arg := items(w.newState())
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		ps, ok := w.Interp(f, []AV{arg, aIface{v: KStr(n), t: t}}, AOpts{Models: true, Forks: 6, Setup: func(st *aState) { items(st) }})
		dbgPaths(f, ps, ok)
		bad := ""
		if !ok || len(ps) == 0 {
			bad = "it could not be interpreted"
		}
		for _, p := range ps {
			if p.Panicked {
				bad = "it panics"
				continue
			}
			hit, kn := isTrue(p.St.norm(p.Ret[2]))
			q, _ := p.St.norm(p.Ret[0]).(aPtr)
			ix, _ := constOf(p.St, p.Ret[1])
			k := want[n]
			switch {
			case !kn:
				bad = "whether it is found is not decided"
			case hit != (k >= 0):
				bad = fmt.Sprintf("found: %v", hit)
			case hit && (q.obj != fmt.Sprintf("new:i%d", k) || ix != fmt.Sprint(k)):
				bad = fmt.Sprintf("what is found is %s at %s", p.St.norm(p.Ret[0]).str(), ix)
			}
		}
		c.That(bad == "", "match", fmt.Sprintf("%s: %q among three items", FName(f), n), w.Pos(f.Pos()), "%s", bad)
	}
}
