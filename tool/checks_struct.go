package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C05",
		Explanation: "Each operation of a context that adds, removes, or renames parts of the definition is interpreted at every timing. During set-up it is given lists of known elements: afterwards the list holds exactly the elements it had, in order, with the one added at the end or without the one that was named, the array the list came from is as it was, and nothing else of the command is written. At any other timing nothing is written and the timing error is returned.",
		Rules: []RuleDoc{
			{"late", "outside set-up the operation is refused and changes nothing", 50},
			{"add", "what is added comes last, everything else stays", 8},
			{"remove", "what was named is removed, everything else stays", 15},
			{"own", "the array that the definition was made from is not written", 10},
			{"set", "a transform or optional value is set for the current target only", 3},
		},
		Run: ruleStructure})
}

// namedSlice makes a slice whose array exists outside.
func (s *aState) namedSlice(obj string, t types.Type, es ...AV) aSlice {
	r := &aRegion{cells: map[string]AV{}}
	s.mem[obj] = r
	for i, e := range es {
		r.cells[fmt.Sprintf("[%d]", i)] = e
	}
	return aSlice{obj: obj, n: len(es), t: t}
}

// putCtx makes obj a context of the target at the timing.
func (w *World) putCtx(st *aState, obj string, target AV, tt types.Type, timing AV, parent AV) AV {
	it, _ := w.targetKinds()
	ct := types.NewPointer(w.Type("cli", "Context"))
	cs := w.Type("cli", "Context").Underlying().(*types.Struct)
	for i := 0; i < cs.NumFields(); i++ {
		f := cs.Field(i)
		p := aPtr{obj: obj, path: "." + f.Name()}
		switch {
		case f.Name() == w.targetField(it):
			st.store(p, aIface{v: target, t: tt})
		case TypeStr(f.Type()) == "cli.Timing":
			st.store(p, timing)
		case types.Identical(f.Type(), ct):
			st.store(p, parent)
		}
	}
	return aSym{name: strings.TrimPrefix(obj, "*"), t: ct, nonNil: true}
}

type structOp struct {
	name, field, elem string
	kind              string // add, remove, set
}

var structOps = []structOp{
	{"AddFlag", "Flags", "Flag", "add"}, {"AddFlags", "Flags", "Flag", "add"},
	{"AddArg", "Args", "Arg", "add"}, {"AddArgs", "Args", "Arg", "add"},
	{"AddCommand", "Subcommands", "Command", "add"}, {"AddCommands", "Subcommands", "Command", "add"},
	{"AddAlias", "Aliases", "", "add"},
	{"RemoveFlag", "Flags", "Flag", "remove"}, {"RemoveArg", "Args", "Arg", "remove"},
	{"RemoveCommand", "Subcommands", "Command", "remove"}, {"RemoveAlias", "Aliases", "", "remove"},
	{"SetTransform", "", "", "set"}, {"SetOptionalValue", "", "", "set"},
}

func ruleStructure(c *Ctx) {
	w := c.W
	cmdT, ct := w.Type("cli", "Command"), w.Type("cli", "Context")
	_, kinds := w.targetKinds()
	if cmdT == nil || ct == nil || len(kinds) == 0 {
		c.Missing("late", "contexts and their targets")
		return
	}
	cpt := types.NewPointer(ct)
	_, timings := w.timingGrid()
	for _, op := range structOps {
		f := w.method(cpt, op.name)
		if f == nil {
			c.Missing(op.kind, "Context."+op.name)
			continue
		}
		where := w.Pos(f.Pos())
		var elT types.Type = types.Typ[types.String]
		if op.elem != "" {
			elT = types.NewPointer(w.Type("cli", op.elem))
		}
		fieldT := func(t types.Type, name string) types.Type {
			st := deref(t).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return st.Field(i).Type()
				}
			}
			return nil
		}
		// the elements: e0..e2, named n0..n2, each with an alias a0..a2
		el := func(st *aState, i int) AV {
			if op.elem == "" {
				return KStr(fmt.Sprintf("n%d", i))
			}
			obj := fmt.Sprintf("new:e%d", i)
			st.store(aPtr{obj: obj, path: ".Name"}, KStr(fmt.Sprintf("n%d", i)))
			if at := fieldT(elT, "Aliases"); at != nil {
				st.store(aPtr{obj: obj, path: ".Aliases"}, st.namedSlice(obj+"aliases", at, KStr(fmt.Sprintf("a%d", i))))
			}
			return aPtr{obj: obj, t: deref(elT)}
		}
		targets := []types.Type{types.NewPointer(cmdT)}
		if op.name == "AddAlias" || op.name == "RemoveAlias" {
			targets = append(targets, types.NewPointer(w.Type("cli", "Flag")))
		}
		run := func(t types.Type, timing AV, n int, args func(st *aState) []AV) ([]APath, bool) {
			var given []AV
			st0 := w.newState()
			setup := func(st *aState) {
				for i := 0; i < n; i++ {
					el(st, i)
				}
				if op.field != "" {
					var es []AV
					for i := 0; i < n; i++ {
						es = append(es, el(st, i))
					}
					lt := fieldT(t, op.field)
					if lt != nil {
						st.store(aPtr{obj: "*target", path: "." + op.field}, st.namedSlice("*list", lt, es...))
					}
				}
				w.putCtx(st, "*ctx", aSym{name: "target", t: t, nonNil: true}, t, timing, zeroT(cpt))
				if args != nil {
					args(st)
				}
			}
			if args != nil {
				given = args(st0)
			}
			recv := aSym{name: "ctx", t: cpt, nonNil: true}
			return w.Interp(f, append([]AV{recv}, given...), AOpts{Models: true, Setup: setup, Depth: 20,
				Inline: nil})
		}
		pt := f.Signature.Params().At(0).Type()
		// outside set-up
		for _, tm := range timings {
			if w.constVal(tm) == w.constVal("InitialTiming") {
				continue
			}
			for _, t := range targets {
				rs, ok := run(t, w.timingK(tm), 2, func(st *aState) []AV {
					switch {
					case f.Signature.Variadic():
						return []AV{st.namedSlice("*given", pt, el(st, 2))}
					case op.kind == "add":
						return []AV{el(st, 2)}
					case op.kind == "remove" && op.elem != "":
						return []AV{aIface{v: KStr("n1"), t: types.Typ[types.String]}}
					case op.kind == "remove":
						return []AV{KStr("n1")}
					}
					return []AV{aSym{name: "given", t: pt, nonNil: true}}
				})
				bad := ""
				if !ok || len(rs) == 0 {
					bad = "it could not be interpreted"
				}
				for _, p := range rs {
					if p.Panicked {
						bad = "it panics: " + p.PanicVal.str()
						continue
					}
					for _, e := range p.Events {
						if e.Store != nil && !strings.HasPrefix(e.Store.obj, "new:") && !strings.HasPrefix(e.Store.obj, "*ctx") {
							bad = "it writes " + strings.TrimPrefix(e.Store.obj, "*") + e.Store.path
						}
					}
					if len(p.Ret) != 1 || isNilAV(p.St.norm(p.Ret[0])) {
						bad = "it is not refused"
					} else if !w.carries(&p, p.Ret[0], "cli.ErrTimingTooLate") {
						bad = "it is refused with another error: " + p.St.norm(p.Ret[0]).str()
					}
				}
				c.That(bad == "", "late", fmt.Sprintf("%s of %s at %s", op.name, TypeStr(t), tm), where, "at %s, %s", tm, bad)
			}
		}
		// during set-up
		check := func(rule, key string, t types.Type, rs []APath, ok bool, want string) {
			bad, own := "", ""
			if !ok || len(rs) == 0 {
				bad = "it could not be interpreted"
			}
			for _, p := range rs {
				if p.Panicked {
					bad = "it panics: " + p.PanicVal.str()
					continue
				}
				if len(p.Ret) == 1 && !isNilAV(p.St.norm(p.Ret[0])) {
					bad = "it returns " + p.St.norm(p.Ret[0]).str()
					continue
				}
				for _, e := range p.Events {
					switch {
					case e.Store == nil || strings.HasPrefix(e.Store.obj, "new:") || strings.HasPrefix(e.Store.obj, "*ctx"):
					case e.Store.obj == "*list":
						own = "it writes element " + strings.Trim(e.Store.path, "[]") + " of the array it was given"
					case e.Store.obj != "*target" || e.Store.path != "."+op.field:
						bad = "it writes " + strings.TrimPrefix(e.Store.obj, "*") + e.Store.path
					}
				}
				es, whole := p.St.Elems(p.St.load(aPtr{obj: "*target", path: "." + op.field}, fieldT(t, op.field)))
				var ns []string
				for _, e := range es {
					ns = append(ns, strings.TrimPrefix(strings.Trim(p.St.norm(e).str(), `"&`), "new:"))
				}
				if got := strings.Join(ns, " "); !whole || got != want {
					bad = fmt.Sprintf("the %s are [%s] instead of [%s]", strings.ToLower(op.field), got, want)
				}
			}
			c.That(bad == "", rule, key, where, "%s: %s", key, bad)
			c.That(own == "", "own", key, where, "%s: %s", key, own)
		}
		nm := "e"
		if op.elem == "" {
			nm = "n"
		}
		initial := w.timingK("InitialTiming")
		for _, t := range targets {
			switch op.kind {
			case "add":
				for n := 0; n <= 2; n++ {
					add := 1
					if f.Signature.Variadic() {
						add = 2
					}
					rs, ok := run(t, initial, n, func(st *aState) []AV {
						var es []AV
						for i := 0; i < add; i++ {
							es = append(es, el(st, n+i))
						}
						if f.Signature.Variadic() {
							return []AV{st.namedSlice("*given", pt, es...)}
						}
						return es
					})
					dbgPaths(f, rs, ok)
					var want []string
					for i := 0; i < n+add; i++ {
						want = append(want, fmt.Sprintf("%s%d", nm, i))
					}
					check("add", fmt.Sprintf("%s to %d of %s", op.name, n, TypeStr(t)), t, rs, ok, strings.Join(want, " "))
				}
			case "remove":
				type by struct {
					what string
					arg  func(st *aState) AV
					hit  int
				}
				str := types.Typ[types.String]
				var bys []by
				for i := 0; i < 3; i++ {
					bys = append(bys, by{fmt.Sprintf("name %d of 3", i+1), func(*aState) AV { return KStr(fmt.Sprintf("n%d", i)) }, i})
				}
				bys = append(bys, by{"no such name", func(*aState) AV { return KStr("other") }, -1})
				if op.elem != "" {
					for i := range bys {
						g := bys[i].arg
						bys[i].arg = func(st *aState) AV { return aIface{v: g(st), t: str} }
					}
					for i := 0; i < 3; i++ {
						bys = append(bys, by{fmt.Sprintf("element %d of 3", i+1), func(st *aState) AV { return aIface{v: el(st, i), t: elT} }, i})
					}
					bys = append(bys, by{"an element that is not there", func(st *aState) AV { return aIface{v: el(st, 7), t: elT} }, -1})
				}
				if op.elem == "Arg" {
					for i := 0; i < 4; i++ {
						h := i
						if i == 3 {
							h = -1
						}
						bys = append(bys, by{fmt.Sprintf("index %d of 3", i), func(*aState) AV { return aIface{v: KInt(int64(i), types.Typ[types.Int]), t: types.Typ[types.Int]} }, h})
					}
				}
				for _, b := range bys {
					rs, ok := run(t, initial, 3, func(st *aState) []AV { return []AV{b.arg(st)} })
					dbgPaths(f, rs, ok)
					var want []string
					for i := 0; i < 3; i++ {
						if i != b.hit {
							want = append(want, fmt.Sprintf("%s%d", nm, i))
						}
					}
					check("remove", fmt.Sprintf("%s of %s by %s", op.name, TypeStr(t), b.what), t, rs, ok, strings.Join(want, " "))
				}
			}
		}
		if op.kind == "set" {
			for _, k := range kinds {
				if op.name == "SetOptionalValue" && TypeStr(k) != "*cli.Flag" {
					continue
				}
				rs, ok := run(k, initial, 0, func(st *aState) []AV { return []AV{aSym{name: "given", t: pt, nonNil: true}} })
				dbgPaths(f, rs, ok)
				bad := ""
				hit := false
				if !ok || len(rs) == 0 {
					bad = "it could not be interpreted"
				}
				for _, p := range rs {
					if p.Panicked {
						bad = "it panics: " + p.PanicVal.str()
						continue
					}
					for _, s := range p.stored("*target") {
						if !p.St.derives(s.val, isSym("given")) && op.name == "SetTransform" {
							bad = "it writes " + s.path
						}
						hit = hit || p.St.derives(s.val, isSym("given"))
					}
					for _, e := range p.Events {
						if e.Store != nil && strings.HasPrefix(e.Store.obj, "*target.") {
							hit = hit || p.St.derives(e.Val, isSym("given"))
						}
					}
				}
				if op.name == "SetTransform" && (TypeStr(k) == "*cli.Flag" || TypeStr(k) == "*cli.Arg") && !hit && bad == "" {
					bad = "it is not set"
				}
				if op.name == "SetOptionalValue" && !hit && bad == "" {
					bad = "it is not set"
				}
				c.That(bad == "", "set", op.name+" of "+TypeStr(k), where, "%s", bad)
			}
		}
	}
}

// carries: the error is, or wraps, the named package variable.
func (w *World) carries(p *APath, v AV, name string) bool {
	want := name
	if g := w.Global(name); g != nil {
		want = g.str()
	}
	var rec func(v AV, d int) bool
	rec = func(v AV, d int) bool {
		v = p.St.norm(v)
		if p.St.derives(v, func(x AV) bool { return x.str() == want || strings.Contains(x.str(), name) }) {
			return true
		}
		if i, ok := v.(aIface); ok {
			v = p.St.norm(i.v)
		}
		if q, ok := v.(aPtr); ok && d < 4 {
			if r := p.St.mem[q.obj]; r != nil {
				for _, x := range r.cells {
					if rec(x, d+1) {
						return true
					}
				}
			}
		}
		if a, ok := v.(aAgg); ok && d < 4 {
			for _, x := range a.over {
				if rec(x, d+1) {
					return true
				}
			}
		}
		return false
	}
	return rec(v, 0)
}

// Global is what a package variable that is never assigned again holds.
func (w *World) Global(name string) AV {
	pk, n, _ := strings.Cut(name, ".")
	for _, p := range w.SSA {
		if shortPkg(p.Pkg) != pk {
			continue
		}
		if g, ok := p.Members[n].(*ssa.Global); ok {
			if v := w.globalValue(g); v != nil {
				return v.v
			}
		}
	}
	return nil
}
