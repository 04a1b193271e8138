package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constName names an integer constant of a named type by its declaration.
func (w *World) constName(typ string, val string) string {
	for _, p := range w.Pkgs {
		if shortPkg(p.Types) != strings.SplitN(typ, ".", 2)[0] {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if k, ok := sc.Lookup(n).(*types.Const); ok && TypeStr(k.Type()) == typ && k.Val().ExactString() == val {
				return n
			}
		}
	}
	return val
}

// constVal is the value of a named constant of package cli.
func (w *World) constVal(name string) string {
	p := w.ByPath[modPath]
	if p == nil {
		return ""
	}
	if k, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
		return k.Val().ExactString()
	}
	return ""
}

// timings a function moves its context to, and what it reads or runs.
func (w *World) stepLabels(st Step) map[string]int {
	out := map[string]int{}
	n := 0
	add := func(l string) {
		n++
		if _, ok := out[l]; !ok {
			out[l] = n
		}
	}
	w.exploreFrom(st.Fn, st.Env, ExploreOpts{Depth: 5}, func(s Site) {
		switch x := s.In.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "timing" && strings.HasSuffix(TypeStr(deref(fa.X.Type())), "cli.Context") {
				add("enter:" + s.Term(x.Val))
			}
		case ssa.CallInstruction:
			c := x.Common()
			if c.IsInvoke() {
				r := recvName(c.Value.Type())
				switch {
				case r == "target" && c.Method.Name() == "pipeline":
					add("user:" + s.Term(c.Args[0]))
				case r == "target" && c.Method.Name() == "options":
					add("options")
				case r == "hookable" && strings.HasPrefix(c.Method.Name(), "execute"):
					add("hooks:" + strings.TrimSuffix(strings.TrimPrefix(c.Method.Name(), "execute"), "Hooks"))
				case r == "valueInitializer":
					add("initializer")
				}
				return
			}
			f, _, _, _ := w.Callee(c, s.Env)
			if f == nil {
				return
			}
			switch nm := CalleeName(f); nm {
			case "cli.(actionPipelines).pipeline":
				add("deferred:" + s.Term(c.Args[1]))
			case "cli.checkSupportedFlagType":
				add("supported")
			case "cli.expectedRequiredOption":
				add("required")
			case "cli.FromEnv":
				add("env")
			case "cli.FromFilePath":
				add("filepath")
			case "cli.(Context).AddArg", "cli.AddArg":
				add("addarg")
			case "cli.(Context).AddFlag", "cli.AddFlag":
				add("addflag")
			case "cli.checkValidIdentifier":
				add("checknames")
			}
		}
	})
	// values deferred by method value
	for f := range w.mentioned(st) {
		if f == "executeBeforeHooks" || f == "executeAfterHooks" || f == "executeInitializeHooks" {
			add("hooks:" + strings.TrimSuffix(strings.TrimPrefix(f, "execute"), "Hooks"))
		}
	}
	// what it visits
	for _, v := range w.childLoops(st) {
		add("each:" + v.elem)
	}
	return out
}

// mentioned lists the interface methods a step takes as values.
func (w *World) mentioned(st Step) map[string]bool {
	out := map[string]bool{}
	w.exploreFrom(st.Fn, st.Env, ExploreOpts{Depth: 3}, func(s Site) {
		if mc, ok := s.In.(*ssa.MakeClosure); ok {
			if f, ok := mc.Fn.(*ssa.Function); ok && strings.HasSuffix(f.Name(), "$bound") {
				out[strings.TrimSuffix(f.Name(), "$bound")] = true
			}
		}
	})
	return out
}

type childLoop struct {
	loop *Loop
	env  *Env
	elem string
}

// isChildRun: a call that runs something in a context made for a child target.
func (w *World) isChildRun(call ssa.CallInstruction, env *Env) bool {
	c := call.Common()
	sig := c.Signature()
	if errIndex(sig) < 0 {
		return false
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for _, a := range args {
		if strings.HasSuffix(TypeStr(a.Type()), "cli.Context") && strings.Contains(w.Term(a, env), "cli.(Context).newChild(") {
			return true
		}
	}
	return false
}

var childElems = map[string]bool{"*cli.Flag": true, "*cli.Arg": true, "*cli.Command": true, "*cli.valueTarget": true}

// childLoops finds the loops over flags, args, commands and values in which
// children are run.
func (w *World) childLoops(st Step) []childLoop {
	var out []childLoop
	seen := map[*ssa.BasicBlock]bool{}
	sp := visitSpec{Visit: w.isChildRun}
	look := func(f *ssa.Function, env *Env) {
		all := loopsOf(f)
		for _, l := range all {
			if seen[l.Header] {
				continue
			}
			for _, e := range w.loopElems(l, all) {
				if !childElems[e] {
					continue
				}
				var bl []*ssa.BasicBlock
				for _, b := range f.Blocks {
					if l.Body[b] {
						bl = append(bl, b)
					}
				}
				hit := w.pathVisits(bl, env, visitSpec{Visit: func(c ssa.CallInstruction, e *Env) bool { return sp.Visit(c, e) || w.someVisit(c, e, sp, 2) }}, 0)
				if hit {
					seen[l.Header] = true
					out = append(out, childLoop{l, env, e})
				}
			}
		}
	}
	done := map[*ssa.Function]bool{}
	look(st.Fn, st.Env)
	done[st.Fn] = true
	w.exploreFrom(st.Fn, st.Env, ExploreOpts{Depth: 2}, func(s Site) {
		f := s.In.Parent()
		if !done[f] {
			done[f] = true
			look(f, s.Env)
		}
	})
	return out
}

func (w *World) someVisit(c ssa.CallInstruction, env *Env, sp visitSpec, depth int) bool {
	g, ne := w.Enter(c, env)
	if g == nil || !w.InModule(g) || depth <= 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(ssa.CallInstruction); ok {
				if sp.Visit(cc, ne) || w.someVisit(cc, ne, sp, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// maySkip: an element of a lifecycle loop may be passed over if it has been
// initialised already, or, when actions run, if it was not set, or was set in
// the command that defines it.
func (w *World) maySkip(phase string) func(FactSet) bool {
	inited := w.constVal("internalFlagInitialized")
	return func(fs FactSet) bool {
		notSeen, seen, elsewhere := false, false, false
		for f := range fs {
			if phase == "Initializers" && inited != "" && !strings.HasPrefix(f, "!(") && strings.Contains(f, " == ") && strings.Contains(f, inited) && strings.Contains(f, "&") {
				return true
			}
			if phase == "Action" {
				if strings.HasPrefix(f, "!(invoke:option.Seen(") || (strings.HasPrefix(f, "!((0 < ") && strings.HasSuffix(f, ".count))")) {
					notSeen = true
				}
				if strings.HasPrefix(f, "(0 < ") && strings.HasSuffix(f, ".count)") {
					seen = true
				}
				if strings.HasPrefix(f, "(0 == len(invoke:internalContext.Raw") || (strings.HasPrefix(f, "(len(invoke:internalContext.Raw") && strings.HasSuffix(f, " == 0)")) {
					elsewhere = true
				}
			}
		}
		return notSeen || (seen && elsewhere)
	}
}

func init() {
	kinds := []string{"command", "option", "value"}
	phases := []string{"Initializers", "Before", "Action", "After"}
	register(&Check{ID: "C04",
		Explanation: "The tables that define the flow of a command, an option and a value are evaluated from the source into ordered lists of steps; each step is characterised by what it does (which timing's deferred or declared pipeline it runs, whose hooks, which children it visits), not by its name. Completeness: every phase of every kind of target runs the deferred and the declared pipeline of its own timing. Order: validators, Before, implicit values and the required check are concatenated in that order; deferred before declared; hooks before both. Children: the loops that visit flags, args, sub-commands and values are decided path by path: no element is passed over except for the listed reasons, and the loop is left early only with an error. Phases: Execute parses, then runs Before, Action and After, each only where the error of the previous one is nil. Ancestors: hooks of every ancestor are run in Before and After. It does not decide how often user actions run when a context is executed re-entrantly.",
		Rules: []RuleDoc{
			{"complete", "every phase runs the deferred and the declared actions of its timing", 18},
			{"order", "the steps of a phase come in the documented order", 12},
			{"slots", "validators, Before, implicit values and the required check run in that order", 5},
			{"children", "every flag, arg, sub-command and value is visited", 10},
			{"phases", "parse, Before, Action, After, each only after the previous succeeded", 3},
			{"ancestors", "the hooks of all ancestors are run", 4},
			{"pipeline", "building and running a pipeline leaves out none of its actions", 4},
			{"enter", "children are run at the timing of the phase", 8},
		},
		Run: func(c *Ctx) {
			w := c.W
			flowFn := w.Func("cli.(Context).flow")
			if flowFn == nil {
				c.Missing("complete", "the choice of the flow of a context")
				return
			}
			// kind of target -> table
			tables := w.flowTables(c, flowFn)
			for _, k := range kinds {
				if tables[k].zero() {
					c.Missing("complete", "the flow of a "+k)
				}
			}
			at := map[string]string{"Initializers": "0", "Before": "1", "Action": "2", "After": "3"}
			for _, k := range kinds {
				tb := tables[k]
				if tb.zero() {
					continue
				}
				for pi, ph := range phases {
					key := k + " " + ph
					var steps []Step
					ok := true
					if ph == "Before" {
						for i := 0; i < 4; i++ {
							e := w.elem(w.elem(tb, pi), i)
							s, good := w.steps(e, "", 0)
							ok = ok && good
							for j := range s {
								s[j].Guard = fmt.Sprintf("slot%d;", i) + s[j].Guard
							}
							steps = append(steps, s...)
						}
					} else {
						steps, ok = w.steps(w.elem(tb, pi), "", 0)
					}
					if !ok || len(steps) == 0 {
						c.Bad("complete", key, "-", "the steps of this phase cannot be evaluated")
						continue
					}
					labels := make([]map[string]int, len(steps))
					for i, s := range steps {
						labels[i] = w.stepLabels(s)
						for _, cl := range w.childLoops(s) {
							kk := fmt.Sprintf("%s: each %s", key, strings.TrimPrefix(cl.elem, "*cli."))
							msg := w.checkLoop(cl.loop, cl.env, visitSpec{Visit: w.isChildRun, Skip: w.maySkip(ph)})
							c.That(msg == "", "children", kk, w.Pos(posOfBlock(cl.loop.Header)), "%s", msg)
						}
					}
					find := func(ls ...string) int {
						first := -1
						for i, m := range labels {
							all := true
							for _, l := range ls {
								if _, ok := m[l]; !ok {
									all = false
								}
							}
							if all && !strings.Contains(steps[i].Guard, "if ") {
								return i
							}
							if all && first < 0 {
								first = i
							}
						}
						return first
					}
					pos := func(i int) string {
						if i < 0 {
							return steps[0].Pos
						}
						return steps[i].Pos
					}
					need := func(what string, guard string, ls ...string) int {
						i := find(ls...)
						g := ""
						if i >= 0 {
							g = steps[i].Guard
							if strings.HasPrefix(g, "slot") {
								g = strings.SplitN(g, ";", 2)[1]
							}
						}
						if i < 0 {
							c.Bad("complete", key+": "+what, pos(i), "no step of this phase does it")
						} else if (g != "") != (guard != "") {
							c.Bad("complete", key+": "+what, pos(i), "the step runs only on a condition (%s)", shortTerm(g))
						} else {
							c.Ok("complete", key+": "+what, pos(i))
						}
						return i
					}
					seq := func(aw string, a int, bw string, b int) {
						if a < 0 || b < 0 {
							return
						}
						ok := a < b
						c.That(ok, "order", key+": "+aw+" before "+bw, pos(b), "%s runs before %s", bw, aw)
					}
					within := func(aw, al, bw, bl string) {
						a, b := find(al), find(bl)
						if a < 0 || b < 0 {
							return
						}
						if a == b {
							c.That(labels[a][al] < labels[a][bl], "order", key+": "+aw+" before "+bw, pos(b), "%s runs before %s", bw, aw)
							return
						}
						seq(aw, a, bw, b)
					}
					guard := ""
					if k == "command" && ph == "Action" {
						guard = "unless a sub-command ran"
					}
					d := need("deferred actions", guard, "deferred:"+at[ph])
					u := need("declared actions", guard, "user:"+at[ph])
					_ = u
					within("deferred actions", "deferred:"+at[ph], "declared actions", "user:"+at[ph])
					if guard != "" && d >= 0 {
						c.That(strings.Contains(steps[d].Guard, w.constVal("subcommandDidNotExecute")), "complete", key+": own action unless a sub-command ran", pos(d), "the condition is %s", steps[d].Guard)
					}
					if k == "command" && (ph == "Before" || ph == "After") {
						h := need("hooks", "", "hooks:"+ph)
						seq("hooks", h, "deferred actions", d)
					}
					if k != "option" && ph != "Initializers" {
						f := need("flags", "", "each:*cli.Flag")
						need("args", "", "each:*cli.Arg")
						switch {
						case k == "command" && ph == "Action", k == "value" && ph == "Action":
							seq("flags and args", f, "own actions", d)
						default:
							seq("own actions", u, "flags and args", f)
						}
					}
					if k != "value" {
						v := need("values", "", "each:*cli.valueTarget")
						if k == "command" && ph == "Action" {
							seq("values", v, "own actions", d)
						} else if ph == "Before" || ph == "After" || ph == "Initializers" {
							seq("own actions", u, "values", v)
						}
					}
					if ph == "Initializers" {
						switch k {
						case "command":
							f := need("flags", "", "each:*cli.Flag", "enter:0")
							need("args", "", "each:*cli.Arg", "enter:0")
							s := need("sub-commands", "", "each:*cli.Command", "enter:0")
							n := need("names are checked", "", "checknames")
							a := need("an arg for the sub-command is added", "", "addarg")
							seq("own actions", u, "flags and args", f)
							seq("own actions", u, "sub-commands", s)
							seq("the arg for the sub-command", a, "flags and args", f)
							seq("flags and args", f, "names are checked", n)
							h := find("addflag")
							seq("help and version", h, "flags and args", f)
						case "option":
							need("the value's initializer", "", "initializer")
							e := need("environment", "", "env")
							need("file path", "", "filepath")
							t := need("the type of the variable is checked", "", "supported")
							seq("own actions", u, "environment", e)
							seq("own actions", u, "the type is checked", t)
							seq("the value's initializer", find("initializer"), "the type is checked", t)
						case "value":
							f := need("flags", "", "each:*cli.Flag", "enter:0")
							need("args", "", "each:*cli.Arg", "enter:0")
							n := need("names are checked", "", "checknames")
							seq("own actions", u, "flags and args", f)
							seq("flags and args", f, "names are checked", n)
						}
						if k != "value" {
							var opts []int
							for i, m := range labels {
								if _, ok := m["options"]; ok {
									opts = append(opts, i)
								}
							}
							if len(opts) == 0 {
								c.Bad("complete", key+": options", pos(-1), "no step applies the options")
							} else {
								c.That(opts[len(opts)-1] > u, "order", key+": own actions before options", pos(opts[len(opts)-1]), "options are applied before the Uses pipeline")
								c.That(opts[0] < d, "order", key+": preventing set-up comes first", pos(opts[0]), "options that prevent set-up are handled after set-up")
							}
						}
					}
					if ph == "Before" && k == "option" {
						r := need("required check", "", "required")
						if r >= 0 {
							c.That(strings.HasPrefix(steps[r].Guard, "slot3;"), "slots", key+": the required check comes last", pos(r), "the required check is not in the last slot")
						}
					}
					if ph == "Before" && d >= 0 && u >= 0 {
						c.That(strings.HasPrefix(steps[d].Guard, "slot1;") && strings.HasPrefix(steps[u].Guard, "slot1;"), "slots", key+": own actions in their slot", pos(d), "the Before actions are not in the slot of Before")
					}
					// children run at the timing of the phase
					for i, m := range labels {
						for _, e := range []string{"each:*cli.Flag", "each:*cli.Arg", "each:*cli.valueTarget", "each:*cli.Command"} {
							if _, ok := m[e]; ok {
								_, in := m["enter:"+at[ph]]
								c.That(in, "enter", key+": "+strings.TrimPrefix(e, "each:*cli."), pos(i), "children are not run at the timing of the phase")
							}
						}
					}
				}
			}
			ruleSlots(c)
			rulePhases(c)
			ruleAncestors(c)
			rulePipelines(c)
		}})
}

// flowTables finds the tables flows are read from and tells them apart by what
// they do: only that of a command runs sub-commands, only that of an option
// checks the type of the variable.
func (w *World) flowTables(c *Ctx, flowFn *ssa.Function) map[string]node {
	out := map[string]node{}
	kindOf := map[string]string{}
	w.Paths(flowFn.Blocks[0], nil, 500, func(p Path) {
		if p.Ret == nil {
			return
		}
		u, ok := w.resultOnPath(p.Ret, 0, p.Blocks).(*ssa.UnOp)
		if !ok {
			return
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return
		}
		g, ok := ia.X.(*ssa.Global)
		k, isC := w.phiOnPath(ia.Index, p.Blocks).(*ssa.Const)
		if !ok || !isC {
			return
		}
		iv, ok := w.globalInit(g)
		if !ok {
			return
		}
		idx, _ := constant.Int64Val(k.Value)
		t := w.elem(node{v: iv}, int(idx))
		if gg, ok := t.v.(*ssa.Global); ok {
			t = node{addr: gg}
		}
		if t.zero() {
			return
		}
		id := fmt.Sprint(idx)
		if kindOf[id] == "" {
			kind := "value"
			steps, _ := w.steps(w.elem(t, 0), "", 0)
			for _, s := range steps {
				ls := w.stepLabels(s)
				if _, ok := ls["each:*cli.Command"]; ok {
					kind = "command"
				}
				if _, ok := ls["supported"]; ok {
					kind = "option"
				}
			}
			kindOf[id] = kind
			out[kind] = t
		}
		for f := range p.Facts {
			want := ""
			switch {
			case strings.HasPrefix(f, "is[*cli.Flag]"), strings.HasPrefix(f, "is[*cli.Arg]"), strings.HasPrefix(f, "is[cli.option]"):
				want = "option"
			case strings.HasPrefix(f, "is[*cli.Command]"):
				want = "command"
			}
			if want != "" {
				c.That(kindOf[id] == want, "complete", "the flow of "+strings.SplitN(f, "]", 2)[0]+"]", w.InstrPos(p.Ret), "it follows the flow of a %s", kindOf[id])
			}
		}
	})
	return out
}

// ruleSlots: the parts of Before run in ascending order, and each timing has its slot.
func ruleSlots(c *Ctx) {
	w := c.W
	f := w.Func("cli.(beforePipeline).Execute")
	if f == nil {
		c.Missing("slots", "the execution of the parts of Before")
		return
	}
	// the order in which the parts are read by index
	var idx []string
	loop := len(loopsOf(f)) > 0
	w.Explore(f, ExploreOpts{Depth: 1, Into: func(g *ssa.Function, s Site) bool {
		return g.Parent() == f || g.Signature.Params().Len() > 0
	}}, func(s Site) {
		if s.In.Parent() != f {
			return
		}
		switch x := s.In.(type) {
		case *ssa.IndexAddr:
			if k, ok := x.Index.(*ssa.Const); ok && isBeforeArray(x.X.Type()) {
				idx = append(idx, k.Value.ExactString())
			}
		case *ssa.Index:
			if k, ok := x.Index.(*ssa.Const); ok && isBeforeArray(x.X.Type()) {
				idx = append(idx, k.Value.ExactString())
			}
		}
	})
	key := "the parts run in order"
	if len(idx) > 0 {
		c.That(strings.Join(idx, ",") == "0,1,2,3", "slots", key, w.Pos(f.Pos()), "the parts of Before are run in the order %v", idx)
	} else {
		ok := loop
		for _, l := range loopsOf(f) {
			if badBounds(l) != "" {
				ok = false
			}
		}
		c.That(ok, "slots", key, w.Pos(f.Pos()), "the order in which the parts of Before run is not evident")
	}
	// each timing of Before has its slot
	want := []string{"ValidatorTiming", "BeforeTiming", "ImplicitValueTiming", "justBeforeTiming"}
	got := map[string]string{}
	for _, g := range w.Funcs {
		if !strings.HasPrefix(g.Name(), "init") || g.Pkg == nil || shortPkg(g.Pkg.Pkg) != "cli" {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || TypeStr(mu.Map.Type()) != "map[cli.Timing]int" {
					continue
				}
				got[w.Term(mu.Key, nil)] = w.Term(mu.Value, nil)
			}
		}
	}
	if len(got) == 0 {
		c.Missing("slots", "the table of the parts of Before")
		return
	}
	for i, n := range want {
		v := w.constVal(n)
		c.That(got[v] == fmt.Sprint(i), "slots", n+" has its slot", "-", "%s is stored in slot %s, not %d", n, got[v], i)
	}
}

func isBeforeArray(t types.Type) bool {
	a, ok := deref(t).Underlying().(*types.Array)
	return ok && TypeStr(a.Elem()) == "cli.ActionPipeline"
}

// enters lists the timings a call may move its context to (not through children).
func (w *World) enters(call ssa.CallInstruction, env *Env) []string {
	g, ne := w.Enter(call, env)
	if g == nil || !w.InModule(g) {
		return nil
	}
	var out []string
	w.exploreFrom(g, ne, ExploreOpts{Depth: 2}, func(s Site) {
		if x, ok := s.In.(*ssa.Store); ok {
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "timing" && !contains(out, s.Term(x.Val)) {
				out = append(out, s.Term(x.Val))
			}
		}
	})
	return out
}

func rulePhases(c *Ctx) {
	w := c.W
	f := w.Func("cli.(Context).Execute")
	if f == nil {
		c.Missing("phases", "Context.Execute")
		return
	}
	parse := w.Func("cli.(Context).parse")
	n := 0
	ok := w.Paths(f.Blocks[0], nil, 2000, func(p Path) {
		if p.Ret == nil {
			return
		}
		n++
		var seq []string
		for _, b := range p.Blocks {
			for _, in := range b.Instrs {
				call, isC := in.(*ssa.Call)
				if !isC {
					continue
				}
				if g := call.Call.StaticCallee(); g != nil && g == parse {
					seq = append(seq, "parse")
				}
				for _, e := range w.enters(call, nil) {
					seq = append(seq, w.constName("cli.Timing", e))
				}
			}
		}
		want := []string{"parse", "BeforeTiming", "ActionTiming", "AfterTiming"}
		for i, s := range seq {
			if i >= len(want) || s != want[i] {
				c.Bad("phases", "order of the phases", w.InstrPos(p.Ret), "a way through Execute runs %v", seq)
				return
			}
		}
		r := w.resultOnPath(p.Ret, 0, p.Blocks)
		if len(seq) == 4 {
			c.Ok("phases", "order of the phases", w.Pos(f.Pos()))
			return
		}
		c.That(errKnownNonNil(w, r, p.Facts) || freshError(r), "phases", fmt.Sprintf("stopping after %d phases", len(seq)), w.InstrPos(p.Ret), "Execute can stop after %v without an error", seq)
	})
	c.That(ok && n > 0, "phases", "all ways through Execute", w.Pos(f.Pos()), "too many ways through Execute")
	// a later phase needs the success of the earlier: facts at the calls
	var prev []ssa.Value
	for _, b := range f.DomPreorder() {
		for _, in := range b.Instrs {
			call, isC := in.(*ssa.Call)
			if !isC {
				continue
			}
			g := call.Call.StaticCallee()
			es := w.enters(call, nil)
			if g != parse && len(es) == 0 {
				continue
			}
			fs := w.localFacts(b, nil, 0)
			for _, e := range prev {
				t := w.Term(e, nil)
				found := fs[normBin(eql, t, "nil")]
				for x := range fs {
					if strings.Contains(x, t) && strings.HasSuffix(x, "== nil)") && !strings.HasPrefix(x, "!") {
						found = true
					}
				}
				c.That(found, "phases", "success of "+shortTerm(t)+" before "+strings.Join(es, ","), w.InstrPos(call), "a phase runs although an earlier one may have failed")
			}
			if g == parse {
				prev = append(prev, call)
			} else if isError(call.Type()) {
				prev = append(prev, call)
			}
		}
	}
}

// ruleAncestors: Before and After of a context also run the hooks of its ancestors.
func ruleAncestors(c *Ctx) {
	w := c.W
	for _, t := range []struct{ timing, hook, own string }{
		{"BeforeTiming", "executeBeforeHooks", "Before"},
		{"AfterTiming", "executeAfterHooks", "After"},
		{"InitialTiming", "executeInitializeHooks", "Initializers"},
	} {
		v := w.constVal(t.timing)
		found := 0
		for _, f := range w.Funcs {
			if f.Parent() != nil || f.Signature.Recv() == nil || recvName(f.Signature.Recv().Type()) != "Context" || f.Signature.Params().Len() != 0 || errIndex(f.Signature) != 0 {
				continue
			}
			// functions that move their own context to the timing
			own := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok {
						if g := call.Call.StaticCallee(); g != nil && g.Name() == "setTiming" && len(call.Call.Args) == 2 && call.Call.Args[0] == ssa.Value(f.Params[0]) && w.Term(call.Call.Args[1], nil) == v {
							own = true
						}
					}
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(f.Params[0]) && fieldName(fa.X.Type(), fa.Field) == "timing" && w.Term(st.Val, nil) == v {
							own = true
						}
					}
				}
			}
			if !own {
				continue
			}
			// functions handed to (or called by) it
			hooks, self := false, false
			var look func(g *ssa.Function, d int)
			seen := map[*ssa.Function]bool{}
			look = func(g *ssa.Function, d int) {
				if g == nil || seen[g] || d > 3 {
					return
				}
				seen[g] = true
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if call, ok := in.(ssa.CallInstruction); ok && call.Common().IsInvoke() && call.Common().Method.Name() == t.hook {
							hooks = true
						}
						if fa, ok := in.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == t.own && recvName(deref(fa.X.Type())) == "actionPipelines" {
							self = true
						}
						for _, op := range in.Operands(nil) {
							if h, ok := (*op).(*ssa.Function); ok && w.InModule(h) {
								look(h, d+1)
							}
							if mc, ok := (*op).(*ssa.MakeClosure); ok {
								look(mc.Fn.(*ssa.Function), d+1)
							}
						}
					}
				}
			}
			look(f, 0)
			if !self && t.timing == "InitialTiming" {
				// the hooks alone run again after a rename
				c.That(hooks, "ancestors", FName(f)+": hooks of ancestors", w.Pos(f.Pos()), "the hooks are not run")
				continue
			}
			found++
			c.That(hooks && self, "ancestors", t.timing+": own steps and hooks of ancestors", w.Pos(f.Pos()), "own steps run: %v, hooks of ancestors run: %v", self, hooks)
			for depth := 1; depth <= 4; depth++ {
				for _, kind := range []string{"Command", "Flag"} {
					if kind == "Flag" && depth == 1 || t.timing == "InitialTiming" && kind == "Flag" {
						continue
					}
					key := fmt.Sprintf("%s: a %s with %d ancestors", t.timing, strings.ToLower(kind), depth-1)
					msg := w.chain(f, t.own, kind, depth)
					c.That(msg == "", "ancestors", key, w.Pos(f.Pos()), "%s", msg)
				}
			}
		}
		if found == 0 {
			c.Missing("ancestors", "the function that starts "+t.timing)
		}
	}
}

// rulePipelines: every action of a pipeline is kept when pipelines are
// combined, and run, unless an earlier one failed.
func rulePipelines(c *Ctx) {
	w := c.W
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Pkg == nil || shortPkg(f.Pkg.Pkg) != "cli" || f.Signature.Results().Len() != 1 {
			continue
		}
		switch TypeStr(f.Signature.Results().At(0).Type()) {
		case "cli.ActionPipeline", "[]cli.Action", "*cli.cons":
		default:
			continue
		}
		all := loopsOf(f)
		for _, l := range all {
			es := w.loopElems(l, all)
			if !contains(es, "cli.Action") && !contains(es, "any") {
				continue
			}
			sp := visitSpec{Instr: func(in ssa.Instruction, env *Env) bool {
				switch x := in.(type) {
				case *ssa.Call:
					b, ok := x.Call.Value.(*ssa.Builtin)
					return ok && b.Name() == "append"
				case *ssa.Alloc:
					return strings.HasSuffix(TypeStr(x.Type()), "cli.cons")
				case *ssa.Store:
					_, ok := x.Addr.(*ssa.IndexAddr)
					return ok && TypeStr(x.Val.Type()) == "cli.Action"
				}
				return false
			}}
			msg := w.checkLoop(l, nil, sp)
			c.That(msg == "", "pipeline", FName(f)+" keeps every action", w.Pos(posOfBlock(l.Header)), "%s", msg)
		}
	}
	f := w.Func("cli.(cons).Execute")
	if f == nil {
		c.Missing("pipeline", "the execution of a pipeline")
		return
	}
	recv := "param:" + paramKey(f.Params[0])
	ok := w.Paths(f.Blocks[0], nil, 500, func(p Path) {
		if p.Ret == nil || p.Facts["("+recv+" == nil)"] || p.Facts["(nil == "+recv+")"] {
			return
		}
		act, next := false, false
		for _, b := range p.Blocks {
			for _, in := range b.Instrs {
				call, isC := in.(ssa.CallInstruction)
				if !isC {
					continue
				}
				cc := call.Common()
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				for _, a := range args {
					t := w.Term(w.phiOnPath(a, p.Blocks), nil)
					act = act || strings.Contains(t, recv+".action")
					next = next || strings.Contains(t, recv+".next")
				}
			}
		}
		ei := errIndex(f.Signature)
		r := w.resultOnPath(p.Ret, ei, p.Blocks)
		failed := errKnownNonNil(w, r, p.Facts) || freshError(r)
		c.That(act, "pipeline", "the action runs", w.InstrPos(p.Ret), "a way through a pipeline does not run the action")
		c.That(next || failed, "pipeline", "the rest runs", w.InstrPos(p.Ret), "a way through a pipeline stops without an error")
	})
	c.That(ok, "pipeline", "all ways", w.Pos(f.Pos()), "too many ways")
}

// chain runs a phase on a context with ancestors and says whose hooks are left out.
func (w *World) chain(f *ssa.Function, own, kind string, depth int) string {
	ct := types.NewPointer(w.Type("cli", "Context"))
	cmd := types.NewPointer(w.Type("cli", "Command"))
	kt := types.NewPointer(w.Type("cli", kind))
	_, timings := w.timingGrid()
	ps, ok := w.Interp(f, []AV{aSym{name: "x0", t: ct, nonNil: true}}, AOpts{Models: true, Reenter: true, Forks: 8, MaxPaths: 5000, Depth: 12,
		Setup: func(st *aState) {
			for i := 0; i < depth; i++ {
				t := cmd
				if i == 0 {
					t = kt
				}
				var parent AV = zeroT(ct)
				if i+1 < depth {
					parent = aSym{name: fmt.Sprintf("x%d", i+1), t: ct, nonNil: true}
				}
				w.putCtx(st, fmt.Sprintf("*x%d", i), aSym{name: fmt.Sprintf("t%d", i), t: t, nonNil: true}, t, w.timingK(timings[0]), parent)
			}
		},
		Inline: func(g *ssa.Function, st *aState, args []AV) bool {
			return g.Name() != "Execute"
		},
	})
	dbgPaths(f, ps, ok)
	if !ok || len(ps) == 0 {
		return "it could not be interpreted"
	}
	selfRan := 0
	for _, p := range ps {
		if p.Panicked || len(p.Ret) == 0 {
			return "it panics"
		}
		failed := false
		ran := map[int]int{}
		self := 0
		for _, e := range p.Events {
			if e.Res == nil || !strings.HasSuffix(strings.SplitN(e.Name(), "(", 2)[0], "Execute") && !strings.HasSuffix(e.Name(), "Execute") {
				continue
			}
			if isError(typeOfAVor(e.Res)) && p.St.nonNil(p.St.norm(e.Res)) {
				failed = true
			}
			x := ""
			if e.Recv != nil {
				x = p.St.norm(e.Recv).str()
			} else if len(e.Args) > 0 {
				x = p.St.norm(e.Args[0]).str()
			}
			lvl := -1
			for i := 0; i < depth; i++ {
				if strings.Contains(x, fmt.Sprintf("*t%d.", i)) && strings.Contains(x, "hooks."+own) {
					lvl = i
				}
			}
			if lvl < 0 {
				self++
			} else {
				ran[lvl]++
			}
		}
		if failed {
			continue
		}
		for i := 1; i < depth; i++ {
			if ran[i] == 0 && !w.absent(&p, fmt.Sprintf("*t%d.", i), own) {
				return fmt.Sprintf("the hooks of the ancestor %d levels up are not run", i)
			}
			if ran[i] > 1 {
				return fmt.Sprintf("the hooks of the ancestor %d levels up are run twice", i)
			}
		}
		if self > 0 {
			selfRan++
		}
	}
	if selfRan == 0 {
		return "its own steps are not run"
	}
	return ""
}

// absent: the path knows that there are no such hooks.
func (w *World) absent(p *APath, obj, own string) bool {
	for k, v := range p.St.bindS {
		if strings.Contains(k, obj) && strings.Contains(k, "hooks."+own) {
			if y, kn := isTrue(v); kn && y && strings.Contains(k, "==") && strings.Contains(k, "nil") {
				return true
			}
			if isNilAV(v) {
				return true
			}
		}
	}
	return false
}

func typeOfAVor(v AV) types.Type {
	if t := typeOfAV(v); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}
