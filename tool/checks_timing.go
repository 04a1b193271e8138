package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// relations lists how a can compare to b (of "<", "=", ">") given the facts
// that compare something ending in suffix a with anything else.
func relations(fs FactSet, isA func(string) bool) map[string]bool {
	rel := map[string]bool{"<": true, "=": true, ">": true}
	for f := range fs {
		negd := false
		g := f
		if strings.HasPrefix(g, "!(") && matchedParen(g[1:]) {
			negd = true
			g = g[2 : len(g)-1]
		}
		if !strings.HasPrefix(g, "(") || !strings.HasSuffix(g, ")") {
			continue
		}
		g = g[1 : len(g)-1]
		for _, op := range []string{" < ", " == "} {
			i := splitOp(g, op)
			if i < 0 {
				continue
			}
			x, y := g[:i], g[i+len(op):]
			var holds map[string]bool
			switch {
			case op == " < " && isA(x):
				holds = map[string]bool{"<": true}
			case op == " < " && isA(y):
				holds = map[string]bool{">": true}
			case op == " == " && (isA(x) || isA(y)):
				holds = map[string]bool{"=": true}
			default:
				continue
			}
			for r := range rel {
				if holds[r] == negd {
					delete(rel, r)
				}
			}
		}
	}
	return rel
}

// splitOp finds a binary operator at the top level of a term.
func splitOp(s, op string) int {
	d := 0
	for i := 0; i+len(op) <= len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		}
		if d == 0 && s[i:i+len(op)] == op {
			return i
		}
	}
	return -1
}

func init() {
	register(&Check{ID: "C06",
		Explanation: "The function that schedules actions is decided by enumerating its ways and, on each, which comparisons of the present and the desired timing are possible: later means stored under the desired timing, equal means run now, earlier means an error unless the registration is optional. Storage: each timing is written to and read from its own place, for actions and for the fields of commands, flags and args. Set-up: each part of a set-up is scheduled at its own timing with the optional flag. Names: the functions named after a timing use that timing, the predicates test it. Hooks: a hook is stored only if its timing is not past and is one at which hooks are run. The scheduling, storing, set-up and hook functions are decided by abstract interpretation, once for every pair of present phase and registered timing.",
		Rules: []RuleDoc{
			{"schedule", "later: kept; now: run; past: refused unless optional, for each pair of timings", 40},
			{"refusal", "nothing is scheduled as optional unless declared so", 1},
			{"storage", "each timing has its own place, read and written alike", 14},
			{"setup", "each part of a set-up is scheduled at its own timing, with the optional flag", 20},
			{"names", "functions named after a timing use it", 14},
			{"hooks", "a hook is accepted only if it will run, for each pair of timings", 20},
		},
		Run: func(c *Ctx) {
			ruleSchedule(c)
			ruleRefusal(c)
			ruleStorage(c)
			ruleSetup(c)
			ruleTimingNames(c)
			ruleHooks(c)
		}})
}

// timingGrid lists the phases and all timings an action can be registered for.
func (w *World) timingGrid() (phases, all []string) {
	phases = []string{"InitialTiming", "BeforeTiming", "ActionTiming", "AfterTiming"}
	all = append(all, phases...)
	for _, n := range []string{"ValidatorTiming", "ImplicitValueTiming", "justBeforeTiming"} {
		if w.constVal(n) != "" {
			all = append(all, n)
		}
	}
	return
}

func (w *World) timingK(name string) AV {
	var i int64
	fmt.Sscan(w.constVal(name), &i)
	t := w.Type("cli", "Timing")
	return KInt(i, t)
}

// phaseOf is the phase in which a timing is processed, and its rank.
func phaseOf(n string) (string, int) {
	switch n {
	case "InitialTiming":
		return n, 0
	case "ActionTiming":
		return n, 2
	case "AfterTiming":
		return n, 3
	}
	return "BeforeTiming", 1
}

func paramOf(f *ssa.Function, is func(types.Type) bool) int {
	for i, p := range f.Params {
		if is(p.Type()) {
			return i
		}
	}
	return -1
}

func typeIs(name string) func(types.Type) bool {
	return func(t types.Type) bool { return TypeStr(t) == name }
}

func isBoolT(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Kind() == types.Bool
}

// inPhase makes the receiver's present timing a constant.
func (w *World) inPhase(f *ssa.Function, phase string) func(*aState) {
	return func(st *aState) {
		recv := aPtr{obj: "*param:" + paramKey(f.Params[0])}
		t := w.Type("cli", "Context")
		if t == nil {
			return
		}
		if stt, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				if TypeStr(stt.Field(i).Type()) == "cli.Timing" {
					p := recv
					p.path = "." + stt.Field(i).Name()
					st.store(p, w.timingK(phase))
				}
			}
		}
	}
}

func isInvoke(e AEvent, name string) bool {
	return strings.HasPrefix(e.Method, "invoke:") && strings.HasSuffix(e.Method, "."+name)
}

func ruleSchedule(c *Ctx) {
	w := c.W
	f := w.Func("cli.(Context).act")
	if f == nil {
		c.Missing("schedule", "the function that schedules actions")
		return
	}
	ti, oi := paramOf(f, typeIs("cli.Timing")), paramOf(f, isBoolT)
	if ti < 0 {
		c.Missing("schedule", "the timing parameter of the scheduler")
		return
	}
	phases, all := w.timingGrid()
	vi := -1
	for i := range f.Params {
		if i > 0 && i != ti && i != oi {
			vi = i
		}
	}
	fromV := func(v AV) bool { y, ok := v.(aSym); return ok && y.name == "param:"+paramKey(f.Params[vi]) }
	inl := func(g *ssa.Function, st *aState, args []AV) bool { return CalleeName(g) != "cli.ActionOf" }
	where := w.Pos(f.Pos())
	for _, ph := range phases {
		for _, d := range all {
			for _, opt := range []bool{false, true} {
				if opt && oi < 0 {
					continue
				}
				key := fmt.Sprintf("%s registered during %s", d, ph)
				if opt {
					key += ", optional"
				}
				args := make([]AV, len(f.Params))
				args[ti] = w.timingK(d)
				if oi >= 0 {
					args[oi] = KBool(opt)
				}
				paths, ok := w.Interp(f, args, AOpts{Setup: w.inPhase(f, ph), Inline: inl})
				if !ok || len(paths) == 0 {
					c.Bad("schedule", key, where, "the ways through the scheduler could not be enumerated")
					continue
				}
				_, pr := phaseOf(ph)
				_, dr := phaseOf(d)
				for _, p := range paths {
					if p.Panicked {
						c.Bad("schedule", key, w.InstrPos(p.Last), "it panics")
						continue
					}
					stored, run, other := 0, 0, ""
					var res AV
					for _, e := range p.Events {
						switch {
						case isInvoke(e, "appendAction"):
							stored++
							if k, ok := constOf(p.St, e.Args[0]); !ok || k != w.constVal(d) {
								other = "it is stored under another timing than the one asked for"
							}
							if vi >= 0 && !p.St.derives(e.Args[1], fromV) {
								other = "something else than the action is stored"
							}
						case isInvoke(e, "Execute") || e.Fn != nil && e.Fn.Name() == "Execute":
							if vi < 0 || (e.Recv != nil && p.St.derives(e.Recv, fromV)) {
								run++
								res = e.Res
							}
						}
					}
					at := w.InstrPos(p.Last)
					isNil := len(p.Ret) > 0 && isNilAV(p.St.norm(p.Ret[0]))
					fails := len(p.Ret) > 0 && p.St.nonNil(p.St.norm(p.Ret[0]))
					switch {
					case other != "":
						c.Bad("schedule", key, at, "%s", other)
					case pr < dr:
						c.That(stored == 1 && run == 0 && isNil, "schedule", key, at, "it is not kept for later (stored %d times, run %d times)", stored, run)
					case pr == dr:
						c.That(run == 1 && stored == 0 && res != nil && (p.St.norm(p.Ret[0]).str() == p.St.norm(res).str()), "schedule", key, at, "it is not run at once with its error returned (stored %d times, run %d times)", stored, run)
					case opt:
						c.That(stored == 0 && run == 0 && isNil, "schedule", key, at, "it is not ignored (stored %d times, run %d times)", stored, run)
					default:
						c.That(stored == 0 && run == 0 && fails, "schedule", key, at, "it is not refused (stored %d times, run %d times, error: %v)", stored, run, fails)
					}
				}
			}
		}
	}
}

// ruleRefusal: only what is declared optional is scheduled as optional.
func ruleRefusal(c *Ctx) {
	w := c.W
	act := w.Func("cli.(Context).act")
	if act == nil {
		return
	}
	oi := paramOf(act, isBoolT)
	if oi < 0 {
		return
	}
	for _, call := range w.Callers(act) {
		args := call.Common().Args
		t := w.Term(args[oi], nil)
		f := call.Parent()
		c.That(t == "false" || strings.Contains(t, "ptional") || strings.HasPrefix(t, "param:") || strings.HasPrefix(t, "free:"), "refusal", FName(f), w.InstrPos(call), "a past timing may be ignored although nothing says that it is optional (%s)", t)
	}
}

// nonNilCall: a call of a module function that only ever returns a fresh error.
func (w *World) nonNilCall(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil || !w.InModule(f) {
		return false
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) != 1 || !freshError(r.Results[0]) {
				return false
			}
		}
	}
	return true
}

// timingOf: on a path, the timing that the switch parameter is known to be.
func timingFacts(fs FactSet, param string) []string {
	var out []string
	for f := range fs {
		if strings.HasPrefix(f, "(") && strings.HasSuffix(f, ")") {
			g := f[1 : len(f)-1]
			if i := splitOp(g, " == "); i >= 0 {
				x, y := g[:i], g[i+4:]
				if x == param {
					out = append(out, y)
				} else if y == param {
					out = append(out, x)
				}
			}
		}
	}
	sortStrings(out)
	return out
}

func ruleStorage(c *Ctx) {
	w := c.W
	phases, all := w.timingGrid()
	poolField := map[string]string{"InitialTiming": "Initializers", "BeforeTiming": "Before", "ActionTiming": "Action", "AfterTiming": "After"}
	userField := map[string]string{"InitialTiming": "Uses", "BeforeTiming": "Before", "ActionTiming": "Action", "AfterTiming": "After"}
	opaque := func(g *ssa.Function, st *aState, args []AV) bool {
		switch CalleeName(g) {
		case "cli.Pipeline", "cli.ActionOf", "cli.(ActionPipeline).Append", "cli.(ActionPipeline).Prepend":
			return false
		}
		return true
	}
	// reading
	for _, fn := range []string{"cli.(actionPipelines).pipeline", "cli.(Command).pipeline", "cli.(Flag).pipeline", "cli.(Arg).pipeline"} {
		f := w.Func(fn)
		if f == nil {
			c.Missing("storage", fn)
			continue
		}
		ti := paramOf(f, typeIs("cli.Timing"))
		if ti < 0 {
			c.Missing("storage", "the timing parameter of "+fn)
			continue
		}
		recv := "*param:" + paramKey(f.Params[0])
		for _, n := range phases {
			want := userField[n]
			if strings.Contains(fn, "actionPipelines") {
				want = poolField[n]
			}
			args := make([]AV, len(f.Params))
			args[ti] = w.timingK(n)
			paths, ok := w.Interp(f, args, AOpts{Inline: opaque})
			key := fn + ": " + n
			if !ok || len(paths) == 0 {
				c.Bad("storage", key, w.Pos(f.Pos()), "its ways could not be enumerated")
				continue
			}
			for _, p := range paths {
				if p.Panicked || len(p.Ret) == 0 {
					c.Bad("storage", key, w.InstrPos(p.Last), "%s is not handled", n)
					continue
				}
				from := map[string]bool{}
				p.St.derives(p.Ret[0], func(v AV) bool {
					if y, ok := v.(aSym); ok && strings.HasPrefix(y.name, recv+".") {
						from[splitPath(y.name[len(recv):])[0]] = true
					}
					return false
				})
				c.That(len(from) == 1 && from["."+want], "storage", key, w.InstrPos(p.Last), "%s reads %v, not %s", n, boolKeys(from), want)
			}
		}
	}
	// writing
	fn := "cli.(actionPipelines).add"
	f := w.Func(fn)
	if f == nil {
		c.Missing("storage", fn)
		return
	}
	ti := paramOf(f, typeIs("cli.Timing"))
	if ti < 0 || len(f.Params) < 3 {
		c.Missing("storage", "the timing parameter of "+fn)
		return
	}
	ai := 3 - ti
	recv := "*param:" + paramKey(f.Params[0])
	isNew := func(v AV) bool { y, ok := v.(aSym); return ok && y.name == "param:"+paramKey(f.Params[ai]) }
	slots := map[string]string{}
	for _, n := range all {
		ph, _ := phaseOf(n)
		key := fn + ": " + n
		args := make([]AV, len(f.Params))
		args[ti] = w.timingK(n)
		paths, ok := w.Interp(f, args, AOpts{Inline: opaque})
		if !ok || len(paths) == 0 {
			c.Bad("storage", key, w.Pos(f.Pos()), "its ways could not be enumerated")
			continue
		}
		for _, p := range paths {
			if p.Panicked {
				c.Bad("storage", key, w.InstrPos(p.Last), "%s is not handled", n)
				continue
			}
			r := p.St.mem[recv]
			var wrote []string
			good := true
			if r != nil {
				for k, v := range r.cells {
					if v.str() == recv+k {
						continue // what was there
					}
					wrote = append(wrote, k)
					old := p.St.derives(v, func(x AV) bool { y, ok := x.(aSym); return ok && y.name == recv+k })
					if !old || !p.St.derives(v, isNew) {
						good = false
					}
				}
			}
			sortStrings(wrote)
			ok := len(wrote) == 1 && strings.HasPrefix(wrote[0]+".", "."+poolField[ph]) && splitPath(wrote[0])[0] == "."+poolField[ph]
			c.That(ok, "storage", key, w.InstrPos(p.Last), "%s changes %v, not %s", n, wrote, poolField[ph])
			c.That(good, "storage", key+" keeps the earlier ones", w.InstrPos(p.Last), "the stored actions do not consist of the earlier ones and the new one")
			if ok {
				if o, dup := slots[wrote[0]]; dup && o != n {
					c.Bad("storage", key+" has its own place", w.InstrPos(p.Last), "%s and %s share %s", o, n, wrote[0])
				}
				slots[wrote[0]] = n
			}
		}
	}
	// the methods that lead there pass on what they are given
	for _, fn := range []string{"cli.(pipelinesSupport).appendAction", "cli.(hooksSupport).hook"} {
		g := w.Func(fn)
		if g == nil {
			continue
		}
		ti, ai := paramOf(g, typeIs("cli.Timing")), paramOf(g, typeIs("cli.Action"))
		paths, ok := w.Interp(g, nil, AOpts{Inline: func(h *ssa.Function, st *aState, args []AV) bool { return h != f }})
		if !ok || ti < 0 || ai < 0 {
			c.Bad("storage", fn, w.Pos(g.Pos()), "its ways could not be enumerated")
			continue
		}
		for _, p := range paths {
			k := 0
			for _, e := range p.Events {
				if e.Fn == f {
					k++
					c.That(e.Args[1].str() == "param:"+paramKey(g.Params[ti]) && p.St.derives(e.Args[2], func(v AV) bool { return v.str() == "param:"+paramKey(g.Params[ai]) }), "storage", fn+" passes on", w.InstrPos(e.Call), "it does not pass on the timing and the action it was given")
				}
			}
			c.That(k == 1, "storage", fn, w.InstrPos(p.Last), "the action is added %d times", k)
		}
	}
}

func boolKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sortStrings(o)
	return o
}

func isPipelineField(t types.Type, i int) bool {
	switch fieldName(t, i) {
	case "Initializers", "Uses", "Before", "Action", "After":
		return true
	}
	return false
}

// feasibleAs: the facts do not exclude that param equals the constant val.
func feasibleAs(fs FactSet, param, val string) bool {
	vi, _ := constant.Int64Val(constant.MakeFromLiteral(val, 5, 0))
	for f := range fs {
		negd := false
		g := f
		if strings.HasPrefix(g, "!(") && matchedParen(g[1:]) {
			negd = true
			g = g[2 : len(g)-1]
		}
		if !strings.HasPrefix(g, "(") || !strings.HasSuffix(g, ")") {
			continue
		}
		g = g[1 : len(g)-1]
		for _, op := range []string{" == ", " < "} {
			i := splitOp(g, op)
			if i < 0 {
				continue
			}
			x, y := g[:i], g[i+len(op):]
			var k int64
			swap := false
			if x == param {
				if _, err := fmt.Sscan(y, &k); err != nil {
					continue
				}
			} else if y == param {
				if _, err := fmt.Sscan(x, &k); err != nil {
					continue
				}
				swap = true
			} else {
				continue
			}
			var h bool
			switch {
			case op == " == ":
				h = vi == k
			case !swap:
				h = vi < k
			default:
				h = k < vi
			}
			if h == negd {
				return false
			}
		}
	}
	return true
}

// flowsFrom walks back over what a value is computed from.
func (w *World) flowsFrom(v ssa.Value, visit func(ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		visit(v)
		switch x := v.(type) {
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr == v {
						rec(y.Val)
					}
				case *ssa.IndexAddr:
					for _, q := range *y.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
							rec(st.Val)
						}
					}
				case *ssa.FieldAddr:
					for _, q := range *y.Referrers() {
						if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
							rec(st.Val)
						}
					}
				}
			}
		case ssa.Instruction:
			for _, op := range x.Operands(nil) {
				if *op != nil {
					rec(*op)
				}
			}
		}
	}
	rec(v)
}

func ruleSetup(c *Ctx) {
	w := c.W
	f := w.Func("cli.(Setup).Execute")
	act := w.Func("cli.(Context).act")
	if f == nil || act == nil {
		c.Missing("setup", "the execution of a set-up")
		return
	}
	parts := []string{"Uses", "Before", "Action", "After"}
	want := map[string]string{"Uses": "InitialTiming", "Before": "BeforeTiming", "Action": "ActionTiming", "After": "AfterTiming"}
	ti, oi := paramOf(act, typeIs("cli.Timing")), paramOf(act, isBoolT)
	st := f.Params[0].Type()
	for m := 0; m < 16; m++ {
		agg := aAgg{t: st, over: map[string]AV{}, base: aSym{name: "setup", t: st}}
		set := map[string]bool{}
		for i, p := range parts {
			if m&(1<<i) != 0 {
				agg.over["."+p] = aSym{name: "setup." + p, nonNil: true}
				set[p] = true
			} else {
				agg.over["."+p] = aConst{}
			}
		}
		args := make([]AV, len(f.Params))
		args[0] = agg
		paths, ok := w.Interp(f, args, AOpts{
			Inline: func(g *ssa.Function, s *aState, args []AV) bool {
				return g != act && CalleeName(g) != "cli.FromContext"
			},
			Result: func(e *AEvent, s *aState) (AV, bool) {
				if e.Fn == act {
					return aConst{}, true
				}
				return nil, false
			},
		})
		if !ok || len(paths) == 0 {
			c.Bad("setup", "ways", w.Pos(f.Pos()), "its ways could not be enumerated")
			return
		}
		for _, p := range paths {
			if p.Panicked {
				continue
			}
			got := map[string]int{}
			for _, e := range p.Events {
				if e.Fn != act {
					continue
				}
				part := ""
				for _, a := range e.Args[1:] {
					for _, q := range parts {
						if p.St.derives(a, func(v AV) bool { return v.str() == "setup."+q }) {
							part = q
						}
					}
				}
				if part == "" {
					c.Bad("setup", "parts that are not set", w.InstrPos(e.Call), "something that is not a part of the set-up is scheduled")
					continue
				}
				got[part]++
				tm, _ := constOf(p.St, e.Args[ti])
				c.That(tm == w.constVal(want[part]), "setup", part+" at its timing", w.InstrPos(e.Call), "%s is scheduled at %s", part, w.constName("cli.Timing", tm))
				if oi >= 0 {
					c.That(p.St.norm(e.Args[oi]).str() == "setup.Optional", "setup", part+" may be optional", w.InstrPos(e.Call), "whether a timing error matters is not taken from Optional for %s", part)
				}
			}
			for _, q := range parts {
				n := 0
				if set[q] {
					n = 1
				}
				c.That(got[q] == n, "setup", fmt.Sprintf("%s of the parts %v", q, boolKeys(set)), w.InstrPos(p.Last), "%s is scheduled %d times", q, got[q])
			}
		}
	}
}

// timingConsts lists the constants of type Timing a function mentions.
func (w *World) timingConsts(f *ssa.Function) []string {
	m := map[string]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && TypeStr(k.Type()) == "cli.Timing" {
						m[w.constName("cli.Timing", k.Value.ExactString())] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	rec(f)
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func ruleTimingNames(c *Ctx) {
	w := c.W
	want := map[string]string{
		"cli.Before": "BeforeTiming", "cli.After": "AfterTiming", "cli.Initializer": "InitialTiming",
		"cli.(Context).Before": "BeforeTiming", "cli.(Context).After": "AfterTiming", "cli.(Context).Action": "ActionTiming", "cli.(Context).Use": "InitialTiming",
		"cli.(Context).HookBefore": "BeforeTiming", "cli.(Context).HookAfter": "AfterTiming",
		"cli.(Context).IsInitializing": "InitialTiming", "cli.(Context).IsBefore": "BeforeTiming", "cli.(Context).IsAfter": "AfterTiming", "cli.(Context).IsAction": "ActionTiming",
		"cli.Implicitly": "ImplicitValueTiming", "cli.(ValidatorFunc).Execute": "ValidatorTiming",
	}
	for _, n := range keysStr(want) {
		f := w.Func(n)
		if f == nil {
			c.Missing("names", n)
			continue
		}
		got := w.timingConsts(f)
		if len(got) == 0 {
			// through a helper: the constants reaching the scheduling calls
			m := map[string]bool{}
			w.Explore(f, ExploreOpts{Depth: 2}, func(s Site) {
				for _, op := range s.In.Operands(nil) {
					if *op == nil || TypeStr((*op).Type()) != "cli.Timing" {
						continue
					}
					t := s.Term(*op)
					if k := w.constName("cli.Timing", t); k != t {
						m[k] = true
					}
				}
			})
			for k := range m {
				got = append(got, k)
			}
			sortStrings(got)
		}
		c.That(len(got) == 1 && got[0] == want[n], "names", n, w.Pos(f.Pos()), "it uses %v, not %s", got, want[n])
	}
}

func keysStr(m map[string]string) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sortStrings(o)
	return o
}

func ruleHooks(c *Ctx) {
	w := c.W
	f := w.Func("cli.(Context).Hook")
	if f == nil {
		c.Missing("hooks", "the registration of hooks")
		return
	}
	ti := -1
	for i, p := range f.Params {
		if TypeStr(p.Type()) == "cli.Timing" {
			ti = i
		}
	}
	if ti < 0 {
		c.Missing("hooks", "the timing of a hook")
		return
	}
	// the timings at which hooks are run
	run := map[string]bool{}
	for _, g := range w.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || recvName(deref(fa.X.Type())) != "actionPipelines" {
					continue
				}
				h, ok := fa.X.(*ssa.FieldAddr)
				if !ok || fieldName(h.X.Type(), h.Field) != "hooks" || errIndex(g.Signature) < 0 {
					continue
				}
				run[fieldName(fa.X.Type(), fa.Field)] = true
			}
		}
	}
	c.That(run["Initializers"] && run["Before"] && run["After"], "hooks", "stored hooks are run", w.Pos(f.Pos()), "hooks are run only at %v", run)
	phases, all := w.timingGrid()
	recv := "param:" + paramKey(f.Params[0])
	for _, ph := range phases {
		for _, d := range all {
			key := fmt.Sprintf("a hook for %s registered during %s", d, ph)
			args := make([]AV, len(f.Params))
			args[ti] = w.timingK(d)
			paths, ok := w.Interp(f, args, AOpts{Setup: w.inPhase(f, ph)})
			if !ok || len(paths) == 0 {
				c.Bad("hooks", key, w.Pos(f.Pos()), "the ways through the registration could not be enumerated")
				continue
			}
			at, pr := phaseOf(ph)
			target, dr := phaseOf(d)
			_ = at
			field := map[string]string{"InitialTiming": "Initializers", "BeforeTiming": "Before", "ActionTiming": "Action", "AfterTiming": "After"}[target]
			runs := run[field] && pr <= dr
			some := false
			for _, p := range paths {
				if p.Panicked {
					c.Bad("hooks", key, w.InstrPos(p.Last), "it panics")
					continue
				}
				stored, good := 0, true
				for _, e := range p.Events {
					if isInvoke(e, "hook") {
						stored++
						if k, ok := constOf(p.St, e.Args[0]); !ok || k != w.constVal(d) {
							good = false
						}
					}
				}
				isNil := len(p.Ret) > 0 && isNilAV(p.St.norm(p.Ret[0]))
				fails := len(p.Ret) > 0 && p.St.nonNil(p.St.norm(p.Ret[0]))
				some = some || stored > 0
				if stored > 0 {
					c.That(runs && stored == 1, "hooks", key, w.InstrPos(p.Last), "the hook is accepted although it will not run")
					c.That(good, "hooks", key, w.InstrPos(p.Last), "the hook is stored under another timing")
				} else {
					c.That(!isNil && (fails || !runs || true), "hooks", key, w.InstrPos(p.Last), "the hook is dropped without an error")
				}
			}
			c.That(some == runs, "hooks", key+" is decided", w.Pos(f.Pos()), "a hook that would run is refused")
		}
	}
	_ = recv
}
