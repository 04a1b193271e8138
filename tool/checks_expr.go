package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID: "C29",
		Explanation: "Abstract interpretation of expressions: a driver in Go that uses the extension is type-checked together with it, and every path of each law must end in true. " +
			"The laws cover each kind of value an evaluator can be made of, pipelines of operators that filter, repeat and fail, and the words an expression is made of.",
		Rules: []RuleDoc{
			{"evaluator", "An evaluator made of a function calls it once with its context and value, and passes the value on exactly when the function says so", 44},
			{"pipeline", "Each value goes through the operators in order, each one given exactly what the one before it yields, up to the first error", 12},
			{"values", "An operator finds the words given after it in its args, each time that it is evaluated", 7},
			{"words", "Each word of an expression is an operator or an arg of the operator before it, in order", 12},
		},
		Run: ruleExpr,
	})
}

const exprDriver = `package driver

import (
	"context"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/expr"
)

// known to the interpreter
func contextOf(target any, t cli.Timing, parent *cli.Context) *cli.Context { panic("a context") }

type failed struct{}

func (failed) Error() string { return "" }

var (
	calls, yields, inits int
	gotC    context.Context
	gotV    any
	yielded any
	yieldE  error
	seen    []any
	stages  []int
	begin   cli.Action
)

func reset() {
	calls, yields, inits, gotC, gotV, yielded, yieldE, seen, stages, begin = 0, 0, 0, nil, nil, nil, nil, nil, nil, nil
}

func y(v any) error { yields++; yielded = v; return yieldE }

func called(c context.Context, v any) { calls++; gotC = c; gotV = v }

// once: the function was called once, with the context (if it takes one) and the value (if it takes one)
func once(c *cli.Context, v any) bool {
	return calls == 1 && (c == nil || cli.FromContext(gotC) == c) && gotV == v
}

// passed: the value was passed on, and what that gave is the result
func passed(v any, err error) bool { return yields == 1 && yielded == v && err == yieldE }

// stage: an operator that notes what it was given and yields each of the values
func stage(n int, out func(v any) []any) expr.Binding {
	return expr.NewBinding(expr.EvaluatorOf(func(_ context.Context, v any, yield func(any) error) error {
		stages, seen = append(stages, n), append(seen, v)
		for _, o := range out(v) {
			if err := yield(o); err != nil {
				return err
			}
		}
		return nil
	}))
}

func same(v any) []any  { return []any{v} }
func twice(v any) []any { return []any{v, v} }
func drop(any) []any    { return nil }

func fails(n int, on int, err error) expr.Binding {
	i := 0
	return expr.NewBinding(expr.EvaluatorOf(func(_ context.Context, v any, yield func(any) error) error {
		stages, seen = append(stages, n), append(seen, v)
		i++
		if i == on {
			return err
		}
		return yield(v)
	}))
}

func went(want ...int) bool {
	if len(stages) != len(want) {
		return false
	}
	for i, w := range want {
		if stages[i] != w {
			return false
		}
	}
	return true
}

func saw(want ...any) bool {
	if len(seen) != len(want) {
		return false
	}
	for i, w := range want {
		if seen[i] != w {
			return false
		}
	}
	return true
}

func pipe(b ...expr.Binding) *expr.Expression {
	e := &expr.Expression{}
	for _, x := range b {
		e.Append(x)
	}
	return e
}

// what happens when a command with the expression is run: its action keeps the words that were set
func mAt(t cli.Timing, a cli.Action) cli.Action {
	if t == cli.ActionTiming {
		begin = a
	}
	return cli.ActionFunc(func(*cli.Context) error { return nil })
}

// taken: what the words are as operators, each with its args
type op struct {
	name string
	args []string
}

func words(exprs []*expr.Expr, ws ...string) (*expr.Expression, error) {
	e := &expr.Expression{Exprs: exprs}
	for _, w := range ws {
		e.Set(w)
	}
	e.Initializer()
	return e, begin.Execute(contextOf(&cli.Arg{Name: "expression", Value: e}, cli.ActionTiming, nil))
}

func operators(e *expr.Expression) []string {
	var res []string
	e.Walk(func(b expr.Binding) error { res = append(res, b.Expr().Name); return nil })
	return res
}

func are(got []string, want ...string) bool {
	if len(got) != len(want) {
		return false
	}
	for i, w := range want {
		if got[i] != w {
			return false
		}
	}
	return true
}

// texts: a value that keeps every word that it is set to
type texts struct{ s []string }

func (t *texts) Set(s string) error { t.s = append(t.s, s); return nil }
func (t *texts) String() string     { return "" }
func (t *texts) Reset()             { t.s = nil }

// given: the words that the operators got, in order
var given []string

func take(c *cli.Context, _ any) {
	given = append(given, c.Value("pattern").(*texts).s...)
}

func takePair(c *cli.Context, _ any) {
	given = append(append(given, c.Value("a").(*texts).s...), c.Value("b").(*texts).s...)
}

func taker(name string, aliases ...string) *expr.Expr {
	return &expr.Expr{Name: name, Aliases: aliases, Args: []*cli.Arg{{Name: "pattern", Value: &texts{}, NArg: 1}}, Evaluate: take}
}

// raw: the words of the arg of the operator at the place
func raw(e *expr.Expression, i int, arg string) []string {
	n := 0
	var res []string
	e.Walk(func(b expr.Binding) error {
		if n == i {
			res = b.(interface{ RawOccurrences(string) []string }).RawOccurrences(arg)
		}
		n++
		return nil
	})
	return res
}

var _ context.Context
`

func ruleExpr(c *Ctx) {
	var ls []law
	add := func(rule, key, body string) {
		ls = append(ls, law{rule, key, "reset(); " + body})
		if rule == "evaluator" {
			ls = append(ls, law{rule, key + " without a value", "reset(); " + strings.ReplaceAll(body, "any1", "nil")})
		}
	}

	ctx := `c := contextOf(&cli.Command{Name: "c"}, cli.ActionTiming, nil); if yes2 { yieldE = e2 }; `
	for _, k := range []string{"*cli.Context", "context.Context", ""} {
		prm, call, at := "c2 "+k+", v2 any", "called(c2, v2)", "c"
		if k == "" {
			prm, call, at = "v2 any", "called(nil, v2)", "nil"
		}
		sig := strings.NewReplacer("c2 ", "", "v2 ", "").Replace(prm)
		on := func(res, fn string) string {
			return ctx + fmt.Sprintf("ev := expr.EvaluatorOf(func(%s) %s); err := ev.Evaluate(c, any1, y); if !once(%s, any1) { return false }; ", prm, fn, at)
		}
		add("evaluator", "func("+sig+")", on("", "{ "+call+" }")+`return passed(any1, err)`)
		add("evaluator", "func("+sig+") bool", on("", "bool { "+call+"; return yes }")+`if yes { return passed(any1, err) }; return yields == 0 && err == nil`)
		add("evaluator", "func("+sig+") error", on("", "error { "+call+"; if yes { return nil }; return e }")+`if yes { return passed(any1, err) }; return yields == 0 && err == e`)
		full := ctx + fmt.Sprintf("ev := expr.EvaluatorOf(func(%s, y2 func(any) error) error { %s; if yes { return y2(any2) }; return e }); err := ev.Evaluate(c, any1, y); ", prm, call)
		add("evaluator", "func("+sig+", func(any) error) error", full+fmt.Sprintf(`if !once(%s, any1) { return false }; if yes { return passed(any2, err) }; return yields == 0 && err == e`, at))
	}
	add("evaluator", "func() bool", ctx+`err := expr.EvaluatorOf(func() bool { calls++; return yes }).Evaluate(c, any1, y); if calls != 1 { return false }; if yes { return passed(any1, err) }; return yields == 0 && err == nil`)
	add("evaluator", "func() error", ctx+`err := expr.EvaluatorOf(func() error { calls++; if yes { return nil }; return e }).Evaluate(c, any1, y); if calls != 1 { return false }; if yes { return passed(any1, err) }; return yields == 0 && err == e`)
	add("evaluator", "bool", ctx+`err := expr.EvaluatorOf(yes).Evaluate(c, any1, y); if yes { return passed(any1, err) }; return yields == 0 && err == nil`)
	add("evaluator", "invariant", ctx+`err := expr.Invariant(yes).Evaluate(c, any1, y); if yes { return passed(any1, err) }; return yields == 0 && err == nil`)
	add("evaluator", "always true", ctx+`err := expr.AlwaysTrue.Evaluate(c, any1, y); return passed(any1, err)`)
	add("evaluator", "always false", ctx+`err := expr.AlwaysFalse.Evaluate(c, any1, y); return yields == 0 && err == nil`)
	add("evaluator", "predicate", ctx+`err := expr.Predicate(func(v any) bool { called(nil, v); return yes }).Evaluate(c, any1, y); if !once(nil, any1) { return false }; if yes { return passed(any1, err) }; return yields == 0 && err == nil`)
	add("evaluator", "nothing", ctx+`err := expr.EvaluatorOf(nil).Evaluate(c, any1, y); return passed(any1, err)`)
	add("evaluator", "an error", ctx+`err := expr.EvaluatorOf(failed{}).Evaluate(c, any1, y); _, its := err.(failed); return yields == 0 && its`)
	add("evaluator", "the error evaluator", ctx+`err := expr.Error(e).Evaluate(c, any1, y); return yields == 0 && err == e`)
	add("evaluator", "the error evaluator without an error", ctx+`err := expr.Error(nil).Evaluate(c, any1, y); return yields == 0 && err != nil`)
	add("evaluator", "an evaluator", ctx+`ev := expr.Predicate(func(any) bool { calls++; return yes }); err := expr.EvaluatorOf(ev).Evaluate(c, any1, y); if calls != 1 { return false }; if yes { return passed(any1, err) }; return yields == 0 && err == nil`)
	add("evaluator", "an evaluator function", ctx+`err := expr.EvaluatorFunc(func(c2 *cli.Context, v2 any, y2 func(any) error) error { called(c2, v2); return y2(any2) }).Evaluate(c, any1, y); return once(c, any1) && passed(any2, err)`)
	add("evaluator", "no evaluator function", ctx+`return expr.EvaluatorFunc(nil).Evaluate(c, any1, y) == nil`)

	run := func(items string) string {
		return `c := contextOf(&cli.Command{Name: "c"}, cli.ActionTiming, nil); err := p.Evaluate(c, ` + items + `); `
	}
	add("pipeline", "no operator", `p := pipe(); `+run("any1, any2")+`return err == nil`)
	add("pipeline", "no value", `p := pipe(stage(1, same)); c := contextOf(&cli.Command{Name: "c"}, cli.ActionTiming, nil); return p.Evaluate(c) == nil && went()`)
	add("pipeline", "one operator", `p := pipe(stage(1, same)); `+run("any1, any2")+`return err == nil && went(1, 1) && saw(any1, any2)`)
	add("pipeline", "in order", `p := pipe(stage(1, same), stage(2, same), stage(3, same)); `+run("any1, any2")+`return err == nil && went(1, 2, 3, 1, 2, 3) && saw(any1, any1, any1, any2, any2, any2)`)
	add("pipeline", "what was yielded", `p := pipe(stage(1, func(any) []any { return []any{any2, "b"} }), stage(2, twice), stage(3, drop), stage(4, same)); `+run("any1")+`return err == nil && went(1, 2, 3, 3, 2, 3, 3) && saw(any1, any2, any2, any2, "b", "b", "b")`)
	add("pipeline", "filtered", `p := pipe(stage(1, same), expr.NewBinding(expr.EvaluatorOf(yes)), stage(2, same)); `+run("any1")+`if yes { return err == nil && went(1, 2) }; return err == nil && went(1)`)
	add("pipeline", "prepended", `p := pipe(stage(1, same), stage(2, same)); p.Prepend(stage(0, same)); p.Append(stage(3, same)); `+run("any1")+`return err == nil && went(0, 1, 2, 3)`)
	add("pipeline", "error in the first", `p := pipe(fails(1, 1, e), stage(2, same)); `+run("any1, any2")+`return err == e && went(1)`)
	add("pipeline", "error in the last", `p := pipe(stage(1, same), fails(2, 1, e)); `+run("any1, any2")+`return err == e && went(1, 2)`)
	add("pipeline", "error for the second value", `p := pipe(stage(1, same), fails(2, 2, e), stage(3, same)); `+run("any1, any2, any1")+`return err == e && went(1, 2, 3, 1, 2)`)
	add("pipeline", "error stops what is repeated", `p := pipe(stage(1, twice), fails(2, 1, e)); `+run("any1")+`return err == e && went(1, 2)`)
	add("pipeline", "error that is dealt with", `p := pipe(expr.NewBinding(expr.EvaluatorOf(func(v any, yield func(any) error) error { yield(v); return nil })), fails(2, 1, e)); `+run("any1, any2")+`return err == nil && went(2, 2)`)
	add("pipeline", "twice", `p := pipe(stage(1, same), stage(2, same)); c := contextOf(&cli.Command{Name: "c"}, cli.ActionTiming, nil); e1, e3 := p.Evaluate(c, any1), p.Evaluate(c, any2); return e1 == nil && e3 == nil && went(1, 2, 1, 2) && saw(any1, any1, any2, any2)`)
	add("pipeline", "walk", `b1, b2, b3 := stage(1, same), stage(2, same), stage(3, same); p := pipe(b1, b2, b3); var got []expr.Binding; err := p.Walk(func(x expr.Binding) error { got = append(got, x); if len(got) == 2 && yes { return e }; return nil }); if yes { return err == e && len(got) == 2 && got[0] == b1 && got[1] == b2 }; return err == nil && len(got) == 3 && got[2] == b3`)
	add("pipeline", "walk with nothing", `return pipe(stage(1, same)).Walk(nil) == nil`)
	add("pipeline", "bindings", `b1, b2, b3 := stage(1, same), stage(2, same), stage(3, same); p := pipe(b1, b2, b3); var got []expr.Binding; for x := range p.Bindings() { got = append(got, x); if len(got) == 2 && yes { break } }; if yes { return len(got) == 2 && got[0] == b1 && got[1] == b2 }; return len(got) == 3 && got[0] == b1 && got[1] == b2 && got[2] == b3`)
	add("pipeline", "binding's operator", `o := &expr.Expr{Name: "o"}; return expr.NewBinding(expr.EvaluatorOf(yes), o, cli.LookupValues{}).Expr() == o && expr.NewBinding(nil).Expr() == nil && expr.NewBinding(nil, o).Expr() == o`)

	ops := `ops := []*expr.Expr{{Name: "not", Aliases: []string{"n", "no"}}, {Name: "name", Aliases: []string{"p"}, Args: []*cli.Arg{{Name: "pattern", Value: cli.String(), NArg: 1}}}, {Name: "pair", Args: []*cli.Arg{{Name: "a", Value: cli.String(), NArg: 1}, {Name: "b", Value: cli.String(), NArg: 1}}}, {Name: "many", Args: []*cli.Arg{{Name: "m", Value: cli.String(), NArg: cli.TakeUntilNextFlag}}}}; `
	w := func(key, ws, then string) {
		add("words", key, ops+`p, err := words(ops, `+ws+`); `+then)
	}
	add("words", "none", ops+`p, err := words(ops); return err == nil && are(operators(p))`)
	w("one", `"-not"`, `return err == nil && are(operators(p), "not")`)
	w("alias", `"-n", "-no", "-not"`, `return err == nil && are(operators(p), "not", "not", "not")`)
	w("with an arg", `"-name", v`, `return err == nil && are(operators(p), "name") && are(raw(p, 0, "pattern"), v)`)
	w("several", `"-name", v, "-not", "-pair", w, x`, `return err == nil && are(operators(p), "name", "not", "pair") && are(raw(p, 0, "pattern"), v) && are(raw(p, 2, "a"), w) && are(raw(p, 2, "b"), x)`)
	w("the same one again", `"-name", v, "-name", w`, `return err == nil && are(operators(p), "name", "name") && are(raw(p, 0, "pattern"), v) && are(raw(p, 1, "pattern"), w)`)
	w("many args", `"-many", v, w, x, "-not"`, `return err == nil && are(operators(p), "many", "not") && are(raw(p, 0, "m"), v, w, x)`)
	w("many args, twice", `"-many", v, "-many", w, x`, `return err == nil && are(operators(p), "many", "many") && are(raw(p, 0, "m"), v) && are(raw(p, 1, "m"), w, x)`)
	w("operator that starts as an arg does", `"-many", v, "-name", w, "-not"`, `return err == nil && are(operators(p), "many", "name", "not") && are(raw(p, 0, "m"), v) && are(raw(p, 1, "pattern"), w)`)
	w("operator that starts as an arg does, at the end", `"-pair", v, w, "-p", x`, `return err == nil && are(operators(p), "pair", "name") && are(raw(p, 0, "a"), v) && are(raw(p, 0, "b"), w) && are(raw(p, 1, "pattern"), x)`)
	g := func(key, ws, items, then string) {
		add("values", key, `given = nil; ops := []*expr.Expr{taker("name"), taker("path", "p"), {Name: "yes", Evaluate: yes}, {Name: "pair", Args: []*cli.Arg{{Name: "a", Value: &texts{}, NArg: 1}, {Name: "b", Value: &texts{}, NArg: 1}}, Evaluate: takePair}}; p, err := words(ops, `+ws+`); if err != nil { return false }; c := contextOf(&cli.Command{Name: "c"}, cli.ActionTiming, nil); err = p.Evaluate(c, `+items+`); `+then)
	}
	g("of one operator", `"-name", v`, "any1", `return err == nil && are(given, v)`)
	g("of one operator, several times", `"-name", v`, "any1, any2", `return err == nil && are(given, v, v)`)
	g("of several", `"-name", v, "-path", w`, "any1", `return err == nil && are(given, v, w)`)
	g("of the same operator again", `"-name", v, "-name", w`, "any1, any2", `return err == nil && are(given, v, w, v, w)`)
	g("by an alias", `"-p", v, "-path", w`, "any1", `return err == nil && are(given, v, w)`)
	g("two args", `"-pair", v, w, "-pair", w, x`, "any1, any2", `return err == nil && are(given, v, w, w, x, v, w, w, x)`)
	g("after a filter", `"-name", v, "-yes", "-name", w`, "any1", `if yes { return err == nil && are(given, v, w) }; return err == nil && are(given, v)`)

	w("unknown", `"-unknown"`, `_ = p; return err != nil`)
	w("unknown after others", `"-name", v, "-unknown"`, `_ = p; return err != nil`)
	w("word that is no operator", `"xnot"`, `_ = p; return err != nil`)
	w("operator without a dash", `"not"`, `_ = p; return err != nil`)
	w("operator without a dash after another", `"-not", "name", v`, `_ = p; return err != nil`)
	w("empty word", `""`, `_ = p; return err != nil`)
	w("dash", `"-"`, `_ = p; return err != nil`)
	w("name of an arg", `"-name", v, "--pattern", w`, `_ = p; return err != nil`)
	w("too many args", `"-name", v, w`, `_ = p; return err != nil`)
	w("args that nothing takes", `"-not", v`, `_ = p; return err != nil`)
	w("missing arg", `"-name"`, `_ = p; return err != nil`)
	w("missing arg after others", `"-not", "-name"`, `_ = p; return err != nil`)

	dw, err := c.W.Driven(exprDriver + lawSource(ls))
	if err != nil {
		c.Bad("pipeline", "expressions", "-", "expressions cannot be used as documented: %v", err)
		return
	}
	dw.modelled(map[string]string{"cli.At": "mAt"})
	c.lawful(dw, ls, "extensions/expr/expr.go", AOpts{Depth: 60, MaxSteps: 2000000})
}
