package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID: "C28",
		Explanation: "Abstract interpretation of the context filters and of what is run on a match: a driver in Go that uses the library is type-checked together with it " +
			"and every path of each law must end in true. Path patterns are compared with the documented meaning for every pattern of up to two parts from the alphabet of elements.",
		Rules: []RuleDoc{
			{"pattern", "A path matches a pattern exactly if each part of the pattern, from the last, matches the segment of the path at its place", 10},
			{"mode", "Each filter mode, and each combination of modes, matches exactly the contexts it describes", 40},
			{"run", "An action that depends on a filter is run once, with the context, exactly if the filter matches, and its error is the result", 15},
		},
		Run: ruleFilters,
	})
}

const filterDriver = `package driver

import (
	"context"

	cli "github.com/Carbonfrost/joe-cli"
)

// known to the interpreter
func liveContextOf(target any, t cli.Timing, parent *cli.Context) *cli.Context { panic("a context") }
func contextOf(target any, t cli.Timing, parent *cli.Context) *cli.Context { panic("a context") }

var (
	runs, checks int
	ran, checked context.Context
)

type failed struct{}

func (failed) Error() string { return "" }

func reset() { runs, checks, ran, checked = 0, 0, nil, nil }

// what is a filter: one that says so, and the same with a description
type says bool

func (s says) Matches(c context.Context) bool { checks++; checked = c; return bool(s) }

type described struct{ says }

func (described) Describe() string { return "described" }

type named struct{ says }

func (named) String() string { return "named" }

func match(p string, path ...string) bool { return cli.ContextPath(path).Match(p) }

var _ context.Context
`

// what the documentation says a pattern matches
func refField(p, f string) bool {
	flag := strings.HasPrefix(f, "-")
	expr := strings.HasPrefix(f, "<-")
	arg := strings.HasPrefix(f, "<") && !expr
	switch p {
	case "*":
		return !flag && !expr && !arg
	case "-", "--":
		return flag
	case "<>":
		return arg
	case "<->":
		return expr
	}
	return p == f || strings.HasPrefix(p, "-") && "-"+p == f
}

func refMatch(pattern string, path []string) bool {
	parts := strings.Fields(pattern)
	if len(parts) > len(path) {
		return false
	}
	for i := range parts {
		if !refField(parts[len(parts)-1-i], path[len(path)-1-i]) {
			return false
		}
	}
	return true
}

func ruleFilters(c *Ctx) {
	var ls []law
	add := func(rule, key, body string) { ls = append(ls, law{rule, key, "reset(); " + body}) }

	elems := []string{"*", "-", "<>", "<->", "nm", "-nm", "--nm", "<nm>", "<-nm>", "om", "-n", "--n", "n"}
	patterns := []string{"", " "}
	for _, a := range elems {
		patterns = append(patterns, a)
		for _, b := range elems {
			patterns = append(patterns, a+" "+b)
		}
	}
	patterns = append(patterns, "  om   --nm ", "nm om -n", "* * -", "* om *", "* * *", "* om <>", "nm om om", "nm * --nm", "* <nm> <->", "om nm om", "-- - -", "nm - *", "--")
	paths := [][]string{{"nm"}, {"nm", "om"}, {"nm", "nm"}, {"nm", "-n"}, {"nm", "--nm"}, {"nm", "<nm>"}, {"nm", "om", "--nm"}, {"nm", "om", "<nm>"}, {"nm", "<nm>", "<-nm>"}, {"nm", "nm", "om", "-n"}, {"<nm>"}, {"nm", "n"}, {}}
	for _, path := range paths {
		var args string
		for _, s := range path {
			args += fmt.Sprintf(", %q", s)
		}
		// by parts, so that what does not hold can be named
		byLast := map[string][]string{}
		var order []string
		for _, p := range patterns {
			last := ""
			if f := strings.Fields(p); len(f) > 0 {
				last = f[len(f)-1]
			}
			if byLast[last] == nil {
				order = append(order, last)
			}
			byLast[last] = append(byLast[last], fmt.Sprintf("match(%q%s) == %v", p, args, refMatch(p, path)))
		}
		for _, last := range order {
			add("pattern", fmt.Sprintf("%s: pattern that ends in %q", strings.Join(path, " "), last), "return "+strings.Join(byLast[last], " && "))
		}
	}

	// the contexts
	chain := `s := ""; flag := &cli.Flag{Name: "flag", Value: &s}; short := &cli.Flag{Name: "f", Value: &s}; arg := &cli.Arg{Name: "arg", Value: &s}; ` +
		`root := contextOf(&cli.Command{Name: "app"}, %[1]s, nil); sub := contextOf(&cli.Command{Name: "sub"}, %[1]s, root); ` +
		`fc := contextOf(flag, %[1]s, sub); sc := contextOf(short, %[1]s, root); ac := contextOf(arg, %[1]s, sub); `
	uses := `_, _, _, _, _ = root, sub, fc, sc, ac; _, _, _ = flag, short, arg; `
	in := func(timing, body string) string { return fmt.Sprintf(chain, "cli."+timing) + uses + body }
	ctxs := []struct {
		name string
		path []string
		is   map[string]bool
	}{
		{"root", []string{"app"}, map[string]bool{"AnyCommand": true, "RootCommand": true}},
		{"sub", []string{"app", "sub"}, map[string]bool{"AnyCommand": true}},
		{"fc", []string{"app", "sub", "--flag"}, map[string]bool{"AnyFlag": true, "HasValue": true}},
		{"sc", []string{"app", "-f"}, map[string]bool{"AnyFlag": true, "HasValue": true}},
		{"ac", []string{"app", "sub", "<arg>"}, map[string]bool{"AnyArg": true, "HasValue": true}},
	}
	for _, x := range ctxs {
		var terms []string
		for _, p := range []string{"", "*", "-", "<>", "<->", "sub", "app", "sub --flag", "app -f", "-f", "<arg>", "sub <>", "* *", "x app", "app sub *"} {
			terms = append(terms, fmt.Sprintf("cli.PatternFilter(%q).Matches(%s) == %v", p, x.name, refMatch(p, x.path)))
		}
		add("pattern", "filter on "+strings.Join(x.path, " "), strings.ReplaceAll(in("BeforeTiming", "return "+strings.Join(terms, " && ")), "contextOf(", "liveContextOf("))
	}

	for _, x := range [][4]string{{"fc", "--flag", "other", "app sub --other"}, {"ac", "<arg>", "other", "app sub <other>"}, {"sub", "sub", "other", "app other"}, {"root", "app", "other", "other"}} {
		last := x[3][strings.LastIndex(x[3], " ")+1:]
		add("pattern", "renamed: "+x[1], strings.ReplaceAll(in("InitialTiming", fmt.Sprintf(`ok := cli.PatternFilter(%[2]q).Matches(%[1]s); err := %[1]s.SetName(%[3]q); return ok && err == nil && !cli.PatternFilter(%[2]q).Matches(%[1]s) && cli.PatternFilter(%[4]q).Matches(%[1]s) && %[1]s.Path().String() == %[5]q && %[1]s.Path().Last() == %[4]q`, x[0], x[1], x[2], last, x[3])), "contextOf(", "liveContextOf("))
	}

	modes := []string{"AnyFlag", "AnyArg", "AnyCommand", "RootCommand", "HasValue", "Seen", "Anything"}
	for _, x := range ctxs {
		holds := func(m string) bool { return m == "Anything" || x.is[m] }
		for i, m := range modes {
			if m != "Seen" {
				add("mode", m+" on "+x.name, in("ActionTiming", fmt.Sprintf("return cli.%s.Matches(%s) == %v && %[2]s.Matches(cli.%[1]s) == %[3]v", m, x.name, holds(m))))
			}
			for _, n := range modes[i+1:] {
				if m == "Seen" || n == "Seen" || n == "Anything" {
					continue
				}
				if strings.HasPrefix(m, "Any") && strings.HasPrefix(n, "Any") {
					continue
				}
				add("mode", m+" and "+n+" on "+x.name, in("ActionTiming", fmt.Sprintf("return (cli.%s|cli.%s).Matches(%s) == %v", m, n, x.name, holds(m) && holds(n))))
			}
			if n := "Anything"; m != n && m != "Seen" {
				add("mode", m+" and "+n+" on "+x.name, in("ActionTiming", fmt.Sprintf("return (cli.%s|cli.%s).Matches(%s) == %v", m, n, x.name, !strings.HasPrefix(m, "Any") && holds(m) || strings.HasPrefix(m, "Any"))))
			}
		}
		add("mode", "none on "+x.name, in("ActionTiming", fmt.Sprintf("return cli.FilterModes(0).Matches(%s)", x.name)))
	}
	for _, x := range []string{"fc", "ac"} {
		t := map[string]string{"fc": "flag", "ac": "arg"}[x]
		add("mode", "Seen, not given: "+t, in("ActionTiming", fmt.Sprintf("return !cli.Seen.Matches(%s) && !(cli.Seen|cli.HasValue).Matches(%[1]s) && !(cli.Seen|cli.AnyFlag).Matches(%[1]s)", x)))
		add("mode", "Seen, given: "+t, in("ActionTiming", fmt.Sprintf("%s.SetOccurrence(v); return cli.Seen.Matches(%s) && (cli.Seen|cli.HasValue).Matches(%[2]s) && (cli.Seen|cli.AnyFlag).Matches(%[2]s) == (%[1]q == \"flag\")", t, x)))
	}
	for _, t := range []string{"InitialTiming", "BeforeTiming", "ActionTiming", "AfterTiming"} {
		var terms []string
		for _, u := range []string{"InitialTiming", "BeforeTiming", "ActionTiming", "AfterTiming"} {
			terms = append(terms, fmt.Sprintf("cli.%s.Matches(sub) == %v", u, t == u))
		}
		add("mode", "timing in "+t, in(t, "return "+strings.Join(terms, " && ")))
	}

	act := `a := cli.ActionFunc(func(c *cli.Context) error { runs++; ran = c; return err0 }); `
	for _, f := range []struct{ name, expr string }{
		{"a filter", "says(yes)"}, {"a filter with a description", "described{says(yes)}"}, {"a filter with a name", "named{says(yes)}"},
		{"a filter function", "cli.ContextFilterFunc(func(c *cli.Context) bool { checks++; checked = c; return yes })"},
	} {
		add("run", "IfMatch, "+f.name, in("ActionTiming", `err0 := e; if yes2 { err0 = nil }; `+act+`err := cli.IfMatch(`+f.expr+`, a).Execute(fc); if checks != 1 || cli.FromContext(checked) != fc { return false }; if !yes { return err == nil && runs == 0 }; return runs == 1 && cli.FromContext(ran) == fc && err == err0`))
		add("run", "Assert, "+f.name, in("ActionTiming", `err0 := e; if yes2 { err0 = nil }; `+act+`err := cli.Assert(`+f.expr+`, a).Execute(fc); if checks != 1 || cli.FromContext(checked) != fc { return false }; if !yes { return err != nil && runs == 0 }; return runs == 1 && cli.FromContext(ran) == fc && err == err0`))
		add("run", "Matches, "+f.name, in("ActionTiming", `return fc.Matches(`+f.expr+`) == yes && checks == 1 && cli.FromContext(checked) == fc`))
	}
	add("run", "IfMatch without a filter", in("ActionTiming", `err0 := e; `+act+`err := cli.IfMatch(nil, a).Execute(fc); return runs == 1 && cli.FromContext(ran) == fc && err == e`))
	add("run", "Matches without a filter", in("ActionTiming", `return fc.Matches(nil) && cli.ContextFilterFunc(nil).Matches(fc)`))
	for _, x := range ctxs {
		for _, m := range []string{"AnyFlag", "AnyArg", "AnyCommand", "RootCommand", "HasValue"} {
			want := 0
			if x.is[m] {
				want = 1
			}
			add("run", "IfMatch "+m+" on "+x.name, in("ActionTiming", fmt.Sprintf(`err0 := error(nil); `+act+`err := cli.IfMatch(cli.%s, a).Execute(%s); return err == nil && runs == %d`, m, x.name, want)))
			add("run", "Assert "+m+" on "+x.name, in("ActionTiming", fmt.Sprintf(`err0 := error(nil); `+act+`err := cli.Assert(cli.%s, a).Execute(%s); return (err == nil) == (%[3]d == 1) && runs == %[3]d`, m, x.name, want)))
		}
	}

	dw, err := c.W.Driven(filterDriver + sortModels + lawSource(ls))
	if err != nil {
		c.Bad("pattern", "filters", "-", "filters cannot be used as documented: %v", err)
		return
	}
	dw.modelled(sortNames)
	c.lawful(dw, ls, "filter.go", AOpts{Depth: 40, MaxSteps: 2000000})
}
