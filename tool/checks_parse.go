package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C07",
		Explanation: "Small functions that parse one form of the command line each are added to the program (in memory) and interpreted, with the values on the command line being unknown text: what every flag and arg is given, or which error there is, is compared with what the documentation says for that form.",
		Rules: []RuleDoc{
			{"form", "every word goes to one flag or arg, in order", 60},
			{"error", "words which don't fit are errors that say which", 15},
			{"names", "names and aliases resolve to the flag or arg", 8},
			{"count", "arg counters take what they are documented to", 8},
			{"apply", "occurrences are applied in order, up to the first error", 10},
		},
		Run: func(c *Ctx) {
			ruleParse(c)
			ruleAlias(c, "names", false)
		}})
}

// A form of the command line and what comes from it:  $v, $w, $x are words that don't look
// like flags, $u is any text (possibly empty), $d looks like a flag.  ” is the empty word.
type parseForm struct {
	shape, words, want string
}

var parseForms = []parseForm{
	// args
	{"two", "", ""},
	{"two", "$v", "a: <a> $v"},
	{"two", "$v $w", "a: <a> $v; b: <b> $w"},
	{"two", "- ''", "a: <a> -; b: <b> ''"},
	{"two", "'' -", "a: <a> ''; b: <b> -"},
	{"two", "$v $w $x", "error UnexpectedArgument"},
	{"two", "$v $w $x --flag", "error UnexpectedArgument"},
	// long
	{"two", "--num $v", "num: --num $v"},
	{"two", "--num=$u", "num: --num $u"},
	{"two", "--num= $v", "num: --num ''; a: <a> $v"},
	{"two", "--number $v", "num: --number $v"},
	{"two", "--number=$u", "num: --number $u"},
	{"two", "--num ''", "num: --num ''"},
	{"two", "--num -", "num: --num -"},
	{"two", "--flag $v", "flag: --flag ''; a: <a> $v"},
	{"two", "--flag=$u", "flag: --flag $u"},
	{"two", "--flag --num $v $w", "flag: --flag ''; num: --num $v; a: <a> $w"},
	{"two", "--num $v --flag $w", "flag: --flag ''; num: --num $v; a: <a> $w"},
	{"two", "--f $v", "flag: -f ''; a: <a> $v"},
	{"two", "--n $v", "num: -n $v"},
	{"two", "--n=$u", "num: --n $u"},
	// short
	{"two", "-n $v", "num: -n $v"},
	{"two", "-n$v", "num: -n $v"},
	{"two", "-n$v $w", "num: -n $v; a: <a> $w"},
	{"two", "-n$d", "num: -n $d"},
	{"two", "-é$v $w", "num: -é $v; a: <a> $w"},
	{"two", "-f $v", "flag: -f ''; a: <a> $v"},
	{"two", "-fg $v", "flag: -f ''; go: -g ''; a: <a> $v"},
	{"two", "-gf", "flag: -f ''; go: -g ''"},
	{"two", "-fn $v $w", "flag: -f ''; num: -n $v; a: <a> $w"},
	{"two", "-fn$v $w", "flag: -f ''; num: -n $v; a: <a> $w"},
	{"two", "-fgn$v", "flag: -f ''; go: -g ''; num: -n $v"},
	{"two", "-nf$v", "num: -n f$v"},
	{"two", "-ff", "flag: -f '' / -f ''"},
	{"two", "-f -n $v -g", "flag: -f ''; num: -n $v; go: -g ''"},
	// optional
	{"two", "--opt $v", "opt: --opt $v"},
	{"two", "--opt", "opt: --opt ''"},
	{"two", "--opt=$u", "opt: --opt $u"},
	{"two", "--opt --flag", "opt: --opt ''; flag: --flag ''"},
	{"two", "--opt -f $v", "opt: --opt ''; flag: -f ''; a: <a> $v"},
	{"two", "-o $v", "opt: -o ''; a: <a> $v"},
	{"two", "-o$v $w", "opt: -o $v; a: <a> $w"},
	{"two", "-o", "opt: -o ''"},
	{"two", "-fo $v", "flag: -f ''; opt: -o ''; a: <a> $v"},
	{"two", "-o --flag", "opt: -o ''; flag: --flag ''"},
	// several values
	{"two", "--list $v $w", "list: --list $v $w"},
	{"two", "-l $v $w $x", "list: -l $v $w $x"},
	{"two", "-l$v $w", "list: -l $v; a: <a> $w"},
	{"two", "--list=$u $w", "list: --list $u; a: <a> $w"},
	{"two", "--list $v --flag $w", "list: --list $v; flag: --flag ''; a: <a> $w"},
	{"two", "--list $v -f $w", "list: --list $v; flag: -f ''; a: <a> $w"},
	{"two", "-l $v - $w -f", "list: -l $v - $w; flag: -f ''"},
	{"two", "--list $v '' $w", "list: --list $v '' $w"},
	{"two", "-l '' $v -f", "list: -l '' $v; flag: -f ''"},
	{"many", "$v '' $w", "files: <files> $v / <files> '' / <files> $w"},
	{"two", "--pair $v $w $x", "pair: --pair $v $w; a: <a> $x"},
	{"two", "-p $v $w -f $x", "pair: -p $v $w; flag: -f ''; a: <a> $x"},
	// several times
	{"two", "--num $v --num $w", "num: --num $v / --num $w"},
	{"two", "--num=$u -n $v -n$w --number $x", "num: --num $u / -n $v / -n $w / --number $x"},
	{"two", "--list $v $w --list $x", "list: --list $v $w / --list $x"},
	{"two", "-l $v -l $w", "list: -l $v / -l $w"},
	{"two", "--flag -f --flag", "flag: --flag '' / -f '' / --flag ''"},
	// between and after the args
	{"two", "$v --flag $w", "a: <a> $v; flag: --flag ''; b: <b> $w"},
	{"two", "$v --num $w $x", "a: <a> $v; num: --num $w; b: <b> $x"},
	{"two", "$v -n$w $x", "a: <a> $v; num: -n $w; b: <b> $x"},
	{"two", "$v $w --flag", "a: <a> $v; b: <b> $w; flag: --flag ''"},
	{"two", "$v $w --num=$u -f", "a: <a> $v; b: <b> $w; num: --num $u; flag: -f ''"},
	{"two", "$v --flag", "a: <a> $v; flag: --flag ''"},
	{"unless", "$v --flag $w", "a: <a> $v; flag: --flag ''; b: <b> $w"},
	// the end of the flags
	{"two", "-- $v", "a: <a> $v"},
	{"two", "-- $d", "a: <a> $d"},
	{"two", "-- --flag --num", "a: <a> --flag; b: <b> --num"},
	{"two", "-- -f $v", "a: <a> -f; b: <b> $v"},
	{"two", "--flag -- --num", "flag: --flag ''; a: <a> --num"},
	{"two", "--num $v -- $d", "num: --num $v; a: <a> $d"},
	{"two", "$v -- $d", "a: <a> $v; b: <b> $d"},
	{"two", "$v -- --flag", "a: <a> $v; b: <b> --flag"},
	{"two", "--list $v -- $w", "list: --list $v; a: <a> $w"},
	{"two", "--", ""},
	{"many", "-- $d $v --flag", "files: <files> $d / <files> $v / <files> --flag"},
	{"many", "$v -- $d", "files: <files> $v; b: <b> $d"},
	// several words to an arg
	{"many", "$v $w $x", "files: <files> $v / <files> $w / <files> $x"},
	{"many", "$v - $w", "files: <files> $v / <files> - / <files> $w"},
	{"many", "--flag $v $w", "flag: --flag ''; files: <files> $v / <files> $w"},
	{"many", "$v $w --flag", "files: <files> $v / <files> $w; flag: --flag ''"},
	{"many", "$v --flag $w", "files: <files> $v; flag: --flag ''; b: <b> $w"},
	{"many", "$v --flag $w $x", "error UnexpectedArgument"},
	{"n2", "$v $w", "pair2: <pair2> $v / <pair2> $w"},
	{"n2", "$v $w $x", "pair2: <pair2> $v / <pair2> $w; b: <b> $x"},
	{"n2", "$v --flag $w $x", "pair2: <pair2> $v / <pair2> $w; flag: --flag ''; b: <b> $x"},
	{"n2", "--num $v $w $x", "num: --num $v; pair2: <pair2> $w / <pair2> $x"},
	{"n2", "$v $w --flag", "pair2: <pair2> $v / <pair2> $w; flag: --flag ''"},
	{"n2", "-- $d $v", "pair2: <pair2> $d / <pair2> $v"},
	{"n2", "-- --flag -f", "pair2: <pair2> --flag / <pair2> -f"},
	{"all", "$v $w", "rest: <rest> $v / <rest> $w"},
	{"all", "$v --flag $d --nope", "rest: <rest> $v / <rest> --flag / <rest> $d / <rest> --nope"},
	{"all", "--flag $v -f", "flag: --flag ''; rest: <rest> $v / <rest> -f"},
	{"all", "--number $v $w", "num: --number $v; rest: <rest> $w"},
	{"all", "$v -- $d --flag", "rest: <rest> $v / <rest> -- / <rest> $d / <rest> --flag"},
	{"all", "$v $w -- $x", "rest: <rest> $v / <rest> $w / <rest> -- / <rest> $x"},
	{"all", "-- $d $v", "rest: <rest> $d / <rest> $v"},
	{"all", "--flag -- --flag -- $v", "flag: --flag ''; rest: <rest> --flag / <rest> -- / <rest> $v"},
	{"all", "--flag --num=$u -n$v $w -f", "flag: --flag ''; num: --num $u / -n $v; rest: <rest> $w / <rest> -f"},
	{"mix", "--flag $v --num=$u", "flag: --flag ''; rest: <rest> $v; num: --num $u"},
	{"mix", "$v --flag $w", "rest: <rest> $v / <rest> $w; flag: --flag ''"},
	{"mix", "$v --num $w $x -f", "rest: <rest> $v / <rest> $x; num: --num $w; flag: -f ''"},
	{"mix", "--list $v -f $w", "list: --list $v; flag: -f ''; rest: <rest> $w"},
	// errors
	{"two", "--nope", "error UnknownOption --nope at 0"},
	{"two", "--nope=$u $v", "error UnknownOption --nope"},
	{"two", "$v --nope", "error UnknownOption --nope at 1"},
	{"two", "-z $v", "error UnknownOption -z at 0"},
	{"two", "--flag -z", "error UnknownOption -z at 1"},
	{"two", "-fz", "error UnknownOption -z"},
	{"two", "-fz$v", "error UnknownOption -z"},
	{"two", "--=$u", "error UnknownOption"},
	{"two", "--z", "error UnknownOption -z"},
	{"two", "--num", "error ExpectedArgument --num at 0"},
	{"two", "$v --num", "error ExpectedArgument --num at 1"},
	{"two", "-n", "error ExpectedArgument"},
	{"two", "-fn", "error ExpectedArgument"},
	{"two", "--pair $v", "error ExpectedArgument --pair at 0"},
	{"two", "--pair $v --flag $w", "error ExpectedArgument --pair at 0"},
	{"two", "-f=$u", "error InvalidArgument -f"},
	{"two", "-gf=$u", "error InvalidArgument -f"},
	{"two", "--flag -f=$u", "error InvalidArgument -f at 1"},
	{"n2", "$v", "error ExpectedArgument"},
	{"n2", "", "error ExpectedArgument"},
	{"n2", "--flag", "error ExpectedArgument"},
	{"n2", "$v --flag", "error ExpectedArgument"},
	{"n2", "$v -- $w", "error ExpectedArgument"},
	{"each", "$v $w", "a: <a> $v; b: <b> $w"},
	{"each", "$v --flag $w", "a: <a> $v; flag: --flag ''; b: <b> $w"},
	{"each", "$v -- $d", "a: <a> $v; b: <b> $d"},
	{"each", "", "error ExpectedArgument"},
	{"each", "--flag", "error ExpectedArgument"},
	{"each", "$v", "error ExpectedArgument"},
	{"each", "$v --flag", "error ExpectedArgument"},
	{"none", "$v", "error UnexpectedArgument"},
	{"none", "--flag $v", "error UnexpectedArgument"},
	{"none", "--flag", "flag: --flag ''"},
	{"none", "-- $v", "error UnexpectedArgument"},
	// the dash and the empty word
	{"none", "-", "error UnexpectedArgument"},
	{"none", "''", "error UnexpectedArgument"},
	{"none", "--flag -", "error UnexpectedArgument"},
	{"none", "-- -", "error UnexpectedArgument"},
	{"two", "$v $w -", "error UnexpectedArgument"},
	{"two", "$v $w ''", "error UnexpectedArgument"},
	{"two", "- - -", "error UnexpectedArgument"},
	{"two", "$v - - --flag", "error UnexpectedArgument"},
	{"two", "--pair - ''", "pair: --pair - ''"},
	{"two", "-n ''", "num: -n ''"},
	{"two", "-n -", "num: -n -"},
	{"two", "-f - --flag", "flag: -f '' / --flag ''; a: <a> -"},
	{"many", "'' $v ''", "files: <files> '' / <files> $v / <files> ''"},
	{"many", "- --flag ''", "files: <files> -; flag: --flag ''; b: <b> ''"},
	{"many", "'' --flag -", "files: <files> ''; flag: --flag ''; b: <b> -"},
	{"many", "$v --flag - -", "error UnexpectedArgument"},
	{"n2", "- ''", "pair2: <pair2> - / <pair2> ''"},
	{"n2", "'' $v -", "pair2: <pair2> '' / <pair2> $v; b: <b> -"},
	{"n2", "- --flag ''", "pair2: <pair2> - / <pair2> ''; flag: --flag ''"},
	{"all", "- ''", "rest: <rest> - / <rest> ''"},
	{"mix", "- --flag ''", "flag: --flag ''; rest: <rest> - / <rest> ''"},
	{"two!", "- --flag", "error FlagUsedAfterArgs"},
	{"two!", "'' -f", "error FlagUsedAfterArgs"},
	{"two!", "- ''", "a: <a> -; b: <b> ''"},
	// no flags after args
	{"two!", "--flag $v", "flag: --flag ''; a: <a> $v"},
	{"two!", "--num $v $w $x", "num: --num $v; a: <a> $w; b: <b> $x"},
	{"two!", "$v --flag", "error FlagUsedAfterArgs"},
	{"two!", "$v -f", "error FlagUsedAfterArgs"},
	{"two!", "$v $w --num=$u", "error FlagUsedAfterArgs"},
	{"two!", "--num $v $w -g", "error FlagUsedAfterArgs"},
}

const parseDriver = `package driver

import cli "` + modPath + `"

type binding struct{ cli.Binding }

func (b binding) LookupOption(name string) (cli.TransformFunc, cli.ArgCounter, cli.BindingState, bool) {
	t, c, s, ok := b.Binding.LookupOption(name)
	switch name {
	case "flag", "go":
		c = cli.NoArgs()
	case "opt":
		c = cli.ArgCount(0)
	case "pair":
		c = cli.ArgCount(2)
	}
	return t, c, s, ok
}

func (b binding) BehaviorFlags(name string) bool { return name == "opt" }

func bind(args ...*cli.Arg) cli.Binding {
	return binding{cli.NewBinding([]*cli.Flag{
		{Name: "flag", Aliases: []string{"f"}, Value: new(bool)},
		{Name: "num", Aliases: []string{"n", "number", "é"}, Value: new(string)},
		{Name: "go", Aliases: []string{"g"}, Value: new(bool)},
		{Name: "opt", Aliases: []string{"o"}, Value: new(string)},
		{Name: "list", Aliases: []string{"l"}, Value: new([]string)},
		{Name: "pair", Aliases: []string{"p"}, Value: new([]string)},
	}, args, nil)}
}

func two() cli.Binding {
	return bind(&cli.Arg{Name: "a", Value: new(string)}, &cli.Arg{Name: "b", Value: new(string)})
}
func unless() cli.Binding {
	return bind(&cli.Arg{Name: "a", Value: new(string), NArg: cli.TakeUnlessFlag}, &cli.Arg{Name: "b", Value: new(string), NArg: 0})
}
func many() cli.Binding {
	return bind(&cli.Arg{Name: "files", Value: new([]string)}, &cli.Arg{Name: "b", Value: new(string)})
}
func n2() cli.Binding {
	return bind(&cli.Arg{Name: "pair2", Value: new([]string), NArg: 2}, &cli.Arg{Name: "b", Value: new(string)})
}
func each() cli.Binding {
	return bind(&cli.Arg{Name: "a", Value: new(string), NArg: 1}, &cli.Arg{Name: "b", Value: new(string), NArg: 1})
}
func all() cli.Binding { return bind(&cli.Arg{Name: "rest", Value: new([]string), NArg: cli.TakeRemaining}) }
func mix() cli.Binding { return bind(&cli.Arg{Name: "rest", Value: new([]string), NArg: cli.TakeExceptForFlags}) }
func none() cli.Binding { return bind() }

type rec struct {
	got  [][]string
	data []any
	fail int
	err  error
}

func (r *rec) SetOccurrence(values ...string) error {
	r.got = append(r.got, values)
	if len(r.got) == r.fail {
		return r.err
	}
	return nil
}

func (r *rec) SetOccurrenceData(v any) error {
	r.data = append(r.data, v)
	if len(r.data) == r.fail {
		return r.err
	}
	return nil
}

type recs struct {
	r map[string]*rec
	t cli.TransformFunc
}

func (b recs) LookupOption(name string) (cli.TransformFunc, cli.ArgCounter, cli.BindingState, bool) {
	if r, ok := b.r[name]; ok {
		return b.t, cli.ArgCount(1), r, true
	}
	return nil, nil, nil, false
}
func (recs) ResolveAlias(name string) (string, bool) { return name, true }
func (recs) PositionalArgNames() []string            { return nil }
func (recs) BehaviorFlags(string) bool               { return false }
func (recs) Reset()                                  {}

type above []*cli.Flag

func (a above) Flags() []*cli.Flag { return a }

func is(b cli.Binding, name string, f *cli.Flag) bool {
	n, ok := b.ResolveAlias(name)
	if !ok {
		return false
	}
	_, c, s, ok := b.LookupOption(n)
	return ok && c != nil && s == cli.BindingState(f)
}

func not(b cli.Binding, name string) bool {
	_, ok := b.ResolveAlias(name)
	return !ok
}

func isExpected(err error) bool {
	p, ok := err.(*cli.ParseError)
	return ok && p.Code == cli.ExpectedArgument
}

// into runs the whole of it
func into(flag any, arg any, words ...string) error {
	b := binding{cli.NewBinding([]*cli.Flag{
		{Name: "num", Aliases: []string{"n"}, Value: flag},
		{Name: "flag", Aliases: []string{"f"}, Value: new(bool)},
	}, []*cli.Arg{{Name: "a", Value: arg}}, nil)}
	m, err := cli.RawParse(words, b, cli.RawSkipProgramName)
	if err != nil {
		return err
	}
	return m.ApplyTo(b)
}
`

var parseLaws = []law{
	{"names", "a flag is found by its name and by each of its aliases", `
	f, g := &cli.Flag{Name: "flag", Aliases: []string{"f", "other", "é"}, Value: new(string)}, &cli.Flag{Name: "go", Value: new(string)}
	b := cli.NewBinding([]*cli.Flag{f, g}, nil, nil)
	return is(b, "flag", f) && is(b, "f", f) && is(b, "other", f) && is(b, "é", f) && is(b, "go", g)`},
	{"names", "a name that no flag has is not found", `
	f := &cli.Flag{Name: "flag", Aliases: []string{"f", "other"}, Value: new(string)}
	b := cli.NewBinding([]*cli.Flag{f}, []*cli.Arg{{Name: "a", Value: new(string)}}, nil)
	_, _, _, ok := b.LookupOption("nope")
	return not(b, "nope") && not(b, "o") && not(b, "") && not(b, "fla") && !ok`},
	{"names", "a flag is not found by the part of an alias", `
	f, g := &cli.Flag{Name: "flag", Aliases: []string{"other"}, Value: new(string)}, &cli.Flag{Name: "o", Value: new(string)}
	b := cli.NewBinding([]*cli.Flag{f, g}, nil, nil)
	return is(b, "o", g) && is(b, "other", f)`},
	{"names", "the flags of the command above are found by name and alias", `
	f, g := &cli.Flag{Name: "flag", Aliases: []string{"f"}, Value: new(string)}, &cli.Flag{Name: "go", Aliases: []string{"g", "gone"}, Value: new(string)}
	b := cli.NewBinding([]*cli.Flag{f}, nil, above{g})
	return is(b, "flag", f) && is(b, "f", f) && is(b, "go", g) && is(b, "g", g) && is(b, "gone", g)`},
	{"names", "a flag takes precedence over one of the command above of the same name", `
	f, g := &cli.Flag{Name: "flag", Aliases: []string{"f"}, Value: new(string)}, &cli.Flag{Name: "flag", Aliases: []string{"f"}, Value: new(string)}
	b := cli.NewBinding([]*cli.Flag{f}, nil, above{g})
	return is(b, "flag", f) && is(b, "f", f)`},
	{"names", "an alias takes precedence over the same alias in the command above", `
	f, g := &cli.Flag{Name: "fun", Aliases: []string{"f", "fx"}, Value: new(string)}, &cli.Flag{Name: "flag", Aliases: []string{"f", "fx"}, Value: new(string)}
	b := cli.NewBinding([]*cli.Flag{f}, nil, above{g})
	return is(b, "fun", f) && is(b, "f", f) && is(b, "fx", f) && is(b, "flag", g)`},
	{"names", "the flag of the nearest command takes precedence", `
	f, g, h := &cli.Flag{Name: "flag", Value: new(string)}, &cli.Flag{Name: "up", Value: new(string)}, &cli.Flag{Name: "up", Value: new(string)}
	b := cli.NewBinding([]*cli.Flag{f}, nil, above{g, h})
	return is(b, "flag", f) && is(b, "up", h)`},
	{"names", "args are in the order of definition", `
	p, q := &cli.Arg{Name: "first", Value: new(string)}, &cli.Arg{Name: "a", Value: new(string)}
	bi := cli.NewBinding([]*cli.Flag{{Name: "flag", Value: new(string)}}, []*cli.Arg{p, q}, nil)
	n := bi.PositionalArgNames()
	_, _, s, ok := bi.LookupOption("first")
	_, _, t, ok2 := bi.LookupOption("a")
	return len(n) == 2 && n[0] == "first" && n[1] == "a" && ok && ok2 && s == cli.BindingState(p) && t == cli.BindingState(q)`},
	{"names", "the transform is the one of the flag or arg", `
	var got []string
	f := func(r []string) (any, error) { got = r; return any1, e }
	b0 := cli.NewBinding([]*cli.Flag{{Name: "flag", Value: new(string), Transform: f}, {Name: "go", Value: new(string)}}, []*cli.Arg{{Name: "a", Value: new(string), Transform: f}}, nil)
	t, _, _, _ := b0.LookupOption("flag")
	t2, _, _, _ := b0.LookupOption("a")
	t3, _, _, _ := b0.LookupOption("go")
	r, err := t([]string{v, w})
	r2, err2 := t2([]string{v})
	return t3 == nil && r == any1 && err == e && r2 == any1 && err2 == e && len(got) == 1 && got[0] == v`},
	// counters
	{"count", "a number of words", `
	c := cli.ArgCount(2)
	return c.Take(v, true) == nil && isExpected(c.Done()) && c.Take(w, true) == nil && c.Done() == nil && c.Take(x, true) == cli.EndOfArguments`},
	{"count", "a number of words does not include flags", `
	c := cli.ArgCount(2)
	err := c.Take(d, true)
	return err != nil && err != cli.EndOfArguments && c.Take("-", true) == nil && c.Take(d, false) == nil && c.Done() == nil`},
	{"count", "no words", `
	c := cli.NoArgs()
	return c.Take(v, true) == cli.EndOfArguments && c.Take(d, true) == cli.EndOfArguments && c.Take(v, false) == cli.EndOfArguments && c.Done() == nil`},
	{"count", "a word unless it looks like a flag", `
	c, c2 := cli.ArgCount(cli.TakeUnlessFlag), cli.ArgCount(nil)
	return c.Done() == nil && c.Take(d, true) != nil && c.Take(v, true) == nil && c.Take(w, true) == cli.EndOfArguments && c.Done() == nil &&
		c2.Take(d, true) != nil && c2.Take(d, false) == nil && c2.Take(v, true) == cli.EndOfArguments`},
	{"count", "all the words", `
	c, c2 := cli.ArgCount(cli.TakeRemaining), cli.ArgCount(-17)
	return c.Done() == nil && c.Take(v, true) == nil && c.Take(d, true) == nil && c.Take(w, false) == nil && c.Take("--", true) == nil && c.Done() == nil &&
		c2.Take(d, true) == nil && c2.Take(v, true) == nil`},
	{"count", "all the words up to one that looks like a flag", `
	c := cli.ArgCount(cli.TakeUntilNextFlag)
	return c.Done() == nil && c.Take(v, true) == nil && c.Take("-", true) == nil && c.Take("", true) == nil && c.Take(d, false) == nil && c.Take(d, true) == cli.EndOfArguments && c.Done() == nil`},
	{"count", "all the words other than ones that look like flags", `
	c := cli.ArgCount(cli.TakeExceptForFlags)
	err := c.Take(d, true)
	return c.Done() == nil && err != nil && err != cli.EndOfArguments && c.Take(v, true) == nil && c.Take("-", true) == nil && c.Take(d, false) == nil && c.Done() == nil`},
	{"count", "one word that the function accepts", `
	c := cli.OptionalArg(func(s string) bool { return s == v })
	return c.Done() == nil && c.Take(v, true) == nil && c.Take(v, true) == cli.EndOfArguments && c.Done() == nil`},
	{"count", "no word that the function does not accept", `
	c := cli.OptionalArg(func(s string) bool { return false })
	return c.Take(v, true) == cli.EndOfArguments && c.Done() == nil`},
	{"count", "a counter is its own counter", `
	c := cli.ArgCount(3)
	return cli.ArgCount(c) == c`},
	// apply
	{"apply", "every occurrence is applied, in order, without the name", `
	r := &rec{}
	err := cli.BindingMap{"": {{"app", v}}, "num": {{"--num", v}, {"-n", w, x}, {"-n", ""}}}.ApplyTo(recs{r: map[string]*rec{"num": r}})
	return err == nil && len(r.data) == 0 && len(r.got) == 3 && len(r.got[0]) == 1 && r.got[0][0] == v && len(r.got[1]) == 2 && r.got[1][0] == w && r.got[1][1] == x && len(r.got[2]) == 1 && r.got[2][0] == ""`},
	{"apply", "each of the names is applied", `
	r, q := &rec{}, &rec{}
	err := cli.BindingMap{"num": {{"--num", v}}, "a": {{"<a>", w}}, "none": {{"--none", x}}}.ApplyTo(recs{r: map[string]*rec{"num": r, "a": q}})
	return err == nil && len(r.got) == 1 && r.got[0][0] == v && len(q.got) == 1 && q.got[0][0] == w`},
	{"apply", "an error is the result and the last that is applied", `
	r := &rec{fail: 2, err: e}
	err := cli.BindingMap{"num": {{"--num", v}, {"-n", w}, {"-n", x}}}.ApplyTo(recs{r: map[string]*rec{"num": r}})
	return err == e && len(r.got) == 2`},
	{"apply", "a transform is given the whole of each occurrence", `
	r := &rec{}
	var got [][]string
	t := func(raw []string) (any, error) { got = append(got, raw); return raw[1], nil }
	err := cli.BindingMap{"num": {{"--num", v}, {"-n", w, x}}}.ApplyTo(recs{map[string]*rec{"num": r}, t})
	return err == nil && len(r.got) == 0 && len(got) == 2 && len(got[0]) == 2 && got[0][0] == "--num" && got[0][1] == v && len(got[1]) == 3 && got[1][2] == x && len(r.data) == 2 && r.data[0] == any(v) && r.data[1] == any(w)`},
	{"apply", "an error in a transform is the result", `
	r := &rec{}
	n := 0
	t := func(raw []string) (any, error) { n++; if n == 2 { return nil, e }; return raw[1], nil }
	err := cli.BindingMap{"num": {{"--num", v}, {"-n", w}, {"-n", x}}}.ApplyTo(recs{map[string]*rec{"num": r}, t})
	return err == e && n == 2 && len(r.data) == 1`},
	{"apply", "an error about what a transform gives is the result", `
	r := &rec{fail: 1, err: e}
	t := func(raw []string) (any, error) { return raw[1], nil }
	err := cli.BindingMap{"num": {{"--num", v}, {"-n", w}}}.ApplyTo(recs{map[string]*rec{"num": r}, t})
	return err == e && len(r.data) == 1`},
	{"apply", "what was read is found with and without the name", `
	m := cli.BindingMap{"num": {{"--num", v}, {"-n", w, x}}}
	r, o, b0 := m.Raw("num"), m.RawOccurrences("num"), m.Bindings("num")
	return len(r) == 5 && r[0] == "--num" && r[1] == v && r[2] == "-n" && r[3] == w && r[4] == x && len(o) == 3 && o[0] == v && o[1] == w && o[2] == x && len(b0) == 2 && len(b0[1]) == 3 && len(m.Raw("none")) == 0 && len(m.RawOccurrences("none")) == 0`},
	// the whole of it
	{"apply", "a flag has the text from the command line", `
	var s, a string
	return into(&s, &a, "app", "--num", v, w) == nil && s == v && a == w`},
	{"apply", "a flag has the text behind the equal sign", `
	var s, a string
	return into(&s, &a, "app", "--num="+u) == nil && s == u && a == ""`},
	{"apply", "a flag has the text behind its short name", `
	var s, a string
	return into(&s, &a, "app", v, "-fn"+w) == nil && s == w && a == v`},
	{"apply", "a flag that was given twice has the last text", `
	var s, a string
	return into(&s, &a, "app", "--num", v, "-n", w) == nil && s == w && a == ""`},
	{"apply", "a flag or arg that was not given keeps its value", `
	s, a := v, w
	return into(&s, &a, "app", "--flag") == nil && s == v && a == w`},
	{"apply", "what a flag is given replaces its value", `
	s, a := v, w
	return into(&s, &a, "app", "--num", x) == nil && s == x && a == w`},
}

// the parts of a word: "--num=$u" is a known and an unknown one
func wordParts(t string) (known, unknown string) {
	if t == "''" {
		return "", ""
	}
	known, unknown, _ = strings.Cut(t, "$")
	return
}

func ruleParse(c *Ctx) {
	var b strings.Builder
	b.WriteString(parseDriver)
	b.WriteString(lawSource(parseLaws))
	for i, f := range parseForms {
		var ws []string
		for _, t := range strings.Fields("app " + f.words) {
			k, u := wordParts(t)
			e := fmt.Sprintf("%q", k)
			if u != "" {
				e = fmt.Sprintf("%q+%s", k, u)
				if k == "" {
					e = u
				}
			}
			ws = append(ws, e)
		}
		shape, fl := f.shape, "cli.RawSkipProgramName"
		if strings.HasSuffix(shape, "!") {
			shape, fl = shape[:len(shape)-1], fl+"|cli.RawDisallowFlagsAfterArgs"
		}
		fmt.Fprintf(&b, "func Form%d(v, w, x, u, d string) (cli.BindingMap, error) { return cli.RawParse([]string{%s}, %s(), %s) }\n", i, strings.Join(ws, ", "), shape, fl)
	}
	w, err := c.W.Driven(b.String())
	if err != nil {
		c.Bad("form", "parse", "-", "the command line cannot be parsed as documented: %v", err)
		return
	}
	ws := map[string]AV{
		"v": Word("v", wordFact{some: true, first: "-"}),
		"w": Word("w", wordFact{some: true, first: "-"}),
		"x": Word("x", wordFact{some: true, first: "-"}),
		"u": Word("u", wordFact{}),
		"d": Pre("-", Word("d", wordFact{some: true, first: "-"})),
	}
	params := []AV{ws["v"], ws["w"], ws["x"], ws["u"], ws["d"]}
	text := func(st *aState, t string) string {
		k, u := wordParts(t)
		if u == "" {
			return KStr(k).str()
		}
		v := ws[u]
		if k != "" {
			v, _ = st.wordAdd(KStr(k), v, types.Typ[types.String])
		}
		return st.norm(v).str()
	}
	texts := func(st *aState, v AV) ([]string, bool) {
		es, ok := st.Elems(st.norm(v))
		if sl, isS := st.norm(v).(aSlice); isS && len(sl.tail) > 0 {
			ok = false
		}
		var out []string
		for _, e := range es {
			out = append(out, st.norm(e).str())
		}
		return out, ok || isNilAV(st.norm(v))
	}
	pe := w.Type("cli", "ParseError")
	where := "-"
	if f := w.Func("cli.RawParse"); f != nil {
		where = w.Pos(f.Pos())
	}
	for i, f := range parseForms {
		fn := w.SSA["driver"].Func(fmt.Sprintf("Form%d", i))
		ps, ok := w.Interp(fn, params, AOpts{Models: true, Reenter: true, Depth: 20, Forks: 4, MaxSteps: 400000})
		dbgPaths(fn, ps, ok)
		key := "app " + f.words + " (" + f.shape + ")"
		rule := "form"
		if strings.HasPrefix(f.want, "error ") {
			rule = "error"
		}
		bad := ""
		if !ok || len(ps) == 0 {
			bad = "cannot be followed"
		}
		for _, p := range ps {
			if bad != "" {
				break
			}
			st := p.St
			if p.Panicked || len(p.Ret) != 2 {
				bad = "panics"
				break
			}
			e := st.norm(p.Ret[1])
			if rule == "error" {
				bad = parseErr(w, st, pe, e, strings.Fields(f.want)[1:], strings.Fields(f.words), text, texts)
				continue
			}
			if !isNilAV(e) {
				bad = "is an error"
				break
			}
			m, isM := st.norm(p.Ret[0]).(aMap)
			if !isM {
				bad = "gives something unknown"
				break
			}
			got := map[string]string{}
			r := st.region(m.obj)
			for _, k := range r.order {
				name, _ := strOf(st, r.cells["k"+k])
				occ, ok := st.Elems(st.norm(r.cells[k]))
				if !ok {
					got[name] = "?"
				}
				var os []string
				for _, o := range occ {
					es, ok := texts(st, o)
					if !ok {
						es = append(es, "?")
					}
					os = append(os, strings.Join(es, " "))
				}
				got[name] = strings.Join(os, " / ")
			}
			delete(got, "")
			for _, part := range strings.Split(f.want, "; ") {
				name, occ, ok := strings.Cut(part, ": ")
				if !ok {
					continue
				}
				var os []string
				for _, o := range strings.Split(occ, " / ") {
					var es []string
					for _, t := range strings.Fields(o) {
						es = append(es, text(st, t))
					}
					os = append(os, strings.Join(es, " "))
				}
				if want := strings.Join(os, " / "); got[name] != want {
					bad = fmt.Sprintf("gives %s %s rather than %s", name, orNothing(got[name]), want)
				}
				delete(got, name)
			}
			for n, g := range got {
				if bad == "" && g != "" {
					bad = fmt.Sprintf("gives %s %s", n, g)
				}
			}
		}
		c.That(bad == "", rule, key, where, "%s: %s", strings.TrimSpace("app "+f.words), bad)
	}
	c.lawful(w, parseLaws, where, AOpts{})
}

func orNothing(s string) string {
	if s == "" {
		return "nothing"
	}
	return s
}

// parseErr compares an error: its code, and which option or arg and remaining words it says.
func parseErr(w *World, st *aState, pe types.Type, e AV, want, words []string, text func(*aState, string) string, texts func(*aState, AV) ([]string, bool)) string {
	if isNilAV(e) {
		return "is not an error"
	}
	i, ok := e.(aIface)
	if !ok {
		return "is an unknown error"
	}
	p, ok := st.norm(i.v).(aPtr)
	if !ok || !types.Identical(deref(i.t), pe) {
		return "is an error without a code"
	}
	get := func(f string) AV {
		p := p
		p.path += "." + f
		return st.norm(st.load(p, fieldOfT(pe, f)))
	}
	code, _ := get("Code").(aConst)
	k, _ := w.SSA[modPath].Members[want[0]].(*ssa.NamedConst)
	if k == nil || code.v == nil || code.v.String() != k.Value.Value.String() {
		return "is an error that is not " + want[0]
	}
	if len(want) > 1 {
		if got := get("Name"); got.str() != text(st, want[1]) {
			return "is an error about " + got.str()
		}
	}
	if len(want) > 3 {
		n := int(want[3][0] - '0')
		es, ok := texts(st, get("Remaining"))
		var ex []string
		for _, t := range words[n:] {
			ex = append(ex, text(st, t))
		}
		if !ok || strings.Join(es, " ") != strings.Join(ex, " ") {
			return "is an error that says that " + strings.Join(es, " ") + " remains"
		}
	}
	return ""
}
