package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode"
)

func init() {
	register(&Check{ID: "C27",
		Explanation: "Options are interpreted as actions on unknown values, files and errors, with models that record what they ask of the context; the text of each constant and of each two is written and read. Sets of features are applied to actions that record themselves, for all sets of five bits.",
		Rules: []RuleDoc{
			{"text", "each option, timing and filter mode has the text of its name; reading it gives it back, other text is an error", 60},
			{"set", "a set of features or options applies each that is in it once, and no other", 32},
			{"mark", "each option that marks its target sets its own mark", 20},
			{"effect", "each option has the effect it is documented to have", 20},
		},
		Run: ruleOption})
}

const optionDriver = `package driver

import (
	"context"
	"io"
	"io/fs"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// both are known to the interpreter
func contextOf(target any, t cli.Timing, parent *cli.Context) *cli.Context { panic("a context") }
func asked(target any, mark string) bool                                   { panic("a question") }

type F int

var done []int

func rec(i int) cli.Action {
	return cli.ActionFunc(func(*cli.Context) error { done = append(done, i); return nil })
}

func features() cli.FeatureMap[F] {
	done = nil
	return cli.FeatureMap[F]{1: rec(1), 2: rec(2), 4: rec(4), 8: rec(8), 16: rec(16), 3: rec(3)}
}

// what was done is all of want, in any order
func did(want ...int) bool {
	if len(done) != len(want) {
		return false
	}
	for _, w := range want {
		n := 0
		for _, d := range done {
			if d == w {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

var (
	value       any
	seen        bool
	dir         string
	dirs        int
	dirErr      error
	later       any
	laterAt     cli.Timing
	laters      int
	flag        *cli.Flag
	added       []*cli.Flag
	of          any
	ofs         int
	given       any
	sets        int
	setErr      error
	triggers    int
	triggerErr  error
	transform   cli.TransformFunc
	completion  cli.Completion
	unfit       bool
)

type failed struct{}

func (failed) Error() string { return "" }


func reset() *cli.Context {
	value, seen, dir, dirs, dirErr, later, laterAt, laters, flag, added = nil, false, "", 0, nil, nil, 0, 0, nil, nil
	of, ofs, given, sets, setErr, triggers, triggerErr, transform = nil, 0, nil, 0, nil, 0, nil, nil
	completion, unfit, closed, texts = nil, false, nil, map[*strings.Reader]string{}
	return contextOf(&cli.Flag{Name: "f", Value: cli.Bool()}, cli.InitialTiming, nil)
}

func mAct(c *cli.Context, v any, t cli.Timing, optional bool) error {
	if t == cli.InitialTiming {
		return cli.ActionOf(v).Execute(c)
	}
	laters++
	later, laterAt = v, t
	return nil
}
func mValue(c *cli.Context, name any) any {
	switch n := name.(type) {
	case string:
		if n == "" {
			return value
		}
		panic("value of another")
	}
	return c // as a Go context
}

func mSeen(c *cli.Context, name any) bool       { if name == "" { return seen }; panic("value of another") }
func mChdir(d string) error                     { dir = d; dirs++; return dirErr }
func mFlag(c *cli.Context) *cli.Flag            { return flag }
func mAddFlag(c *cli.Context, f *cli.Flag) error { added = append(added, f); return nil }
func mContextOf(c *cli.Context, t any) *cli.Context { of = t; ofs++; return c }
func mSetValue(c *cli.Context, v any) error     { given = v; sets++; return setErr }
func mSetCompletion(x cli.Completion) cli.Action {
	return cli.ActionFunc(func(*cli.Context) error { completion = x; return nil })
}
func mTrigger(c *cli.Context) error             { triggers++; return triggerErr }
func mSetTransform(c *cli.Context, t cli.TransformFunc) error { transform = t; return nil }

func run(a any, c *cli.Context) error {
	switch f := a.(type) {
	case cli.Action:
		return f.Execute(c)
	case func(*cli.Context) error:
		return f(c)
	}
	panic("another kind of action")
}

// before applies the option, then what is to be done before
func before(o cli.Option, c *cli.Context) error {
	if err := o.Execute(c); err != nil || laterAt != cli.BeforeTiming || laters != 1 {
		unfit = true
	}
	if unfit {
		return nil
	}
	return run(later, c)
}

type exists struct{ yes bool }

func (e exists) Exists() bool { return e.yes }

type stat struct{ err error }

func (e stat) Stat() (fs.FileInfo, error) { return nil, e.err }

type file struct {
	fs.File
	name string
}

var closed []string

func (f *file) Close() error { closed = append(closed, f.name); return nil }

var texts map[*strings.Reader]string

func mNewReader(s string) *strings.Reader {
	r := new(strings.Reader)
	texts[r] = s
	return r
}

// a file system with files that exist or not
type files struct {
	err  error
	name string
	n    int
	bad  int
}

func (f *files) Open(name string) (fs.File, error) {
	f.n++
	f.name = name
	if f.err != nil && (f.bad == 0 || f.bad == f.n) {
		return nil, f.err
	}
	return &file{name: name}, nil
}
func (f *files) Stat(name string) (fs.FileInfo, error) { f.n++; f.name = name; return nil, f.err }

type readers struct {
	io.Reader
	all []io.Reader
}

func mMulti(r ...io.Reader) io.Reader  { return &readers{all: r} }

// names of the files that are read
func read(x any) []string {
	var res []string
	switch r := x.(type) {
	case *readers:
		for _, y := range r.all {
			res = append(res, read(y)...)
		}
	case *strings.Reader:
		res = append(res, "text of "+texts[r])
	case *file:
		res = append(res, r.name)
	}
	return res
}

func same(a []string, b ...string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var _ context.Context
`

func upperSnake(n string) string {
	var b strings.Builder
	for i, r := range n {
		if unicode.IsUpper(r) && i > 0 {
			b.WriteByte('_')
		}
		b.WriteRune(unicode.ToUpper(r))
	}
	return b.String()
}

func ruleOption(c *Ctx) {
	w := c.W
	var ls []law
	add := func(rule, key, body string) { ls = append(ls, law{rule, key, body}) }
	scope := w.ByPath[modPath].Types.Scope()
	consts := func(typ string) (res []string) {
		for _, n := range scope.Names() {
			k, ok := scope.Lookup(n).(*types.Const)
			if ok && k.Exported() && strings.HasSuffix(k.Type().String(), "."+typ) {
				res = append(res, n)
			}
		}
		sort.Strings(res)
		return
	}
	text := func(typ string, names []string, suffix string) {
		for _, n := range names {
			add("text", n, fmt.Sprintf(`b, err := cli.%[1]s.MarshalText(); if err != nil || string(b) != %[2]q { return false }; var o cli.%[3]s; err = o.UnmarshalText(b); return err == nil && o == cli.%[1]s && o.String() == %[2]q`,
				n, upperSnake(strings.TrimSuffix(n, suffix)), typ))
			add("text", "unknown text for "+n, fmt.Sprintf(`o := cli.%[1]s; err := o.UnmarshalText([]byte("UNKNOWN_TEXT")); return err != nil && o == cli.%[1]s`, n))
		}
	}
	var opts []string
	for _, n := range consts("Option") {
		if n != "None" && n != "Sorted" {
			opts = append(opts, n)
		}
	}
	text("Option", opts, "")
	text("Timing", consts("Timing"), "Timing")
	text("FilterModes", consts("FilterModes"), "")
	for i, a := range opts {
		for _, b := range opts[:i] {
			add("text", a+" and "+b, fmt.Sprintf(`b, err := (cli.%[1]s | cli.%[2]s).MarshalText(); var o cli.Option; err2 := o.UnmarshalText(b); return err == nil && err2 == nil && o == cli.%[1]s | cli.%[2]s`, a, b))
		}
	}
	all := "cli." + strings.Join(opts, " | cli.")
	add("text", "all options", fmt.Sprintf(`b, err := (%[1]s).MarshalText(); var o cli.Option; err2 := o.UnmarshalText(b); return err == nil && err2 == nil && o == %[1]s`, all))
	add("text", "no option", `b, err := cli.None.MarshalText(); var o cli.Option; err2 := o.UnmarshalText(b); return err == nil && err2 == nil && o == cli.None && string(b) == ""`)
	add("text", "an option and unknown text", `o := cli.Hidden; err := o.UnmarshalText([]byte("REQUIRED, UNKNOWN_TEXT")); return err != nil && o == cli.Hidden`)
	for _, t := range []struct{ typ string }{{"Timing"}, {"FilterModes"}} {
		ns := consts(t.typ)
		for i, a := range ns {
			add("text", "description of "+a, fmt.Sprintf(`return cli.%s.Describe() != ""`, a))
			for _, b := range ns[:i] {
				add("text", "descriptions of "+a+" and "+b, fmt.Sprintf(`return cli.%s.Describe() != cli.%s.Describe()`, a, b))
			}
		}
	}
	fm := consts("FilterModes")
	for i, a := range fm {
		for _, b := range fm[:i] {
			add("text", a+" and "+b, fmt.Sprintf(`b, err := (cli.%[1]s | cli.%[2]s).MarshalText(); var o cli.FilterModes; err2 := o.UnmarshalText(b); return err == nil && err2 == nil && o == cli.%[1]s | cli.%[2]s`, a, b))
		}
	}

	marks := []struct{ option, mark, targets string }{
		{"SkipFlagParsing", "skipFlagParsing", "C"}, {"DisallowFlagsAfterArgs", "disallowFlagsAfterArgs", "C"}, {"RightToLeft", "rightToLeft", "C"},
		{"NonPersistent", "nonPersistent", "F"}, {"DisableSplitting", "disableSplitting", "FA"}, {"Merge", "merge", "FA"}, {"Merge", "mergeExplicitlyRequested", "FA"},
		{"ImpliedAction", "impliedAction", "CFA"}, {"DisableAutoVisibility", "disableAutoVisibility", "CF"}, {"Trigger", "triggerRequested", "FA"},
		{"PreventSetup", "taintSetup", "CFA"}, {"Hidden", "hidden", "CFA"}, {"Required", "required", "FA"}, {"Optional", "optional", "F"}, {"Exits", "exits", "FC"},
		{"Visible", "visibleExplicitlyRequested", "CFA"},
	}
	for _, m := range marks {
		if w.Func("cli.(internalFlags)."+m.mark) == nil {
			continue
		}
		others := ""
		for _, n := range marks {
			if n.option != m.option && w.Func("cli.(internalFlags)."+n.mark) != nil {
				others += fmt.Sprintf(" && !asked(t, %q)", n.mark)
			}
		}
		for k, t := range map[string]string{"C": `&cli.Command{Name: "c"}`, "F": `&cli.Flag{Name: "f", Value: cli.Int()}`, "A": `&cli.Arg{Name: "a", Value: cli.Int()}`} {
			if strings.Contains(m.targets, k) {
				add("mark", m.option+" "+k, fmt.Sprintf(`reset(); t := %s; flag, _ = any(t).(*cli.Flag); if asked(t, %[2]q) { return false }; err := cli.%[3]s.Execute(contextOf(t, cli.InitialTiming, nil)); return err == nil && asked(t, %[2]q)%[4]s`, t, m.mark, m.option, others))
			}
		}
	}
	if w.Func("cli.(internalFlags).hidden") != nil {
		add("mark", "Visible unhides", `reset(); t := &cli.Flag{Name: "f", Value: cli.Int()}; c := contextOf(t, cli.InitialTiming, nil); cli.Hidden.Execute(c); if !asked(t, "hidden") { return false }; err := cli.Visible.Execute(c); return err == nil && !asked(t, "hidden")`)
	}

	for i := 0; i < 32; i++ {
		var want []string
		rest := i
		if rest&3 == 3 {
			want = append(want, "3")
			rest &^= 3
		}
		for b := 1; b <= 16; b <<= 1 {
			if rest&b != 0 {
				want = append(want, fmt.Sprint(b))
			}
		}
		add("set", fmt.Sprintf("set %05b", i), fmt.Sprintf(`err := features().Pipeline(%d).Execute(&cli.Context{}); return err == nil && did(%s)`, i, strings.Join(want, ", ")))
	}

	add("effect", "MustExist of a file", `c := reset(); value = exists{yes}; err := before(cli.MustExist, c); return !unfit && (err == nil) == yes`)
	add("effect", "MustExist of what can be examined", `c := reset(); value = stat{failed{}}; _, ok := before(cli.MustExist, c).(failed); return ok`)
	add("effect", "MustExist of what can be examined and exists", `c := reset(); value = stat{nil}; return before(cli.MustExist, c) == nil && !unfit`)
	add("effect", "MustExist of a name", `c := reset(); f := &files{err: e}; c.FS = f; value = v; return before(cli.MustExist, c) == e && f.name == v && f.n == 1`)
	add("effect", "MustExist of a name that exists", `c := reset(); f := &files{}; c.FS = f; value = v; return before(cli.MustExist, c) == nil && !unfit && f.name == v && f.n == 1`)
	add("effect", "MustExist of no name", `c := reset(); f := &files{err: e}; c.FS = f; value = ""; return before(cli.MustExist, c) == nil && !unfit`)
	add("effect", "MustExist of no value", `c := reset(); return before(cli.MustExist, c) == nil && !unfit`)
	add("effect", "WorkingDirectory", `c := reset(); seen, value, dirErr = true, v, e; return before(cli.WorkingDirectory, c) == e && dir == v && dirs == 1`)
	add("effect", "WorkingDirectory that exists", `c := reset(); seen, value = true, v; return before(cli.WorkingDirectory, c) == nil && !unfit && dir == v && dirs == 1`)
	add("effect", "WorkingDirectory not given", `c := reset(); value = v; return before(cli.WorkingDirectory, c) == nil && !unfit && dirs == 0`)
	add("effect", "WorkingDirectory of no name", `c := reset(); seen, value = true, ""; return before(cli.WorkingDirectory, c) == nil && !unfit && dirs == 0`)

	add("effect", "WorkingDirectory completes directories", `c := reset(); err := cli.WorkingDirectory.Execute(c); return err == nil && completion == cli.Completion(cli.DirectoryCompletion)`)

	no := `c := reset(); flag = &cli.Flag{Name: v, HelpText: w, UsageText: x, Category: u, Value: cli.Bool()}; if err := cli.No.Execute(c); err != nil || len(added) != 1 { return false }; f := added[0]; `
	add("effect", "No makes a mirror flag", no+`return f.Name == "no-" + v && f != flag`)
	add("effect", "No: the mirror flag is a hidden switch", no+`_, isBool := f.Value.(*bool); return isBool && f.Options&cli.Hidden == cli.Hidden`)
	add("effect", "No: the mirror flag has the texts", no+`return f.HelpText == w && f.UsageText == x && f.Category == u`)
	add("effect", "No: the mirror flag sets the flag to false", no+`setErr, seen = e, yes; err := run(f.Action, c); return err == e && given == false && sets == 1 && of == flag && ofs == 1`)
	add("effect", "No: the mirror flag has the flag take part", no+`seen, triggerErr = true, e; err := run(f.Before, c); return err == e && triggers == 1 && of == flag`)
	add("effect", "No: the mirror flag that is not given does nothing", no+`value, setErr = v, e; err := run(f.Before, c); return err == nil && triggers == 0 && sets == 0`)

	for _, o := range []struct{ name, call string }{{"FileReference", "cli.FileReference.Execute(c)"}, {"FileReference of another file system", "run(cli.Transform(cli.TransformFileReference(f)), c)"}} {
		p := `c := reset(); f := &files{}; c.FS = f; if err := ` + o.call + `; err != nil || transform == nil { return false }; `
		add("effect", o.name, p+`r, err := transform([]string{w, v}); return err == nil && same(read(r), v) && f.n == 1`)
		add("effect", o.name+": several files", p+`r, err := transform([]string{w, v, x}); return err == nil && same(read(r), v, x) && f.n == 2`)
		add("effect", o.name+": files are closed when another fails", p+`f.err, f.bad = e, 3; r, err := transform([]string{w, v, x, u}); return err == e && r == nil && f.n == 3 && same(closed, v, x)`)
		add("effect", o.name+": a file that fails", p+`f.err = e; r, err := transform([]string{w, v, x}); return err == e && r == nil && f.n == 1`)
	}
	for _, o := range []struct{ name, call string }{{"AllowFileReference", "cli.AllowFileReference.Execute(c)"}, {"AllowFileReference of another file system", "run(cli.Transform(cli.TransformOptionalFileReference(f)), c)"}} {
		p := `c := reset(); f := &files{}; c.FS = f; if err := ` + o.call + `; err != nil || transform == nil { return false }; `
		add("effect", o.name+": @file", p+`r, err := transform([]string{w, "@" + v}); return err == nil && same(read(r), v) && f.n == 1`)
		add("effect", o.name+": files are closed when another fails", p+`f.err, f.bad = e, 2; r, err := transform([]string{w, "@" + v, "=" + x, "@" + u}); return err == e && r == nil && f.n == 2 && same(closed, v)`)
		add("effect", o.name+": text and @file", p+`r, err := transform([]string{w, "=" + x, "@" + v, ""}); return err == nil && same(read(r), "text of =" + x, v, "text of ") && f.n == 1`)
		add("effect", o.name+": @file that fails", p+`f.err = e; r, err := transform([]string{w, "@" + v}); return err == e && r == nil && f.n == 1`)
	}

	for _, o := range []struct{ name, typ, field string }{{"SortedFlags", "Flag", "Flags"}, {"SortedCommands", "Command", "Subcommands"}} {
		add("effect", o.name, fmt.Sprintf(`reset(); z, a, b := &cli.%[1]s{Name: "z"}, &cli.%[1]s{Name: "a"}, &cli.%[1]s{Name: "b"}; k := &cli.Command{Name: "c", %[2]s: []*cli.%[1]s{z, a, b}}; c := contextOf(k, cli.InitialTiming, nil); err := before(cli.%[3]s, c); return err == nil && !unfit && len(k.%[2]s) == 3 && k.%[2]s[0] == a && k.%[2]s[1] == b && k.%[2]s[2] == z`, o.typ, o.field, o.name))
	}
	ex := `c := reset(); if err := cli.Exits.Execute(c); err != nil || laters != 1 || laterAt != cli.ActionTiming { return false }; done = nil; `
	add("effect", "Exits: exits after the action", ex+`err := cli.Pipeline(later, rec(1)).Execute(c); ec, ok := err.(cli.ExitCoder); return ok && ec.ExitCode() == 0 && did(1)`)
	add("effect", "Exits: the error of the action", ex+`err := cli.Pipeline(later, cli.ActionFunc(func(*cli.Context) error { return e })).Execute(c); return err == e`)

	dw, err := w.Driven(optionDriver + sortModels + lawSource(ls))
	if err != nil {
		c.Bad("text", "options", "-", "options cannot be used as documented: %v", err)
		return
	}
	m := "cli.(Context)."
	dw.modelled(sortNames)
	dw.modelled(map[string]string{m + "act": "mAct", m + "Value": "mValue", m + "Seen": "mSeen", m + "Flag": "mFlag", m + "AddFlag": "mAddFlag", m + "ContextOf": "mContextOf",
		m + "SetValue": "mSetValue", m + "Trigger": "mTrigger", "cli.SetCompletion": "mSetCompletion", "strings.NewReader": "mNewReader", m + "SetTransform": "mSetTransform", "os.Chdir": "mChdir", "io.MultiReader": "mMulti"})
	c.lawful(dw, ls, "option.go", AOpts{Depth: 40, MaxSteps: 2000000})
}
