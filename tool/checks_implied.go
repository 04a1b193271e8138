package main

import (
	"fmt"
)

func init() {
	register(&Check{ID: "C19",
		Explanation: "The actions that give an implied value are interpreted on real flags and args of every form of name, with models of the environment and of file systems that give unknown text; the value the target has afterwards is compared with the one it must have, on every path.",
		Rules: []RuleDoc{
			{"source", "the first source that has a value gives it, and the rest give nothing", 20},
			{"set", "a value that is set replaces the one before, unless it is not valid", 10},
			{"explicit", "what was given on the command line stays", 8},
			{"name", "names of environment variables are expanded as documented", 8},
			{"implies", "a flag implies another's value only when it was given, and only when the other was not", 4},
		},
		Run: ruleImplied})
}

const impliedDriver = `package driver

import (
	"bytes"
	"context"
	"io/fs"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
)

// known to the interpreter
func perform(name string, c *cli.Context) error                            { panic("an internal step") }
func contextOf(target any, t cli.Timing, parent *cli.Context) *cli.Context { panic("a context") }

var (
	env       map[string]string
	content   string
	openErr   error
	opened    string
	opens     int
	openedOf  fs.FS
	hookName  string
	hookOf    *cli.Context
	hooked    cli.Action
	hooks     int
	hookErr   error
	sets      int
	runs      int
)

type failed struct{}

func (failed) Error() string { return "" }

type files struct{ fs.FS }

func mGetenv(k string) string { return env[k] }
func mLookupEnv(k string) (string, bool) { r, ok := env[k]; return r, ok }
func mReadFile(f fs.FS, name string) ([]byte, error) {
	opened, openedOf = name, f
	opens++
	if openErr != nil {
		return nil, openErr
	}
	return []byte(content), nil
}

// places of {}
func mFindAll(_ any, s string, n int) [][]int {
	var res [][]int
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '{' && s[i+1] == '}' {
			res = append(res, []int{i, i + 2})
			i++
		}
	}
	return res
}

func mParseInt(s string, base, bits int) (int64, error) {
	if s == "5" {
		return 5, nil
	}
	return 0, failed{}
}
func mAtoi(s string) (int, error) {
	if s == "5" {
		return 5, nil
	}
	return 0, failed{}
}
func mHex(s string) ([]byte, error) { return nil, failed{} }

func mHook(c *cli.Context, name string, a cli.Action) error {
	hookName, hookOf, hooked = name, c, a
	hooks++
	return hookErr
}

func reset() {
	env, content, openErr, opened, opens, openedOf = map[string]string{}, "", nil, "", 0, nil
	resetBuffers()
	hookName, hookOf, hooked, hooks, hookErr, sets, runs = "", nil, nil, 0, nil, 0, 0
}

var _ context.Context
`

func ruleImplied(c *Ctx) {
	w := c.W
	var ls []law
	add := func(rule, key, body string) { ls = append(ls, law{rule, key, body}) }

	for _, t := range []string{"Flag", "Arg"} {
		p := fmt.Sprintf(`reset(); s := w; t := &cli.%s{Name: "long-name", Value: &s}; c := contextOf(t, cli.BeforeTiming, nil); `, t)
		on := " " + t
		add("source", "variable"+on, p+`env["A"] = v; err := cli.FromEnv("A").Execute(c); return err == nil && s == v`)
		add("source", "no variable"+on, p+`err := cli.FromEnv("A", "B").Execute(c); return err == nil && s == w`)
		add("source", "no variables asked for"+on, p+`err := cli.FromEnv().Execute(c); return err == nil && s == w`)
		add("source", "empty variable"+on, p+`env["A"] = ""; err := cli.FromEnv("A").Execute(c); return err == nil && s == w`)
		add("source", "first variable"+on, p+`env["A"], env["B"] = v, x; err := cli.FromEnv("A", "B").Execute(c); return err == nil && s == v`)
		add("source", "second variable"+on, p+`env["A"], env["B"] = "", x; err := cli.FromEnv("A", "B").Execute(c); return err == nil && s == x`)
		add("source", "third variable"+on, p+`env["C"], env["D"] = x, v; err := cli.FromEnv("A", "B", "C", "D").Execute(c); return err == nil && s == x`)
		add("source", "variable, then another action"+on, p+`env["A"], env["B"] = v, x; cli.FromEnv("A").Execute(c); err := cli.FromEnv("B").Execute(c); return err == nil && s == v`)
		add("source", "file"+on, p+`content = v; f := &files{}; err := cli.FromFilePath(f, x).Execute(c); return err == nil && s == v && opened == x && opens == 1 && openedOf == fs.FS(f)`)
		add("source", "file of the context"+on, p+`content = v; f := &files{}; c.FS = f; err := cli.FromFilePath(nil, x).Execute(c); return err == nil && s == v && opened == x && opens == 1 && openedOf == fs.FS(f)`)
		add("source", "the same action on another context"+on, p+`f, g := &files{}, &files{}; a := cli.FromFilePath(nil, x); c.FS = f; openErr = e; a.Execute(c); c2 := contextOf(&cli.Flag{Name: "o", Value: &s}, cli.BeforeTiming, nil); c2.FS = g; openErr = nil; content = v; err := a.Execute(c2); return err == nil && s == v && openedOf == fs.FS(g)`)
		add("source", "file that fails"+on, p+`openErr = e; err := cli.FromFilePath(&files{}, x).Execute(c); return err == nil && s == w && opens == 1`)
		add("source", "no file"+on, p+`content = v; err := cli.FromFilePath(&files{}, "").Execute(c); return err == nil && s == w && opens == 0`)
		add("source", "variable, then file"+on, p+`env["A"], content = v, x; cli.FromEnv("A").Execute(c); err := cli.FromFilePath(&files{}, "f").Execute(c); return err == nil && s == v`)
		add("source", "no variable, then file"+on, p+`content = x; cli.FromEnv("A").Execute(c); err := cli.FromFilePath(&files{}, "f").Execute(c); return err == nil && s == x`)
		add("source", "function"+on, p+`err := cli.ImplicitValue(func(cc *cli.Context) (string, bool) { return v, cc == c }).Execute(c); return err == nil && s == v`)
		add("source", "function that has none"+on, p+`err := cli.ImplicitValue(func(*cli.Context) (string, bool) { return v, false }).Execute(c); return err == nil && s == w`)
		add("source", "function, then variable"+on, p+`env["A"] = x; cli.ImplicitValue(func(*cli.Context) (string, bool) { return v, true }).Execute(c); err := cli.FromEnv("A").Execute(c); return err == nil && s == v`)
		add("source", "function that has none, then variable"+on, p+`env["A"] = x; cli.ImplicitValue(func(*cli.Context) (string, bool) { return v, false }).Execute(c); err := cli.FromEnv("A").Execute(c); return err == nil && s == x`)
		add("source", "two functions"+on, p+`cli.ImplicitValue(func(*cli.Context) (string, bool) { return v, true }).Execute(c); err := cli.ImplicitValue(func(*cli.Context) (string, bool) { return x, true }).Execute(c); return err == nil && s == v && c.ImplicitlySet()`)
		add("source", "action"+on, p+`err := cli.Implicitly(cli.ActionFunc(func(cc *cli.Context) error { runs++; return e })).Execute(c); return err == e && runs == 1 && !c.ImplicitlySet()`)
		add("source", "action that sets"+on, p+`err := cli.Implicitly(cli.ActionFunc(func(cc *cli.Context) error { return cc.SetValue(v) })).Execute(c); return err == nil && s == v && c.ImplicitlySet()`)
		add("source", "set twice in an action"+on, p+`err := cli.Implicitly(cli.ActionFunc(func(cc *cli.Context) error { cc.SetValue(v); return cc.SetValue(x) })).Execute(c); return err == cli.ErrImplicitValueAlreadySet && s == v`)
		add("source", "set after"+on, p+`env["A"] = x; cli.FromEnv("A").Execute(c); err := c.SetValue(v); return err == nil && s == v`)
		add("source", "set before is not implied"+on, p+`err := c.SetValue(v); return err == nil && s == v && !c.ImplicitlySet()`)

		q := fmt.Sprintf(`reset(); t := &cli.%s{Name: "long-name", Value: &s}; c := contextOf(t, cli.BeforeTiming, nil); `, t)
		add("set", "list"+on, `s := []string{w, x}; `+q+`err := c.SetValue("b"); return err == nil && len(s) == 1 && s[0] == "b"`)
		add("set", "list of another list"+on, `s := []string{w, x}; `+q+`err := c.SetValue([]string{v}); return err == nil && len(s) == 1 && s[0] == v`)
		add("set", "text"+on, `s := w; `+q+`err := c.SetValue(v); return err == nil && s == v`)
		add("set", "text that is empty"+on, `s := w; `+q+`err := c.SetValue(""); return err == nil && s == ""`)
		add("set", "twice"+on, `s := w; `+q+`c.SetValue(v); err := c.SetValue(x); return err == nil && s == x`)
		add("set", "merged"+on, `s := w; `+q+`cli.Merge.Execute(contextOf(t, cli.InitialTiming, nil)); err := c.SetValue(v); return err == nil && s == w + " " + v`)
		add("set", "bytes that are not valid"+on, `s := []byte{1, 2}; `+q+`err := c.SetValue("zz"); return err != nil && len(s) == 2 && s[0] == 1`)
		add("set", "pairs that are not valid"+on, `o := &cli.NameValue{}; s := []*cli.NameValue{o}; `+q+`err := c.SetValue("zz"); return err != nil && len(s) == 1 && s[0] == o`)
		add("set", "pairs"+on, `s := []*cli.NameValue{nil}; `+q+`err := c.SetValue("a=b"); return err == nil && len(s) == 1 && s[0].Name == "a" && s[0].Value == "b"`)
		add("set", "map"+on, `m := map[string]string{"x": "y"}; s := m; `+q+`err := c.SetValue("a=b"); return err == nil && len(s) == 1 && s["a"] == "b" && len(m) == 1`)
		add("set", "number"+on, `s := 4; `+q+`err := c.SetValue("5"); return err == nil && s == 5`)
		add("set", "number that is not valid"+on, `s := 4; `+q+`err := c.SetValue("x"); return err != nil && s == 4`)
		add("set", "bool"+on, `s := yes; `+q+`err := c.SetValue("false"); return err == nil && !s`)

		if w.Func("cli.setupOptionFromEnv") != nil {
			q := fmt.Sprintf(`reset(); s := w; t := &cli.%s{Name: "long-name", Value: &s, EnvVars: []string{"A", "P{}"}, FilePath: "the-file"}; c := contextOf(t, cli.BeforeTiming, nil); c.FS = &files{}; `, t)
			add("source", "as defined: variable"+on, q+`env["A"], env["P_LONG_NAME"], content = v, x, u; err := perform("setupOptionFromEnv", c); return err == nil && s == v`)
			add("source", "as defined: second variable"+on, q+`env["P_LONG_NAME"], content = x, u; err := perform("setupOptionFromEnv", c); return err == nil && s == x`)
			add("source", "as defined: file"+on, q+`content = x; err := perform("setupOptionFromEnv", c); return err == nil && s == x && opened == "the-file" && openedOf == c.FS`)
			add("source", "as defined: none"+on, q+`openErr = e; err := perform("setupOptionFromEnv", c); return err == nil && s == w`)
			add("explicit", "as defined"+on, q+`t.SetOccurrence(u); env["A"], content = v, x; err := perform("setupOptionFromEnv", c); return err == nil && s == u`)
		}

		given := p + `t.SetOccurrence(u); `
		add("explicit", "variable"+on, given+`env["A"] = v; err := cli.FromEnv("A").Execute(c); return err == nil && s == u && !c.ImplicitlySet()`)
		add("explicit", "file"+on, given+`content = v; err := cli.FromFilePath(&files{}, x).Execute(c); return err == nil && s == u && opens == 0`)
		add("explicit", "function"+on, given+`err := cli.ImplicitValue(func(*cli.Context) (string, bool) { runs++; return v, true }).Execute(c); return err == nil && s == u && runs == 0`)
		add("explicit", "action"+on, given+`err := cli.Implicitly(cli.ActionFunc(func(*cli.Context) error { runs++; return e })).Execute(c); return err == nil && s == u && runs == 0`)
		add("explicit", "given twice"+on, given+`t.SetOccurrence(x); env["A"] = v; err := cli.FromEnv("A").Execute(c); return err == nil && s == x`)
		add("explicit", "set stays settable"+on, given+`err := c.SetValue(v); return err == nil && s == v`)
	}
	names := []struct{ flag, pat, want string }{
		{`Name: "long-name"`, "{}", "LONG_NAME"}, {`Name: "long-name"`, "APP{}", "APP_LONG_NAME"}, {`Name: "long-name"`, "{}APP", "LONG_NAME_APP"}, {`Name: "long-name"`, "A{}B", "A_LONG_NAME_B"},
		{`Name: "long-name"`, "PLAIN", "PLAIN"}, {`Name: "n", Aliases: []string{"name"}`, "{}", "NAME"}, {`Name: "name", Aliases: []string{"other"}`, "X{}", "X_NAME"}, {`Name: "n"`, "{}", "N"}, {`Name: "a-b-c"`, "{}", "A_B_C"},
		{`Name: "long-name"`, "{", "{"}, {`Name: "mixedCase"`, "{}", "MIXEDCASE"}, {`Name: "x", Aliases: []string{"y", "a-long"}`, "P{}S", "P_A_LONG_S"},
	}
	for _, n := range names {
		add("name", n.flag+" in "+n.pat, fmt.Sprintf(`reset(); s := w; c := contextOf(&cli.Flag{%s, Value: &s}, cli.BeforeTiming, nil); env[%q] = v; err := cli.FromEnv(%q).Execute(c); return err == nil && s == v`, n.flag, n.want, n.pat))
	}
	add("name", "arg", `reset(); s := w; c := contextOf(&cli.Arg{Name: "an-arg", Value: &s}, cli.BeforeTiming, nil); env["P_AN_ARG"] = v; err := cli.FromEnv("P{}").Execute(c); return err == nil && s == v`)

	p := `reset(); s, o := w, u; t := &cli.Flag{Name: "t", Value: &s}; other := &cli.Flag{Name: "other", Value: &o}; k := contextOf(&cli.Command{Name: "c"}, cli.InitialTiming, nil); c := contextOf(t, cli.InitialTiming, k); hookErr = e; err := cli.Implies("%s", v).Execute(c); if err != e || hooks != 1 || hookOf != k || hookName != "%s" { return false }; c2 := contextOf(other, cli.BeforeTiming, k); `
	for _, n := range [][2]string{{"other", "--other"}, {"--other", "--other"}, {"-o", "-o"}} {
		q := fmt.Sprintf(p, n[0], n[1])
		add("implies", n[0]+": given", q+`t.SetOccurrence(x); err = hooked.Execute(c2); return err == nil && o == v && s == x`)
		add("implies", n[0]+": not given", q+`err = hooked.Execute(c2); return err == nil && o == u`)
		add("implies", n[0]+": both given", q+`t.SetOccurrence(x); other.SetOccurrence(w); err = hooked.Execute(c2); return err == nil && o == w`)
		add("implies", n[0]+": the other has a value already", q+`t.SetOccurrence(x); env["A"] = w; cli.FromEnv("A").Execute(c2); err = hooked.Execute(c2); return err == nil && o == w`)
		add("implies", n[0]+": only implied", q+`env["A"] = x; ci := contextOf(t, cli.BeforeTiming, k); cli.FromEnv("A").Execute(ci); err = hooked.Execute(c2); return err == nil && o == u && s == x`)
	}
	add("implies", "no name", `return cli.Implies("", v) == nil`)

	dw, err := w.Driven(impliedDriver + bufferModels + lawSource(ls))
	if err != nil {
		c.Bad("source", "implied values", "-", "implied values cannot be used as documented: %v", err)
		return
	}
	dw.modelled(bufferNames)
	dw.modelled(map[string]string{"os.Getenv": "mGetenv", "os.LookupEnv": "mLookupEnv", "strconv.ParseInt": "mParseInt", "strconv.Atoi": "mAtoi", "encoding/hex.DecodeString": "mHex", "io/fs.ReadFile": "mReadFile", "regexp.(Regexp).FindAllStringIndex": "mFindAll", "cli.(Context).HookBefore": "mHook"})
	c.lawful(dw, ls, "action.go", AOpts{Depth: 40, MaxSteps: 2000000})
}
