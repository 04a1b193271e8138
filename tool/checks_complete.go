package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{
		ID: "C25",
		Explanation: "Abstract interpretation of completion requests: a driver in Go is type-checked together with the package, makes commands and asks them for completions, and every path of each law must end in true. " +
			"Parsing of what was typed so far is part of what is interpreted.",
		Rules: []RuleDoc{
			{"flags", "What starts with a dash is completed to the names of visible flags", 44},
			{"values", "The values of a flag are completed in each form they can be typed", 80},
			{"args", "Anything else is completed by the arg that is next", 40},
			{"commands", "The names of visible sub-commands are offered, and their own completions after them", 20},
			{"request", "What was typed is taken from the environment, and answered on standard output", 3},
			{"format", "Each item is written in as many lines as the shell reads", 0},
		},
		Run: ruleComplete,
	})
}

const completeDriver = `package driver

import (
	"bytes"
	"context"
	"strings"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/synopsis"
)

// known to the interpreter
func liveContextOf(target any, t cli.Timing, parent *cli.Context) *cli.Context { panic("a context") }
func childOf(parent *cli.Context, target any) *cli.Context                    { panic("a context") }
func itemsOf(name string, c *cli.Context) []cli.CompletionItem                { panic("an internal step") }

func shellOf(name string) cli.ShellComplete                                   { panic("an internal step") }

type failed struct{}

func (failed) Error() string { return "" }

func mParseUsage(string) *synopsis.Usage { return &synopsis.Usage{} }
func mList(*cli.Context, any) []string   { return append([]string{}, given...) }

var (
	given []string
	asked *cli.CompletionRequest
	on    any
)

type item = cli.CompletionItem

func at(c *cli.Command) *cli.Context {
	return childOf(liveContextOf(&cli.Command{Name: "parent"}, cli.ActionTiming, nil), c)
}

// offers: the items, in order, with their types, texts and whether no space follows
func offers(got []item, want ...item) bool {
	if len(got) != len(want) {
		return false
	}
	for i, x := range got {
		if x.Value != want[i].Value || x.HelpText != want[i].HelpText || x.Type != want[i].Type || x.PreventSpaceAfter != want[i].PreventSpaceAfter {
			return false
		}
	}
	return true
}
func words(ws ...string) []item {
	var res []item
	for _, x := range ws {
		res = append(res, item{Value: x})
	}
	return res
}
func hideFlag(f *cli.Flag) *cli.Flag {
	f.SetHidden(true)
	return f
}
func hideCmd(c *cli.Command) *cli.Command {
	c.SetHidden(true)
	return c
}

// spy: a completion that keeps what it is asked, and answers with what it is told to
func spy(ws ...string) cli.Completion {
	return cli.CompletionFunc(func(c *cli.Context) []item {
		asked = c.CompletionRequest()
		on = c.Target()
		return words(ws...)
	})
}

func tools() *cli.Command {
	return &cli.Command{
		Name: "cmd",
		Flags: []*cli.Flag{
			{Name: "all", Aliases: []string{"a"}, HelpText: "everything", Value: new(string)},
			{Name: "color", Value: new(string), Completion: cli.CompletionValues("red", "green", "gray")},
			{Name: "colormode", Aliases: []string{"m"}, HelpText: "how", Value: new(string), Completion: cli.CompletionValues("dark", "light", "dull")},
			hideFlag(&cli.Flag{Name: "secret", Aliases: []string{"s"}, Value: new(string), Completion: cli.CompletionValues("x")}),
			{Name: "q", Value: new(string)},
			{Name: "file", Value: new(string), Completion: cli.FileCompletion},
		},
		Args: []*cli.Arg{
			{Name: "first", NArg: 1, Value: new(string), Completion: cli.CompletionValues("one", "once", "two")},
			{Name: "second", NArg: 1, Value: new(string), Completion: cli.DirectoryCompletion},
			{Name: "third", Value: new(string), Completion: cli.CompletionValues("three", "thirty")},
		},
	}
}

// refusing: a value that is never right
type refusing struct{}

func (*refusing) Set(string) error { return failed{} }
func (*refusing) String() string   { return "" }

// counter: one that fails
type counter struct{}

func (*counter) Take(string, bool) error { return failed{} }
func (*counter) Done() error             { return failed{} }

// completing: a value that knows what it can be
type completing struct{ other bool }

func (*completing) Set(string) error { return nil }
func (*completing) String() string   { return "" }
func (c *completing) Completion() cli.Completion {
	if c.other {
		return spy("other")
	}
	return spy("p", "q")
}

func tree() *cli.Command {
	return &cli.Command{
		Name: "cmd",
		Args: []*cli.Arg{{Name: "command", NArg: -1, Value: new([]string), Completion: cli.CompletionFunc(func(c *cli.Context) []item { return itemsOf("completeSubCommand", c) })}},
		Subcommands: []*cli.Command{
			{Name: "show", Aliases: []string{"sh", "print"}, HelpText: "a"},
			hideCmd(&cli.Command{Name: "debug", Aliases: []string{"dbg"}, Flags: []*cli.Flag{{Name: "level", Value: new(string)}}}),
			{Name: "remote", HelpText: "b", Flags: []*cli.Flag{{Name: "url", Value: new(string)}, {Name: "to", Value: new(string), Completion: cli.CompletionValues("a", "b")}}, Args: []*cli.Arg{{Name: "what", Value: new(string), Completion: cli.CompletionValues("x", "y")}}},
			{Name: "remove", Aliases: []string{"rm"}, Flags: []*cli.Flag{{Name: "force", Value: new(string)}}},
		},
	}
}
func complete(inc string, typed ...string) []item {
	return at(tools()).Complete(append([]string{"cmd"}, typed...), inc)
}

var env map[string]string
var theApp *cli.App

func mEnv(name string) string                 { return env[name] }
func mStrip(_ any, s, _ string) string        { return s }
func mSplit(s string) ([]string, error)       { return strings.Fields(s), nil }
func mAtoi(s string) (int, error) {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, failed{}
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, nil
}

// sink: a writer that keeps what is written
type sink struct{ text string }

func (k *sink) Write(p []byte) (int, error)                 { k.text += string(p); return 0, nil }
func (k *sink) WriteString(s string) (int, error)           { k.text += s; return 0, nil }
func (k *sink) ClearStyle(cli.Style)                        {}
func (k *sink) Reset()                                      {}
func (k *sink) SetColorCapable(bool)                        {}
func (k *sink) ResetColorCapable()                          {}
func (k *sink) ColorCapable() bool                          { return false }
func (k *sink) SetBackground(cli.Color)                     {}
func (k *sink) SetForeground(cli.Color)                     {}
func (k *sink) SetStyle(cli.Style)                          {}
func (k *sink) Underline(...any) (int, error)               { return 0, nil }
func (k *sink) Bold(...any) (int, error)                    { return 0, nil }
func (k *sink) Styled(cli.Style, ...any) (int, error)       { return 0, nil }
func mFprint(w any, a ...any) (int, error) {
	if k, ok := w.(*sink); ok {
		for _, x := range a {
			k.text += x.(string)
		}
	}
	return 0, nil
}
func mFprintln(w any, a ...any) (int, error)      { return mFprint(w, a...) }
func mWriteTo(w any, s string) (int, error)       { return mFprint(w, s) }
func mApp(*cli.Context) *cli.App              { return theApp }
func perform(name string, c *cli.Context) error { panic("an internal step") }

// shell: one that is told what was typed, and keeps what it is given
type shell struct {
	args    []string
	inc     string
	asked   int
	written []item
}

func (s *shell) GetCompletionRequest() ([]string, string) { s.asked++; return s.args, s.inc }
func (s *shell) FormatCompletions(items []item) string    { s.written = append(s.written, items...); return "answer" }
func (s *shell) GetSourceTemplate() *cli.Template         { return nil }
func (s *shell) SetOptions(map[string]string)             {}

func request() ([]string, string) { return shellOf("newZshComplete").GetCompletionRequest() }
func requests(typed, word, inc string, args ...string) bool {
	env = map[string]string{"COMP_WORDS": typed, "COMP_CWORD": word}
	a, i := request()
	if len(a) != len(args) || i != inc {
		return false
	}
	for j := range args {
		if a[j] != args[j] {
			return false
		}
	}
	return true
}

var _ bytes.Buffer
var _ context.Context
var _ = strings.Join
`

func ruleComplete(c *Ctx) {
	var ls []law
	add := func(rule, key, body string) { ls = append(ls, law{rule, key, "resetBuffers(); " + body}) }
	q := func(ws string) string {
		var out []string
		for _, w := range strings.Fields(ws) {
			out = append(out, fmt.Sprintf("%q", w))
		}
		return strings.Join(out, ", ")
	}
	typed := func(rule, ws, inc, want string) {
		t := q(ws)
		if t != "" {
			t = ", " + t
		}
		add(rule, fmt.Sprintf("%s + %q", ws, inc), fmt.Sprintf("return offers(complete(%q%s), %s)", inc, t, want))
	}
	plain := func(rule, ws, inc, want string) {
		typed(rule, ws, inc, "words("+q(want)+")...")
	}
	const all, mode = `item{Value: "%s", HelpText: "everything"}`, `item{Value: "%s", HelpText: "how"}`
	everything := fmt.Sprintf(all, "-a") + ", " + fmt.Sprintf(all, "--all")
	modes := fmt.Sprintf(mode, "-m") + ", " + fmt.Sprintf(mode, "--colormode")
	long := fmt.Sprintf(all, "--all") + `, item{Value: "--color"}, ` + fmt.Sprintf(mode, "--colormode") + `, item{Value: "--file"}`
	for _, ws := range []string{"", "arg", "--color red", "-m x arg", "--color=red one two"} {
		typed("flags", ws, "-", everything+`, item{Value: "--color"}, `+modes+`, item{Value: "-q"}, item{Value: "--file"}`)
		typed("flags", ws, "--", long)
		typed("flags", ws, "--co", `item{Value: "--color"}, `+fmt.Sprintf(mode, "--colormode"))
		typed("flags", ws, "--colorm", `item{Value: "--colormode=", HelpText: "how", PreventSpaceAfter: true}`)
		typed("flags", ws, "--al", `item{Value: "--all=", HelpText: "everything", PreventSpaceAfter: true}`)
		typed("flags", ws, "--s", "words()...")
		typed("flags", ws, "--nothing", "words()...")
		typed("flags", ws, "-z", "words()...")
		plain("values", ws, "--color", "--color=red --color=green --color=gray")
		plain("values", ws, "--color=", "--color=red --color=green --color=gray")
		plain("values", ws, "--color=g", "--color=green --color=gray")
		plain("values", ws, "--color=green", "--color=green")
		plain("values", ws, "--color=x", "")
		plain("values", ws, "--colormode=d", "--colormode=dark --colormode=dull")
		plain("values", ws, "-m", "-mdark -mlight -mdull")
		plain("values", ws, "--secret=", "")
	}
	for _, ws := range []string{"", "one", "one two", "one two three", "--all x"} {
		if ws != "" {
			ws += " "
		}
		plain("values", ws+"--color", "", "red green gray")
		plain("values", ws+"--color", "g", "green gray")
		plain("values", ws+"--color", "gre", "green")
		plain("values", ws+"--color", "x", "")
		plain("values", ws+"--colormode", "d", "dark dull")
		plain("values", ws+"-m", "", "dark light dull")
		plain("values", ws+"-m", "l", "light")
		plain("values", ws+"-q", "l", "")
		typed("values", ws+"--file", "l", "item{Value: \"l\", Type: cli.CompletionTypeFile}")
	}
	for _, ws := range []string{"", "--all x", "--color=red -m dark", "-q x"} {
		plain("args", ws, "", "one once two")
		plain("args", ws, "on", "one once")
		plain("args", ws, "x", "")
		typed("args", ws+" one", "", "item{Type: cli.CompletionTypeDirectory}")
		typed("args", ws+" one", "x", "item{Value: \"x\", Type: cli.CompletionTypeDirectory}")
		plain("args", ws+" one two", "", "three thirty")
		plain("args", ws+" one two", "thi", "thirty")
	}
	// what was typed has other errors
	for _, ws := range []string{"--num abc", "--num=abc", "--num abc -q x"} {
		add("args", "wrong value: "+ws, fmt.Sprintf(`cmd := tools(); cmd.Flags = append(cmd.Flags, &cli.Flag{Name: "num", Value: &refusing{}}); return offers(at(cmd).Complete([]string{"cmd", %s}, "on"), words("one", "once")...)`, q(ws)))
	}
	add("args", "counter that fails", `cmd := tools(); cmd.Args[0].NArg = &counter{}; return offers(at(cmd).Complete([]string{"cmd", "x"}, "on"), words("one", "once")...)`)
	add("args", "counter that fails at the end", `cmd := tools(); cmd.Args[0].NArg = &counter{}; return offers(at(cmd).Complete([]string{"cmd"}, "on"), words("one", "once")...)`)

	// completions that are given
	const spied = `asked, on = nil, nil; cmd := tools(); `
	is := func(target, inc, ws string) string {
		return fmt.Sprintf(`c := at(cmd); got := c.Complete([]string{"cmd", %s}, %q); return offers(got, words("p", "q")...) && asked != nil && asked.Incomplete == %[2]q && len(asked.Args) == %[3]d && asked.Args[0] == "cmd" && on == any(%[4]s) && c.CompletionRequest() == nil`, q(ws), inc, len(strings.Fields(ws))+1, target)
	}
	for _, g := range []struct{ key, set, target, inc, ws string }{
		{"flag", `cmd.Flags[4].Completion = spy("p", "q"); `, "cmd.Flags[4]", "-q", "one"},
		{"flag by its long name", `cmd.Flags[0].Completion = spy("p", "q"); `, "cmd.Flags[0]", "--all=x", ""},
		{"flag by its long name after others", `cmd.Flags[0].Completion = spy("p", "q"); `, "cmd.Flags[0]", "--all", "--color red two"},
		{"flag by its short name", `cmd.Flags[0].Completion = spy("p", "q"); `, "cmd.Flags[0]", "-a", "-m dark"},
		{"first arg", `cmd.Args[0].Completion = spy("p", "q"); `, "cmd.Args[0]", "x", ""},
		{"second arg", `cmd.Args[1].Completion = spy("p", "q"); `, "cmd.Args[1]", "x", "a"},
		{"third arg", `cmd.Args[2].Completion = spy("p", "q"); `, "cmd.Args[2]", "x", "a --color b c"},
		{"command", `cmd.Completion = spy("p", "q"); `, "cmd", "x", "a"},
		{"command before its flags", `cmd.Completion = spy("p", "q"); `, "cmd", "--al", "a"},
		{"value of a flag", `cmd.Flags[0].Value = &completing{}; `, "cmd.Flags[0]", "--all=", "a"},
		{"value of an arg", `cmd.Args[1].Value, cmd.Args[1].Completion = &completing{}, nil; `, "cmd.Args[1]", "x", "a"},
		{"flag before its value's", `cmd.Flags[0].Value, cmd.Flags[0].Completion = &completing{other: true}, spy("p", "q"); `, "cmd.Flags[0]", "--all=", "a"},
	} {
		rule := "values"
		if strings.Contains(g.key, "arg") {
			rule = "args"
		}
		target := g.target
		if rule == "args" && (g.key == "first arg" || g.key == "second arg" || g.key == "value of an arg") {
			// when an arg is missed, it is the command that is completed
			target = "on"
		}
		add(rule, "given to the "+g.key, spied+g.set+is(target, g.inc, g.ws))
	}
	add("values", "none for a flag", `cmd := tools(); return offers(at(cmd).Complete([]string{"cmd"}, "-q"), words("-q")...) && len(at(cmd).Complete([]string{"cmd"}, "--all=")) == 0`)
	add("args", "none", `cmd := tools(); cmd.Args[0].Completion = nil; return len(at(cmd).Complete([]string{"cmd"}, "")) == 0 && len(at(cmd).Complete([]string{"cmd"}, "x")) == 0`)
	for _, s := range [][2]string{{"", "Red rose r-e blue"}, {"r", "rose r-e"}, {"R", "Red"}, {"re", ""}, {"d", ""}, {"Red", "Red"}, {"Redd", ""}, {"r-", "r-e"}} {
		add("args", "whole prefix "+s[0], fmt.Sprintf(`cmd := tools(); cmd.Args[0].Completion = cli.CompletionValues("Red", "rose", "r-e", "blue"); return offers(at(cmd).Complete([]string{"cmd"}, %q), words(%s)...)`, s[0], q(s[1])))
		add("values", "whole prefix "+s[0], fmt.Sprintf(`cmd := tools(); cmd.Flags[4].Completion = cli.CompletionValues("Red", "rose", "r-e", "blue"); return offers(at(cmd).Complete([]string{"cmd", "-q"}, %q), words(%s)...)`, s[0], q(s[1])))
	}
	for _, s := range []string{"--ALL", "--Color=", "--all ", "-A", "--lor"} {
		add("flags", "other names "+s, fmt.Sprintf(`return len(complete(%q)) == 0`, s))
	}
	add("args", "no args", `cmd := tools(); cmd.Args = nil; return len(at(cmd).Complete([]string{"cmd"}, "")) == 0 && len(at(cmd).Complete([]string{"cmd"}, "x")) == 0`)
	add("values", "given as nil", `cmd := tools(); cmd.Flags[4].Completion = cli.CompletionFunc(nil); return offers(at(cmd).Complete([]string{"cmd"}, "-q"), words("-q")...)`)
	add("args", "files", `cmd := &cli.Command{Name: "cmd", Args: []*cli.Arg{{Name: "a", Value: new(string), Completion: cli.FileCompletion}}}; return offers(at(cmd).Complete([]string{"cmd"}, v), item{Type: cli.CompletionTypeFile, Value: v})`)
	add("args", "directories", `cmd := &cli.Command{Name: "cmd", Args: []*cli.Arg{{Name: "a", Value: new(string), Completion: cli.DirectoryCompletion}}}; return offers(at(cmd).Complete([]string{"cmd"}, v), item{Type: cli.CompletionTypeDirectory, Value: v})`)
	add("flags", "with a mirror flag", `cmd := tools(); c := at(cmd); cli.No.Execute(childOf(c, cmd.Flags[1])); return offers(c.Complete([]string{"cmd"}, "--co"), item{Value: "--color"}, item{Value: "--colormode", HelpText: "how"}) && offers(c.Complete([]string{"cmd"}, "--color"), words("--color=red", "--color=green", "--color=gray")...)`)
	add("flags", "the longer name first", `cmd := &cli.Command{Name: "cmd", Flags: []*cli.Flag{{Name: "colors", Value: new(string), Completion: cli.CompletionValues("a")}, {Name: "color", Value: new(string), Completion: cli.CompletionValues("b")}}}; return offers(at(cmd).Complete([]string{"cmd"}, "--color="), words("--color=b")...) && offers(at(cmd).Complete([]string{"cmd"}, "--color"), words("--color=b")...) && offers(at(cmd).Complete([]string{"cmd"}, "--colors="), words("--colors=a")...)`)
	add("flags", "twice", `cmd := tools(); c := at(cmd); for range 2 { if !offers(c.Complete([]string{"cmd", "a", "b"}, "--s")) || !offers(c.Complete([]string{"cmd", "a"}, "--col"), item{Value: "--color"}, item{Value: "--colormode", HelpText: "how"}) { return false } }; return true`)
	add("flags", "hidden flag with the same prefix", `cmd := &cli.Command{Name: "cmd", Flags: []*cli.Flag{hideFlag(&cli.Flag{Name: "more", Value: new(string)}), {Name: "most", Value: new(string)}}}; return offers(at(cmd).Complete([]string{"cmd"}, "--mo"), item{Value: "--most=", PreventSpaceAfter: true})`)
	add("flags", "both names of one flag", `cmd := &cli.Command{Name: "cmd", Flags: []*cli.Flag{{Name: "most", Aliases: []string{"m"}, Value: new(string)}}}; return offers(at(cmd).Complete([]string{"cmd"}, "--"), item{Value: "--most=", PreventSpaceAfter: true})`)

	add("flags", "all names of one flag", `cmd := &cli.Command{Name: "cmd", Flags: []*cli.Flag{{Name: "most", Aliases: []string{"m"}, Value: new(string)}, {Name: "x", Aliases: []string{"extra", "extras"}, Value: new(string)}}}; if !offers(at(cmd).Complete([]string{"cmd"}, "--m"), item{Value: "--most=", PreventSpaceAfter: true}) || len(at(cmd).Complete([]string{"cmd"}, "--ext")) != 1 { return false }; cmd.Flags = cmd.Flags[:1]; return len(at(cmd).Complete([]string{"cmd"}, "-")) == 1`)
	add("flags", "switch", `cmd := &cli.Command{Name: "cmd", Flags: []*cli.Flag{{Name: "most", Value: new(bool)}, {Name: "other", Value: new(bool)}}}; c := at(cmd); return offers(c.Complete([]string{"cmd", "--most"}, "--mo"), words("--most")...)`)

	// sub-commands
	for _, s := range []struct{ typed, inc, want string }{
		{"", "", `item{Value: "show", HelpText: "a"}, item{Value: "remote", HelpText: "b"}, item{Value: "remove"}, item{Value: "sh", HelpText: "a"}, item{Value: "print", HelpText: "a"}, item{Value: "rm"}`},
		{"", "re", `item{Value: "remote", HelpText: "b"}, item{Value: "remove"}`},
		{"", "r", `item{Value: "remote", HelpText: "b"}, item{Value: "remove"}, item{Value: "rm"}`},
		{"", "print", `item{Value: "print", HelpText: "a"}`},
		{"", "s", `item{Value: "show", HelpText: "a"}, item{Value: "sh", HelpText: "a"}`},
		{"", "debug", ``},
		{"", "d", ``},
		{"", "zz", ``},
		{"", "Re", ``},
		{"", "mote", ``},
		{"", "show ", ``},
		{"remote", "--u", `item{Value: "--url=", PreventSpaceAfter: true}`},
		{"remote", "--", `item{Value: "--url"}, item{Value: "--to"}`},
		{"remote", "", `item{Value: "x"}, item{Value: "y"}`},
		{"remote x", "--to=", `item{Value: "--to=a"}, item{Value: "--to=b"}`},
		{"remote --to", "a", `item{Value: "a"}`},
		{"rm", "--", `item{Value: "--force=", PreventSpaceAfter: true}`},
		{"remote", "-", `item{Value: "--url"}, item{Value: "--to"}`},
		{"remote x", "-", `item{Value: "--url"}, item{Value: "--to"}`},
		{"remote --url y", "--t", `item{Value: "--to=", PreventSpaceAfter: true}`},
		{"remote --to a", "", `item{Value: "x"}, item{Value: "y"}`},
		{"debug", "--", `item{Value: "--level=", PreventSpaceAfter: true}`},
		{"nothing", "--", ``},
		{"nothing", "", ``},
	} {
		add("commands", fmt.Sprintf("%s + %q", s.typed, s.inc), fmt.Sprintf(`given = []string{%s}; return offers(at(tree()).Complete(append([]string{"cmd"}, given...), %q), []item{%s}...)`, q(s.typed), s.inc, s.want))
	}

	// what the shell asks
	zsh := c.W.Func("cli.newZshComplete")
	for _, s := range []struct{ typed, word, inc, args string }{
		{"app", "0", "app", ""},
		{"app", "1", "", "app"},
		{"app remote --to=a", "2", "--to=a", "app remote"},
		{"app remote --to=a", "3", "", "app remote --to=a"},
		{"app remote --to=a", "1", "remote", "app"},
		{"app -a x y z", "3", "y", "app -a x"},
	} {
		if zsh == nil || zsh.Signature.Params().Len() != 0 {
			break
		}
		args := q(s.args)
		if args != "" {
			args = ", " + args
		}
		add("request", s.typed+" at "+s.word, fmt.Sprintf(`return requests(%q, %q, %q%s)`, s.typed, s.word, s.inc, args))
	}
	const shelled = `theApp = &cli.App{Name: "app"}; env = map[string]string{"_JOE_APP_COMPLETE": %q}; var out, errs sink; sh := &shell{args: []string{"cmd", "one"}, inc: "--al"}; cmd := tools(); init := liveContextOf(cmd, cli.InitialTiming, nil); `
	const integrated = shelled + `init.Do(cli.ShellCompleteIntegration("mine", sh)); init.Do(cli.ApplyShellCompletion()); c := at(cmd); c.Stdout, c.Stderr = &out, &errs; err := perform("triggerRobustParsingAndCompletion", c); `
	add("request", "answered", fmt.Sprintf(integrated, "mine")+`code, ok := err.(cli.ExitCoder); return ok && code.ExitCode() == 0 && sh.asked == 1 && out.text == "answer" && errs.text == "" && offers(sh.written, item{Value: "--all=", HelpText: "everything", PreventSpaceAfter: true})`)
	add("request", "not asked", fmt.Sprintf(integrated, "")+`return err == nil && sh.asked == 0 && out.text == "" && errs.text == "" && len(sh.written) == 0`)
	add("request", "another shell", fmt.Sprintf(integrated, "other")+`return err == nil && sh.asked == 0 && out.text == "" && errs.text == "" && len(sh.written) == 0`)

	// what the shell reads
	if zsh != nil && zsh.Signature.Params().Len() == 0 {
		for _, s := range []struct{ item, want string }{
			{`{Value: "v"}`, "plain\nv\n_\n"},
			{`{Value: "v", HelpText: "h t"}`, "plain\nv\nh t\n"},
			{`{Value: "v", HelpText: "h\nt\n\nu"}`, "plain\nv\nh t  u\n"},
			{`{Value: "v", Type: cli.CompletionTypeFile}`, "file\nv\n_\n"},
			{`{Value: "", Type: cli.CompletionTypeDirectory, HelpText: "h"}`, "dir\n\nh\n"},
			{`{Value: "v=", PreventSpaceAfter: true}`, "plain\nv=\n_\n"},
		} {
			add("format", s.item, fmt.Sprintf(`out := shellOf("newZshComplete").FormatCompletions([]item{%s}); return strings.HasPrefix(out, %q) && strings.Count(out, "\n") == 4`, s.item, s.want))
			add("format", "several: "+s.item, fmt.Sprintf(`one := shellOf("newZshComplete").FormatCompletions([]item{%[1]s}); first := shellOf("newZshComplete").FormatCompletions([]item{{Value: "first", HelpText: "f"}}); return shellOf("newZshComplete").FormatCompletions([]item{{Value: "first", HelpText: "f"}, %[1]s, {Value: "first", HelpText: "f"}}) == first+one+first`, s.item))
		}
	}

	dw, err := c.W.Driven(completeDriver + bufferModels + sortModels + lawSource(ls))
	if err != nil {
		c.Bad("flags", "completions", "-", "commands cannot be asked for completions as documented: %v", err)
		return
	}
	dw.modelled(bufferNames)
	dw.modelled(sortNames)
	dw.modelled(map[string]string{"internal/synopsis.ParseUsage": "mParseUsage", "cli.(Context).List": "mList", "cli.(Context).App": "mApp", "os.Getenv": "mEnv", "cli.Split": "mSplit", "github.com/kballard/go-shellquote.Split": "mSplit", "strconv.Atoi": "mAtoi", "fmt.Fprint": "mFprint", "fmt.Fprintln": "mFprintln", "io.WriteString": "mWriteTo", "regexp.(Regexp).ReplaceAllString": "mStrip"})
	c.lawful(dw, ls, "completion.go", AOpts{Depth: 40, MaxSteps: 2000000})
}
