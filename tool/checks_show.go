package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"
)

func init() {
	register(&Check{
		ID: "C15",
		Explanation: "Abstract interpretation of what help screens, synopses and lists are made of: a driver in Go is type-checked together with the package, and every path of each law must end in true. " +
			"The laws cover each kind of flag and arg, alone and after each other kind, and which of them are hidden.",
		Rules: []RuleDoc{
			{"synopsis", "The synopsis of a command has each visible flag and arg once, in its documented form, and no hidden one", 300},
			{"names", "The synopsis of a flag has its first short and its first long name, and what stands for its value", 45},
			{"visible", "The visible flags, args and sub-commands are those that are not hidden, in order", 24},
			{"help", "A help screen is about the command that was asked for, and lists what is visible there", 12},
		},
		Run: ruleShow,
	})
}

const showDriver = `package driver

import (
	"bytes"
	"io"
	"net"
	"net/url"
	"regexp"
	"strings"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/internal/synopsis"
)

// known to the interpreter
func liveContextOf(target any, t cli.Timing, parent *cli.Context) *cli.Context { panic("a context") }

func perform(name string, c *cli.Context) error { panic("an internal step") }

type failed struct{}

func (failed) Error() string { return "" }

// screen: a writer without colors
type screen struct{ b *bytes.Buffer }

func (s *screen) Write(p []byte) (int, error)       { return len(p), nil }
func (s *screen) WriteString(t string) (int, error) { return s.b.WriteString(t) }
func (*screen) ClearStyle(cli.Style)                {}
func (*screen) Reset()                              {}
func (*screen) SetColorCapable(bool)                {}
func (*screen) ResetColorCapable()                  {}
func (*screen) ColorCapable() bool                  { return false }
func (*screen) SetBackground(cli.Color)             {}
func (*screen) SetForeground(cli.Color)             {}
func (*screen) SetStyle(cli.Style)                  {}
func (s *screen) text(a []any) (int, error) {
	for _, x := range a {
		s.b.WriteString(x.(string))
	}
	return 0, nil
}
func (s *screen) Underline(a ...any) (int, error)           { return s.text(a) }
func (s *screen) Bold(a ...any) (int, error)                { return s.text(a) }
func (s *screen) Styled(_ cli.Style, a ...any) (int, error) { return s.text(a) }

func mNewWriter(w io.Writer) cli.Writer            { return &screen{w.(*bytes.Buffer)} }
func mParseUsage(string) *synopsis.Usage           { return &synopsis.Usage{} }

// known to the interpreter: the text along a path of named parts of what a template is given
func shown(x any, path string) ([]string, bool) { panic("a value") }

// the help screen: what its template is given
var (
	screenOf cli.Action
	data     any
	helpErr  error
	given    []string
	typed    []string
)

func mAt(t cli.Timing, a cli.Action) cli.Action {
	if t == cli.ActionTiming {
		screenOf = a
	}
	return cli.ActionFunc(func(*cli.Context) error { return nil })
}
func mTemplate(*cli.Context, string) *cli.Template { return &cli.Template{} }
func mExecute(_ *cli.Template, _ io.Writer, d any) error {
	data = d
	return nil
}
func mRaw(*cli.Context, any) []string { return append([]string{}, typed...) }
func mValue(c *cli.Context, k any) any {
	if _, ok := k.(string); ok {
		return given
	}
	return c
}
func mLookupEnv(string) (string, bool) { return "1", true }
func mApp(*cli.Context) *cli.App { return &cli.App{} }

func help(c *cli.Context, path ...string) bool {
	data, screenOf = nil, nil
	cli.DisplayHelpScreen(path...)
	helpErr = screenOf.Execute(c)
	return data != nil
}

// has: the part of the data is these texts
func has(path string, want ...string) bool {
	got, ok := shown(data, path)
	if !ok {
		return true
	}
	if len(got) != len(want) {
		return false
	}
	for i, x := range got {
		if x != want[i] {
			return false
		}
	}
	return true
}
func named[T any](of func(T) string, xs []T, want ...string) bool {
	if len(xs) != len(want) {
		return false
	}
	for i, x := range xs {
		if of(x) != want[i] {
			return false
		}
	}
	return true
}
func flagName(f *cli.Flag) string   { return f.Name }
func argName(a *cli.Arg) string     { return a.Name }
func cmdName(c *cli.Command) string { return c.Name }
func hideFlag(f *cli.Flag) *cli.Flag {
	f.SetHidden(true)
	return f
}
func hideCmd(c *cli.Command) *cli.Command {
	c.SetHidden(true)
	return c
}

func tree() *cli.Command {
	return &cli.Command{
		Name:  "app",
		Flags: []*cli.Flag{{Name: "all", Value: new(bool)}, hideFlag(&cli.Flag{Name: "secret", Value: new(bool)}), {Name: "base", Value: new(string)}},
		Args:  []*cli.Arg{hide(&cli.Arg{Name: "covert"}), {Name: "rest"}},
		Subcommands: []*cli.Command{
			{Name: "show", Category: "Reading"},
			hideCmd(&cli.Command{Name: "debug", Category: "Reading", Subcommands: []*cli.Command{{Name: "memory"}}}),
			{Name: "remote", Category: "Editing", Flags: []*cli.Flag{{Name: "url", Category: "Net", Value: new(string)}, hideFlag(&cli.Flag{Name: "trace", Value: new(bool)}), {Name: "quiet", Category: "Common", Value: new(bool)}},
				Args: []*cli.Arg{{Name: "first", NArg: 1}, {Name: "more"}},
				Subcommands: []*cli.Command{{Name: "rm"}, hideCmd(&cli.Command{Name: "gc"}), {Name: "add", Flags: []*cli.Flag{{Name: "force", Value: new(bool)}}}}},
			{Name: "find", Category: "Reading"},
			{Name: "plain"},
		},
	}
}
func isApp() bool {
	return has("SelectedCommand.Name", "app") && has("SelectedCommand.Lineage", "") && has("SelectedCommand.VisibleFlags.Name", "all", "base") && has("SelectedCommand.VisibleArgs.Name", "rest") &&
		has("SelectedCommand.VisibleCommands.Name", "show", "remote", "find", "plain") && has("SelectedCommand.CommandsByCategory.Category", "", "Editing", "Reading") &&
		has("SelectedCommand.CommandsByCategory.VisibleCommands.Name", "plain", "remote", "show", "find") && has("SelectedCommand.FlagsByCategory.Category") &&
		has("SelectedCommand.Persistent.VisibleFlags.Name")
}
func isRemote() bool {
	return has("SelectedCommand.Name", "remote") && has("SelectedCommand.Lineage", "app") && has("SelectedCommand.VisibleFlags.Name", "url", "quiet") && has("SelectedCommand.VisibleArgs.Name", "first", "more") &&
		has("SelectedCommand.VisibleCommands.Name", "rm", "add") && has("SelectedCommand.CommandsByCategory.VisibleCommands.Name", "rm", "add") &&
		has("SelectedCommand.FlagsByCategory.VisibleFlags.Name", "quiet", "url") && has("SelectedCommand.Persistent.VisibleFlags.Name", "all", "base")
}
func isAdd() bool {
	return has("SelectedCommand.Name", "add") && has("SelectedCommand.Lineage", "app remote") && has("SelectedCommand.VisibleFlags.Name", "force") && has("SelectedCommand.VisibleArgs.Name") &&
		has("SelectedCommand.VisibleCommands.Name") && has("SelectedCommand.CommandsByCategory.VisibleCommands.Name") && has("SelectedCommand.Persistent.VisibleFlags.Name", "all", "base", "url", "quiet")
}
func isMemory() bool {
	return has("SelectedCommand.Name", "memory") && has("SelectedCommand.Lineage", "app debug")
}

func mSortFlags(x any, less func(i, j int) bool) {
	if k, ok := x.([]*synopsis.Flag); ok {
		for i := 1; i < len(k); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				k[j], k[j-1] = k[j-1], k[j]
			}
		}
		return
	}
	mSortSlice(x, less)
}

var _ = strings.Join
var (
	_ net.IP
	_ url.URL
	_ regexp.Regexp
	_ time.Duration
)
`

// showFlag is a kind of flag: how it is made, and its form and group in the synopsis.
type showFlag struct {
	key, decl, form string
	group           int
	short           string
}

func ruleShow(c *Ctx) {
	var ls []law
	add := func(rule, key, body string) {
		ls = append(ls, law{rule, key, "resetBuffers(); " + body})
	}
	synopsis := func(key, decl, want string) {
		add("synopsis", key, decl+fmt.Sprintf("return c.Synopsis() == %q", want))
	}
	// in the order of the groups
	kinds := []showFlag{
		{"exits", `f := &cli.Flag{Name: "N", Value: new(bool)}; cli.Exits.Execute(liveContextOf(f, cli.InitialTiming, nil)); return f`, "--N", 0, ""},
		{"required switch", `f := &cli.Flag{Name: "S", Value: new(bool)}; f.SetRequired(true); return f`, "S", 1, "S"},
		{"switch", `return &cli.Flag{Name: "S", Value: new(bool)}`, "S", 2, "S"},
		{"long switch", `return &cli.Flag{Name: "N", Value: new(bool)}`, "[--N]", 3, ""},
		{"long with value", `return &cli.Flag{Name: "N", Value: new(string)}`, "[--N=STRING]", 3, ""},
		{"short with value", `return &cli.Flag{Name: "S", UsageText: "TEXT", Value: new(string)}`, "[-S TEXT]", 3, ""},
		{"long of a short switch", `return &cli.Flag{Name: "N", Aliases: []string{"S"}, Value: new(bool)}`, "[--N]", 3, ""},
		{"required long", `f := &cli.Flag{Name: "N", Value: new(int)}; f.SetRequired(true); return f`, "--N=NUMBER", 4, ""},
		{"required long switch", `f := &cli.Flag{Name: "N", Value: new(bool)}; f.SetRequired(true); return f`, "--N", 4, ""},
		{"required long of a short switch", `f := &cli.Flag{Name: "N", Aliases: []string{"S"}, Value: new(bool)}; f.SetRequired(true); return f`, "--N", 4, ""},
		{"required short of a long with value", `f := &cli.Flag{Name: "S", Aliases: []string{"N"}, Value: new(string)}; f.SetRequired(true); return f`, "--N=STRING", 4, ""},
		{"short of a long switch", `return &cli.Flag{Name: "S", Aliases: []string{"N", "ON"}, Value: new(bool)}`, "S", 2, "S"},
		{"required short with value", `f := &cli.Flag{Name: "S", Value: new([]string)}; f.SetRequired(true); return f`, "-S VALUES", 4, ""},
		{"hidden switch", `f := &cli.Flag{Name: "S", Value: new(bool)}; f.SetHidden(true); return f`, "", -1, ""},
		{"hidden required", `f := &cli.Flag{Name: "N", Value: new(string)}; f.SetRequired(true); f.SetHidden(true); return f`, "", -1, ""},
		{"hidden exits", `f := &cli.Flag{Name: "N", Value: new(bool)}; cli.Exits.Execute(liveContextOf(f, cli.InitialTiming, nil)); f.SetHidden(true); return f`, "", -1, ""},
		{"hidden and shown again", `f := &cli.Flag{Name: "N", Value: new(bool)}; f.SetHidden(true); f.SetHidden(false); return f`, "[--N]", 3, ""},
	}
	var src strings.Builder
	for i, k := range kinds {
		fmt.Fprintf(&src, "func kind%d(n, s string) *cli.Flag { %s }\n", i, strings.NewReplacer(`"N"`, "n", `"S"`, "s").Replace(k.decl))
	}
	type flagUse struct {
		k    showFlag
		n, s string
	}
	form := func(us []flagUse) string {
		groups := make([][]flagUse, 5)
		for _, u := range us {
			if u.k.group >= 0 {
				groups[u.k.group] = append(groups[u.k.group], u)
			}
		}
		out := "cmd"
		for g, us := range groups {
			if len(us) == 0 {
				continue
			}
			var fs []string
			if g == 1 || g == 2 {
				sort.SliceStable(us, func(i, j int) bool { return us[i].s < us[j].s })
			}
			for _, u := range us {
				fs = append(fs, strings.NewReplacer("N", u.n, "S", u.s).Replace(strings.NewReplacer("STRING", "\x01", "NUMBER", "\x02", "VALUES", "\x03").Replace(u.k.form)))
			}
			switch g {
			case 0:
				out += " {" + strings.Join(fs, " | ") + "}"
			case 1:
				out += " -" + strings.Join(fs, "")
			case 2:
				out += " [-" + strings.Join(fs, "") + "]"
			default:
				out += " " + strings.Join(fs, " ")
			}
		}
		return strings.NewReplacer("\x01", "STRING", "\x02", "NUMBER", "\x03", "VALUES").Replace(out)
	}
	for i, k := range kinds {
		synopsis(k.key, fmt.Sprintf(`c := &cli.Command{Name: "cmd", Flags: []*cli.Flag{kind%d("long", "s")}}; `, i), form([]flagUse{{k, "long", "s"}}))
		for j, l := range kinds {
			synopsis(k.key+", "+l.key, fmt.Sprintf(`c := &cli.Command{Name: "cmd", Flags: []*cli.Flag{kind%d("long", "s"), kind%d("also", "a")}}; `, i, j), form([]flagUse{{k, "long", "s"}, {l, "also", "a"}}))
		}
	}

	// args
	type showArg struct {
		key, decl, form string
		optional        bool
	}
	args := []showArg{
		{"one", `&cli.Arg{Name: "N", NArg: 1}`, "<N>", false},
		{"two", `&cli.Arg{Name: "N", NArg: 2}`, "<N>...", false},
		{"many", `&cli.Arg{Name: "N", NArg: cli.TakeUntilNextFlag}`, "<N>...", false},
		{"optional", `&cli.Arg{Name: "N"}`, "<N>", true},
		{"optional as asked", `&cli.Arg{Name: "N", NArg: cli.TakeUnlessFlag, UsageText: "TEXT"}`, "TEXT", true},
		{"hidden", `hide(&cli.Arg{Name: "N", NArg: 1})`, "", false},
		{"hidden optional", `hide(&cli.Arg{Name: "N"})`, "", true},
	}
	src.WriteString("func hide(a *cli.Arg) *cli.Arg { a.SetHidden(true); return a }\n")
	argsForm := func(rtl bool, as []showArg, ns []string) string {
		var req, opt []string
		for i, a := range as {
			if a.form == "" {
				continue
			}
			t := strings.ReplaceAll(a.form, "N", ns[i])
			if a.optional || rtl && len(opt) > 0 {
				opt = append(opt, t)
			} else {
				req = append(req, t)
			}
		}
		out := "cmd"
		for _, r := range req {
			out += " " + r
		}
		if rtl && len(opt) > 0 {
			return out + " " + strings.Repeat("[", len(opt)) + strings.Join(opt, "] ") + "]"
		}
		for _, o := range opt {
			out += " [" + o + "]"
		}
		return out
	}
	declOf := func(a showArg, n string) string { return strings.ReplaceAll(a.decl, `"N"`, `"`+n+`"`) }
	for _, rtl := range []bool{false, true} {
		on, by := "", ""
		if rtl {
			on, by = "cli.RightToLeft.Execute(liveContextOf(c, cli.InitialTiming, nil)); ", " from the right"
		}
		for _, a := range args {
			synopsis(a.key+by, fmt.Sprintf(`c := &cli.Command{Name: "cmd", Args: []*cli.Arg{%s}}; %s`, declOf(a, "a"), on), argsForm(rtl, []showArg{a}, []string{"a"}))
			for _, b := range args {
				synopsis(a.key+", "+b.key+by, fmt.Sprintf(`c := &cli.Command{Name: "cmd", Args: []*cli.Arg{%s, %s}}; %s`, declOf(a, "a"), declOf(b, "b"), on), argsForm(rtl, []showArg{a, b}, []string{"a", "b"}))
			}
		}
		for _, k := range [][]int{{0, 3, 3}, {3, 3, 3}, {0, 0, 0}, {0, 5, 3}, {3, 6, 3}, {0, 1, 4}} {
			three := []showArg{args[k[0]], args[k[1]], args[k[2]]}
			synopsis(fmt.Sprintf("%s, %s, %s%s", three[0].key, three[1].key, three[2].key, by), fmt.Sprintf(`c := &cli.Command{Name: "cmd", Args: []*cli.Arg{%s, %s, %s}}; %s`, declOf(three[0], "a"), declOf(three[1], "b"), declOf(three[2], "d"), on), argsForm(rtl, three, []string{"a", "b", "d"}))
		}
	}

	synopsis("flags and args", `c := &cli.Command{Name: "cmd", Flags: []*cli.Flag{kind4("file", "g"), kind7("need", "n"), kind2("b", "s"), kind0("version", "V"), kind13("h", "h"), kind1("r", "r"), kind2("b", "a")}, Args: []*cli.Arg{{Name: "a", NArg: 1}, hide(&cli.Arg{Name: "x"}), {Name: "z"}}, Subcommands: []*cli.Command{{Name: "sub"}}}; `,
		"cmd {--version} -r [-as] [--file=STRING] --need=NUMBER <a> [<z>]")

	synopsis("hidden afterwards", `f := &cli.Flag{Name: "long", Value: new(bool)}; c := &cli.Command{Name: "cmd", Flags: []*cli.Flag{f, {Name: "o", Value: new(bool)}}}; if f.Synopsis() != "--long" || c.Synopsis() != "cmd [-o] [--long]" { return false }; f.SetHidden(true); `, "cmd [-o]")
	synopsis("shown afterwards", `f := &cli.Flag{Name: "long", Value: new(bool)}; c := &cli.Command{Name: "cmd", Flags: []*cli.Flag{f, {Name: "o", Value: new(bool)}}}; f.SetHidden(true); if f.Synopsis() != "--long" || c.Synopsis() != "cmd [-o]" { return false }; f.SetHidden(false); `, "cmd [-o] [--long]")
	synopsis("required afterwards", `f := &cli.Flag{Name: "long", Value: new(bool)}; c := &cli.Command{Name: "cmd", Flags: []*cli.Flag{f}}; if c.Synopsis() != "cmd [--long]" { return false }; f.SetRequired(true); `, "cmd --long")

	// names and placeholders
	for _, n := range [][]string{
		{`Name: "long", Value: new(bool)`, "--long"},
		{`Name: "s", Value: new(bool)`, "-s"},
		{`Name: "long", Aliases: []string{"s"}, Value: new(bool)`, "-s, --long"},
		{`Name: "s", Aliases: []string{"long"}, Value: new(bool)`, "-s, --long"},
		{`Name: "long", Aliases: []string{"other", "s", "t", "more"}, Value: new(bool)`, "-s, --long"},
		{`Name: "s", Aliases: []string{"t", "other", "more"}, Value: new(bool)`, "-s, --other"},
		{`Name: "long", Aliases: []string{"other"}, Value: new(bool)`, "--long"},
		{`Name: "s", Aliases: []string{"t"}, Value: new(bool)`, "-s"},
		{`Name: "long", Value: new(string)`, "--long=STRING"},
		{`Name: "s", Value: new(string)`, "-s STRING"},
		{`Name: "s", Aliases: []string{"long"}, Value: new(string)`, "-s, --long=STRING"},
		{`Name: "long"`, "--long=STRING"},
		{`Name: "long", Value: new(int)`, "--long=NUMBER"},
		{`Name: "long", Value: new(uint8)`, "--long=NUMBER"},
		{`Name: "long", Value: new(float64)`, "--long=NUMBER"},
		{`Name: "long", Value: new([]string)`, "--long=VALUES"},
		{`Name: "long", Value: new(map[string]string)`, "--long=NAME=VALUE"},
		{`Name: "long", Value: new(time.Duration)`, "--long=DURATION"},
		{`Name: "long", Value: new(*url.URL)`, "--long=URL"},
		{`Name: "long", Value: new(net.IP)`, "--long=IP"},
		{`Name: "long", Value: new(*regexp.Regexp)`, "--long=PATTERN"},
		{`Name: "long", UsageText: "TEXT", Value: new(int)`, "--long=TEXT"},
		{`Name: "s", UsageText: "TEXT", Value: new([]string)`, "-s TEXT"},
	} {
		add("names", n[0], fmt.Sprintf("f := &cli.Flag{%s}; return f.Synopsis() == %q", n[0], n[1]))
		add("names", "among others: "+n[0], fmt.Sprintf(`c := &cli.Command{Name: "cmd", Flags: []*cli.Flag{{Name: "o", Value: new(bool)}, {%s}}}; return c.Flags[1].Synopsis() == %q && c.Flags[0].Synopsis() == "-o"`, n[0], n[1]))
	}
	for _, n := range [][]string{
		{`Name: "a"`, "<a>"}, {`Name: "a", NArg: 1`, "<a>"}, {`Name: "a", NArg: 2`, "<a>..."}, {`Name: "a", NArg: cli.TakeRemaining`, "<a>..."}, {`Name: "a", NArg: 1, UsageText: "TEXT"`, "TEXT"},
	} {
		add("names", "arg: "+n[0], fmt.Sprintf("a := &cli.Arg{%s}; return a.Synopsis() == %q", n[0], n[1]))
	}

	// what is visible
	for _, n := range []string{"", "0", "1", "2", "0,1", "0,2", "1,2", "0,1,2"} {
		var fs, as, cs, want []string
		for i, x := range []string{"a", "b", "c"} {
			f, a, s := fmt.Sprintf("&cli.Flag{Name: %q, Value: new(bool)}", x), fmt.Sprintf("&cli.Arg{Name: %q}", x), fmt.Sprintf("&cli.Command{Name: %q}", x)
			if strings.Contains(n, fmt.Sprint(i)) {
				f, a, s = "hideFlag("+f+")", "hide("+a+")", "hideCmd("+s+")"
			} else {
				want = append(want, fmt.Sprintf("%q", x))
			}
			fs, as, cs = append(fs, f), append(as, a), append(cs, s)
		}
		ws := strings.Join(want, ", ")
		add("visible", "flags but "+n, fmt.Sprintf(`c := &cli.Command{Flags: []*cli.Flag{%s}}; return named(flagName, c.VisibleFlags(), %s) && named(flagName, c.VisibleFlags(), %[2]s) && named(flagName, c.Flags, "a", "b", "c")`, strings.Join(fs, ", "), ws))
		add("visible", "args but "+n, fmt.Sprintf(`c := &cli.Command{Args: []*cli.Arg{%s}}; return named(argName, c.VisibleArgs(), %s) && named(argName, c.VisibleArgs(), %[2]s) && named(argName, c.Args, "a", "b", "c")`, strings.Join(as, ", "), ws))
		add("visible", "sub-commands but "+n, fmt.Sprintf(`c := &cli.Command{Subcommands: []*cli.Command{%s}}; return named(cmdName, c.VisibleSubcommands(), %s) && named(cmdName, c.VisibleSubcommands(), %[2]s) && named(cmdName, c.Subcommands, "a", "b", "c")`, strings.Join(cs, ", "), ws))
	}

	// hidden by name
	if c.W.Func("cli.applyImplicitVisibility") != nil {
		for _, k := range [][3]string{
			{"flag", `&cli.Flag{Name: %q, Value: new(bool)}`, "p.VisibleFlags()"}, {"arg", `&cli.Arg{Name: %q}`, "p.VisibleArgs()"}, {"command", `&cli.Command{Name: %q}`, "p.VisibleSubcommands()"},
		} {
			list := map[string]string{"flag": "Flags", "arg": "Args", "command": "Subcommands"}[k[0]]
			typ := map[string]string{"flag": "Flag", "arg": "Arg", "command": "Command"}[k[0]]
			for _, n := range []struct {
				name, before string
				n            int
			}{
				{"_x", "", 0}, {"x_", "", 1}, {"x", "", 1}, {"_", "", 0}, {"__xy", "", 0}, {"a_b", "", 1},
				{"_x", "cli.Visible.Execute(tc); ", 1}, {"_x", "cli.DisableAutoVisibility.Execute(tc); ", 1}, {"_x", "cli.DisableAutoVisibility.Execute(pc); ", 1}, {"_x", "cli.DisableAutoVisibility.Execute(rc); ", 1},
				{"_x", "cli.DisableAutoVisibility.Execute(oc); ", 0}, {"_x", "cli.Visible.Execute(pc); ", 0}, {"_x", "cli.Hidden.Execute(tc); ", 0}, {"x", "cli.Hidden.Execute(tc); ", 0}, {"x", "cli.Hidden.Execute(tc); cli.DisableAutoVisibility.Execute(rc); ", 0},
				{"x", "cli.Hidden.Execute(oc); ", 1}, {"x", "cli.Hidden.Execute(pc); ", 1}, {"x", "cli.Hidden.Execute(tc); cli.Visible.Execute(tc); ", 1}, {"_x", "cli.Hidden.Execute(tc); cli.Visible.Execute(tc); ", 1},
			} {
				add("visible", fmt.Sprintf("%s named %s %s", k[0], n.name, strings.NewReplacer(".Execute", "", "cli.", "", "; ", ",", "tc", "itself", "pc", "its command", "rc", "the app", "oc", "another").Replace(n.before)),
					fmt.Sprintf(`p := &cli.Command{Name: "sub", %[1]s: []*cli.%[2]s{%[3]s}}; rc := liveContextOf(&cli.Command{Name: "app"}, cli.InitialTiming, nil); pc := liveContextOf(p, cli.InitialTiming, rc); tc := liveContextOf(p.%[1]s[0], cli.InitialTiming, pc); oc := liveContextOf(&cli.Flag{Name: "o", Value: new(bool)}, cli.InitialTiming, pc); _, _ = rc, oc; %[4]serr := perform("applyImplicitVisibility", tc); return err == nil && len(%[5]s) == %[6]d`,
						list, typ, fmt.Sprintf(k[1], n.name), n.before, k[2], n.n))
			}
		}
	}

	// help screens
	ctx := `root := liveContextOf(tree(), cli.ActionTiming, nil); remote := liveContextOf(root.Command().Subcommands[2], cli.ActionTiming, root); add := liveContextOf(remote.Command().Subcommands[2], cli.ActionTiming, remote); flag := &cli.Flag{Name: "help", Value: new(bool)}; _, _, _ = remote, add, flag; `
	for _, h := range [][]string{
		{"flag of the app", `typed = []string{"app", "--help"}; return help(liveContextOf(flag, cli.ActionTiming, root)) && isApp()`},
		{"flag of a sub-command", `typed = []string{"remote", "--help"}; return help(liveContextOf(flag, cli.ActionTiming, remote)) && isRemote()`},
		{"flag of a sub-command of that", `typed = []string{"add", "--help"}; return help(liveContextOf(flag, cli.ActionTiming, add)) && isAdd()`},
		{"flag before the sub-command", `typed = []string{"app", "--help", "remote"}; return help(liveContextOf(flag, cli.ActionTiming, root)) && isRemote()`},
		{"flag before the sub-command of that", `typed = []string{"app", "remote", "--help", "add"}; return help(liveContextOf(flag, cli.ActionTiming, root)) && isAdd()`},
		{"flag before a hidden sub-command", `typed = []string{"app", "--help", "debug", "memory"}; return help(liveContextOf(flag, cli.ActionTiming, root)) && isMemory()`},
		{"flag after an arg", `typed = []string{"app", "arg", "--help"}; return help(liveContextOf(flag, cli.ActionTiming, root)) && isApp()`},
		{"flag after a value and before a sub-command", `typed = []string{"app", "--base", "value", "--help", "remote"}; return help(liveContextOf(flag, cli.ActionTiming, root)) && data != nil`},
		{"flag between args", `typed = []string{"app", "arg", "--help", "more"}; return help(liveContextOf(flag, cli.ActionTiming, root)) && isApp()`},
		{"flag of a sub-command after args", `typed = []string{"remote", "u", "w", "x", "--help"}; return help(liveContextOf(flag, cli.ActionTiming, remote)) && isRemote()`},
		{"flag of a sub-command before an arg", `typed = []string{"remote", "--help", "u"}; return help(liveContextOf(flag, cli.ActionTiming, remote)) && isRemote()`},
		{"flag between sub-commands", `typed = []string{"remote", "--help", "add"}; return help(liveContextOf(flag, cli.ActionTiming, remote)) && isAdd()`},
		{"flag between sub-commands with an arg", `typed = []string{"remote", "--help", "add", "u"}; return help(liveContextOf(flag, cli.ActionTiming, remote)) && isAdd()`},
		{"flag before a sub-command and an arg", `typed = []string{"app", "--help", "remote", "add", "u"}; return help(liveContextOf(flag, cli.ActionTiming, root)) && isAdd()`},
		{"flag of a hidden sub-command", `typed = []string{"memory", "-h"}; debug := liveContextOf(root.Command().Subcommands[1], cli.ActionTiming, root); return help(liveContextOf(flag, cli.ActionTiming, liveContextOf(debug.Command().Subcommands[0], cli.ActionTiming, debug))) && isMemory()`},
		{"command of the app", `given = nil; return help(liveContextOf(&cli.Command{Name: "help"}, cli.ActionTiming, root)) && isApp()`},
		{"command with a sub-command", `given = []string{"remote"}; return help(liveContextOf(&cli.Command{Name: "help"}, cli.ActionTiming, root)) && isRemote()`},
		{"command with a sub-command of that", `given = []string{"remote", "add"}; return help(liveContextOf(&cli.Command{Name: "help"}, cli.ActionTiming, root)) && isAdd()`},
		{"command with a hidden sub-command", `given = []string{"debug", "memory"}; return help(liveContextOf(&cli.Command{Name: "help"}, cli.ActionTiming, root)) && isMemory()`},
		{"command of a sub-command", `given = []string{"add"}; return help(liveContextOf(&cli.Command{Name: "help"}, cli.ActionTiming, remote)) && isAdd()`},
		{"command with what is not there", `given = []string{"remote", "nothing"}; return !help(liveContextOf(&cli.Command{Name: "help"}, cli.ActionTiming, root)) && helpErr != nil`},
		{"a given command", `typed = []string{"app", "--help"}; return help(liveContextOf(flag, cli.ActionTiming, root), "app", "remote") && isRemote()`},
		{"twice", `typed = []string{"remote", "--help"}; ok := help(liveContextOf(flag, cli.ActionTiming, remote)) && isRemote(); typed = []string{"app", "--help"}; return ok && help(liveContextOf(flag, cli.ActionTiming, root)) && isApp() && help(liveContextOf(flag, cli.ActionTiming, root)) && isApp()`},
	} {
		add("help", h[0], ctx+h[1])
	}

	run := func(ls []law, names map[string]string) {
		dw, err := c.W.Driven(showDriver + src.String() + bufferModels + sortModels + lawSource(ls))
		if err != nil {
			c.Bad("synopsis", "synopses", "-", "commands cannot be used as documented: %v", err)
			return
		}
		dw.modelled(bufferNames)
		dw.modelled(sortNames)
		dw.modelled(names)
		c.lawful(dw, ls, "command.go", AOpts{Depth: 40, MaxSteps: 2000000})
	}
	isHelp := func(l law) bool { return l.rule == "help" }
	run(slices.DeleteFunc(slices.Clone(ls), isHelp), map[string]string{
		"cli.NewWriter": "mNewWriter", "internal/synopsis.ParseUsage": "mParseUsage", "sort.Slice": "mSortFlags", "sort.SliceStable": "mSortFlags", "sort.Sort": "mSortAll", "sort.Stable": "mSortAll",
	})
	run(slices.DeleteFunc(slices.Clone(ls), func(l law) bool { return !isHelp(l) }), map[string]string{
		"cli.NewWriter": "mNewWriter", "internal/synopsis.ParseUsage": "mParseUsage", "sort.Slice": "mSortFlags", "sort.SliceStable": "mSortFlags", "sort.Sort": "mSortAll", "sort.Stable": "mSortAll",
		"cli.At": "mAt", "cli.(Context).Template": "mTemplate", "cli.(Template).Execute": "mExecute", "cli.(Context).Raw": "mRaw", "cli.(Context).Value": "mValue", "cli.(Context).App": "mApp", "os.LookupEnv": "mLookupEnv",
	})
}
