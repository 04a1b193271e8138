package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C21",
		Explanation: "Writers, buffers, template functions and actions are interpreted on unknown text and settings, with a model of the terminal writer that writes each control code as a mark. The text that comes out is compared with what it has to be, for every setting.",
		Rules: []RuleDoc{
			{"writer", "control codes are written exactly if color is on; each styled text is followed by a reset", 10},
			{"detect", "color is on by default exactly for terminals that are not dumb, unless NO_COLOR is set", 6},
			{"switch", "switching color on or off has effect on both output and error output, whenever it is done", 5},
			{"template", "each style and color has a template function that applies exactly it, and ends it after the text", 30},
			{"mode", "a color mode has the effect and the text it is documented to have", 10},
			{"codes", "no text of the library contains a control code: what styles text is a writer", 5},
		},
		Run: ruleColor})
}

const colorDriver = `package driver

import (
	"bytes"
	"context"
	"io"
	"os"

	cli "github.com/Carbonfrost/joe-cli"
	"github.com/Carbonfrost/joe-cli/extensions/color"
	"github.com/juju/ansiterm"
)

// the state of terminal writers, and the contents of buffers
var on map[*ansiterm.Writer]bool
var bufs map[*bytes.Buffer]string
var funcs map[string]any

func reset() {
	on = map[*ansiterm.Writer]bool{}
	bufs = map[*bytes.Buffer]string{}
	funcs = map[string]any{}
}

func mNew(w io.Writer) *ansiterm.Writer { return &ansiterm.Writer{Writer: w} }
func mCapable(w *ansiterm.Writer, v bool) { on[w] = v }
func mSGR(w *ansiterm.Writer, s string) {
	if on[w] {
		w.Write([]byte(s))
	}
}
func mStyle(w *ansiterm.Writer, s ansiterm.Style)  { mSGR(w, "<s"+num(int(s))+">") }
func mClear(w *ansiterm.Writer, s ansiterm.Style)  { mSGR(w, "<c"+num(int(s))+">") }
func mFore(w *ansiterm.Writer, s ansiterm.Color)   { mSGR(w, "<f"+num(int(s))+">") }
func mBack(w *ansiterm.Writer, s ansiterm.Color)   { mSGR(w, "<b"+num(int(s))+">") }
func mReset(w *ansiterm.Writer)                    { mSGR(w, "<0>") }

func num(i int) string {
	s := ""
	for i > 0 {
		s = string("0123456789"[i%10]) + s
		i /= 10
	}
	return s
}

func mSprint(a ...any) string {
	s := ""
	for _, x := range a {
		switch t := x.(type) {
		case string:
			s += t
		}
	}
	return s
}
func mFprint(w io.Writer, a ...any) (int, error) { return w.Write([]byte(mSprint(a...))) }
func mWriteString(w io.Writer, s string) (int, error) { return w.Write([]byte(s)) }

func mBufWrite(b *bytes.Buffer, s []byte) (int, error)       { bufs[b] += string(s); return len(s), nil }
func mBufWriteString(b *bytes.Buffer, s string) (int, error) { bufs[b] += s; return len(s), nil }
func mBufString(b *bytes.Buffer) string                      { return bufs[b] }

func mRegister(c *cli.Context, name string, fn any) error { funcs[name] = fn; return nil }

// a writer of someone else
type rec struct {
	text    string
	capable bool
	resets  int
}

func (r *rec) Write(b []byte) (int, error)            { r.text += string(b); return len(b), nil }
func (r *rec) WriteString(b string) (int, error)      { r.text += b; return len(b), nil }
func (r *rec) ClearStyle(cli.Style)                   {}
func (r *rec) Reset()                                 {}
func (r *rec) SetColorCapable(v bool)                 { r.capable = v }
func (r *rec) ResetColorCapable()                     { r.resets++ }
func (r *rec) ColorCapable() bool                     { return r.capable }
func (r *rec) SetBackground(cli.Color)                {}
func (r *rec) SetForeground(cli.Color)                {}
func (r *rec) SetStyle(cli.Style)                     {}
func (r *rec) Underline(...any) (int, error)          { return 0, nil }
func (r *rec) Bold(...any) (int, error)               { return 0, nil }
func (r *rec) Styled(cli.Style, ...any) (int, error)  { return 0, nil }

// one that is not a terminal
type plain struct{ text string }

func (r *plain) Write(b []byte) (int, error) { r.text += string(b); return len(b), nil }

func fresh(v bool) (*plain, cli.Writer) {
	reset()
	p := &plain{}
	w := cli.NewWriter(p)
	w.SetColorCapable(v)
	return p, w
}

func st(s cli.Style) string { return "<s" + num(int(s)) + ">" }
func fg(s cli.Color) string { return "<f" + num(int(s)) + ">" }
func bg(s cli.Color) string { return "<b" + num(int(s)) + ">" }

func either(v bool, a, b string) string {
	if v {
		return a
	}
	return b
}

func ctx(v bool) *cli.Context {
	reset()
	c := &cli.Context{Stdout: cli.NewWriter(&plain{}), Stderr: cli.NewWriter(&plain{})}
	c.Stdout.SetColorCapable(v)
	return c
}

func call(c *cli.Context, name string, a ...any) (string, error) {
	color.RegisterTemplateFuncs().Execute(c)
	return again(name, a...)
}

// again calls a function which was registered before
func again(name string, a ...any) (string, error) {
	switch f := funcs[name].(type) {
	case func(...any) (string, error):
		return f(a...)
	case func(...any) string:
		return f(a...), nil
	case func(any) (string, error):
		return f(a[0])
	case func(any) string:
		return f(a[0]), nil
	case func(string) (string, error):
		return f(a[0].(string))
	case func(string) string:
		return f(a[0].(string)), nil
	case func() (string, error):
		return f()
	case func() string:
		return f(), nil
	case func(string, ...any) (string, error):
		return f(a[0].(string), a[1:]...)
	case func(string, ...any) string:
		return f(a[0].(string), a[1:]...), nil
	case func(string, any) (string, error):
		return f(a[0].(string), a[1])
	case func(string, any) string:
		return f(a[0].(string), a[1]), nil
	}
	panic("a template function of another kind")
}

func call2(c *cli.Context, name string, a ...any) (string, error) { return call(c, name, a...) }

// the environment
var noColor, isTerm bool
var noColorText, termName string
var asked int

func env(no bool, text, name string, terminal bool) *os.File {
	noColor, noColorText, termName, isTerm = no, text, name, terminal
	return &os.File{}
}
func mLookupEnv(n string) (string, bool) {
	switch n {
	case "NO_COLOR":
		if noColor {
			return noColorText, true
		}
		return "", false
	case "TERM":
		return termName, true
	}
	return "", false
}
func mGetenv(n string) string  { s, _ := mLookupEnv(n); return s }
func mIsTerminal(fd int) bool  { return isTerm && fd == 7 }
func mFd(*os.File) uintptr     { return 7 }

// what is deferred
var later any
var laterAt cli.Timing

func mAct(c *cli.Context, v any, t cli.Timing, optional bool) error { later, laterAt = v, t; return nil }

var _ context.Context
`

func colorModels() map[string]string {
	p := "github.com/juju/ansiterm."
	return map[string]string{
		p + "NewWriter": "mNew", p + "(Writer).SetColorCapable": "mCapable", p + "(Writer).SetStyle": "mStyle", p + "(Writer).ClearStyle": "mClear",
		p + "(Writer).SetForeground": "mFore", p + "(Writer).SetBackground": "mBack", p + "(Writer).Reset": "mReset",
		"fmt.Fprint": "mFprint", "fmt.Sprint": "mSprint", "io.WriteString": "mWriteString",
		"bytes.(Buffer).Write": "mBufWrite", "bytes.(Buffer).WriteString": "mBufWriteString", "bytes.(Buffer).String": "mBufString",
		"cli.(Context).RegisterTemplateFunc": "mRegister", "cli.(Context).act": "mAct",
		"os.LookupEnv": "mLookupEnv", "os.Getenv": "mGetenv", "os.(File).Fd": "mFd", "golang.org/x/term.IsTerminal": "mIsTerminal",
	}
}

func ruleColor(c *Ctx) {
	var ls []law
	add := func(rule, key, body string) { ls = append(ls, law{rule, key, body}) }
	for _, s := range []string{"Bold", "Underline"} {
		add("writer", s+" writes in the style, then resets it", fmt.Sprintf(`p, o := fresh(yes); o.%s(v); return p.text == either(yes, st(cli.%s)+v+"<0>", v)`, s, s))
	}
	add("writer", "Styled writes in the style, then resets it", `p, o := fresh(yes); o.Styled(cli.Faint, v, x); return p.text == either(yes, st(cli.Faint)+v+x+"<0>", v+x)`)
	add("writer", "SetStyle", `p, o := fresh(yes); o.SetStyle(cli.Italic); return p.text == either(yes, st(cli.Italic), "")`)
	add("writer", "ClearStyle", `p, o := fresh(yes); o.ClearStyle(cli.Italic); return p.text == either(yes, "<c"+num(int(cli.Italic))+">", "")`)
	add("writer", "SetForeground", `p, o := fresh(yes); o.SetForeground(cli.Red); return p.text == either(yes, fg(cli.Red), "")`)
	add("writer", "SetBackground", `p, o := fresh(yes); o.SetBackground(cli.Red); return p.text == either(yes, bg(cli.Red), "")`)
	add("writer", "Reset", `p, o := fresh(yes); o.Reset(); return p.text == either(yes, "<0>", "")`)
	add("writer", "Write", `p, o := fresh(yes); n, err := o.Write([]byte(v)); return p.text == v && n == len(v) && err == nil`)
	add("writer", "WriteString", `p, o := fresh(yes); n, err := o.WriteString(v); return p.text == v && n == len(v) && err == nil`)
	add("writer", "ColorCapable says how it was set", `_, o := fresh(yes); if o.ColorCapable() != yes { return false }; o.SetColorCapable(yes2); return o.ColorCapable() == yes2`)
	add("writer", "the last setting counts", `p, o := fresh(yes); o.SetColorCapable(yes2); o.Bold(v); return p.text == either(yes2, st(cli.Bold)+v+"<0>", v)`)
	add("writer", "a writer to a writer with color has color", `reset(); r := &rec{capable: yes}; o := cli.NewWriter(r); o.Bold(v); return o.ColorCapable() == yes && r.text == either(yes, st(cli.Bold)+v+"<0>", v)`)
	add("writer", "a buffer has color when the output has", `b := ctx(yes).NewBuffer(); b.Bold(v); return b.ColorCapable() == yes && b.String() == either(yes, st(cli.Bold)+v+"<0>", v)`)
	add("writer", "a buffer has color when the output, of another kind, has", `reset(); c := &cli.Context{Stdout: &rec{capable: yes}}; b := c.NewBuffer(); b.Bold(v); return b.ColorCapable() == yes && b.String() == either(yes, st(cli.Bold)+v+"<0>", v)`)
	add("detect", "what is not a terminal has no color", `reset(); p := &plain{}; o := cli.NewWriter(p); o.Bold(v); return !o.ColorCapable() && p.text == v`)
	add("detect", "auto detection of what is not a terminal", `p, o := fresh(yes); o.ResetColorCapable(); o.Bold(v); return !o.ColorCapable() && p.text == v`)
	add("detect", "auto detection of a writer", `reset(); r := &rec{capable: yes}; o := cli.NewWriter(r); o.SetColorCapable(yes2); o.ResetColorCapable(); o.Bold(v); return o.ColorCapable() == yes && r.text == either(yes, st(cli.Bold)+v+"<0>", v)`)
	add("detect", "a terminal", `reset(); o := cli.NewWriter(env(yes, u, v, yes2)); return o.ColorCapable() == (!yes && v != "dumb" && yes2)`)
	add("detect", "a buffer of no context", `reset(); env(yes, u, v, yes2); b := cli.NewBuffer(); return b.ColorCapable() == (!yes && v != "dumb" && yes2)`)
	add("detect", "a dumb terminal", `reset(); o := cli.NewWriter(env(yes, u, "dumb", yes2)); return !o.ColorCapable()`)
	add("detect", "a terminal of no name", `reset(); o := cli.NewWriter(env(yes, u, "", yes2)); return o.ColorCapable() == (!yes && yes2)`)
	add("detect", "auto detection of a terminal", `reset(); o := cli.NewWriter(env(false, "", v, true)); o.SetColorCapable(yes2); env(yes, u, v, true); o.ResetColorCapable(); return o.ColorCapable() == (!yes && v != "dumb")`)
	both := `reset(); o, e0 := &rec{capable: yes2}, &rec{capable: yes2}; c := &cli.Context{Stdout: o, Stderr: e0}; `
	add("switch", "SetColor of the context", both+`c.SetColor(yes); return o.capable == yes && e0.capable == yes`)
	add("switch", "the action SetColor", both+`if err := cli.SetColor(yes).Execute(c); err != nil { return false }; return o.capable == yes && e0.capable == yes`)
	add("switch", "AutodetectColor of the context", both+`c.AutodetectColor(); return o.resets == 1 && e0.resets == 1`)
	add("switch", "the action AutodetectColor", both+`if err := cli.AutodetectColor().Execute(c); err != nil { return false }; return o.resets == 1 && e0.resets == 1`)

	if c.W.Func("cli.(Context).act") != nil {
		add("switch", "SetColor ahead of the output", `reset(); c := &cli.Context{}; if err := cli.SetColor(yes).Execute(c); err != nil || laterAt != cli.BeforeTiming { return false }; o, e0 := &rec{capable: yes2}, &rec{capable: yes2}; c.Stdout, c.Stderr = o, e0; err := later.(cli.Action).Execute(c); return err == nil && o.capable == yes && e0.capable == yes`)
	}

	scope := c.W.ByPath[modPath].Types.Scope()
	var styles, colors []string
	styleT, colorT := scope.Lookup("Style"), scope.Lookup("Color")
	if styleT == nil || colorT == nil {
		c.Missing("template", "Style and Color")
		return
	}
	for _, n := range scope.Names() {
		k, ok := scope.Lookup(n).(*types.Const)
		if !ok || !k.Exported() {
			continue
		}
		switch {
		case types.Identical(types.Unalias(k.Type()), types.Unalias(styleT.Type())):
			styles = append(styles, n)
		case types.Identical(types.Unalias(k.Type()), types.Unalias(colorT.Type())):
			colors = append(colors, n)
		}
	}
	sort.Strings(styles)
	for _, n := range append(append([]string{}, styles...), colors...) {
		if p := c.W.Prog.ImportedPackage("github.com/juju/ansiterm"); p != nil && p.Const(n) != nil {
			add("writer", "the constant "+n, fmt.Sprintf(`return cli.%s == ansiterm.%s`, n, n))
		}
	}
	for _, s := range styles {
		add("template", s, fmt.Sprintf(`s, err := call(ctx(yes), %q, v); return err == nil && s == either(yes, st(cli.%s)+v+"<0>", v)`, s, s))
		add("template", "Style "+s, fmt.Sprintf(`s, err := call2(ctx(yes), "Style", %q, v); return err == nil && s == either(yes, st(cli.%s)+v+"<0>", v)`, s, s))
	}
	for _, s := range colors {
		if s != "Default" {
			add("template", s, fmt.Sprintf(`s, err := call(ctx(yes), %q, v); return err == nil && s == either(yes, fg(cli.%s)+v+fg(cli.Default), v)`, s, s))
		}
		add("template", "Color "+s, fmt.Sprintf(`s, err := call2(ctx(yes), "Color", %q, v); return err == nil && s == either(yes, fg(cli.%s)+v+fg(cli.Default), v)`, s, s))
		add("template", "Background "+s, fmt.Sprintf(`s, err := call2(ctx(yes), "Background", %q, v); return err == nil && s == either(yes, bg(cli.%s)+v+bg(cli.Default), v)`, s, s))
	}
	for _, a := range styles {
		for _, b := range styles {
			if a == b {
				continue
			}
			add("template", "styles "+a+" and "+b, fmt.Sprintf(`s, err := call2(ctx(yes), "Style", "%[1]s %[2]s", v); return err == nil && s == either(yes, st(cli.%[1]s)+st(cli.%[2]s)+v+"<0>", v)`, a, b))
		}
	}
	add("template", "three styles", `s, err := call2(ctx(yes), "Style", "Underline Italic Bold", v); return err == nil && s == either(yes, st(cli.Underline)+st(cli.Italic)+st(cli.Bold)+v+"<0>", v)`)
	add("template", "a style that does not exist after one that does", `s, err := call2(ctx(yes), "Style", "Bold Unknown", v); return err != nil && s == ""`)
	add("template", "nothing is written for an empty text", `s, err := call(ctx(yes), "Bold", ""); return err == nil && s == ""`)
	add("template", "Reset", `s, err := call(ctx(yes), "Reset"); return err == nil && s == either(yes, "<0>", "")`)
	add("template", "ResetColor", `s, err := call(ctx(yes), "ResetColor"); return err == nil && s == either(yes, fg(cli.Default), "")`)
	add("template", "no text: the style is applied to what follows", `s, err := call(ctx(yes), "Bold"); return err == nil && s == either(yes, st(cli.Bold), "")`)
	for _, n := range []string{"Bold", "Red", "Underline"} {
		exp := map[string]string{"Bold": `st(cli.Bold)+v+"<0>"`, "Underline": `st(cli.Underline)+v+"<0>"`, "Red": `fg(cli.Red)+v+fg(cli.Default)`}[n]
		add("template", n+" after the setting changed", fmt.Sprintf(`c := ctx(yes); call(c, %q, v); c.Stdout.SetColorCapable(yes2); s, err := again(%q, v); return err == nil && s == either(yes2, %s, v)`, n, n, exp))
	}
	add("template", "Emoji after the setting changed", `c := ctx(yes); call(c, "Emoji", "Fire"); c.Stdout.SetColorCapable(yes2); s, err := again("Emoji", "Fire"); return err == nil && s == either(yes2, string(color.Fire), "")`)
	add("template", "Emoji that does not exist", `c := ctx(true); s, err := call(c, "Emoji", "Unknown"); return err != nil && s == ""`)
	for _, n := range []string{"Color", "Background", "Style"} {
		add("template", n+" that does not exist", fmt.Sprintf(`s, err := call2(ctx(yes), %q, "Unknown", v); return err != nil && s == ""`, n))
	}

	es := c.W.ByPath[modPath+"/extensions/color"]
	if es == nil {
		c.Missing("template", "the package color")
		return
	}
	for _, n := range es.Types.Scope().Names() {
		k, ok := es.Types.Scope().Lookup(n).(*types.Const)
		if !ok || !k.Exported() || !strings.HasSuffix(k.Type().String(), ".Emoji") {
			continue
		}
		add("template", "Emoji "+n, fmt.Sprintf(`s, err := call(ctx(yes), "Emoji", %q); return err == nil && s == either(yes, string(color.%s), "")`, n, n))
	}

	for mode, words := range map[string][]string{"Auto": {"auto"}, "Always": {"always", "true", "on", "", "ALWAYS"}, "Never": {"never", "false", "off"}} {
		for _, wd := range words {
			add("mode", "mode "+wd, fmt.Sprintf(`m := color.Mode(i); err := m.Set(%q); return err == nil && m == color.%s`, wd, mode))
		}
		add("mode", "text of "+mode, fmt.Sprintf(`return color.%s.String() == %q`, mode, strings.ToLower(mode)))
	}
	add("mode", "another text is an error", `m := color.Mode(i); err := m.Set("sometimes"); return err != nil && m == color.Mode(i)`)
	add("mode", "always", both+`if err := color.SetMode(color.Always).Execute(c); err != nil { return false }; return o.capable && e0.capable && o.resets+e0.resets == 0`)
	add("mode", "never", both+`if err := color.SetMode(color.Never).Execute(c); err != nil { return false }; return !o.capable && !e0.capable && o.resets+e0.resets == 0`)
	add("mode", "auto", both+`if err := color.SetMode(color.Auto).Execute(c); err != nil { return false }; return o.resets == 1 && e0.resets == 1`)

	w, err := c.W.Driven(colorDriver + lawSource(ls))
	if err != nil {
		c.Bad("writer", "color", "-", "color cannot be used as documented: %v", err)
		return
	}
	w.modelled(colorModels())
	c.lawful(w, ls, "usage.go", AOpts{Depth: 40, MaxSteps: 2000000})
	c.controlCodes()
}

// controlCodes: no text constant contains one, other than a pattern.
func (c *Ctx) controlCodes() {
	bad := map[string][]string{}
	pkgs := map[string]int{}
	c.W.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		p := pkgOf(f)
		if p == "" || p == "driver" {
			return
		}
		pkgs[p]++
		if cc, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(callName(c.W, cc.Common()), "regexp.") {
			return
		}
		var ops []*ssa.Value
		for _, o := range in.Operands(ops) {
			k, ok := (*o).(*ssa.Const)
			if ok && k.Value != nil && k.Value.Kind() == constant.String && strings.ContainsAny(constant.StringVal(k.Value), "\x1b\u009b") {
				bad[p] = append(bad[p], c.W.InstrPos(in)+" in "+FName(f))
			}
		}
	})
	var ps []string
	for p := range pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		sort.Strings(bad[p])
		where := p
		if len(bad[p]) > 0 {
			where = bad[p][0]
		}
		c.That(len(bad[p]) == 0, "codes", p, where, "a text contains a control code, which is written whether or not color is on (%d instructions)", pkgs[p])
	}
}
