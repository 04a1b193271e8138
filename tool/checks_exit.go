package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C24",
		Explanation: "Running an app is interpreted with no error, an error that has an exit code, and one that has none, with and without a custom exit handler; what the exit handler, the standard error stream and the process are given is read off. Exit is interpreted for every shape of arguments, and the error it makes is asked for its text and code. Parse errors are asked for their code, and every error code for its text.",
		Rules: []RuleDoc{
			{"end", "the program ends with the status of its error, or goes on when there is none", 2},
			{"default", "the default handler prints the message and ends the process with the status", 3},
			{"exit", "Exit makes an error with the given code and text", 10},
			{"code", "each error code has its own text", 8},
		},
		Run: ruleExit})
}

func isErrType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func ruleExit(c *Ctx) {
	w := c.W
	app, ct, coder := w.Type("cli", "App"), w.Type("cli", "Context"), w.Type("cli", "ExitCoder")
	if app == nil || ct == nil || coder == nil {
		c.Missing("end", "apps and exit codes")
		return
	}
	run := w.method(types.NewPointer(app), "Run")
	if run == nil {
		c.Missing("end", "App.Run")
		return
	}
	cpt := types.NewPointer(ct)
	errT := types.Universe.Lookup("error").Type()
	isRun := func(f *ssa.Function) bool {
		s := f.Signature.Results()
		return s.Len() >= 1 && isErrType(s.At(s.Len()-1).Type()) && f != run
	}
	obj := "g:cli.ExitHandler"
	interp := func(e AV, handler AV) ([]APath, bool) {
		return w.Interp(run, []AV{aSym{name: "app", t: types.NewPointer(app), nonNil: true}}, AOpts{
			Models: true,
			Setup: func(st *aState) {
				st.mem[obj] = &aRegion{cells: map[string]AV{"": handler}}
			},
			Inline: func(f *ssa.Function, st *aState, args []AV) bool {
				return !isRun(f) && CalleeName(f) != "cli.FromContext"
			},
			Result: func(ev *AEvent, st *aState) (AV, bool) {
				if ev.Fn == nil {
					return nil, false
				}
				if CalleeName(ev.Fn) == "cli.FromContext" {
					return aSym{name: "ctx", t: cpt, nonNil: true}, true
				}
				if isRun(ev.Fn) && w.InModule(ev.Fn) {
					r := ev.Fn.Signature.Results()
					if r.Len() == 1 {
						return e, true
					}
					var tp aTuple
					for i := 0; i < r.Len()-1; i++ {
						tp = append(tp, aSym{name: fmt.Sprintf("res%d", i), t: r.At(i).Type(), nonNil: true})
					}
					return append(tp, e), true
				}
				return nil, false
			},
		})
	}
	where := w.Pos(run.Pos())
	ht := types.Type(nil)
	if g, ok := w.SSA[modPath].Members["ExitHandler"].(*ssa.Global); ok {
		ht = deref(g.Type())
	}
	if ht == nil {
		c.Missing("end", "the exit handler")
		return
	}
	handler := aSym{name: "handler", t: ht, nonNil: true}
	// no error: nothing ends
	for _, h := range []AV{handler, zeroT(ht)} {
		rs, ok := interp(zeroT(errT), h)
		dbgPaths(run, rs, ok)
		bad := ""
		if !ok || len(rs) == 0 {
			bad = "it could not be interpreted"
		}
		for _, p := range rs {
			if p.Panicked {
				bad = "it panics: " + p.PanicVal.str()
			}
			for _, e := range p.Events {
				if strings.HasPrefix(e.Method, "dyn:handler") || e.Name() == "os.Exit" {
					bad = "without an error it ends the program"
				}
			}
		}
		c.That(bad == "", "end", fmt.Sprintf("no error, handler %s", h.str()), where, "%s", bad)
	}
	kinds := []struct {
		what string
		e    AV
	}{
		{"an error of any kind", aSym{name: "err", t: errT, nonNil: true}},
	}
	for _, k := range kinds {
		rs, ok := interp(k.e, handler)
		dbgPaths(run, rs, ok)
		bad := ""
		if !ok || len(rs) == 0 {
			bad = "it could not be interpreted"
		}
		coded, plain := 0, 0
		for _, p := range rs {
			if p.Panicked {
				bad = "it panics: " + p.PanicVal.str()
				continue
			}
			n := 0
			for _, e := range p.Events {
				if e.Name() == "os.Exit" {
					bad = "it ends the process itself although there is a handler"
				}
				if !strings.HasPrefix(e.Method, "dyn:handler") || len(e.Args) != 3 {
					continue
				}
				n++
				if !strings.Contains(p.St.norm(e.Args[0]).str(), "ctx") {
					bad = "the handler is not given the context"
				}
				if m := p.St.norm(e.Args[1]).str(); !strings.Contains(m, ".Error(err") {
					bad = "the message is " + m
				}
				s := p.St.norm(e.Args[2]).str()
				switch {
				case s == "1":
					plain++
					for _, o := range p.Events {
						if strings.HasSuffix(o.Method, ".ExitCode") {
							bad = "the exit code of the error is not used for some errors that have one"
						}
					}
				case ofErr(&p, s):
					coded++
				default:
					bad = "the status is " + s
				}
			}
			if n != 1 {
				bad = fmt.Sprintf("the handler is called %d times", n)
			}
		}
		if bad == "" && coded == 0 {
			bad = "the exit code of the error is not used"
		}
		if bad == "" && plain == 0 {
			bad = "an error without an exit code has no status"
		}
		c.That(bad == "", "end", k.what, where, "%s", bad)
		// and the default handler
		rs, ok = interp(k.e, zeroT(ht))
		dbgPaths(run, rs, ok)
		d := map[string]string{"process": "", "message": "", "silence": ""}
		if !ok || len(rs) == 0 {
			d["process"] = "it could not be interpreted"
		}
		printed := 0
		for _, p := range rs {
			if p.Panicked {
				d["process"] = "it panics: " + p.PanicVal.str()
				continue
			}
			exits, prints := 0, 0
			for _, e := range p.Events {
				switch {
				case e.Name() == "os.Exit":
					exits++
					if s := p.St.norm(e.Args[0]).str(); s != "1" && s != "0" && !ofErr(&p, s) {
						d["process"] = "the status is " + s
					}
				case strings.HasPrefix(e.Name(), "fmt.Fprint"):
					if exits > 0 {
						d["message"] = "it is printed after the process has ended"
					}
					if !strings.Contains(p.St.norm(e.Args[0]).str(), "Stderr") {
						d["message"] = "it is printed to " + p.St.norm(e.Args[0]).str()
					}
					hit := false
					for _, a := range e.Args[1:] {
						es, _ := p.St.Elems(a)
						for _, x := range append(es, a) {
							hit = hit || p.St.derives(x, func(v AV) bool { return strings.Contains(v.str(), ".Error(err") })
						}
					}
					if !hit {
						d["message"] = "it is not the error's"
					}
					prints++
				}
			}
			if exits != 1 {
				d["process"] = fmt.Sprintf("it is ended %d times", exits)
			}
			// whether message or status are empty on this path
			quiet := false
			for k, v := range p.St.bindS {
				b, kn := isTrue(v)
				if strings.HasPrefix(k, "!") {
					continue
				}
				t := strings.Contains(k, "==")
				if kn && t && b && (strings.Contains(k, `""`) && strings.Contains(k, ".Error(") || strings.Contains(k, "(0 == ") && (strings.Contains(k, ".ExitCode(") || strings.Contains(k, "len(invoke:error.Error("))) {
					quiet = true
				}
				if strings.Contains(k, ".ExitCode(err") && !t && v.str() == "0" || strings.Contains(k, ".Error(err") && !t && v.str() == `""` {
					quiet = true
				}
			}
			if prints > 0 {
				printed++
			}
			if quiet && prints > 0 {
				d["silence"] = "a message is printed although there is none, or the status is zero"
			}
			if !quiet && prints != 1 {
				d["message"] = fmt.Sprintf("it is printed %d times", prints)
			}
		}
		if printed == 0 && d["message"] == "" {
			d["message"] = "it is never printed"
		}
		for _, n := range []string{"process", "message", "silence"} {
			c.That(d[n] == "", "default", n, where, "%s: %s", n, d[n])
		}
	}
	ruleExitShapes(c)
	ruleErrorCodes(c)
}

// ofErr: the status is the exit code of the error, or of the one it wraps.
func ofErr(p *APath, s string) bool {
	if strings.Contains(s, ".ExitCode(err") {
		return true
	}
	for _, e := range p.Events {
		if e.Fn != nil && strings.HasPrefix(CalleeName(e.Fn), "errors.As") && strings.Contains(s, ".ExitCode(") {
			return true
		}
	}
	return false
}

func ruleExitShapes(c *Ctx) {
	w := c.W
	f := w.Func("cli.Exit")
	codeT := w.Type("cli", "ErrorCode")
	if f == nil || codeT == nil {
		c.Missing("exit", "cli.Exit")
		return
	}
	str, num := types.Typ[types.String], types.Typ[types.Int]
	s := func(x string) AV { return aIface{v: KStr(x), t: str} }
	n := func(i int64) AV { return aIface{v: KInt(i, num), t: num} }
	code := aIface{v: aSym{name: "errorcode", t: codeT}, t: codeT}
	anyT := types.NewInterfaceType(nil, nil)
	parse := w.Type("cli", "ParseError")
	pe := aIface{v: aSym{name: "coder", t: types.NewPointer(parse), nonNil: true}, t: types.NewPointer(parse)}
	cases := []struct {
		what string
		args []AV
		code string
		text []string // parts of the message
		not  []string
	}{
		{"nothing", nil, "1", nil, nil},
		{"nil", []AV{zeroT(anyT)}, "1", nil, nil},
		{"a code", []AV{n(7)}, "7", nil, nil},
		{"code zero", []AV{n(0)}, "0", nil, nil},
		{"a text", []AV{s("aa")}, "1", []string{"aa"}, nil},
		{"texts", []AV{s("aa"), s("bb")}, "1", []string{"aa", "bb"}, nil},
		{"texts and a number between", []AV{s("aa"), n(61), s("bb")}, "1", []string{"aa", "61", "bb"}, nil},
		{"a text and a code", []AV{s("aa"), n(77)}, "77", []string{"aa"}, []string{"77"}},
		{"texts and a code", []AV{s("aa"), s("bb"), n(77)}, "77", []string{"aa", "bb"}, []string{"77"}},
		{"two numbers", []AV{n(61), n(77)}, "77", []string{"61"}, []string{"77"}},
		{"a text and an error code", []AV{s("aa"), code}, "2", []string{"aa", "errorcode"}, nil},
		{"an error code", []AV{code}, "2", []string{"errorcode"}, nil},
		{"an error that has a code", []AV{pe}, "coder", nil, nil},
	}
	where := w.Pos(f.Pos())
	st0 := f.Signature.Params().At(0).Type()
	for _, k := range cases {
		var setup func(st *aState)
		var arg AV
		if k.args == nil {
			arg = zeroT(st0)
			setup = func(*aState) {}
		} else {
			setup = func(st *aState) { arg = st.namedSlice("*given", st0, k.args...) }
			setup(w.newState())
		}
		rs, ok := w.Interp(f, []AV{arg}, AOpts{Models: true, Setup: setup, Inline: func(g *ssa.Function, st *aState, args []AV) bool { return g.Name() != "String" }})
		dbgPaths(f, rs, ok)
		bad := ""
		if !ok || len(rs) == 0 {
			bad = "it could not be interpreted"
		}
		for _, p := range rs {
			if p.Panicked {
				bad = "it panics: " + p.PanicVal.str()
				continue
			}
			blank := false
			for b, v := range p.St.bindS {
				if y, kn := isTrue(v); kn && y && strings.Contains(b, `""`) && strings.Contains(b, "fmt.Sprint") {
					blank = true
				}
			}
			if blank && len(k.text) > 0 {
				continue // text is not blank
			}
			r := p.St.norm(p.Ret[0])
			if k.code == "coder" {
				if !isSym("coder")(r) {
					bad = "it is not handed through: " + r.str()
				}
				continue
			}
			iv, ok := r.(aIface)
			if !ok {
				bad = "what it makes is not known: " + r.str()
				continue
			}
			ask := func(name string) ([]APath, bool) {
				g := w.method(iv.t, name)
				if g == nil {
					return nil, false
				}
				return w.Interp(g, []AV{iv.v}, AOpts{Models: true, Setup: func(st *aState) {
					withMem(p.St.mem)(st)
					for k, v := range p.St.bindS {
						st.bindS[k] = v
					}
				}, Inline: func(g *ssa.Function, st *aState, args []AV) bool { return !(g.Name() == "String") }})
			}
			qs, ok := ask("ExitCode")
			if !ok {
				bad = "its exit code could not be read"
			} else if got := rets(qs); got != k.code {
				bad = "its exit code is " + got + " instead of " + k.code
			}
			qs, ok = ask("Error")
			if !ok || len(qs) == 0 {
				bad = "its text could not be read"
			}
			for _, q := range qs {
				if q.Panicked {
					bad = "reading its text panics"
					continue
				}
				for i, t := range append(append([]string(nil), k.text...), k.not...) {
					has := q.St.derives(q.Ret[0], func(v AV) bool {
						es, isS := q.St.Elems(v)
						for _, x := range es {
							if strings.Contains(q.St.norm(x).str(), t) {
								return true
							}
						}
						return !isS && strings.Contains(v.str(), t)
					}) || strings.Contains(q.St.norm(q.Ret[0]).str(), t)
					if has != (i < len(k.text)) {
						what := "does not have"
						if has {
							what = "has"
						}
						bad = fmt.Sprintf("its text %s %q: %s", what, t, q.St.norm(q.Ret[0]).str())
					}
				}
			}
		}
		c.That(bad == "", "exit", "Exit of "+k.what, where, "given %s: %s", k.what, bad)
	}
}

// ruleErrorCodes: every code has its own text.
func ruleErrorCodes(c *Ctx) {
	w := c.W
	t := w.Type("cli", "ErrorCode")
	f := w.method(t, "String")
	if f == nil {
		c.Missing("code", "the text of an error code")
		return
	}
	text := func(i int64) string {
		rs, ok := w.Interp(f, []AV{KInt(i, t)}, AOpts{Models: true})
		if !ok {
			return "?"
		}
		return rets(rs)
	}
	other := text(12345)
	seen := map[string]string{}
	for _, k := range w.consts(t) {
		v, _ := constInt(k.Val())
		s := text(v)
		bad := ""
		switch {
		case s == `""` || s == "?" || strings.Contains(s, "|"):
			bad = "its text is not known: " + s
		case s == other:
			bad = "it has the text of an unknown error"
		case seen[s] != "":
			bad = "it has the same text as " + seen[s]
		}
		seen[s] = k.Name()
		c.That(bad == "", "code", k.Name(), w.Pos(k.Pos()), "%s", bad)
	}
}
