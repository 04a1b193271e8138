package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errExceptions: the errors that are deliberately not reported, each confirmed
// by reading the code. function → callee → reason. Helpers that only these
// functions call inherit the exception.
var errExceptions = map[string]map[string]string{
	"cli.SuppressError":                     {"invoke Action.Execute": "suppressing the error is its documented purpose"},
	"cli.ImplicitValue":                     {"cli.(Context).SetValue": "documented: errors setting an implicit value are suppressed"},
	"cli.FromEnv":                           {"cli.(Context).SetValue": "implicit values are best effort"},
	"cli.FromFilePath":                      {"cli.(Context).SetValue": "documented: errors loading the file are ignored", "io/fs.ReadFile": "documented: errors loading the file are ignored"},
	"cli.Quote":                             {"invoke TextMarshaler.MarshalText": "the function cannot fail; text that does not marshal is quoted empty"},
	"cli.completeSubCommand":                {"cli.tryFindCommandOrIntercept": "completion of an unknown command offers nothing"},
	"cli.triggerRobustParsingAndCompletion": {"cli.(Context).Print": "console text"},
	"cli.(zshComplete).GetCompletionRequest": {
		"cli.Split": "the shell supplies these variables", "strconv.Atoi": "the shell supplies these variables"},
	"cli.(zshComplete).SetOptions":          {"cli.parseBool": "the shell supplies these variables"},
	"cli.buildDate":                         {"os.Stat": "a build date that cannot be found is left out"},
	"color.templateFuncs":                   {"*": "the style functions only fail on unknown style names and these are constants"},
	"color.(templateContext).templateFuncs": {"*": "the style functions only fail on unknown style names and these are constants"},
	"expr.(Expression).Initializer":         {"cli.(Context).ProvideValueInitializer": "an expression is initialised through the context that was just created"},
	"expr.(Expression).Bindings":            {"expr.(Expression).Walk": "the only error is the sentinel that stops the walk"},
	"provider.(Value).Set":                  {"cli.Set": "sets a []string, which cannot fail"},
	"structure.(Value).String":              {"github.com/mitchellh/mapstructure.Decode": "String cannot fail"},
	"template.(OutputContext).reportChange": {"*": "only the label printed for the file depends on it"},
	"template.(OutputContext).expandName":   {"*": "a name that is not a template stands for itself"},
	"template.(OutputContext).pathEnsure":   {"invoke FS.Stat": "the directory is created or the next operation reports it"},
	"template.(OutputContext).Exists":       {"template.(OutputContext).Stat": "a predicate"},
	"template.(fileGenerator).Generate": {
		"template.(OutputContext).OpenContext": "only the label printed for the file depends on the previous contents",
		"io.ReadAll":                           "only the label printed for the file depends on the previous contents"},
	"template.Touch": {
		"invoke FS.Stat":    "any other error shows again when the times are changed",
		"invoke File.Close": "nothing was written"},
	"template.(goGetter).files":       {"os.ReadFile": "a file that is not there has no previous contents"},
	"cli.(FileSet).All":               {"cli.(FileSet).Do": "an iterator yields the error of each file; the returned error is the stop sentinel"},
	"cli.(FileSet).Exists":            {"cli.(File).Stat": "a predicate"},
	"cli.wrapContextFile":             {"os.(File).SetWriteDeadline": "not every file supports deadlines", "os.(File).SetReadDeadline": "not every file supports deadlines"},
	"internal/joe.newAppCommand":      {"os.Getwd": "only the suggested name depends on it"},
	"internal/support.DetermineShell": {"github.com/mitchellh/go-ps.FindProcess": "an unknown shell is reported as such"},
	"internal/support.GuessWidth":     {"strconv.Atoi": "falls back to the default width", "golang.org/x/term.GetSize": "falls back to the default width"},
	"internal/synopsis.newExpr":       {"strconv.Atoi": "a placeholder that does not start with a number has position 0"},
	"cli.RawParse":                    {"sentinel:dash": "text that looks like a flag and is no argument is tried as a flag", "sentinel:!cli.isHardArgCountErr": "a soft count error means that the argument belongs to what follows", "cli.instanceTake": "tried again without the value"},
	"cli.(Context).RegisterTemplate":  {"text/template.(Template).AddParseTree": "only fails for a template whose name was redefined while executing"},
	"cli.(argBinding).SetArg":         {"sentinel:!cli.isHardArgCountErr": "a soft count error means that the argument belongs to the next taker"},
	"cli.Wrap":                        {"*": "console text"},
	"cli.(wrapper).Write":             {"*": "console text"},
	"cli.(wrapper).Close":             {"*": "console text"},
	"cli.(Context).walkCore":          {"sentinel:ErrSkipCommand": "documented: skips the sub-commands and continues"},
	"cli.subcommandCore":              {"sentinel:ErrSkipCommand": "documented: the command was handled"},
}

func excepted(w *World, fn *ssa.Function, callee string, d int) bool {
	r := rootFn(fn)
	if m := errExceptions[FName(r)]; m != nil {
		if m[callee] != "" || m["*"] != "" {
			return true
		}
		for k := range m {
			if strings.HasPrefix(k, "sentinel:") && strings.HasPrefix(callee, "sentinel:") && strings.HasSuffix(callee, strings.TrimPrefix(k, "sentinel:")) {
				return true
			}
		}
	}
	// a helper that only serves excepted functions
	if d > 3 || r.Object() != nil && r.Object().Exported() {
		return false
	}
	cs := w.Callers(r)
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if !excepted(w, c.Parent(), callee, d+1) {
			return false
		}
	}
	return true
}

// closesRead: the file that is closed was opened for reading, so nothing can be lost.
func (w *World) closesRead(c *ssa.CallCommon) bool {
	if !c.IsInvoke() || c.Method.Name() != "Close" {
		return false
	}
	n, bad := 0, false
	w.origins(c.Value, func(v ssa.Value, last bool) bool {
		if e, ok := v.(*ssa.Extract); ok {
			v = e.Tuple
		}
		if call, ok := v.(*ssa.Call); ok {
			name := callName(w, call.Common())
			if strings.HasSuffix(name, ".Open") || strings.HasSuffix(name, ".OpenContext") {
				n++
				return true
			}
		}
		if last {
			bad = true
		}
		return false
	})
	return n > 0 && !bad
}

func sentinelOK(w *World, fn *ssa.Function, s string) bool {
	return excepted(w, fn, "sentinel:"+s, 0)
}

// infallible: every return of the function (and of all it can dispatch to) has a nil error.
func (w *World) infallible(c *ssa.CallCommon, seen map[*ssa.Function]bool) bool {
	if c.IsInvoke() {
		if c.Method.Pkg() == nil || !strings.HasPrefix(c.Method.Pkg().Path(), modPath) {
			return false
		}
		impls := w.Impls(c.Method)
		if len(impls) == 0 || c.Method.Exported() && isExportedRecv(c.Value.Type()) {
			return false
		}
		for _, f := range impls {
			if !w.infallibleFn(f, seen) {
				return false
			}
		}
		return true
	}
	f, _, _, _ := w.Callee(c, nil)
	return f != nil && w.infallibleFn(f, seen)
}

func isExportedRecv(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Exported()
}

func (w *World) infallibleFn(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	switch CalleeName(f) {
	case "bytes.(Buffer).WriteString", "bytes.(Buffer).Write", "strings.(Builder).WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		return true
	}
	if !w.InModule(f) || seen[f] || len(seen) > 40 {
		return seen[f]
	}
	seen[f] = true
	ei := errIndex(f.Signature)
	if ei < 0 {
		return false
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		v := r.Results[ei]
		if isNilConst(v) {
			continue
		}
		if e, ok := v.(*ssa.Extract); ok {
			v = e.Tuple
		}
		c, ok := v.(*ssa.Call)
		if !ok || !w.infallible(c.Common(), seen) {
			return false
		}
	}
	return true
}

// ruleWrap: an error built from another one keeps it inspectable.
func ruleWrap(c *Ctx, rule string) {
	w := c.W
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil || CalleeName(f) != "fmt.Errorf" {
					continue
				}
				k, ok := call.Call.Args[0].(*ssa.Const)
				if !ok || k.Value == nil {
					continue
				}
				n := 0
				for _, a := range varargs(call.Call.Args[1]) {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					if ci, ok := a.(*ssa.ChangeInterface); ok {
						a = ci.X
					}
					if types.Implements(a.Type(), errorType.Underlying().(*types.Interface)) && !isBasicUnder(a.Type()) {
						n++
					}
				}
				if n == 0 {
					continue
				}
				format := constant.StringVal(k.Value)
				c.That(strings.Contains(format, "%w"), rule, FName(rootFn(fn))+": "+format, w.InstrPos(in), "an error is turned into text: callers can no longer recognise it")
			}
		}
	}
	// error types that carry another error let it be found
	for _, p := range w.Pkgs {
		if excludedPkg(p.PkgPath) {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok || !types.Implements(types.NewPointer(tn.Type()), errorType.Underlying().(*types.Interface)) {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if !isError(st.Field(i).Type()) {
					continue
				}
				o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, tn.Pkg(), "Unwrap")
				key := shortPkg(tn.Pkg()) + "." + n + "." + st.Field(i).Name()
				m, ok := o.(*types.Func)
				if !ok {
					c.Bad(rule, key, w.Pos(tn.Pos()), "the error type carries another error but has no Unwrap")
					continue
				}
				f := w.Prog.FuncValue(m)
				all := f != nil && len(f.Blocks) > 0
				if all {
					for _, b := range f.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							if !strings.HasSuffix(w.Term(r.Results[0], nil), "."+st.Field(i).Name()) {
								all = false
							}
						}
					}
				}
				c.That(all, rule, key, w.Pos(m.Pos()), "Unwrap does not hand out the error that is carried")
			}
		}
	}
}

func isBasicUnder(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// varargs: the values stored in the slice built for a variadic call.
func varargs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func init() {
	register(&Check{ID: "C01",
		Explanation: "Every call in the module whose callee returns an error is an obligation. The error value is followed in SSA along every path of the function (through phis, captured variables, type changes and lists of errors) until it is returned, wrapped in what is returned, handed to other code or found to be nil. Discarded results, results overwritten or skipped on some path, paths on which the error is known to be non-nil but success is returned, steps that run although the previous one failed, panics recovered anywhere but in the documented place, and wrapping that hides the original error are violations. Deliberate cases are a table of function and callee with a reason. It does not decide what the text of an error says.",
		Rules: []RuleDoc{
			{"err", "an error a call may return is used on every path of the caller before the caller reports success or goes on to another fallible step", 350},
			{"wrap", "an error made from another keeps it reachable: formatting uses %w, error types have Unwrap", 5},
			{"recover", "only the documented recovery action recovers from a panic", 1},
		},
		Run: func(c *Ctx) {
			w := c.W
			for _, fn := range w.Funcs {
				for _, d := range collectErrDefs(w, fn) {
					if errExempt(d.name) {
						continue
					}
					key := FName(fn) + " → " + d.name
					at := w.InstrPos(d.call.(ssa.Instruction))
					c.Funcs[FName(fn)] = true
					if excepted(w, fn, d.name, 0) || w.closesRead(d.call.Common()) || w.infallible(d.call.Common(), map[*ssa.Function]bool{}) || consoleCall(d.name) {
						c.Ok("err", key+" (excepted)", at)
						continue
					}
					if d.val == nil && w.cleanup(d.call.(ssa.Instruction), 2) {
						c.Ok("err", key+" (another error is returned)", at)
						continue
					}
					if d.val == nil {
						c.Bad("err", key, at, "the error of %s is discarded", d.name)
						continue
					}
					if p := followErr(w, d); p != nil {
						c.Bad("err", key, at, "%s: %s (%s)", p.kind, p.msg, w.InstrPos(p.at))
					} else {
						c.Ok("err", key, at)
					}
				}
			}
			ruleWrap(c, "wrap")
			for _, fn := range w.Funcs {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						call, ok := in.(ssa.CallInstruction)
						if !ok {
							continue
						}
						if bi, ok := call.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							r := FName(rootFn(fn))
							ok := r == "cli.Recover" || onlyCalledBy(w, rootFn(fn), "cli.Recover")
							c.That(ok, "recover", r, w.InstrPos(in), "a panic is recovered here: a failure is lost or reported differently")
						}
					}
				}
			}
		}})
}

// text written for people: the error is not looked at by convention
func consoleCall(n string) bool {
	for _, p := range []string{"cli.(Context).Print", "cli.(Context).Fprint", "invoke styleWriter.", "invoke Writer.Styled", "invoke Writer.WriteString"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func onlyCalledBy(w *World, f *ssa.Function, name string) bool {
	cs := w.Callers(f)
	for _, c := range cs {
		if FName(rootFn(c.Parent())) != name {
			return false
		}
	}
	return len(cs) > 0
}

// cleanup: the call is on the way to returning another error that has occurred.
func (w *World) cleanup(in ssa.Instruction, n int) bool {
	f := in.Parent()
	for g := in.Block(); g != nil; g = g.Idom() {
		if len(g.Preds) != 1 {
			continue
		}
		i, ok := lastInstr(g.Preds[0]).(*ssa.If)
		if !ok {
			continue
		}
		q, ok := i.Cond.(*ssa.BinOp)
		if !ok || q.Op != token.NEQ && q.Op != token.EQL {
			continue
		}
		x := q.X
		if isNilConst(x) {
			x = q.Y
		} else if !isNilConst(q.Y) {
			continue
		}
		if !isErrorType(x.Type()) || (q.Op == token.NEQ) != (g.Preds[0].Succs[0] == g) {
			continue
		}
		if u, ok := x.(*ssa.UnOp); ok {
			if _, ok := u.X.(*ssa.FreeVar); ok && f.Signature.Results().Len() == 0 && deferredOnly(f) {
				return true
			}
		}
		all, some := true, false
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			if seen[b] {
				return
			}
			seen[b] = true
			if r, ok := lastInstr(b).(*ssa.Return); ok {
				some = true
				ret := false
				for _, v := range r.Results {
					if isErrorType(v.Type()) && madeOf(v, x, 4) {
						ret = true
					}
				}
				all = all && ret
			}
			for _, s := range b.Succs {
				walk(s)
			}
		}
		walk(in.Block())
		if all && some {
			return true
		}
	}
	if n == 0 || f.Object() == nil || f.Object().Exported() {
		return false
	}
	cs := w.Callers(f)
	for _, call := range cs {
		if !w.cleanup(call.(ssa.Instruction), n-1) {
			return false
		}
	}
	return len(cs) > 0
}

// deferredOnly: a function literal that is only used in a defer statement.
func deferredOnly(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == f {
					return true
				}
			}
		}
	}
	return false
}

// madeOf: v is x or is made of it.
func madeOf(v, x ssa.Value, n int) bool {
	if v == x {
		return true
	}
	if n == 0 {
		return false
	}
	switch y := v.(type) {
	case *ssa.Call:
		for _, a := range y.Call.Args {
			if madeOf(a, x, n-1) {
				return true
			}
			for _, e := range varargs(a) {
				if madeOf(e, x, n-1) {
					return true
				}
			}
		}
	case *ssa.MakeInterface:
		return madeOf(y.X, x, n-1)
	case *ssa.ChangeInterface:
		return madeOf(y.X, x, n-1)
	}
	return false
}
