package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var wordSize = types.SizesFor("gc", "amd64")

func bitsOf(t types.Type) int { return int(wordSize.Sizeof(t)) * 8 }

func basic(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

// parserCalls: calls to the number parsers of the standard library.
func numberParser(w *World, c *ssa.Call) (name string) {
	f := c.Common().StaticCallee()
	if f == nil || f.Pkg == nil {
		return ""
	}
	switch n := CalleeName(f); n {
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.Atoi":
		return n
	}
	return ""
}

// ruleWidth: the number of bits asked of a parser is the number of bits of the
// type the result ends up in, and the signedness agrees.
func ruleWidth(c *Ctx, rule string, scope func(*ssa.Function) bool) {
	w := c.W
	for _, fn := range w.Funcs {
		if !scope(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				n := numberParser(w, call)
				if n == "" {
					continue
				}
				bits := 64
				if n != "strconv.Atoi" {
					last := call.Call.Args[len(call.Call.Args)-1]
					lv, _ := w.resolve(last, nil)
					k, ok := lv.(*ssa.Const)
					if !ok {
						continue // the size is the caller's choice
					}
					bits = int(k.Int64())
				}
				var res *ssa.Extract
				for _, r := range *call.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == 0 {
						res = e
					}
				}
				if res == nil {
					continue
				}
				for _, t := range finalTypes(res) {
					bt := basic(t)
					if bt == nil || bt.Info()&types.IsNumeric == 0 {
						continue
					}
					key := FName(rootFn(fn)) + ": " + n + " → " + TypeStr(t)
					at := w.InstrPos(in)
					if bt.Info()&types.IsInteger != 0 && n == "strconv.ParseFloat" {
						continue // a computed quantity, not a conversion
					}
					if bits == 0 {
						bits = 64
					}
					switch {
					case bitsOf(t) < bits:
						c.Bad(rule, key, at, "the text is parsed as %d bits but kept in %d: out-of-range input is silently truncated", bits, bitsOf(t))
					case bitsOf(t) > bits:
						c.Bad(rule, key, at, "the text is parsed as %d bits but kept in %d: valid input is rejected or loses precision", bits, bitsOf(t))
					case n == "strconv.ParseUint" && bt.Info()&types.IsUnsigned == 0, (n == "strconv.ParseInt") && bt.Info()&types.IsUnsigned != 0:
						c.Bad(rule, key, at, "the signedness of the parser and of %s differ", TypeStr(t))
					default:
						c.Ok(rule, key, at)
					}
				}
			}
		}
	}
}

// finalTypes: the types a parsed number is converted to before it is stored or returned.
func finalTypes(v ssa.Value) []types.Type {
	seen := map[ssa.Value]bool{}
	var out []types.Type
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Convert:
				if b := basic(x.Type()); b != nil && b.Info()&types.IsNumeric != 0 {
					rec(x)
				}
			case *ssa.ChangeType:
				rec(x)
			case *ssa.Phi:
				rec(x)
			case *ssa.Store:
				if x.Val == v {
					out = append(out, v.Type())
				}
			case *ssa.Return, *ssa.MakeInterface:
				out = append(out, v.Type())
			}
		}
	}
	rec(v)
	return out
}

func rootFn(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// originCalls: fallible calls (with an error or ok as last result) whose
// successful result flows into v.
func originCalls(w *World, v ssa.Value, env *Env) []*ssa.Extract {
	var out []*ssa.Extract
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, env *Env, d int)
	rec = func(v ssa.Value, env *Env, d int) {
		v, env = w.resolve(v, env)
		if v == nil || seen[v] || d > 16 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if ei := errIndex(call.Common().Signature()); ei >= 0 && ei != x.Index {
					out = append(out, x)
				}
			}
		case *ssa.Convert:
			rec(x.X, env, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e, env, d+1)
			}
		case *ssa.Slice:
			rec(x.X, env, d+1)
		case *ssa.BinOp:
			rec(x.X, env, d+1)
			rec(x.Y, env, d+1)
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				for _, a := range x.Call.Args {
					rec(a, env, d+1)
				}
			}
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == al {
						rec(st.Val, env, d+1)
					}
				}
			}
		}
	}
	rec(v, env, 0)
	return out
}

// destination: does the address belong to something the caller handed in (a
// pointer parameter, possibly behind an interface, or the receiver)?
func (w *World) callerOwned(addr ssa.Value, env *Env) bool {
	for i := 0; i < 32; i++ {
		addr, env = w.resolve(addr, env)
		switch x := addr.(type) {
		case *ssa.Parameter:
			_, isPtr := x.Type().Underlying().(*types.Pointer)
			_, isI := x.Type().Underlying().(*types.Interface)
			return isPtr || isI
		case *ssa.FreeVar:
			return false
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			addr = x.X
		case *ssa.TypeAssert:
			addr = x.X
		case *ssa.Extract:
			ta, ok := x.Tuple.(*ssa.TypeAssert)
			if !ok {
				return false
			}
			addr = ta.X
		case *ssa.UnOp:
			addr = x.X
		case *ssa.Phi:
			return false
		default:
			return false
		}
	}
	return false
}

// ruleAtomic: the result of a conversion that can fail is written to its
// destination only where the conversion is known to have succeeded.
func ruleAtomic(c *Ctx, rule string, roots []*ssa.Function) {
	w := c.W
	for _, root := range roots {
		into := func(f *ssa.Function, _ Site) bool {
			for _, r := range roots {
				if r == f {
					return false
				}
			}
			return FName(f) != "cli.Set"
		}
		w.Explore(root, ExploreOpts{Depth: 2, Into: into}, func(s Site) {
			st, ok := s.In.(*ssa.Store)
			if !ok || !w.callerOwned(st.Addr, s.Env) {
				return
			}
			for _, ex := range originCalls(w, st.Val, s.Env) {
				call := ex.Tuple.(*ssa.Call)
				ei := errIndex(call.Common().Signature())
				t := s.Term(call) + fmt.Sprintf("#%d", ei)
				want := normBin(eql, t, "nil")
				key := FName(rootFn(s.In.Parent())) + ": " + s.Term(st.Addr) + " = " + shortTerm(s.Term(call))
				c.That(s.Facts[want], rule, key, w.InstrPos(st), "the destination is written although the conversion may have failed (the error of %s is not known to be nil here)", shortTerm(s.Term(call)))
			}
		})
	}
}

// writesInLoop reports whether a loop that the blocks go through stores something in
// what the caller owns, or in a map: whether it is entered is a matter of the input.
func (w *World) writesInLoop(blocks []*ssa.BasicBlock) bool {
	for _, h := range blocks {
		if len(h.Preds) < 2 {
			continue
		}
		for _, b := range h.Parent().Blocks {
			if b == h || !h.Dominates(b) || !reaches(b, h) {
				continue
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					return true
				case *ssa.Store:
					if w.callerOwned(x.Addr, nil) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ruleOutcome walks every path of a conversion: a path that reports success has
// written the destination, a path that reports failure has not, and a path on
// which a parser failed does not report success.
func ruleOutcome(c *Ctx, rule string, roots []*ssa.Function, mustWrite bool) {
	w := c.W
	for _, fn := range roots {
		ei := errIndex(fn.Signature)
		if ei < 0 || len(fn.Blocks) == 0 {
			continue
		}
		type res struct{ bad, at string }
		cases := map[string]*res{}
		okp := w.Paths(fn.Blocks[0], nil, 60000, func(p Path) {
			if p.Ret == nil {
				return
			}
			kase := "all input"
			for _, prm := range fn.Params {
				if is := isFacts(p.Facts, "param:"+paramKey(prm)); len(is) > 0 {
					kase = strings.Join(is, "+")
				}
			}
			r := cases[kase]
			if r == nil {
				r = &res{at: w.Pos(fn.Pos())}
				cases[kase] = r
			}
			var wrote ssa.Instruction
			fallible := false
			passthru := false
			for _, b := range p.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if w.callerOwned(x.Addr, nil) {
							wrote = in
							r.at = w.InstrPos(in)
						}
					case *ssa.Call:
						if x.Common().IsInvoke() && (w.callerOwned(x.Common().Value, nil)) {
							passthru = true
						}
						if handed(w, x) {
							wrote = in
						}
						if g, _, _, _ := w.Callee(x.Common(), nil); g != nil && w.InModule(g) && mustWrite {
							for _, a := range x.Common().Args {
								if w.callerOwned(a, nil) && isPtrOrIface(a.Type()) && !isLoad(a) {
									passthru = true
								}
							}
						}
						if errIndex(x.Common().Signature()) >= 0 {
							fallible = true
						}
					}
				}
			}
			rv := w.phiOnPath(p.Ret.Results[ei], p.Blocks)
			success := isNilConst(rv) || errKnownNil(w, rv, p.Facts)
			failure := !success && (errKnownNonNil(w, rv, p.Facts) || freshError(rv))
			switch {
			case passthru:
			case success && failedOnPath(w, p) != "":
				r.bad = "success is reported although " + failedOnPath(w, p) + " failed (" + w.InstrPos(p.Ret) + ")"
				r.at = w.InstrPos(p.Ret)
			case success && wrote == nil && mustWrite && !w.writesInLoop(p.Blocks):
				r.bad = "success is reported but the destination was not written (" + w.InstrPos(p.Ret) + ")"
				r.at = w.InstrPos(p.Ret)
			case !success && wrote != nil && (failure || fallible):
				r.bad = "the destination was written (" + w.InstrPos(wrote) + ") on a path that reports failure (" + w.InstrPos(p.Ret) + ")"
				r.at = w.InstrPos(wrote)
			}
		})
		if !okp {
			c.Bad(rule, FName(fn)+": paths", w.Pos(fn.Pos()), "too many paths to decide")
		}
		for k, r := range cases {
			c.That(r.bad == "", rule, FName(fn)+": "+k, r.at, "%s", r.bad)
		}
	}
}

func isPtrOrIface(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func isLoad(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op.String() == "*"
}

// handed: the call receives what the caller's destination points to.
func handed(w *World, x *ssa.Call) bool {
	if f, _, _, _ := w.Callee(x.Common(), nil); f == nil || !strings.HasPrefix(CalleeName(f), "maps.Copy") {
		return false
	}
	return true
}

func errKnownNonNil(w *World, v ssa.Value, facts FactSet) bool {
	t := w.Term(v, nil)
	for f := range facts {
		if strings.HasPrefix(f, "!((nil == ") || (strings.HasPrefix(f, "!((") && strings.HasSuffix(f, " == nil))")) {
			e := strings.TrimSuffix(f[3:], "))")
			e = strings.TrimSuffix(strings.TrimPrefix(e, "nil == "), " == nil")
			if len(e) > 6 && strings.Contains(t, e) {
				return true
			}
		}
	}
	return false
}

func freshError(v ssa.Value) bool {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return true
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				return false
			}
			switch CalleeName(f) {
			case "fmt.Errorf", "errors.New":
				return true
			}
			return false
		default:
			return false
		}
	}
	return false
}

// failedOnPath: a parser that is known to have failed along this path.
func failedOnPath(w *World, p Path) string {
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := call.Call.StaticCallee()
			if f == nil {
				continue
			}
			sig := f.Signature
			t := w.Term(call, nil)
			if ei := errIndex(sig); ei >= 0 {
				if sig.Results().Len() > 1 {
					t += fmt.Sprintf("#%d", ei)
				}
				if p.Facts[neg(normBin(eql, t, "nil"))] {
					return CalleeName(f)
				}
			} else if n := sig.Results().Len(); n > 1 && types.Identical(sig.Results().At(n-1).Type(), types.Typ[types.Bool]) {
				if !w.InModule(f) && p.Facts[neg(fmt.Sprintf("%s#%d", t, n-1))] {
					return CalleeName(f)
				}
			} else if CalleeName(f) == "net.ParseIP" && p.Facts[normBin(eql, t, "nil")] {
				return CalleeName(f)
			}
		}
	}
	return ""
}

// ruleVerbatim: the parsers see exactly the text that was given, and all
// integer types accept the same notations.
func ruleVerbatim(c *Ctx, rule string, root *ssa.Function, textParam int) {
	w := c.W
	want := "param:" + paramKey(root.Params[textParam])
	bases := map[string][]string{}
	w.Explore(root, ExploreOpts{Depth: 2, Into: func(f *ssa.Function, s Site) bool { return f.Signature.Recv() == nil && f.Name() != "SplitList" }}, func(s Site) {
		call, ok := s.In.(*ssa.Call)
		if !ok {
			return
		}
		f := call.Call.StaticCallee()
		if f == nil {
			return
		}
		n := CalleeName(f)
		arg := 0
		switch n {
		case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat", "strconv.Atoi", "time.ParseDuration", "net/url.Parse", "net.ParseIP", "regexp.Compile", "math/big.ParseFloat", "encoding/hex.DecodeString":
		case "math/big.(Int).SetString":
			arg = 1
		default:
			return
		}
		is := strings.Join(isFacts(s.Facts, "param:"+paramKey(root.Params[0])), "+")
		t := s.Term(call.Call.Args[arg])
		c.That(t == want, rule, FName(root)+": text of "+n+" for "+is, w.InstrPos(call), "the parser is not given the text itself but %s", shortTerm(t))
		if n == "strconv.ParseInt" || n == "strconv.ParseUint" {
			b := s.Term(call.Call.Args[1])
			bases[b] = append(bases[b], is+" at "+w.InstrPos(call))
		}
	})
	if len(bases) > 0 {
		msg := ""
		if len(bases) > 1 {
			msg = fmt.Sprint(bases)
		}
		c.That(len(bases) == 1, rule, FName(root)+": notation of integers", w.Pos(root.Pos()), "integer types do not accept the same notations: %s", msg)
	}
}

// ruleAnchored: a pattern that decides what a conversion accepts covers the
// whole text.
func ruleAnchored(c *Ctx, rule string, pkgs ...string) {
	w := c.W
	for _, fn := range w.Funcs {
		if fn.Pkg == nil || !contains(pkgs, shortPkg(fn.Pkg.Pkg)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil || !strings.HasPrefix(CalleeName(f), "regexp.(Regexp).") {
					continue
				}
				g, ok := call.Call.Args[0].(*ssa.UnOp)
				if !ok {
					continue
				}
				gl, ok := g.X.(*ssa.Global)
				if !ok {
					continue
				}
				pat := globalRegexp(w, gl)
				key := FName(rootFn(fn)) + ": " + globalName(gl)
				c.That(strings.HasPrefix(pat, "^") && strings.HasSuffix(pat, "$"), rule, key, w.InstrPos(in), "the pattern %q matches part of the text only: text around a valid value is ignored", pat)
			}
		}
	}
}

// globalRegexp is the constant pattern a package variable is compiled from.
func globalRegexp(w *World, g *ssa.Global) string {
	init := g.Pkg.Func("init")
	if init == nil {
		return ""
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(g) {
				continue
			}
			if call, ok := st.Val.(*ssa.Call); ok && len(call.Call.Args) == 1 {
				if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					return constant.StringVal(k.Value)
				}
			}
		}
	}
	return ""
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func reachableFrom(b *ssa.BasicBlock) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{b: true}
	out := []*ssa.BasicBlock{b}
	for i := 0; i < len(out); i++ {
		for _, s := range out[i].Succs {
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	return out
}

func inCycle(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if reaches(s, b) {
			return true
		}
	}
	return false
}

func reaches(a, b *ssa.BasicBlock) bool {
	for _, x := range reachableFrom(a) {
		if x == b {
			return true
		}
	}
	return false
}

// errKnownNil: the returned error is computed from an error that is known to be nil here.
func errKnownNil(w *World, v ssa.Value, facts FactSet) bool {
	t := w.Term(v, nil)
	if facts[normBin(eql, t, "nil")] {
		return true
	}
	for f := range facts {
		e := ""
		if strings.HasSuffix(f, " == nil)") && strings.HasPrefix(f, "(") {
			e = strings.TrimSuffix(f[1:], " == nil)")
		} else if strings.HasPrefix(f, "(nil == ") {
			e = strings.TrimSuffix(strings.TrimPrefix(f, "(nil == "), ")")
		}
		if e != "" {
			if len(e) > 6 && strings.Contains(t, e) {
				return true
			}
		}
	}
	return false
}

func contradicts(a, b FactSet) bool {
	for f := range a {
		if b[neg(f)] {
			return true
		}
	}
	return false
}

func shortTerm(s string) string {
	s = strings.ReplaceAll(s, modPath, "")
	if len(s) > 110 {
		s = s[:107] + "..."
	}
	return s
}

var _ = constant.Int64Val
