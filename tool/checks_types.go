package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func concrete(m map[string]types.Type) map[string]types.Type {
	o := map[string]types.Type{}
	for k, t := range m {
		if !types.IsInterface(t) {
			o[k] = t
		}
	}
	return o
}

func keysOf(m map[string]types.Type) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sortStrings(o)
	return o
}

// ruleReturnType: where parameter p is known to be *T, the value handed back is of type conv(T).
func ruleReturnType(c *Ctx, rule string, f *ssa.Function, param int, want func(types.Type) types.Type, what string) {
	w := c.W
	names := map[string]types.Type{}
	for _, tc := range w.typeCases(f, param) {
		names[TypeStr(tc.T)] = tc.T
	}
	pk := "param:" + paramKey(f.Params[param])
	w.Explore(f, ExploreOpts{Depth: 2}, func(s Site) {
		r, ok := s.In.(*ssa.Return)
		if !ok || len(r.Results) == 0 || (s.In.Parent() != f && s.In.Parent().Parent() != f) {
			return
		}
		is := isFacts(s.Facts, pk)
		if len(is) == 0 {
			return
		}
		for _, n := range is {
			t := names[n]
			if t == nil || types.IsInterface(t) {
				continue
			}
			mi, ok := r.Results[0].(*ssa.MakeInterface)
			if !ok {
				continue
			}
			g := want(t)
			key := FName(f) + ": " + n
			c.That(types.Identical(mi.X.Type(), g), rule, key, w.InstrPos(r), "%s for %s has type %s, not %s", what, n, TypeStr(mi.X.Type()), TypeStr(g))
		}
	})
}

func init() {
	register(&Check{ID: "C03",
		Explanation: "The set of variable types accepted for flags and args is read from the type switch that rejects unsupported ones. Each member must have a case in the conversion from text, the direct assignment, the copy of the variable, the JSON wrapper, the typed accessors and the binder selection, and each type text converts to must be accepted. Where the type is known, the copy has the same type and does not share the original, the value for a flag given without one has the element type, and the binder is the one of that type (a mismatch panics at run time). Types whose conversion adds to the present contents must be cleared at the first occurrence.",
		Rules: []RuleDoc{
			{"agree", "all type tables cover the accepted variable types", 60},
			{"same-type", "a value produced for a variable type has that type", 20},
			{"fresh", "the copy of a variable does not share the variable", 10},
			{"readable", "an accessor returns each variable type", 15},
			{"binder", "each type is bound by its own binder", 15},
			{"reset", "accumulating types are cleared at the first occurrence", 2},
		},
		Run: func(c *Ctx) {
			w := c.W
			sup := w.roleFunc("cli.checkSupportedFlagType", 0, "(any)(error)")
			core := setCoreFn(w)
			direct := w.roleFunc("cli.setDirect", 0, "(any,any)(error)")
			clone := w.roleFunc("cli.valueCloneZero", 0, "(any)(any)")
			dflt := w.Func("cli.valueSmartOptionalDefault")
			for n, f := range map[string]*ssa.Function{"the list of supported variable types": sup, "the conversion of text": core, "the direct assignment": direct, "the copy of a variable": clone} {
				if f == nil {
					c.Missing("agree", n)
				}
			}
			if sup == nil || core == nil || direct == nil || clone == nil {
				return
			}
			supported := concrete(typeSet(w.typeCases(sup, 0)))
			agree := func(what string, f *ssa.Function, have map[string]types.Type) {
				for _, k := range keysOf(supported) {
					_, ok := have[k]
					c.That(ok, "agree", what+" handles "+k, w.Pos(f.Pos()), "%s is accepted as a variable type but %s has no case for it", k, FName(f))
				}
			}
			coreT := concrete(typeSet(w.typeCases(core, 0)))
			agree("set from text", core, coreT)
			agree("set from value", direct, concrete(typeSet(w.typeCases(direct, 0))))
			agree("clone", clone, concrete(typeSet(w.typeCases(clone, 0))))
			for _, k := range keysOf(coreT) {
				_, ok := supported[k]
				c.That(ok, "agree", "accepted: "+k, w.Pos(core.Pos()), "text can be converted to %s but the type is not accepted for flags and args", k)
			}
			// interfaces that are accepted are also converted
			for k, t := range typeSet(w.typeCases(sup, 0)) {
				if types.IsInterface(t) {
					_, ok := typeSet(w.typeCases(core, 0))[k]
					c.That(ok, "agree", "set from text handles "+k, w.Pos(core.Pos()), "%s is accepted as a variable type but text is never converted to it", k)
				}
			}
			// the JSON wrapper
			for _, f := range w.Funcs {
				if f.Pkg != nil && shortPkg(f.Pkg.Pkg) == "value" && f.Signature.Recv() != nil && f.Signature.Results().Len() == 1 && basic(f.Signature.Results().At(0).Type()) != nil && basic(f.Signature.Results().At(0).Type()).Kind() == types.Bool {
					have := map[string]types.Type{}
					w.Explore(f, ExploreOpts{Depth: 1}, func(s Site) {
						if ta, ok := s.In.(*ssa.TypeAssert); ok {
							have[TypeStr(ta.AssertedType)] = ta.AssertedType
						}
					})
					if len(have) >= 8 {
						agree("JSON value", f, have)
					}
				}
			}
			ruleReturnType(c, "same-type", clone, 0, func(t types.Type) types.Type { return t }, "the copy")
			for _, k := range keysOf(supported) {
				w.oneType(c, k, supported[k], clone, direct, dflt)
			}
			// a value assigned directly is taken as exactly the type of the variable
			w.Explore(direct, ExploreOpts{Depth: 2}, func(s Site) {
				ta, ok := s.In.(*ssa.TypeAssert)
				if !ok {
					return
				}
				v, _ := w.resolve(ta.X, s.Env)
				if v != ssa.Value(direct.Params[1]) {
					return
				}
				for _, n := range isFacts(s.Facts, "param:"+paramKey(direct.Params[0])) {
					if t := supported[n]; t != nil {
						c.That(types.Identical(deref(t), ta.AssertedType), "same-type", "direct assignment: "+n, w.InstrPos(ta), "a %s is assigned to a %s", TypeStr(ta.AssertedType), n)
					}
				}
			})
			// the copy is not the variable itself
			w.Explore(clone, ExploreOpts{Depth: 2}, func(s Site) {
				r, ok := s.In.(*ssa.Return)
				if !ok || len(r.Results) != 1 || s.In.Parent() != clone {
					return
				}
				for _, n := range isFacts(s.Facts, "param:"+paramKey(clone.Params[0])) {
					if t := supported[n]; t == nil {
						continue
					}
					t := s.Term(r.Results[0])
					c.That(!strings.HasPrefix(t, "assert["+n+"](") && t != "param:"+paramKey(clone.Params[0]), "fresh", n, w.InstrPos(r), "the copy of a %s is the variable itself: a run writes into the variable of the template", n)
				}
			})
			if dflt != nil {
				ruleReturnType(c, "same-type", dflt, 0, func(t types.Type) types.Type { return deref(t) }, "the value used when the flag is given without one")
			} else {
				c.Missing("same-type", "the optional-value defaults")
			}
			// typed access: each supported type can be read back by a Lookup method
			lk := w.Type("cli", "Lookup")
			if lk == nil {
				c.Missing("readable", "interface Lookup")
			} else {
				it := lk.Underlying().(*types.Interface)
				ret := map[string]bool{}
				for i := 0; i < it.NumMethods(); i++ {
					r := it.Method(i).Type().(*types.Signature).Results()
					if r.Len() == 1 {
						ret[TypeStr(r.At(0).Type())] = true
					}
				}
				for _, k := range keysOf(supported) {
					d := TypeStr(deref(supported[k]))
					c.That(ret[d], "readable", "Lookup: "+d, w.Pos(lk.Obj().Pos()), "variables of type %s are accepted but no accessor returns %s", k, d)
				}
			}
			// bind.For
			if f := w.Func("bind.For"); f != nil {
				have := map[string]types.Type{}
				w.Explore(f, ExploreOpts{Depth: 2}, func(s Site) {
					ta, ok := s.In.(*ssa.TypeAssert)
					if !ok || !ta.CommaOk {
						return
					}
					have[TypeStr(ta.AssertedType)] = ta.AssertedType
				})
				for _, k := range keysOf(supported) {
					d := TypeStr(deref(supported[k]))
					_, ok := have[d]
					c.That(ok, "binder", "bind.For: "+d, w.Pos(f.Pos()), "variables of type %s are accepted but bind.For has no case for %s", k, d)
				}
				// each case hands out the binder of its own type
				scan := func(g *ssa.Function) {
					for _, b := range g.Blocks {
						fs := w.localFacts(b, nil, 0)
						r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
						if !ok || len(r.Results) != 1 {
							continue
						}
						mi, ok := r.Results[0].(*ssa.MakeInterface)
						if !ok {
							continue
						}
						nt, ok := mi.X.Type().(*types.Named)
						if !ok || nt.TypeArgs() == nil || nt.TypeArgs().Len() != 1 {
							continue
						}
						got := TypeStr(nt.TypeArgs().At(0))
						for fct := range fs {
							if strings.HasPrefix(fct, "is[") {
								d := fct[3:strings.Index(fct, "](")]
								if t := have[d]; t != nil && !types.IsInterface(t) {
									c.That(got == d, "binder", "bind.For case "+d, w.InstrPos(r), "the case for %s hands out a binder of %s: the final conversion panics", d, got)
								}
							}
						}
					}
				}
				scan(f)
				for _, a := range f.AnonFuncs {
					scan(a)
				}
			} else {
				c.Missing("binder", "bind.For")
			}
			// accumulating types start afresh on the first occurrence
			acc := accumulating(w, core)
			reset := map[string]bool{}
			var resetFn *ssa.Function
			if resetFn = w.Func("cli.optionApplyValueConventions"); resetFn != nil {
				w.Explore(resetFn, ExploreOpts{Depth: 2}, func(s Site) {
					if st, ok := s.In.(*ssa.Store); ok {
						for _, n := range isFacts(s.Facts, "param:"+paramKey(resetFn.Params[0])) {
							if p := types.NewPointer(st.Val.Type()); TypeStr(p) == n {
								reset[n] = true
							}
						}
					}
				})
				for _, k := range acc {
					c.That(reset[k], "reset", k, w.Pos(resetFn.Pos()), "giving %s a value adds to what is there, but its default is not cleared at the first occurrence", k)
				}
			} else {
				c.Missing("reset", "the reset at the first occurrence")
			}
		}})
}

// accumulating: destination types whose conversion keeps what was there.
func accumulating(w *World, core *ssa.Function) []string {
	m := map[string]bool{}
	pk := "param:" + paramKey(core.Params[0])
	for _, b := range core.Blocks {
		is := isFacts(w.localFacts(b, nil, 0), pk)
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op.String() != "*" {
				continue
			}
			for _, n := range is {
				if w.Term(u, nil) == "*assert["+n+"]("+pk+")" || w.Term(u.X, nil) == "assert["+n+"]("+pk+")" {
					m[n] = true
				}
			}
		}
	}
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sortStrings(o)
	return o
}

// oneType interprets the copy, the default and the direct assignment for a
// variable of one type.
func (w *World) oneType(c *Ctx, k string, t types.Type, clone, direct, dflt *ssa.Function) {
	pt, ok := t.(*types.Pointer)
	if !ok || types.IsInterface(t) {
		return
	}
	orig := aSym{name: "orig", t: t, nonNil: true}
	run := func(f *ssa.Function, args ...AV) []APath {
		ps, ok := w.Interp(f, args, AOpts{Models: true})
		dbgPaths(f, ps, ok)
		if !ok {
			return nil
		}
		return ps
	}
	bad := ""
	ps := run(clone, aIface{v: orig, t: t})
	if len(ps) == 0 {
		bad = "it could not be interpreted"
	}
	for _, p := range ps {
		if p.Panicked {
			bad = "it panics"
			continue
		}
		switch r := p.St.norm(p.Ret[0]).(type) {
		case aIface:
			if !types.Identical(r.t, t) {
				bad = "it has type " + TypeStr(r.t)
			} else if p.St.norm(r.v).str() == "orig" {
				bad = "it is the variable itself"
			}
		default:
			if isNilAV(r) {
				bad = "it is nil"
			}
		}
	}
	c.That(bad == "", "same-type", "the copy of "+k, w.Pos(clone.Pos()), "%s", bad)
	bad = ""
	given := aSym{name: "given", t: pt.Elem(), nonNil: true}
	ps = run(direct, aIface{v: orig, t: t}, aIface{v: given, t: pt.Elem()})
	if len(ps) == 0 {
		bad = "it could not be interpreted"
	}
	for _, p := range ps {
		if p.Panicked {
			bad = "it panics"
			continue
		}
		if v := p.St.norm(p.St.load(aPtr{obj: "*orig"}, pt.Elem())); v.str() != "given" && !p.St.derives(v, isSym("given")) {
			bad = "the variable is not what was given but " + v.str()
		}
	}
	c.That(bad == "", "same-type", "assigning a value directly to "+k, w.Pos(direct.Pos()), "%s", bad)
	if dflt == nil {
		return
	}
	bad = ""
	for _, p := range run(dflt, aIface{v: orig, t: t}) {
		if p.Panicked {
			bad = "it panics"
			continue
		}
		if r, ok := p.St.norm(p.Ret[0]).(aIface); ok && !types.Identical(r.t, pt.Elem()) {
			bad = "it has type " + TypeStr(r.t)
		}
	}
	c.That(bad == "", "same-type", "the value of "+k+" given without one", w.Pos(dflt.Pos()), "%s", bad)
}
