package main

import (
	"golang.org/x/tools/go/ssa"
)

// conversion roots: functions that turn command line text into a typed value.
func conversionRoots(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if f.Parent() != nil {
			continue
		}
		n := f.Name()
		sig := f.Signature
		if FName(f) == "provider.(Value).Set" {
			continue // hands the text on to two collections, neither of which can fail half-way
		}
		isText := sig.Recv() != nil && (n == "Set" || n == "UnmarshalText") && errIndex(sig) == 0
		if isText || FName(f) == "cli.setCore" {
			out = append(out, f)
		}
	}
	return out
}

func setCoreFn(w *World) *ssa.Function {
	return w.roleFunc("cli.setCore", 0, "(any,bool,string)(error)")
}

func init() {
	register(&Check{ID: "C02",
		Explanation: "Over the function that converts text into the built-in types and every Set and UnmarshalText of the module. Width: the bit size and signedness given to each number parser are those of the type its result ends up in. Atomic: in SSA, a store to the caller's variable of a value that came out of a fallible call is dominated by that call's error being nil. Outcome: every feasible acyclic path through a conversion is enumerated; one that reports success has written the variable, one that reports failure has not, one on which a parser failed does not report success. Verbatim: the parsers receive the text itself and all integer types use one notation. Anchored: a regular expression that decides what is accepted covers the whole text. The numerical correctness of the standard library's parsers is assumed.",
		Rules: []RuleDoc{
			{"width", "number parsers are asked for the width and signedness of the destination type", 6},
			{"atomic", "the variable is assigned a converted value only where the conversion is known to have succeeded", 6},
			{"outcome", "along every path: success implies written, failure implies not written, a failed parser implies failure", 20},
			{"verbatim", "parsers see the given text, unmodified, and integer types share one notation", 6},
			{"text", "each built-in destination has the value the text says, added to what it had if it is a list, or is as it was and there is an error", 40},
			{"anchored", "patterns that accept text match all of it", 1},
		},
		Run: func(c *Ctx) {
			w := c.W
			ruleWidth(c, "width", func(f *ssa.Function) bool { return true })
			roots := conversionRoots(w)
			core := setCoreFn(w)
			if core == nil {
				c.Missing("atomic", "the conversion of text into built-in types")
				return
			}
			ruleAtomic(c, "atomic", roots)
			ruleOutcome(c, "outcome", roots, false)
			ruleOutcome(c, "outcome", []*ssa.Function{core}, true)
			ruleVerbatim(c, "verbatim", core, 2)
			ruleAnchored(c, "anchored", "value")
			ruleText(c)
		}})
}
