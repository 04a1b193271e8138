package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Error discipline. Every error a call produces is followed along every path
// of the function until something is done with it.
// ---------------------------------------------------------------------------

// calls whose error is by convention not looked at: writing text to a console
// or to memory.
func errExempt(name string) bool {
	switch {
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"):
		return true
	case strings.HasPrefix(name, "bytes.(Buffer).Write"), strings.HasPrefix(name, "strings.(Builder).Write"):
		return true
	}
	return false
}

func callName(w *World, c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke " + recvName(c.Value.Type()) + "." + c.Method.Name()
	}
	if f, _, _, _ := w.Callee(c, nil); f != nil {
		if b := boundMethod(f); b != "" {
			return b
		}
		return CalleeName(f)
	}
	return "call of " + w.Term(c.Value, nil)
}

type errDef struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	val  ssa.Value // nil when dropped outright
	name string
}

func collectErrDefs(w *World, fn *ssa.Function) []errDef {
	var out []errDef
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			sig := call.Common().Signature()
			ei := errIndex(sig)
			if _, isB := call.Common().Value.(*ssa.Builtin); isB || ei < 0 {
				continue
			}
			d := errDef{fn: fn, call: call, name: callName(w, call.Common())}
			if cv, ok := in.(*ssa.Call); ok {
				if sig.Results().Len() == 1 {
					d.val = cv
				} else if cv.Referrers() != nil {
					for _, r := range *cv.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == ei {
							d.val = e
						}
					}
				}
			}
			if d.val != nil && (d.val.Referrers() == nil || len(nonDebug(*d.val.Referrers())) == 0) {
				d.val = nil
			}
			out = append(out, d)
		}
	}
	return out
}

func nonDebug(rs []ssa.Instruction) []ssa.Instruction {
	var o []ssa.Instruction
	for _, r := range rs {
		if _, ok := r.(*ssa.DebugRef); !ok {
			o = append(o, r)
		}
	}
	return o
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// errTest recognises `carried == nil` / `!= nil`; it returns the successor
// index taken when the error is non nil.
func errTest(iff *ssa.If, carried map[ssa.Value]bool) (int, bool) {
	cond := iff.Cond
	flip := false
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond = u.X
			flip = !flip
			continue
		}
		break
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
		return 0, false
	}
	x, y := b.X, b.Y
	if isNilConst(x) {
		x, y = y, x
	}
	if !isNilConst(y) || !carried[x] {
		return 0, false
	}
	n := 0
	if b.Op == token.EQL {
		n = 1
	}
	if flip {
		n = 1 - n
	}
	return n, true
}

// predicateUse: the use only asks what the error is.
func isErrPredicate(w *World, c *ssa.CallCommon) bool {
	f, _, _, _ := w.Callee(c, nil)
	if f == nil {
		return false
	}
	n := CalleeName(f)
	if r := f.Signature.Results(); w.InModule(f) && r.Len() == 1 && basic(r.At(0).Type()) != nil && basic(r.At(0).Type()).Kind() == types.Bool {
		return true
	}
	switch n {
	case "errors.Is", "errors.As", "os.IsNotExist", "os.IsExist", "os.IsPermission":
		return true
	}
	return false
}

type errState struct {
	nonnil  bool   // the error is known to be non nil on this path
	handled string // sentinel the error was found equal to
	list    bool   // it was appended to a list that is carried
	good    string // other errors known to be non nil on this path
}

type errPath struct {
	kind string // "dropped", "swallowed", "late"
	at   ssa.Instruction
	msg  string
}

// followErr explores every path from the definition of an error.
func followErr(w *World, d errDef) *errPath {
	fn := d.fn
	sigErr := errIndex(fn.Signature)
	def := d.val.(ssa.Instruction)
	type node struct {
		b     *ssa.BasicBlock
		i     int
		key   string
		carry map[ssa.Value]bool
		st    errState
	}
	start := node{b: def.Block(), carry: map[ssa.Value]bool{d.val: true}}
	for i, in := range def.Block().Instrs {
		if in == def {
			start.i = i + 1
		}
	}
	seen := map[string]bool{}
	var result *errPath
	var step func(n node)
	step = func(n node) {
		if result != nil {
			return
		}
		carry := n.carry
		cells := map[ssa.Value]bool{}
		for v := range carry {
			if _, ok := v.(*ssa.Alloc); ok {
				cells[v] = true
			}
		}
		for i := n.i; i < len(n.b.Instrs); i++ {
			in := n.b.Instrs[i]
			if in == def && n.st.list && len(carry) > 0 {
				return // the list grows
			}
			if in == def {
				// produced again before anything was done with the first
				result = &errPath{"dropped", in, "the loop produces the next error before the previous one is looked at"}
				return
			}
			switch x := in.(type) {
			case *ssa.Return:
				if sigErr < 0 {
					result = &errPath{"dropped", in, "the function returns without looking at the error"}
					if n.st.nonnil {
						result = &errPath{"swallowed", in, "the error is known to be non-nil here and the function ends without using it"}
					}
					return
				}
				rv := x.Results[sigErr]
				if carriesErr(rv, carry) {
					return
				}
				if u, ok := rv.(*ssa.UnOp); ok && u.Op == token.MUL && cells[u.X] {
					return
				}
				if strings.Contains(n.st.good, "|"+rv.Name()+"|") {
					return // another error is reported
				}
				if n.st.nonnil && !isNilConst(rv) {
					// a different error is reported in its place
					if !mayBeNilErr(w, rv) {
						return
					}
					result = &errPath{"swallowed", in, "the error is known to be non-nil but the value returned in its place may be nil"}
					return
				}
				if n.st.nonnil {
					result = &errPath{"swallowed", in, "the error is known to be non-nil but the function returns nil"}
				} else {
					result = &errPath{"dropped", in, "a path to this return never looks at the error"}
				}
				return
			case *ssa.Panic:
				return
			case *ssa.Store:
				if carry[x.Val] {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						carry = cloneVals(carry)
						carry[al] = true
						cells[al] = true
						continue
					}
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
						if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
							carry = cloneVals(carry)
							carry[al] = true
							continue
						}
					}
					return // kept for later
				}
				if al, ok := x.Addr.(*ssa.Alloc); ok && cells[al] {
					// overwritten
					carry = cloneVals(carry)
					delete(carry, al)
					delete(cells, al)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && cells[x.X] {
					carry = cloneVals(carry)
					carry[x] = true
				}
			case *ssa.ChangeInterface:
				if carry[x.X] {
					carry = cloneVals(carry)
					carry[x] = true
				}
			case *ssa.TypeAssert:
				if carry[x.X] {
					if !x.CommaOk {
						return
					}
				}
			case *ssa.Extract:
				if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && carry[ta.X] && x.Index == 0 {
					carry = cloneVals(carry)
					carry[x] = true
				}
			case *ssa.MakeInterface:
				if carry[x.X] {
					carry = cloneVals(carry)
					carry[x] = true
				}
			case *ssa.Phi: // handled on the edge
			case *ssa.Slice:
				if carry[x.X] {
					carry = cloneVals(carry)
					carry[x] = true
				}
			case *ssa.MakeClosure:
				for _, bnd := range x.Bindings {
					if carry[bnd] {
						return
					}
				}
			case *ssa.MapUpdate:
				if carry[x.Value] {
					return
				}
			case *ssa.Send:
				if carry[x.X] {
					return
				}
			case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.RunDefers:
			case ssa.CallInstruction:
				c := x.Common()
				if cv, ok := x.(*ssa.Call); ok && isErrPredicate(w, c) && onlyBranches(cv) {
					continue
				}
				if c.IsInvoke() && carry[c.Value] {
					return
				}
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						for _, a := range c.Args {
							if carry[a] {
								carry = cloneVals(carry)
								carry[x.(*ssa.Call)] = true
								n.st.nonnil = true
								n.st.list = true
							}
						}
					}
					continue
				}
				if errExempt(callName(w, c)) {
					continue // printed, which is not reporting it
				}
				for _, a := range c.Args {
					if carry[a] {
						return
					}
				}
				if !n.st.nonnil && !errExempt(callName(w, c)) && errIndex(c.Signature()) >= 0 {
					if _, isDefer := x.(*ssa.Defer); !isDefer && in != d.call.(ssa.Instruction) && !cleanup(callName(w, c)) {
						result = &errPath{"late", in, fmt.Sprintf("%s runs before the error is looked at", callName(w, c))}
						return
					}
				}
			}
		}
		last := n.b.Instrs[len(n.b.Instrs)-1]
		nn := -1
		if iff, ok := last.(*ssa.If); ok {
			if k, ok := errTest(iff, carry); ok {
				nn = k
			} else if b, ok := iff.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (carry[b.X] || carry[b.Y]) {
				nn = -2 // compared with a sentinel
			} else if c, ok := iff.Cond.(*ssa.Call); ok && isErrPredicate(w, c.Common()) {
				for _, a := range c.Common().Args {
					if carry[a] {
						nn = -3
					}
				}
			} else if e, ok := iff.Cond.(*ssa.Extract); ok {
				if ta, ok := e.Tuple.(*ssa.TypeAssert); ok && carry[ta.X] {
					nn = -4
				}
			}
		}
		if iff, ok := last.(*ssa.If); ok && nn == -1 {
			if k, ok := lenTest(iff, carry); ok {
				nn = k
			}
		}
		for k, s := range n.b.Succs {
			st := n.st
			if nn >= 0 {
				if k != nn {
					if n.st.nonnil {
						continue
					}
					continue // nil: nothing left to do on this path
				}
				st.nonnil = true
			}
			if nn == -2 {
				iff := last.(*ssa.If)
				b := iff.Cond.(*ssa.BinOp)
				eq := (b.Op == token.EQL) == (k == 0)
				if eq {
					st.handled = "sentinel"
					o := b.X
					if carry[o] {
						o = b.Y
					}
					_ = o
					st.nonnil = true
					if sentinelOK(w, fn, w.Term(o, nil)) {
						continue
					}
				}
			}
			if nn == -3 && k == 1 {
				if sentinelOK(w, fn, "!"+callName(w, last.(*ssa.If).Cond.(*ssa.Call).Common())) {
					continue
				}
			}
			if nn == -3 && k == 0 {
				c := last.(*ssa.If).Cond.(*ssa.Call)
				st.nonnil = true
				s2 := callName(w, c.Common())
				if len(c.Common().Args) > 1 {
					s2 = w.Term(c.Common().Args[1], nil)
				}
				if sentinelOK(w, fn, s2) {
					continue
				}
			}
			if nn == -4 && k == 0 {
				st.nonnil = true
			}
			if iff, ok := last.(*ssa.If); ok {
				if v, kk := otherErrTest(iff); v != nil && kk == k && !carry[v] {
					st.good = addGood(st.good, v)
				}
				if k == 0 || k == 1 {
					if dashTest(iff) == k+1 && sentinelOK(w, fn, "dash") {
						continue
					}
				}
			}
			nc := map[ssa.Value]bool{}
			for v := range carry {
				nc[v] = true
			}
			// phis
			pi := predIndex(n.b, s)
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if strings.Contains(st.good, "|"+ph.Edges[pi].Name()+"|") {
					st.good = addGood(st.good, ph)
				}
				if carry[ph.Edges[pi]] {
					nc[ph] = true
				} else {
					delete(nc, ph)
				}
			}
			key := fmt.Sprint(s.Index, st, valsKey(nc))
			if seen[key] {
				continue
			}
			seen[key] = true
			step(node{b: s, carry: nc, st: st})
		}
	}
	step(start)
	return result
}

// otherErrTest: the branch tests some error against nil; k is the successor for non nil.
func otherErrTest(iff *ssa.If) (ssa.Value, int) {
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
		return nil, 0
	}
	x, y := b.X, b.Y
	if isNilConst(x) {
		x, y = y, x
	}
	if !isNilConst(y) || !isError(x.Type()) {
		return nil, 0
	}
	if b.Op == token.NEQ {
		return x, 0
	}
	return x, 1
}

// dashTest: a comparison of a character with '-'; returns 1+successor for equal.
func dashTest(iff *ssa.If) int {
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return 0
	}
	k, ok := b.Y.(*ssa.Const)
	if !ok {
		k, ok = b.X.(*ssa.Const)
	}
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() != '-' {
		return 0
	}
	switch b.Op {
	case token.EQL:
		return 1
	case token.NEQ:
		return 2
	}
	return 0
}

// onlyBranches: the boolean is only used to choose a path.
func onlyBranches(v *ssa.Call) bool {
	var rec func(v ssa.Value, d int) bool
	rec = func(v ssa.Value, d int) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.If, *ssa.DebugRef:
			case *ssa.UnOp:
				if d > 4 || !rec(x, d+1) {
					return false
				}
			case *ssa.Phi:
				if d > 4 || !rec(x, d+1) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return rec(v, 0)
}

func addGood(g string, v ssa.Value) string {
	k := "|" + v.Name() + "|"
	if strings.Contains(g, k) || len(g) > 400 {
		return g
	}
	parts := strings.Fields(strings.ReplaceAll(g+k, "||", "| |"))
	sortStrings(parts)
	return strings.Join(parts, "")
}

// closing what was opened goes on although an earlier step failed
func cleanup(n string) bool {
	return strings.HasSuffix(n, ".Close") || strings.HasSuffix(n, ".Flush")
}

// lenTest recognises a branch on the length of a list that holds the error: it
// returns the successor taken when the list has exactly one element.
func lenTest(iff *ssa.If, carried map[ssa.Value]bool) (int, bool) {
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	x, y, op := b.X, b.Y, b.Op
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && carried[c.Call.Args[0]]
	}
	one := constant.MakeInt64(1)
	var res bool
	if k, ok := y.(*ssa.Const); ok && isLen(x) && k.Value != nil {
		res = constant.Compare(one, op, k.Value)
	} else if k, ok := x.(*ssa.Const); ok && isLen(y) && k.Value != nil {
		res = constant.Compare(k.Value, op, one)
	} else {
		return 0, false
	}
	if res {
		return 0, true
	}
	return 1, true
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func cloneVals(m map[ssa.Value]bool) map[ssa.Value]bool {
	n := map[ssa.Value]bool{}
	for k := range m {
		n[k] = true
	}
	return n
}

func valsKey(m map[ssa.Value]bool) string {
	var o []string
	for v := range m {
		o = append(o, v.Name())
	}
	sortStrings(o)
	return strings.Join(o, ",")
}

func carriesErr(v ssa.Value, carry map[ssa.Value]bool) bool {
	for {
		if carry[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return false
		}
	}
}

// mayBeNilErr: could this returned value be a nil error?
func mayBeNilErr(w *World, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeInterface:
		return false
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok {
			return false // a sentinel
		}
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && isNilConst(e) {
				return true
			}
		}
		return false
	}
	return false
}

var _ = constant.Bool
var _ = types.Typ
