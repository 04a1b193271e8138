package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C08",
		Explanation: "Every loop over a map is found, with everything in it that depends on the entry at hand; whatever leaves the loop in the order of iteration (a result, the first error, a list, text that is written) has to be put in an order first. Every comparison that lists are sorted by is interpreted with unknown elements, both ways round.",
		Rules: []RuleDoc{
			{"loop", "nothing leaves a loop over a map in the order of iteration", 8},
			{"keys", "keys and values of a map are put in an order", 0},
			{"chance", "nothing random is used", 5},
			{"sort", "a comparison does not put each of two elements before the other", 8},
		},
		Run: ruleDet})
}

func fakePkg(f *ssa.Function) bool {
	p := pkgOf(f)
	return strings.HasSuffix(p, "fakes")
}

func ruleDet(c *Ctx) {
	w := c.W
	for _, f := range w.Funcs {
		if fakePkg(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if n, ok := in.(*ssa.Next); ok && !n.IsString {
					if r, ok := n.Iter.(*ssa.Range); ok {
						if _, ok := r.X.Type().Underlying().(*types.Map); ok {
							c.mapLoop(f, n, r)
						}
					}
				}
				if call, ok := in.(*ssa.Call); ok {
					switch callName(w, call.Common()) {
					case "maps.Keys", "maps.Values", "maps.All":
						c.mapSeq(f, call)
					}
				}
			}
		}
	}
	c.comparisons()
	random := map[string]string{}
	w.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		p := pkgOf(f)
		if fakePkg(f) {
			return
		}
		if _, ok := random[p]; !ok {
			random[p] = ""
		}
		if com, g := calleeOf(in); com != nil && g != nil {
			if n := CalleeName(g); strings.Contains(n, "/rand.") || strings.Contains(n, "/rand/v2.") {
				random[p] = n + " is called (" + w.InstrPos(in) + ")"
			}
		}
	})
	for p, bad := range random {
		c.That(bad == "", "chance", "package "+p, p, "%s", bad)
	}
}

// loopBlocks are the blocks of the loop with the header h.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var up func(b *ssa.BasicBlock)
	up = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			up(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			up(p)
		}
	}
	return in
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// depend gives the values within blocks that depend on the given ones.
func depend(blocks map[*ssa.BasicBlock]bool, from ...ssa.Value) (map[ssa.Value]bool, map[*ssa.Alloc]bool) {
	d := map[ssa.Value]bool{}
	cells := map[*ssa.Alloc]bool{}
	for _, v := range from {
		if v != nil {
			d[v] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for b := range blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if a := rootAlloc(st.Addr); a != nil && blocks[a.Block()] && (d[st.Val] || d[st.Addr]) && !cells[a] {
						cells[a] = true
						changed = true
					}
					continue
				}
				v, ok := in.(ssa.Value)
				if !ok || d[v] {
					continue
				}
				if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
					if a := rootAlloc(u.X); a != nil && cells[a] {
						d[v] = true
						changed = true
						continue
					}
				}
				if sl, ok := v.(*ssa.Slice); ok {
					if a := rootAlloc(sl.X); a != nil && cells[a] {
						d[v] = true
						changed = true
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil && d[*op] {
						d[v] = true
						changed = true
						break
					}
				}
			}
		}
	}
	return d, cells
}

func (c *Ctx) mapLoop(f *ssa.Function, n *ssa.Next, r *ssa.Range) {
	w := c.W
	h := n.Block()
	loop := loopBlocks(h)
	var k, v ssa.Value
	for _, ref := range *n.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok {
			switch e.Index {
			case 1:
				k = e
			case 2:
				v = e
			}
		}
	}
	key := FName(f) + ": " + describeMap(r.X)
	where := w.InstrPos(r)
	body := map[*ssa.BasicBlock]bool{}
	for b := range loop {
		if b != h {
			body[b] = true
		}
	}
	// and where it is left for a return
	wide := map[*ssa.BasicBlock]bool{}
	for b := range body {
		for _, g := range f.Blocks {
			if b.Dominates(g) {
				wide[g] = true
			}
		}
	}
	d, _ := depend(wide, k, v)
	bad := ""
	// results that leave it early
	equal := func(b *ssa.BasicBlock) bool {
		for g := range loop {
			i, ok := g.Instrs[len(g.Instrs)-1].(*ssa.If)
			if !ok || g == h {
				continue
			}
			if call, ok := i.Cond.(*ssa.Call); ok && len(call.Call.Args) == 2 {
				switch callName(w, call.Common()) {
				case "strings.EqualFold", "bytes.Equal", "bytes.EqualFold", "slices.Equal", "maps.Equal":
					if t := g.Succs[0]; len(t.Preds) == 1 && t.Dominates(b) && d[call.Call.Args[0]] != d[call.Call.Args[1]] {
						return true
					}
				}
			}
			q, ok := i.Cond.(*ssa.BinOp)
			if !ok || q.Op != token.EQL && q.Op != token.NEQ {
				continue
			}
			if d[q.X] == d[q.Y] || isNilConst(q.X) || isNilConst(q.Y) {
				continue
			}
			t := g.Succs[0]
			if q.Op == token.NEQ {
				t = g.Succs[1]
			}
			if len(t.Preds) == 1 && t.Dominates(b) {
				return true
			}
		}
		return false
	}
	global := false
	if u, ok := r.X.(*ssa.UnOp); ok && u.Op == token.MUL {
		_, global = u.X.(*ssa.Global)
	}
	for b := range body {
		// a return in the body is outside of the loop in terms of its blocks
		for _, s := range b.Succs {
			if loop[s] {
				continue
			}
			for _, res := range exitValues(b, s) {
				if !d[res] || isBool(res.Type()) || equal(s) || equal(b) {
					continue
				}
				if global && isErrorType(res.Type()) {
					continue // of a fixed table
				}
				bad = fmt.Sprintf("the result is from the first of the entries for which this is so (%s): it depends on the order of iteration", w.InstrPos(lastInstr(s)))
			}
		}
	}
	// what is stored as it is left early
	for b := range wide {
		if loop[b] || equal(b) {
			continue
		}
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && d[st.Val] && !isBool(st.Val.Type()) && rootAlloc(st.Addr) == nil && !d[st.Addr] {
				bad = fmt.Sprintf("what is stored is from the first of the entries for which this is so (%s): it depends on the order of iteration", w.InstrPos(st))
			}
		}
	}
	// what is collected
	sorted := func(is func(ssa.Value) bool) bool { return w.sortedLater(f, loop, is) }
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range phi.Edges {
			if !loop[h.Preds[i]] || !h.Dominates(h.Preds[i]) {
				continue
			}
			if isErrorType(phi.Type()) && usedAfter(phi, loop) && !global && kept(e, phi, d, map[ssa.Value]bool{}) {
				bad = "which error is kept depends on the order of iteration"
			}
			if !collects(e, phi, d, map[ssa.Value]bool{}) {
				continue
			}
			same := func(x ssa.Value) bool { return x == phi }
			if !usedAfter(phi, loop) || sorted(same) || w.sortedByCallers(f, phi) {
				continue
			}
			if isString(phi.Type()) {
				bad = "text is put together in the order of iteration"
			} else {
				bad = "a list is in the order of iteration"
			}
		}
	}
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				// elements by number
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && d[x.Val] && !d[ia.Index] {
					base := ia.X
					if bi, ok := base.(ssa.Instruction); ok && loop[bi.Block()] {
						continue
					}
					same := func(v ssa.Value) bool { return v == base }
					if !sorted(same) && !w.sortedByCallers(f, base) {
						bad = "a list is in the order of iteration"
					}
				}
				// appended to a variable
				if ap := appendTo(x.Val); ap != nil {
					if u, ok := ap.Call.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL && u.X == x.Addr && d[ap] {
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok && d[fa.X] {
							continue // of the entry itself
						}
						if a := rootAlloc(x.Addr); a != nil && loop[a.Block()] {
							continue
						}
						same := func(v ssa.Value) bool {
							l, ok := v.(*ssa.UnOp)
							return ok && l.Op == token.MUL && sameAddr(l.X, x.Addr)
						}
						if !sorted(same) {
							bad = "a list is in the order of iteration"
						}
					}
				}
			case *ssa.Call:
				name := callName(w, x.Common())
				if !writes(name) {
					continue
				}
				dep := false
				for _, a := range x.Common().Args {
					dep = dep || d[a]
				}
				var to ssa.Value
				if x.Common().IsInvoke() {
					to = x.Common().Value
				} else if len(x.Common().Args) > 0 {
					to = x.Common().Args[0]
				}
				if a := rootAlloc(strip(to)); a != nil && loop[a.Block()] || d[to] {
					continue
				}
				if dep {
					bad = "text is written in the order of iteration (" + w.InstrPos(x) + ")"
				}
			}
		}
	}
	c.That(bad == "", "loop", key, where, "%s", bad)
}

func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

func writes(name string) bool {
	for _, s := range []string{"fmt.Fprint", "fmt.Print", "io.WriteString"} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	for _, s := range []string{".Write", ".WriteString", ".WriteRune", ".WriteByte", ".Print", ".Printf", ".Println"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}

func isBool(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction { return b.Instrs[len(b.Instrs)-1] }

func describeMap(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Global:
			return a.Name()
		case *ssa.FieldAddr:
			return fieldName(a.X.Type(), a.Field)
		}
	case *ssa.FreeVar:
		return x.Name()
	}
	return "a map"
}

// exitValues are the values which leave by an edge: results and what is joined there.
func exitValues(from, to *ssa.BasicBlock) []ssa.Value {
	var out []ssa.Value
	for i := 0; i < 4; i++ {
		for _, in := range to.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				for i, p := range to.Preds {
					if p == from {
						out = append(out, x.Edges[i])
					}
				}
			case *ssa.Return:
				out = append(out, x.Results...)
			}
		}
		j, ok := lastInstr(to).(*ssa.Jump)
		if !ok || len(to.Preds) > 1 {
			break
		}
		from, to = to, j.Block().Succs[0]
	}
	return out
}

func appendTo(v ssa.Value) *ssa.Call {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return nil
	}
	return call
}

// collects: v is the carried value with something appended that depends on the entry.
func collects(v ssa.Value, carried *ssa.Phi, d map[ssa.Value]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	based := func(x ssa.Value) bool { return carries(x, carried, map[ssa.Value]bool{}) }
	switch x := v.(type) {
	case *ssa.Phi:
		if x == carried {
			return false
		}
		for _, e := range x.Edges {
			if collects(e, carried, d, seen) {
				return true
			}
		}
	case *ssa.Call:
		if ap := appendTo(x); ap != nil && based(ap.Call.Args[0]) {
			return d[ap.Call.Args[1]] || collects(ap.Call.Args[0], carried, d, seen)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			return (based(x.X) && depOther(x.Y, carried, d)) || (based(x.Y) && depOther(x.X, carried, d)) || collects(x.X, carried, d, seen) || collects(x.Y, carried, d, seen)
		}
	}
	return false
}

// kept: v is a value of an entry that replaces the carried one.
func kept(v ssa.Value, carried *ssa.Phi, d map[ssa.Value]bool, seen map[ssa.Value]bool) bool {
	if v == carried || seen[v] {
		return false
	}
	seen[v] = true
	if x, ok := v.(*ssa.Phi); ok {
		for _, e := range x.Edges {
			if kept(e, carried, d, seen) {
				return true
			}
		}
		return false
	}
	if call, ok := v.(*ssa.Call); ok {
		for _, a := range call.Call.Args {
			if a == carried {
				return false
			}
		}
	}
	return d[v]
}

func depOther(v ssa.Value, _ *ssa.Phi, d map[ssa.Value]bool) bool { return d[v] }

func carries(v ssa.Value, to *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == to {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if carries(e, to, seen) {
				return true
			}
		}
	case *ssa.Call:
		if ap := appendTo(x); ap != nil {
			return carries(ap.Call.Args[0], to, seen)
		}
	case *ssa.BinOp:
		return x.Op == token.ADD && (carries(x.X, to, seen) || carries(x.Y, to, seen))
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && sameAddr(x.X, y.X)
}

// usedAfter: the value is used outside of the loop (other than for its length).
func usedAfter(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	for _, r := range *v.Referrers() {
		if loop[r.Block()] {
			continue
		}
		if call, ok := r.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				continue
			}
			if g, ok := call.Call.Value.(*ssa.Function); ok {
				switch CalleeName(g) {
				case "slices.Min", "slices.Max", "slices.Contains":
					continue // the same for any order
				}
			}
		}
		return true
	}
	return false
}

func sorts(name string) bool {
	switch name {
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "sort.Float64s",
		"slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc":
		return true
	}
	return false
}

// sortedLater: what the function is true of is sorted outside of the loop.
func (w *World) sortedLater(f *ssa.Function, loop map[*ssa.BasicBlock]bool, is func(ssa.Value) bool) bool {
	for _, b := range f.Blocks {
		if loop[b] {
			continue
		}
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g, ok := call.Call.Value.(*ssa.Function)
			if !ok || !(sorts(CalleeName(g)) || w.sorterOf(g)) {
				continue
			}
			for _, a := range call.Call.Args {
				hit := false
				var from func(a ssa.Value, n int)
				from = func(a ssa.Value, n int) {
					w.origins(a, func(v ssa.Value, _ bool) bool {
						if is(v) {
							hit = true
						}
						if call, ok := v.(*ssa.Call); ok && n > 0 && !hit {
							switch callName(w, call.Common()) {
							case "slices.Clone", "slices.Values", "slices.Compact", "slices.Concat", "slices.Clip", "slices.AppendSeq":
							default:
								if appendTo(call) == nil {
									return hit
								}
							}
							for _, x := range call.Call.Args {
								from(x, n-1)
							}
						}
						return hit
					})
				}
				from(a, 4)
				if hit || is(a) {
					return true
				}
			}
		}
	}
	return false
}

// sorterOf: a function of the module that sorts what it is given.
func (w *World) sorterOf(g *ssa.Function) bool {
	if !w.InModule(g) || len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if h, ok := call.Call.Value.(*ssa.Function); ok && sorts(CalleeName(h)) {
					return true
				}
			}
		}
	}
	return false
}

// sortedByCallers: the value is the result of an internal function, and each caller sorts it.
func (w *World) sortedByCallers(f *ssa.Function, v ssa.Value) bool {
	if f.Object() == nil || f.Object().Exported() {
		return false
	}
	returned := false
	for _, b := range f.Blocks {
		if r, ok := lastInstr(b).(*ssa.Return); ok {
			for _, x := range r.Results {
				if x == v {
					returned = true
				}
			}
		}
	}
	if !returned {
		return false
	}
	cs := w.Callers(f)
	for _, call := range cs {
		cv, ok := call.(ssa.Value)
		if !ok || !w.sortedLater(call.Parent(), nil, func(x ssa.Value) bool { return x == cv }) {
			return false
		}
	}
	return len(cs) > 0
}

// mapSeq: the iterator over a map.
func (c *Ctx) mapSeq(f *ssa.Function, call *ssa.Call) {
	w := c.W
	bad := ""
	var use func(v ssa.Value)
	use = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.ChangeType:
				use(x)
			case *ssa.MakeInterface:
				use(x)
			case *ssa.Call:
				if x.Call.Value == v {
					// a loop over it
					c.seqBody(f, call, x)
					continue
				}
				switch callName(w, x.Common()) {
				case "slices.Collect":
					is := func(y ssa.Value) bool { return y == ssa.Value(x) }
					if usedAfter(x, nil) && !w.sortedLater(f, nil, is) && !w.sortedByCallers(f, x) {
						bad = "a list is in the order of iteration"
					}
				case "slices.AppendSeq":
					is := func(y ssa.Value) bool { return y == ssa.Value(x) }
					if usedAfter(x, nil) && !w.sortedLater(f, nil, is) && !w.sortedByCallers(f, x) {
						bad = "a list is in the order of iteration"
					}
				}
			}
		}
	}
	use(call)
	c.That(bad == "", "keys", FName(f)+": "+callName(w, call.Common()), w.InstrPos(call), "%s", bad)
}

// seqBody: the body of a loop over an iterator over a map is a function.
func (c *Ctx) seqBody(f *ssa.Function, seq, loop *ssa.Call) {
	w := c.W
	if len(loop.Call.Args) != 1 {
		return
	}
	mc, ok := loop.Call.Args[0].(*ssa.MakeClosure)
	if !ok {
		return
	}
	g := mc.Fn.(*ssa.Function)
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range g.Blocks {
		all[b] = true
	}
	var ps []ssa.Value
	for _, p := range g.Params {
		ps = append(ps, p)
	}
	d, _ := depend(all, ps...)
	bad := ""
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !d[st.Val] {
				continue
			}
			fv, ok := st.Addr.(*ssa.FreeVar)
			if !ok {
				continue
			}
			var cell ssa.Value
			for i, x := range g.FreeVars {
				if x == fv {
					cell = mc.Bindings[i]
				}
			}
			ap := appendTo(st.Val)
			if ap == nil {
				if isErrorType(st.Val.Type()) {
					bad = "the first error depends on the order of iteration"
				}
				continue
			}
			is := func(y ssa.Value) bool {
				l, ok := y.(*ssa.UnOp)
				return ok && l.Op == token.MUL && l.X == cell
			}
			if !w.sortedLater(f, nil, is) {
				bad = "a list is in the order of iteration"
			}
		}
	}
	c.That(bad == "", "loop", FName(f)+": "+callName(w, seq.Common()), w.InstrPos(seq), "%s", bad)
}

// comparisons that lists are sorted by
func (c *Ctx) comparisons() {
	w := c.W
	seen := map[*ssa.Function]bool{}
	fnOf := func(v ssa.Value) *ssa.Function {
		switch x := v.(type) {
		case *ssa.Function:
			return x
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		case *ssa.ChangeType:
			if f, ok := x.X.(*ssa.Function); ok {
				return f
			}
		}
		return nil
	}
	w.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		com, g := calleeOf(in)
		if com == nil || g == nil || fakePkg(f) {
			return
		}
		var cmp *ssa.Function
		method := false
		switch CalleeName(g) {
		case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
			cmp = fnOf(com.Args[1])
		case "slices.SortedFunc", "slices.SortedStableFunc", "slices.MinFunc", "slices.MaxFunc":
			cmp = fnOf(com.Args[1])
		case "sort.Sort", "sort.Stable":
			w.origins(com.Args[0], func(v ssa.Value, _ bool) bool {
				if mi, ok := v.(*ssa.MakeInterface); ok {
					if m := w.method(mi.X.Type(), "Less"); m != nil {
						cmp, method = m, true
					}
					return true
				}
				return false
			})
		default:
			return
		}
		if cmp != nil && cmp.Origin() != nil && len(cmp.Blocks) == 0 {
			cmp = cmp.Origin()
		}
		if cmp == nil || !w.InModule(cmp) || len(cmp.Blocks) == 0 || seen[cmp] {
			return
		}
		seen[cmp] = true
		bad := c.consistent(cmp, method)
		c.That(bad == "", "sort", FName(cmp), w.Pos(cmp.Pos()), "%s", bad)
	})
}

func (c *Ctx) consistent(f *ssa.Function, method bool) string {
	w := c.W
	o := AOpts{Models: true, Depth: 8, Forks: 4, Keeps: func(string) bool { return true }, Pure: func(string) bool { return true }}
	n := 0
	if method {
		n = 1
	}
	if len(f.Params) != n+2 {
		return ""
	}
	var args []AV
	if method {
		args = append(args, aSym{name: "list", t: f.Params[0].Type(), nonNil: true})
	}
	x := aSym{name: "x", t: f.Params[n].Type(), nonNil: true}
	y := aSym{name: "y", t: f.Params[n].Type(), nonNil: true}
	first := func(p APath) (bool, bool) {
		if p.Panicked || len(p.Ret) != 1 {
			return false, false
		}
		k, ok := p.St.norm(p.Ret[0]).(aConst)
		if !ok || k.v == nil {
			return false, false
		}
		if b, ok := isTrue(k); ok {
			return b, true
		}
		i, ok := constInt(k.v)
		return i < 0, ok
	}
	one := func(a, b AV, from *APath) []APath {
		o := o
		if from != nil {
			o.Setup = func(st *aState) {
				t := from.St.clone()
				st.bindS, st.nn, st.neq, st.lo, st.hi = t.bindS, t.nn, t.neq, t.lo, t.hi
				st.mem, st.tfact = t.mem, t.tfact
			}
		}
		ps, ok := w.Interp(f, append(append([]AV(nil), args...), a, b), o)
		dbgPaths(f, ps, ok)
		if !ok {
			return nil
		}
		return ps
	}
	for _, p := range c.decideRet(one(x, y, nil)) {
		p := p
		lt, ok := first(p)
		if !ok || !lt {
			continue
		}
		for _, q := range c.decideRet(one(y, x, &p)) {
			if lt, ok := first(q); ok && lt {
				return "each of two elements may be before the other: the order depends on the one they were in"
			}
		}
	}
	for _, p := range c.decideRet(one(x, x, nil)) {
		if lt, ok := first(p); ok && lt {
			return "an element is before itself"
		}
	}
	return ""
}

// decideRet splits paths whose result is a condition by what it may be.
func (c *Ctx) decideRet(ps []APath) []APath {
	var out []APath
	for _, p := range ps {
		if p.Panicked || len(p.Ret) != 1 {
			continue
		}
		r := p.St.norm(p.Ret[0])
		if y, ok := r.(aSym); ok && isBool(y.t) {
			for _, pol := range []bool{true, false} {
				q := p
				q.St = p.St.clone()
				if q.St.assume(y, pol) {
					q.Ret = []AV{KBool(pol)}
					out = append(out, q)
				}
			}
			continue
		}
		out = append(out, p)
	}
	return out
}
