package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
}

func loopsOf(f *ssa.Function) []*Loop {
	byHeader := map[*ssa.BasicBlock]*Loop{}
	var out []*Loop
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byHeader[h]
			if l == nil {
				l = &Loop{h, map[*ssa.BasicBlock]bool{h: true}}
				byHeader[h] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.Body[x] {
					continue
				}
				l.Body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

// inner reports whether a block belongs to a loop nested in l.
func (l *Loop) inner(all []*Loop, b *ssa.BasicBlock) *Loop {
	for _, m := range all {
		if m != l && l.Body[m.Header] && m.Body[b] {
			return m
		}
	}
	return nil
}

// IterPath is one way through an iteration of a loop.
type IterPath struct {
	Blocks []*ssa.BasicBlock
	Facts  FactSet
	Exit   *ssa.BasicBlock // where the loop was left, nil if the next iteration starts
}

// iterPaths enumerates the ways through one iteration, inner loops being
// entered at most once.
func (w *World) iterPaths(l *Loop, env *Env, visit func(IterPath)) bool {
	n := 0
	var rec func(b *ssa.BasicBlock, trail []*ssa.BasicBlock, facts FactSet, cnt map[int]int) bool
	rec = func(b *ssa.BasicBlock, trail []*ssa.BasicBlock, facts FactSet, cnt map[int]int) bool {
		if cnt[b.Index] >= 2 {
			return true
		}
		trail = append(trail[:len(trail):len(trail)], b)
		cnt[b.Index]++
		defer func() { cnt[b.Index]-- }()
		if len(b.Succs) == 0 {
			n++
			visit(IterPath{trail, facts, b})
			return n < 4096
		}
		for _, s := range b.Succs {
			ef := FactSet{}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				cond := w.phiOnPath(iff.Cond, trail)
				if c, ok := cond.(*ssa.Const); ok {
					if (c.Value.String() == "true") != (b.Succs[0] == s) {
						continue
					}
				} else {
					ef = w.CondFacts(cond, b.Succs[0] == s, env, 0)
				}
			}
			if cnt[b.Index] == 1 && contradicts(ef, facts) {
				continue
			}
			nf := facts.add(ef)
			if s == l.Header || !l.Body[s] {
				n++
				e := s
				if s == l.Header {
					e = nil
				}
				visit(IterPath{trail, nf, e})
				if n > 4096 {
					return false
				}
				continue
			}
			if !rec(s, trail, nf, cnt) {
				return false
			}
		}
		return true
	}
	return rec(l.Header, nil, FactSet{}, map[int]int{})
}

// elementLoads reports whether the path has picked up an element already.
func picksElement(blocks []*ssa.BasicBlock) bool {
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr, *ssa.Lookup, *ssa.Index:
				return true
			case *ssa.Extract:
				if _, ok := x.Tuple.(*ssa.Next); ok && x.Index > 0 {
					return true
				}
			}
		}
	}
	return false
}

// visitSpec says what it is to visit an element and when it may be left out.
type visitSpec struct {
	Visit func(call ssa.CallInstruction, env *Env) bool
	Skip  func(facts FactSet) bool
	Instr func(in ssa.Instruction, env *Env) bool // an instruction that counts as a visit
}

// visits reports whether every way through f that does not fail visits, or is
// entitled to skip. some: at least one way visits.
func (w *World) visits(f *ssa.Function, env *Env, sp visitSpec, depth int) (all, some bool) {
	all = true
	ok := w.Paths(f.Blocks[0], env, 3000, func(p Path) {
		if p.Ret == nil {
			return
		}
		if w.pathVisits(p.Blocks, env, sp, depth) {
			some = true
			return
		}
		if sp.Skip != nil && sp.Skip(p.Facts) {
			return
		}
		if ei := errIndex(f.Signature); ei >= 0 && ei < len(p.Ret.Results) {
			r := w.resultOnPath(p.Ret, ei, p.Blocks)
			if freshError(r) || errKnownNonNilEnv(w, r, p.Facts, env) {
				return
			}
		}
		all = false
	})
	return all && ok, some
}

func (w *World) pathVisits(blocks []*ssa.BasicBlock, env *Env, sp visitSpec, depth int) bool {
	for _, b := range blocks {
		for _, in := range b.Instrs {
			if sp.Instr != nil && sp.Instr(in, env) {
				return true
			}
			call, ok := in.(ssa.CallInstruction)
			if !ok || sp.Visit == nil {
				continue
			}
			if _, isGo := in.(*ssa.Go); isGo {
				continue
			}
			if sp.Visit(call, env) {
				return true
			}
			if depth <= 0 {
				continue
			}
			if g, ne := w.Enter(call, env); g != nil && w.InModule(g) && len(g.Blocks) > 0 {
				if all, some := w.visits(g, ne, sp, depth-1); all && some {
					return true
				}
			}
		}
	}
	return false
}

func errKnownNonNilEnv(w *World, v ssa.Value, facts FactSet, env *Env) bool {
	return facts[neg(normBin(eql, w.Term(v, env), "nil"))] || errKnownNonNil(w, v, facts)
}

// checkLoop decides whether a loop visits every element of what it runs over.
// It returns "" or what is wrong.
func (w *World) checkLoop(l *Loop, env *Env, sp visitSpec) string {
	f := l.Header.Parent()
	bad := ""
	ok := w.iterPaths(l, env, func(p IterPath) {
		if bad != "" {
			return
		}
		visited := w.pathVisits(p.Blocks, env, sp, 2)
		last := p.Blocks[len(p.Blocks)-1]
		if p.Exit == nil {
			if !visited && (sp.Skip == nil || !sp.Skip(p.Facts)) {
				bad = "an element can be passed over (way through " + w.Pos(posOfBlock(last)) + ")"
			}
			return
		}
		if !picksElement(p.Blocks) && !visited {
			return // the collection is exhausted
		}
		if l.Header == last {
			return
		}
		// the loop is left early: only with an error
		ei := errIndex(f.Signature)
		if _, panics := last.Instrs[len(last.Instrs)-1].(*ssa.Panic); panics && p.Exit == last {
			return
		}
		check := func(r *ssa.Return, blocks []*ssa.BasicBlock, facts FactSet) {
			if ei < 0 || ei >= len(r.Results) {
				bad = "the loop is left before all elements were visited (" + w.InstrPos(r) + ")"
				return
			}
			v := w.resultOnPath(r, ei, blocks)
			if freshError(v) || errKnownNonNilEnv(w, v, facts, env) {
				return
			}
			bad = "the loop is left before all elements were visited, without an error (" + w.InstrPos(r) + ")"
		}
		if p.Exit == last {
			if r, ok := last.Instrs[len(last.Instrs)-1].(*ssa.Return); ok {
				check(r, p.Blocks, p.Facts)
			}
			return
		}
		w.Paths(p.Exit, env, 500, func(q Path) {
			if q.Ret == nil {
				return
			}
			check(q.Ret, append(append([]*ssa.BasicBlock{}, p.Blocks...), q.Blocks...), p.Facts.add(q.Facts))
		})
	})
	if !ok {
		return "too many ways through the loop to decide"
	}
	if bad == "" {
		bad = badBounds(l)
	}
	return bad
}

func posOfBlock(b *ssa.BasicBlock) (p tokenPos) {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if q := b.Instrs[i].Pos(); q.IsValid() {
			return q
		}
	}
	return b.Parent().Pos()
}

// badBounds recognises loops over the indices of a slice that leave out an end.
func badBounds(l *Loop) string {
	for _, in := range l.Header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		if b := basic(p.Type()); b == nil || b.Info()&types.IsInteger == 0 {
			continue
		}
		used := false
		for _, r := range *p.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok && ia.Index == ssa.Value(p) {
				used = true
			}
		}
		if !used {
			continue
		}
		var start ssa.Value
		step := int64(0)
		for i, e := range p.Edges {
			if l.Body[l.Header.Preds[i]] {
				if b, ok := e.(*ssa.BinOp); ok {
					if c, ok := b.Y.(*ssa.Const); ok && b.X == ssa.Value(p) {
						if k, exact := constant.Int64Val(c.Value); exact {
							switch b.Op.String() {
							case "+":
								step = k
							case "-":
								step = -k
							}
						}
					}
				}
			} else {
				start = e
			}
		}
		if step == 0 || start == nil {
			continue
		}
		if step != 1 && step != -1 {
			return "the index advances by more than one"
		}
		if c, ok := start.(*ssa.Const); ok && step == 1 {
			if k, _ := constant.Int64Val(c.Value); k > 0 {
				return "the first elements are left out"
			}
		}
		if b, ok := start.(*ssa.BinOp); ok && step == -1 && b.Op.String() == "-" {
			if c, ok := b.Y.(*ssa.Const); ok {
				if k, _ := constant.Int64Val(c.Value); k > 1 {
					return "the last elements are left out"
				}
			}
		}
		if iff, ok := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If); ok {
			if c, ok := iff.Cond.(*ssa.BinOp); ok {
				if k, isC := c.Y.(*ssa.Const); isC && c.X == ssa.Value(p) && step == -1 {
					n, _ := constant.Int64Val(k.Value)
					if (c.Op.String() == ">" && n >= 0) || (c.Op.String() == ">=" && n >= 1) {
						return "the first elements are left out"
					}
				}
				if b, isB := c.Y.(*ssa.BinOp); isB && c.X == ssa.Value(p) && step == 1 && c.Op.String() == "<" && b.Op.String() == "-" {
					return "the last elements are left out"
				}
			}
		}
	}
	return ""
}

// loopElem is the type of the elements a loop runs over, judged by the slice
// elements it picks up itself (not in a nested loop).
func (w *World) loopElems(l *Loop, all []*Loop) []string {
	m := map[string]bool{}
	for b := range l.Body {
		if l.inner(all, b) != nil {
			continue
		}
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if s, ok := ia.X.Type().Underlying().(*types.Slice); ok {
					m[TypeStr(s.Elem())] = true
				}
			}
		}
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func hasPrefixFact(fs FactSet, prefix string) bool {
	for f := range fs {
		if strings.HasPrefix(f, prefix) {
			return true
		}
	}
	return false
}
