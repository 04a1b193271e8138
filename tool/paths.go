package main

import (
	"golang.org/x/tools/go/ssa"
)

// Path is one acyclic way through a function, with what must hold along it.
type Path struct {
	Blocks []*ssa.BasicBlock
	Facts  FactSet
	Ret    *ssa.Return // nil when the path ends in a panic
}

// Paths enumerates the feasible ways from block b to the exits. Branches whose
// condition contradicts an earlier one are not followed; a block is entered at
// most twice. ok is false if there are too many.
func (w *World) Paths(b *ssa.BasicBlock, env *Env, max int, visit func(Path)) (ok bool) {
	n := 0
	var rec func(b *ssa.BasicBlock, trail []*ssa.BasicBlock, facts FactSet, cnt map[int]int) bool
	rec = func(b *ssa.BasicBlock, trail []*ssa.BasicBlock, facts FactSet, cnt map[int]int) bool {
		if cnt[b.Index] >= 2 {
			return true
		}
		trail = append(trail[:len(trail):len(trail)], b)
		if len(b.Succs) == 0 {
			n++
			if n > max {
				return false
			}
			p := Path{trail, facts, nil}
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				p.Ret = r
			}
			visit(p)
			return true
		}
		cnt[b.Index]++
		defer func() { cnt[b.Index]-- }()
		for _, s := range b.Succs {
			ef := FactSet{}
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				cond := w.phiOnPath(iff.Cond, trail)
				if c, ok := cond.(*ssa.Const); ok {
					if (c.Value.String() == "true") != (b.Succs[0] == s) {
						continue
					}
				} else {
					ef = w.CondFacts(cond, b.Succs[0] == s, env, 0)
				}
			}
			if cnt[b.Index] == 1 && contradicts(ef, facts) {
				continue
			}
			if !rec(s, trail, facts.add(ef), cnt) {
				return false
			}
		}
		return true
	}
	return rec(b, nil, FactSet{}, map[int]int{})
}

// phiOnPath resolves a merged value to the one that came along this path.
func (w *World) phiOnPath(v ssa.Value, trail []*ssa.BasicBlock) ssa.Value {
	for i := 0; i < 8; i++ {
		p, ok := v.(*ssa.Phi)
		if !ok {
			return v
		}
		found := false
		for j := len(trail) - 1; j > 0; j-- {
			if trail[j] == p.Block() {
				pi := predIndex(trail[j-1], trail[j])
				if pi >= 0 {
					v = p.Edges[pi]
					found = true
				}
				break
			}
		}
		if !found {
			return v
		}
	}
	return v
}

// resultOnPath is what a return hands back along a path, looking through the
// cells that hold results in functions with deferred calls.
func (w *World) resultOnPath(r *ssa.Return, i int, blocks []*ssa.BasicBlock) ssa.Value {
	v := w.phiOnPath(r.Results[i], blocks)
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op.String() != "*" {
		return v
	}
	al, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	var last ssa.Value
	for _, b := range blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
				last = w.phiOnPath(st.Val, blocks)
			}
		}
	}
	if last == nil {
		return v
	}
	return last
}
