package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"
)

// Text of which something is known: a known beginning followed by unknown text
// (a word), of which it may be known that it is not empty, what it does not start
// with and what it does not contain.

type aPre struct {
	pre  string
	rest aSym
	t    types.Type
}

func (v aPre) str() string { return fmt.Sprintf("(%q + %s)", v.pre, v.rest.name) }

type wordFact struct {
	some  bool   // not empty
	first string // characters it does not start with
	none  string // characters it does not contain
}

var wordFacts = map[string]wordFact{}

// Word makes unknown text.
func Word(name string, f wordFact) AV {
	n := "word:" + name
	wordFacts[n] = f
	return aSym{name: n, t: types.Typ[types.String]}
}

// Pre is a known beginning followed by unknown text.
func Pre(pre string, v AV) AV { return aPre{pre, v.(aSym), types.Typ[types.String]} }

// word splits text in a known beginning and unknown rest.
func (s *aState) word(v AV) (aPre, bool) {
	switch x := s.norm(v).(type) {
	case aSym:
		_, ok := wordFacts[x.name]
		return aPre{"", x, x.t}, ok
	case aPre:
		return x, true
	}
	return aPre{}, false
}

func mkPre(p aPre) AV {
	if p.pre == "" {
		return aSym{name: p.rest.name, t: p.t, deps: p.rest.deps}
	}
	return p
}

func (s *aState) wordLen(v AV) (AV, bool) {
	p, ok := s.word(v)
	if !ok {
		return nil, false
	}
	n := "len(" + mkPre(p).str() + ")"
	lo := int64(len(p.pre))
	if wordFacts[p.rest.name].some {
		lo++
	}
	if s.lo[n] < lo {
		s.lo[n] = lo
	}
	return s.norm(aSym{name: n, t: types.Typ[types.Int], deps: []AV{p.rest}}), true
}

func (s *aState) wordAt(v, idx AV, t types.Type) (AV, bool) {
	p, ok := s.word(v)
	k, isK := s.norm(idx).(aConst)
	if !ok || !isK || k.v == nil {
		return nil, false
	}
	i64, _ := constant.Int64Val(k.v)
	i := int(i64)
	if i >= 0 && i < len(p.pre) {
		return KInt(int64(p.pre[i]), t), true
	}
	i -= len(p.pre)
	n := fmt.Sprintf("%s[%d]", p.rest.name, i)
	f := wordFacts[p.rest.name]
	not := f.none
	if i == 0 {
		not += f.first
	}
	if s.neq[n] == nil {
		s.neq[n] = map[string]bool{}
	}
	for _, c := range []byte(not) {
		s.neq[n][fmt.Sprint(c)] = true
	}
	return s.norm(aSym{name: n, t: t, deps: []AV{p.rest}}), true
}

func (s *aState) wordSlice(v AV, lo, hi int, hasHi bool) (AV, bool) {
	p, ok := s.word(v)
	if !ok || lo < 0 || lo > len(p.pre) {
		return nil, false
	}
	if hasHi {
		if hi < lo || hi > len(p.pre) {
			return nil, false
		}
		return aConst{constant.MakeString(p.pre[lo:hi]), p.t}, true
	}
	p.pre = p.pre[lo:]
	return mkPre(p), true
}

func (s *aState) wordEq(x, y AV) (AV, bool) {
	if _, ok := s.norm(x).(aConst); ok {
		x, y = y, x
	}
	p, ok := s.word(x)
	if !ok {
		return nil, false
	}
	k, ok := s.norm(y).(aConst)
	if !ok {
		q, ok := s.word(y)
		if !ok || p.rest.name != q.rest.name {
			return nil, false
		}
		if p.pre == q.pre {
			return KBool(true), true
		}
		return KBool(false), len(p.pre) != len(q.pre)
	}
	if k.v == nil || k.v.Kind() != constant.String {
		return nil, false
	}
	t := constant.StringVal(k.v)
	if !strings.HasPrefix(t, p.pre) {
		return KBool(false), true
	}
	t = t[len(p.pre):]
	f := wordFacts[p.rest.name]
	if t == "" && f.some || t != "" && strings.IndexByte(f.first, t[0]) >= 0 || strings.ContainsAny(t, f.none) {
		return KBool(false), true
	}
	if p.pre == "" {
		return nil, false
	}
	return s.binop(token.EQL, p.rest, KStr(t), types.Typ[types.Bool]), true
}

func (s *aState) wordAdd(x, y AV, t types.Type) (AV, bool) {
	q, ok := s.word(y)
	if !ok {
		return nil, false
	}
	k, ok := s.norm(x).(aConst)
	if !ok || k.v == nil || k.v.Kind() != constant.String {
		return nil, false
	}
	return mkPre(aPre{constant.StringVal(k.v) + q.pre, q.rest, t}), true
}

// wordFold decides functions of text of which the beginning is known.
func (s *aState) wordFold(n string, args []AV) (AV, bool) {
	if len(args) == 0 {
		return nil, false
	}
	p, ok := s.word(args[0])
	if !ok {
		return nil, false
	}
	f := wordFacts[p.rest.name]
	if n == "unicode/utf8.DecodeRuneInString" && len(args) == 1 && utf8.FullRuneInString(p.pre) {
		r, size := utf8.DecodeRuneInString(p.pre)
		return aTuple{KInt(int64(r), types.Typ[types.Rune]), KInt(int64(size), types.Typ[types.Int])}, true
	}
	if n == "strings.SplitN" && len(args) == 3 {
		if k, ok := s.norm(args[2]).(aConst); !ok || k.v == nil || k.v.String() != "2" {
			return nil, false
		}
	} else if len(args) != 2 {
		return nil, false
	}
	k, ok := s.norm(args[1]).(aConst)
	if !ok || k.v == nil {
		return nil, false
	}
	sep := ""
	switch k.v.Kind() {
	case constant.String:
		sep = constant.StringVal(k.v)
	case constant.Int:
		i, _ := constant.Int64Val(k.v)
		sep = string(rune(i))
	default:
		return nil, false
	}
	// does it start with sep?
	starts := func() (bool, bool) {
		if strings.HasPrefix(p.pre, sep) {
			return true, true
		}
		if !strings.HasPrefix(sep, p.pre) {
			return false, true
		}
		r := sep[len(p.pre):]
		if strings.IndexByte(f.first, r[0]) >= 0 || strings.ContainsAny(r, f.none) {
			return false, true
		}
		return false, false
	}
	// where is it?  (only for one character: it cannot extend over the two parts)
	at := func() (int, bool) {
		if len(sep) != 1 {
			return 0, false
		}
		if i := strings.Index(p.pre, sep); i >= 0 {
			return i, true
		}
		return -1, strings.Contains(f.none, sep)
	}
	switch n {
	case "strings.HasPrefix":
		r, ok := starts()
		return KBool(r), ok
	case "strings.TrimPrefix", "strings.CutPrefix":
		r, ok := starts()
		if !ok {
			return nil, false
		}
		v := s.norm(args[0])
		if r {
			v, _ = s.wordSlice(v, len(sep), 0, false)
		}
		if n == "strings.CutPrefix" {
			return aTuple{v, KBool(r)}, true
		}
		return v, true
	case "strings.IndexRune", "strings.IndexByte", "strings.Index":
		i, ok := at()
		return KInt(int64(i), types.Typ[types.Int]), ok
	case "strings.Contains", "strings.ContainsRune":
		i, ok := at()
		return KBool(i >= 0), ok
	case "strings.Cut":
		i, ok := at()
		if !ok {
			return nil, false
		}
		if i < 0 {
			return aTuple{s.norm(args[0]), KStr(""), KBool(false)}, true
		}
		v, _ := s.wordSlice(args[0], i+1, 0, false)
		return aTuple{KStr(p.pre[:i]), v, KBool(true)}, true
	case "strings.SplitN":
		i, ok := at()
		if !ok {
			return nil, false
		}
		t := types.NewSlice(types.Typ[types.String])
		if i < 0 {
			return s.Slice(t, s.norm(args[0])), true
		}
		v, _ := s.wordSlice(args[0], i+1, 0, false)
		return s.Slice(t, KStr(p.pre[:i]), v), true
	case "strings.TrimLeft":
		for _, c := range sep {
			if !strings.ContainsRune(f.first, c) && !strings.ContainsRune(f.none, c) {
				return nil, false
			}
		}
		return mkPre(aPre{strings.TrimLeft(p.pre, sep), p.rest, p.t}), true
	case "strings.IndexAny", "strings.ContainsAny":
		i := strings.IndexAny(p.pre, sep)
		if i < 0 {
			for _, c := range sep {
				if !strings.ContainsRune(f.none, c) {
					return nil, false
				}
			}
		}
		if n == "strings.ContainsAny" {
			return KBool(i >= 0), true
		}
		return KInt(int64(i), types.Typ[types.Int]), true
	case "strings.LastIndex", "strings.LastIndexByte":
		if len(sep) == 1 && strings.Contains(f.none, sep) {
			return KInt(int64(strings.LastIndex(p.pre, sep)), types.Typ[types.Int]), true
		}
	}
	return nil, false
}

// textConv converts between text and its characters.
func (s *aState) textConv(v AV, t types.Type) (AV, bool) {
	v = s.norm(v)
	if sl, ok := t.Underlying().(*types.Slice); ok {
		b := basic(sl.Elem())
		if b == nil || b.Kind() != types.Rune && b.Kind() != types.Byte {
			return nil, false
		}
		pre := ""
		var tail []AV
		if k, ok := v.(aConst); ok && k.v != nil && k.v.Kind() == constant.String {
			pre = constant.StringVal(k.v)
		} else if p, ok := v.(aPre); ok {
			pre = p.pre
			tail = []AV{aSym{name: "conv[" + TypeStr(t) + "](" + p.rest.name + ")", t: t, deps: []AV{p.rest}}}
		} else {
			return nil, false
		}
		var es []AV
		if b.Kind() == types.Rune {
			for _, r := range pre {
				es = append(es, KInt(int64(r), sl.Elem()))
			}
		} else {
			for i := 0; i < len(pre); i++ {
				es = append(es, KInt(int64(pre[i]), sl.Elem()))
			}
		}
		r := s.Slice(t, es...)
		r.tail = tail
		return r, true
	}
	if sl, ok := v.(aSlice); ok && isString(t) {
		et, ok := sl.t.Underlying().(*types.Slice)
		b := (*types.Basic)(nil)
		if ok {
			b = basic(et.Elem())
		}
		if b == nil || b.Kind() != types.Rune && b.Kind() != types.Byte {
			return nil, false
		}
		es, _ := s.Elems(sl)
		pre := ""
		for _, e := range es {
			k, ok := s.norm(e).(aConst)
			if !ok || k.v == nil {
				return nil, false
			}
			i, _ := constant.Int64Val(k.v)
			if b.Kind() == types.Rune {
				pre += string(rune(i))
			} else {
				pre += string([]byte{byte(i)})
			}
		}
		switch len(sl.tail) {
		case 0:
			return aConst{constant.MakeString(pre), t}, true
		case 1:
			if y, ok := s.norm(sl.tail[0]).(aSym); ok && len(y.deps) == 1 && y.name == "conv["+TypeStr(sl.t)+"]("+y.deps[0].str()+")" {
				if p, ok := s.word(y.deps[0]); ok {
					return mkPre(aPre{pre + p.pre, p.rest, t}), true
				}
			}
		}
	}
	return nil, false
}
