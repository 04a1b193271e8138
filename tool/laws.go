package main

import (
	"fmt"
	"go/types"
	"strings"
)

// A law is a small function of unknown values that has to return true, whatever they are:
// it says what the functions of the package give in terms of what they are given.
type law struct {
	rule, key, body string
}

// The unknown values which laws are about.
const lawParams = "v, w, x, u, d string, e, e2 error, i, j int, yes, yes2 bool, any1, any2 any"

func lawSource(ls []law) string {
	var b strings.Builder
	for n, l := range ls {
		body := l.body
		if !strings.Contains(body, "return ") {
			body = "return " + body
		}
		fmt.Fprintf(&b, "func Law%d(%s) bool {\n%s\n}\n", n, lawParams, body)
	}
	return b.String()
}

func lawArgs() []AV {
	any := types.Universe.Lookup("any").Type()
	err := types.Universe.Lookup("error").Type()
	return []AV{
		Word("v", wordFact{some: true, first: "-"}),
		Word("w", wordFact{some: true, first: "-"}),
		Word("x", wordFact{some: true, first: "-"}),
		Word("u", wordFact{}),
		Pre("-", Word("d", wordFact{some: true, first: "-"})),
		aSym{name: "e", t: err, nonNil: true}, aSym{name: "e2", t: err, nonNil: true},
		aSym{name: "i", t: types.Typ[types.Int]}, aSym{name: "j", t: types.Typ[types.Int]},
		aSym{name: "yes", t: types.Typ[types.Bool]}, aSym{name: "yes2", t: types.Typ[types.Bool]},
		aSym{name: "any1", t: any, nonNil: true}, aSym{name: "any2", t: any, nonNil: true},
	}
}

// lawful decides laws; where is the place that each is about.
func (c *Ctx) lawful(w *World, ls []law, where string, o AOpts) {
	for n, l := range ls {
		f := w.SSA["driver"].Func(fmt.Sprintf("Law%d", n))
		o := o
		o.Models, o.Reenter = true, true
		if o.Depth == 0 {
			o.Depth = 24
		}
		if o.Forks == 0 {
			o.Forks = 4
		}
		if o.MaxSteps == 0 {
			o.MaxSteps = 400000
		}
		ps, ok := w.Interp(f, lawArgs(), o)
		dbgPaths(f, ps, ok)
		bad := ""
		if !ok || len(ps) == 0 {
			bad = "this cannot be decided"
		}
		for _, p := range ps {
			if p.Panicked {
				bad = "there is a panic"
				if p.Last != nil {
					bad += " at " + w.InstrPos(p.Last)
				}
				break
			}
			t, known := isTrue(p.St.norm(p.Ret[0]))
			if !known {
				bad = "this depends on " + p.St.norm(p.Ret[0]).str()
				break
			}
			if !t {
				bad = "this is not the case"
				break
			}
		}
		c.That(bad == "", l.rule, l.key, where, "%s: %s", l.key, bad)
	}
}

// bufferModels keep the text of buffers; a driver that has them imports bytes and strings
// and calls resetBuffers first.
const bufferModels = `
var (
	bufs map[*bytes.Buffer]string
	sbs  map[*strings.Builder]string
)

func mBufString(b *bytes.Buffer) string { return bufs[b] }
func mBufLen(b *bytes.Buffer) int       { return len(bufs[b]) }
func mBufWrite(b *bytes.Buffer, s string) (int, error) { bufs[b] = bufs[b] + s; return len(s), nil }
func mBufByte(b *bytes.Buffer, c byte) error { bufs[b] = bufs[b] + string(c); return nil }
func mSbString(b *strings.Builder) string { return sbs[b] }
func mSbLen(b *strings.Builder) int       { return len(sbs[b]) }
func mSbWrite(b *strings.Builder, s string) (int, error) { sbs[b] = sbs[b] + s; return len(s), nil }
func mSbByte(b *strings.Builder, c byte) error { sbs[b] = sbs[b] + string(c); return nil }
func mBufRune(b *bytes.Buffer, c rune) (int, error) { bufs[b] = bufs[b] + string(c); return 1, nil }
func mSbRune(b *strings.Builder, c rune) (int, error) { sbs[b] = sbs[b] + string(c); return 1, nil }
func mBufReset(b *bytes.Buffer) { bufs[b] = "" }
func mSbReset(b *strings.Builder) { sbs[b] = "" }
func mBufGrow(b *bytes.Buffer, n int) {}
func mSbGrow(b *strings.Builder, n int) {}


func resetBuffers() { bufs, sbs = map[*bytes.Buffer]string{}, map[*strings.Builder]string{} }
`

var bufferNames = map[string]string{
	"bytes.(Buffer).String": "mBufString", "bytes.(Buffer).Len": "mBufLen", "bytes.(Buffer).WriteString": "mBufWrite", "bytes.(Buffer).WriteByte": "mBufByte",
	"bytes.(Buffer).WriteRune": "mBufRune", "bytes.(Buffer).Reset": "mBufReset", "bytes.(Buffer).Grow": "mBufGrow",
	"strings.(Builder).WriteRune": "mSbRune", "strings.(Builder).Reset": "mSbReset", "strings.(Builder).Grow": "mSbGrow",
	"strings.(Builder).String": "mSbString", "strings.(Builder).Len": "mSbLen", "strings.(Builder).WriteString": "mSbWrite", "strings.(Builder).WriteByte": "mSbByte",
}

// sortModels sort by the comparison that is given; a driver that has them imports cli.
const sortModels = `
// how things are sorted
func mOnesCount(x uint) int {
	n := 0
	for ; x != 0; x >>= 1 {
		n += int(x & 1)
	}
	return n
}
func mSortSlice(x any, less func(i, j int) bool) {
	switch k := x.(type) {
	case []uint:
		for i := 1; i < len(k); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				k[j], k[j-1] = k[j-1], k[j]
			}
		}
	case []int:
		for i := 1; i < len(k); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				k[j], k[j-1] = k[j-1], k[j]
			}
		}
	case []*cli.Flag:
		for i := 1; i < len(k); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				k[j], k[j-1] = k[j-1], k[j]
			}
		}
	case []*cli.Command:
		for i := 1; i < len(k); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				k[j], k[j-1] = k[j-1], k[j]
			}
		}
	default:
		panic("another kind of list")
	}
}
func mSortAll(x interface {
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
}) {
	for i := 1; i < x.Len(); i++ {
		for j := i; j > 0 && x.Less(j, j-1); j-- {
			x.Swap(j, j-1)
		}
	}
}
func mSortFunc(k []uint, cmp func(a, b uint) int) {
	for i := 1; i < len(k); i++ {
		for j := i; j > 0 && cmp(k[j], k[j-1]) < 0; j-- {
			k[j], k[j-1] = k[j-1], k[j]
		}
	}
}
func mSort(k []uint) {
	for i := 1; i < len(k); i++ {
		for j := i; j > 0 && k[j] < k[j-1]; j-- {
			k[j], k[j-1] = k[j-1], k[j]
		}
	}
}
`

var sortNames = map[string]string{"sort.Slice": "mSortSlice", "sort.SliceStable": "mSortSlice", "slices.SortFunc": "mSortFunc", "slices.SortStableFunc": "mSortFunc", "slices.Sort": "mSort", "math/bits.OnesCount": "mOnesCount"}
