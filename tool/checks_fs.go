package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C12",
		Explanation: "Each operation of each file system, and of a file, is interpreted with unknown arguments: on every path it either performs the one operation of that name on the underlying file system or operating system, with its own arguments in their places, and returns that result; or performs nothing and returns an error. The operations on the name dash are checked to use the standard streams and nothing else, and only for that name. Every method by which a context-bound file transfers data is checked to ask the context first.",
		Rules: []RuleDoc{
			{"op", "an operation performs the operation of its name with its own arguments", 45},
			{"dash", "dash and only dash stands for the standard streams", 4},
			{"stream", "reading reads the input, writing writes the output", 4},
			{"context", "data transfer asks the context first", 5},
			{"set", "every file of a set is visited, in order", 4},
			{"root", "a relative name is below the directory, an absolute one is itself", 8},
			{"create", "creating truncates, opening does not", 2},
		},
		Run: ruleFS})
}

// fsTypes lists the file systems of the module.
func (w *World) fsTypes() (*types.Interface, []types.Type) {
	n := w.Type("cli", "FS")
	if n == nil {
		return nil, nil
	}
	it := n.Underlying().(*types.Interface)
	var out []types.Type
	pk := w.SSA[modPath]
	sc := pk.Pkg.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), it) {
			out = append(out, tn.Type())
		} else if types.Implements(types.NewPointer(tn.Type()), it) {
			out = append(out, types.NewPointer(tn.Type()))
		}
	}
	return it, out
}

// fsOp is an operation performed by a path.
type fsOp struct {
	name string
	args []AV
	ev   AEvent
	sys  bool
}

func (w *World) fsOps(p *APath, names map[string]bool) []fsOp {
	var out []fsOp
	for _, e := range p.Events {
		if e.Store != nil {
			continue
		}
		n := e.Name()
		last := n[strings.LastIndex(n, ".")+1:]
		if i := strings.IndexByte(last, '('); i >= 0 {
			last = last[:i]
		}
		switch {
		case strings.HasPrefix(e.Method, "invoke:") && names[last] && e.Recv != nil && !strings.Contains(e.Method, "context"):
			out = append(out, fsOp{last, e.Args, e, false})
		case strings.HasPrefix(n, "os.") && !strings.Contains(n, "(") && names[last]:
			out = append(out, fsOp{last, e.Args, e, true})
		case e.Fn != nil && e.Fn.Pkg != nil && e.Fn.Pkg.Pkg.Path() == "io/fs" && names[last] && len(e.Args) > 0:
			out = append(out, fsOp{last, e.Args[1:], e, false})
		}
	}
	return out
}

var createFlags = "578" // O_RDWR|O_CREATE|O_TRUNC

func ruleFS(c *Ctx) {
	w := c.W
	it, kinds := w.fsTypes()
	if len(kinds) == 0 {
		c.Missing("op", "file systems")
		return
	}
	names := map[string]bool{}
	for i := 0; i < it.NumMethods(); i++ {
		names[it.Method(i).Name()] = true
	}
	var std types.Type // the type that stands for the standard streams
	for _, t := range kinds {
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			f := w.method(t, m.Name())
			if f == nil || !w.InModule(f) && f.Synthetic == "" {
				continue
			}
			c.fsMethod(f, TypeStr(t)+"."+m.Name(), m.Name(), names, "")
		}
		if s, ok := deref(t).Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				if ms := w.Prog.MethodSets.MethodSet(ft); ms.Lookup(nil, "Read") != nil && ms.Lookup(nil, "Write") != nil {
					std = ft
					c.fsDash(t, ft, s.Field(i).Name(), it, names)
				}
			}
		}
	}
	if std == nil {
		c.Missing("dash", "what stands for the standard streams")
	} else {
		c.fsStreams(std)
	}
	// a file
	if ft := w.Type("cli", "File"); ft != nil {
		ms := w.Prog.MethodSets.MethodSet(types.NewPointer(ft))
		for i := 0; i < ms.Len(); i++ {
			n := ms.At(i).Obj().Name()
			if names[n] {
				c.fsMethod(w.method(types.NewPointer(ft), n), "File."+n, n, names, "*f.Name")
			}
		}
	} else {
		c.Missing("op", "files")
	}
	c.fsContext()
	c.fsSet()
	for _, t := range kinds {
		if b := basic(t); b != nil && b.Info()&types.IsString != 0 {
			c.fsRoot(t, it)
		}
	}
}

// fsRoot: names below a directory.
func (c *Ctx) fsRoot(t types.Type, it *types.Interface) {
	w := c.W
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		f := w.method(t, m.Name())
		if f == nil {
			continue
		}
		bad := ""
		for _, abs := range []bool{true, false} {
			args := []AV{aConst{constant.MakeString("base"), t}}
			var in []string
			for i, p := range f.Params[1:] {
				a := AV(aSym{name: fmt.Sprintf("a%d", i), t: p.Type(), nonNil: true})
				if b := basic(p.Type()); b != nil && b.Info()&types.IsString != 0 {
					s := fmt.Sprintf("s/n%d", i)
					if abs {
						s = "/" + s
					}
					a = KStr(s)
					in = append(in, s)
				}
				args = append(args, a)
			}
			rs, ok := w.Interp(f, args, AOpts{Models: true})
			if !ok || len(rs) == 0 {
				bad = "it could not be interpreted"
			}
			for _, p := range rs {
				if p.Panicked {
					bad = "it panics"
				}
				for _, e := range p.Events {
					if !strings.HasPrefix(e.Name(), "os.") {
						continue
					}
					k := 0
					for _, a := range e.Args {
						at := typeOfAV(a)
						if at == nil {
							continue
						}
						b := basic(at)
						if b == nil || b.Info()&types.IsString == 0 || k >= len(in) {
							continue
						}
						want, k0 := fmt.Sprintf("%q", in[k]), k
						k++
						a = p.St.norm(a)
						if abs {
							if a.str() != want {
								bad = "an absolute name becomes " + a.str()
							}
						} else if k, ok := a.(aConst); ok {
							if k.v == nil || path.Clean(constant.StringVal(k.v)) != "base/"+in[k0] {
								bad = "a relative name becomes " + a.str()
							}
						} else if !p.St.derives(a, func(v AV) bool { return v.str() == `"base"` }) || !p.St.derives(a, func(v AV) bool { return v.str() == want }) {
							bad = "a relative name becomes " + a.str()
						}
					}
				}
			}
		}
		c.That(bad == "", "root", TypeStr(t)+"."+m.Name(), w.Pos(f.Pos()), "%s", bad)
	}
}

// fsSet: the files of a set.
func (c *Ctx) fsSet() {
	w := c.W
	fs := w.Type("cli", "FileSet")
	if fs == nil {
		c.Missing("set", "file sets")
		return
	}
	t := types.NewPointer(fs)
	for _, rec := range []bool{false, true} {
		f := w.method(t, "Do")
		if f == nil {
			c.Missing("set", "FileSet.Do")
			break
		}
		rs, ok := w.Interp(f, []AV{aSym{name: "set", t: t, nonNil: true}, aSym{name: "fn", t: f.Params[1].Type(), nonNil: true}}, AOpts{Models: true, Reenter: true, Forks: 5,
			Result: func(e *AEvent, st *aState) (AV, bool) {
				if strings.HasPrefix(e.Method, "dyn:") && len(e.Args) == 2 && !rec {
					if q, ok := st.norm(e.Args[0]).(aPtr); ok {
						// what is visited is given to user code, so it is read now
						name := st.norm(st.load(aPtr{obj: q.obj, path: q.path + ".Name"}, types.Typ[types.String])).str()
						return aSym{name: "visit " + name, t: errorType}, true
					}
				}
				return nil, false
			},
			Setup: func(st *aState) { w.putFileSet(st, "*set", rec) }})
		dbgPaths(f, rs, ok)
		bad, done := "", 0
		if !ok || len(rs) == 0 {
			bad = "it could not be interpreted"
		}
		for _, p := range rs {
			if p.Panicked {
				bad = "it panics: " + p.PanicVal.str()
				continue
			}
			var got []string
			failed, after := "", false
			for _, e := range p.Events {
				name := ""
				switch {
				case e.Res != nil && strings.HasPrefix(e.Res.str(), "visit "):
					name = strings.TrimPrefix(e.Res.str(), "visit ")
					if !isNilAV(p.St.norm(e.Args[1])) {
						bad = "an error is made up"
					}
				case rec && e.Fn != nil && CalleeName(e.Fn) == "io/fs.WalkDir":
					name = p.St.norm(e.Args[1]).str()
				default:
					continue
				}
				if failed != "" {
					after = true
				}
				got = append(got, name)
				if !isNilAV(p.St.norm(e.Res)) {
					failed = p.St.norm(e.Res).str()
				}
			}
			g := strings.Join(got, " ")
			switch all := `"x" "y" "z"`; {
			case after:
				bad = "it goes on after an error"
			case failed == "" && g != all, !strings.HasPrefix(all, g):
				bad = "it visits " + g
			case failed == "" && !isNilAV(p.St.norm(p.Ret[0])), failed != "" && p.St.norm(p.Ret[0]).str() != failed:
				bad = "it returns " + p.St.norm(p.Ret[0]).str()
			}
			if failed == "" || len(got) == 3 {
				done++
			}
		}
		if done == 0 && bad == "" {
			bad = "it always fails"
		}
		c.That(bad == "", "set", fmt.Sprintf("FileSet.Do, recursive=%v", rec), w.Pos(f.Pos()), "%s", bad)
	}
	if f := w.method(t, "Exists"); f == nil {
		c.Missing("set", "FileSet.Exists")
	} else {
		rs, ok := w.Interp(f, []AV{aSym{name: "set", t: t, nonNil: true}}, AOpts{Models: true, Forks: 5,
			Setup: func(st *aState) { w.putFileSet(st, "*set", false) }})
		dbgPaths(f, rs, ok)
		bad, yes, no := "", 0, 0
		if !ok || len(rs) == 0 {
			bad = "it could not be interpreted"
		}
		for _, p := range rs {
			seen := map[string]bool{}
			for _, e := range p.Events {
				for _, a := range e.Args {
					if k, ok := constOf(p.St, a); ok && strings.HasSuffix(e.Name(), ".Stat") {
						seen[k] = true
					}
					for _, n := range []string{"x", "y", "z"} {
						if strings.HasSuffix(e.Name(), "Stat") && p.St.derives(a, func(v AV) bool { return v.str() == fmt.Sprintf("%q", n) }) {
							seen[n] = true
						}
					}
				}
			}
			v, known := isTrue(p.St.norm(p.Ret[0]))
			if len(seen) == 0 && len(p.Events) > 0 {
				continue // the file system cannot say
			}
			switch {
			case p.Panicked || !known:
				bad = "its result is " + p.St.norm(p.Ret[0]).str()
			case v && !(seen["x"] && seen["y"] && seen["z"]):
				bad = fmt.Sprintf("it reports that all exist having looked at %d of 3", len(seen))
			case v:
				yes++
			default:
				no++
			}
		}
		if bad == "" && (yes == 0 || no == 0) {
			bad = "its result is always the same"
		}
		c.That(bad == "", "set", "FileSet.Exists", w.Pos(f.Pos()), "%s", bad)
	}
	if f := w.method(t, "Set"); f == nil {
		c.Missing("set", "FileSet.Set")
	} else {
		rs, ok := w.Interp(f, []AV{aSym{name: "set", t: t, nonNil: true}, KStr("w")}, AOpts{Models: true,
			Setup: func(st *aState) { w.putFileSet(st, "*set", false) }})
		bad := ""
		if !ok || len(rs) == 0 {
			bad = "it could not be interpreted"
		}
		for _, p := range rs {
			es, _ := p.St.Elems(p.St.load(aPtr{obj: "*set", path: ".Files"}, types.NewSlice(types.Typ[types.String])))
			var g []string
			for _, e := range es {
				g = append(g, p.St.norm(e).str())
			}
			if x := strings.Join(g, " "); p.Panicked || x != `"x" "y" "z" "w"` || !isNilAV(p.St.norm(p.Ret[0])) {
				bad = "the set becomes " + x
			}
		}
		c.That(bad == "", "set", "FileSet.Set", w.Pos(f.Pos()), "%s", bad)
	}
}

func (w *World) putFileSet(st *aState, obj string, rec bool) {
	s := w.Type("cli", "FileSet").Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch t := f.Type(); {
		case types.Identical(t, types.Typ[types.Bool]):
			st.store(aPtr{obj: obj, path: "." + f.Name()}, KBool(rec))
		case types.Identical(t.Underlying(), types.NewSlice(types.Typ[types.String])):
			st.store(aPtr{obj: obj, path: "." + f.Name()}, st.namedSlice("*files", t, KStr("x"), KStr("y"), KStr("z")))
		}
	}
}

// fsMethod decides one operation; name is what its first path argument is when
// the method is that of a file.
func (c *Ctx) fsMethod(f *ssa.Function, key, op string, names map[string]bool, name string) {
	w := c.W
	where := w.Pos(f.Pos())
	recv := aSym{name: "f", t: f.Params[0].Type(), nonNil: true}
	args := []AV{recv}
	var want []AV // the arguments that must arrive
	var ctx AV
	if name != "" {
		want = append(want, aSym{name: name, t: types.Typ[types.String]})
	}
	for i, p := range f.Params[1:] {
		a := AV(aSym{name: fmt.Sprintf("a%d", i), t: p.Type(), nonNil: true})
		args = append(args, a)
		if TypeStr(p.Type()) == "context.Context" {
			ctx = a
			continue
		}
		want = append(want, a)
	}
	rs, ok := w.Interp(f, args, AOpts{Models: true, Depth: 12})
	dbgPaths(f, rs, ok)
	bad, did, create := "", 0, ""
	if !ok || len(rs) == 0 {
		bad = "it could not be interpreted"
	}
	for _, p := range rs {
		if v, k := p.holds(`"-"`, "a0"); k && v {
			continue // see dash
		}
		if v, k := p.holds(`"-"`, name); name != "" && k && v {
			continue
		}
		if a, ok := args[len(args)-1].(aSym); ok && p.St.norm(a).str() == `"-"` {
			continue
		}
		if p.Panicked {
			bad = "it panics: " + p.PanicVal.str()
			continue
		}
		ops := w.fsOps(&p, names)
		err := p.St.norm(p.Ret[len(p.Ret)-1])
		if len(ops) == 0 {
			if isNilAV(err) {
				bad = "it reports success having done nothing"
			}
			continue
		}
		if len(ops) > 1 {
			bad = fmt.Sprintf("it performs %s and %s", ops[0].name, ops[1].name)
			continue
		}
		o := ops[0]
		exp := want
		switch {
		case o.name == op:
		case op == "Open" && o.name == "OpenContext":
		case op == "OpenContext" && o.name == "Open":
			// without the context only where that is all there is
			if cc := callOf(o.ev); cc != nil && !o.sys && cc.IsInvoke() {
				if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						if it.Method(i).Name() == op {
							bad = "it opens the file without the context"
						}
					}
				}
			}
		case op == "Create" && o.name == "OpenFile":
			exp = append(append([]AV(nil), want...), nil, nil)
			fl, mode := "", ""
			if n := len(o.args); n >= 2 {
				fl, mode = p.St.norm(o.args[n-2]).str(), p.St.norm(o.args[n-1]).str()
			}
			if fl != createFlags || mode != "438" {
				create = "it opens with flags " + fl + " and permissions " + mode
			}
		default:
			bad = "it performs " + o.name
			continue
		}
		did++
		got := o.args
		if len(got) > 0 && typeIsContext(got[0], &o) {
			if ctx != nil && !isSym(ctx.(aSym).name)(p.St.norm(got[0])) {
				bad = "it is not given the context"
			}
			got = got[1:]
		}
		if len(got) != len(exp) {
			bad = fmt.Sprintf("it is given %d arguments", len(got))
			continue
		}
		for i, x := range exp {
			if x == nil {
				continue
			}
			g := p.St.norm(got[i])
			same := g.str() == x.str() || g.str() == p.St.norm(x).str()
			if b := basic(x.(aSym).t); !same && b != nil && b.Info()&types.IsString != 0 && o.sys {
				// a path may be made absolute
				same = p.St.derives(g, func(v AV) bool { return v.str() == x.str() })
				for j, y := range exp {
					if j != i && y != nil && p.St.derives(g, func(v AV) bool { return v.str() == y.str() }) {
						same = false
					}
				}
			}
			if !same {
				bad = fmt.Sprintf("argument %d is %s", i+1, g.str())
			}
		}
		// the result is the operation's
		for i, r := range p.Ret {
			r = p.St.norm(r)
			if len(p.Ret) > 1 && i < len(p.Ret)-1 && !isNilAV(err) && !w.fromOp(&p, err, &o) {
				continue
			}
			if isNilAV(r) {
				// nil where the operation's own error is known to be nil, or no file with an error
				e := o.ev.Res
				if tp, isT := e.(aTuple); isT {
					e = tp[len(tp)-1]
				}
				if i == len(p.Ret)-1 && !isNilAV(p.St.norm(e)) {
					bad = "its error is dropped"
				}
				if i < len(p.Ret)-1 && isNilAV(err) {
					bad = "its result is dropped"
				}
				continue
			}
			if !w.fromOp(&p, r, &o) {
				bad = "it returns " + r.str()
			}
		}
	}
	if did == 0 && bad == "" {
		bad = "it is never performed"
	}
	c.That(bad == "", "op", key, where, "%s", bad)
	if op == "Create" {
		c.That(create == "", "create", key, where, "%s", create)
	}
}

func typeIsContext(v AV, o *fsOp) bool {
	if o.name == "OpenContext" {
		return true
	}
	return false
}

func (w *World) fromOp(p *APath, v AV, o *fsOp) bool {
	is := func(x AV) bool {
		if x.str() == o.ev.Res.str() {
			return true
		}
		if tp, ok := o.ev.Res.(aTuple); ok {
			for _, y := range tp {
				if x.str() == y.str() {
					return true
				}
			}
		}
		return false
	}
	if p.St.derives(v, is) {
		return true
	}
	v = p.St.norm(v)
	if i, ok := v.(aIface); ok {
		v = p.St.norm(i.v)
	}
	if q, ok := v.(aPtr); ok {
		if r := p.St.mem[q.obj]; r != nil {
			for _, x := range r.cells {
				if p.St.derives(x, is) {
					return true
				}
			}
		}
	}
	return false
}

// fsDash: the operations on "-" and only those use the streams.
func (c *Ctx) fsDash(t, std types.Type, fld string, it *types.Interface, names map[string]bool) {
	w := c.W
	for _, op := range []string{"Open", "OpenContext", "OpenFile", "Create", "Stat"} {
		f := w.method(t, op)
		if f == nil {
			continue
		}
		flags := []int64{-1}
		if op == "OpenFile" {
			flags = []int64{0, 1 | 0o1100, 2 | 0o100, 2 | 0o2000, -1}
		}
		for _, flag := range flags {
			dash := flag >= 0 || op != "OpenFile"
			c.fsDashOne(t, fld, f, op, flag, dash, names)
			if op != "OpenFile" {
				c.fsDashOne(t, fld, f, op, flag, false, names)
			}
		}
	}
}

func (c *Ctx) fsDashOne(t types.Type, fld string, f *ssa.Function, op string, flag int64, dash bool, names map[string]bool) {
	w := c.W
	var args []AV
	recv := AV(aSym{name: "f", t: f.Params[0].Type(), nonNil: true})
	args = append(args, recv)
	for i, p := range f.Params[1:] {
		a := AV(aSym{name: fmt.Sprintf("a%d", i), t: p.Type(), nonNil: true})
		if b := basic(p.Type()); b != nil && b.Info()&types.IsString != 0 {
			if dash {
				a = KStr("-")
			} else {
				a = KStr("--")
			}
		} else if b != nil && b.Kind() == types.Int && flag >= 0 {
			a = aConst{constant.MakeInt64(flag), p.Type()}
		}
		args = append(args, a)
	}
	rs, ok := w.Interp(f, args, AOpts{Models: true, Depth: 12})
	dbgPaths(f, rs, ok)
	bad := ""
	if !ok || len(rs) == 0 {
		bad = "it could not be interpreted"
	}
	hits := 0
	for _, p := range rs {
		if p.Panicked {
			bad = "it panics: " + p.PanicVal.str()
			continue
		}
		none := false
		for k, v := range p.St.bindS {
			if y, kn := isTrue(v); kn && y && strings.Contains(k, "nil") && strings.Contains(k, "."+fld) && strings.Contains(k, "==") && !strings.HasPrefix(k, "!") {
				none = true
			}
			if isNilAV(v) && strings.HasSuffix(k, "."+fld) {
				none = true
			}
		}
		ops := w.fsOps(&p, names)
		if dash && !none {
			if len(ops) > 0 && !strings.Contains(opTarget(ops[0]), "."+fld) {
				bad = "the file system is asked for a file of that name"
				continue
			}
			r := p.St.norm(p.Ret[0])
			if in, out := w.stdFields(t, fld); in != "" && flag >= 0 {
				not := "." + fld + "." + out
				if flag&3 != 0 {
					not = "." + fld + "." + in
				}
				if p.St.derives(r, func(v AV) bool { return strings.Contains(v.str(), not) }) {
					bad = "it uses the stream of the other direction"
				}
			}
			if strings.Contains(r.str(), "."+fld) || p.St.derives(r, func(v AV) bool { return strings.Contains(v.str(), "."+fld) }) {
				hits++
			}
		} else if !dash {
			if len(ops) == 0 && isNilAV(p.St.norm(p.Ret[len(p.Ret)-1])) || p.St.derives(p.Ret[0], func(v AV) bool { return strings.Contains(v.str(), "."+fld+".") || strings.HasSuffix(v.str(), "."+fld) }) {
				bad = "another file is taken for the standard streams"
			}
		}
	}
	if dash && hits == 0 && bad == "" && op != "Stat" {
		bad = "the standard streams are never used"
	}
	what := "dash"
	if !dash {
		what = "another name"
	}
	if flag >= 0 {
		what += fmt.Sprintf(" with flags %#x", flag)
	}
	c.That(bad == "", "dash", fmt.Sprintf("%s.%s of %s", TypeStr(t), op, what), w.Pos(f.Pos()), "%s", bad)
}

func opTarget(o fsOp) string {
	if o.ev.Recv != nil {
		return o.ev.Recv.str()
	}
	if len(o.ev.Args) > 0 {
		return o.ev.Args[0].str()
	}
	return ""
}

// fsStreams: the reader is read, the writer written.
func (c *Ctx) fsStreams(t types.Type) {
	w := c.W
	in, out := inOut(t)
	for _, m := range []struct{ name, from, not string }{{"Read", in, out}, {"ReadAt", in, out}, {"Write", out, in}, {"WriteString", out, in}, {"Seek", in, out}} {
		f := w.method(t, m.name)
		if f == nil {
			continue
		}
		args := []AV{aSym{name: "f", t: t, nonNil: true}}
		for i, p := range f.Params[1:] {
			args = append(args, aSym{name: fmt.Sprintf("a%d", i), t: p.Type(), nonNil: true})
		}
		rs, ok := w.Interp(f, args, AOpts{Models: true})
		dbgPaths(f, rs, ok)
		bad, did := "", 0
		if !ok || len(rs) == 0 {
			bad = "it could not be interpreted"
		}
		for _, p := range rs {
			if p.Panicked {
				bad = "it panics: " + p.PanicVal.str()
				continue
			}
			n := 0
			for _, e := range p.Events {
				x := ""
				if e.Recv != nil {
					x = e.Recv.str()
				}
				for _, a := range e.Args {
					x += " " + p.St.norm(a).str()
				}
				if strings.Contains(x, "*f."+m.not) {
					bad = "it uses the other stream"
				}
				if strings.Contains(x, "*f."+m.from) && (strings.HasPrefix(e.Method, "invoke:") || strings.HasPrefix(e.Name(), "fmt.") || strings.HasPrefix(e.Name(), "io.")) {
					n++
					got := false
					for _, a := range e.Args {
						got = got || p.St.derives(a, isSym("a0"))
						es, _ := p.St.Elems(a)
						for _, y := range es {
							got = got || p.St.derives(y, isSym("a0"))
						}
					}
					if !got {
						bad = "the stream is not given the data"
					}
				}
			}
			switch {
			case n == 0 && isNilAV(p.St.norm(p.Ret[len(p.Ret)-1])):
				bad = "it reports success having done nothing"
			case n > 1:
				bad = "it is done twice"
			case n == 1:
				did++
			}
		}
		if did == 0 && bad == "" {
			bad = "the stream is never used"
		}
		c.That(bad == "", "stream", "standard streams "+m.name, w.Pos(f.Pos()), "%s", bad)
	}
}

// fsContext: files that carry a context.
func (c *Ctx) fsContext() {
	w := c.W
	sc := w.SSA[modPath].Pkg.Scope()
	n := 0
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		ctxF, emb := "", types.Type(nil)
		for i := 0; i < s.NumFields(); i++ {
			if TypeStr(s.Field(i).Type()) == "context.Context" {
				ctxF = s.Field(i).Name()
			}
			if s.Field(i).Embedded() && TypeStr(s.Field(i).Type()) == "*os.File" {
				emb = s.Field(i).Type()
			}
		}
		if ctxF == "" || emb == nil {
			continue
		}
		n++
		t := types.NewPointer(tn.Type())
		ms := w.Prog.MethodSets.MethodSet(t)
		for _, m := range []string{"Read", "Write", "ReadAt", "WriteAt", "WriteString", "ReadFrom", "WriteTo"} {
			sel := ms.Lookup(tn.Pkg(), m)
			if sel == nil {
				continue
			}
			key := TypeStr(t) + "." + m
			if len(sel.Index()) > 1 {
				c.Bad("context", key, w.Pos(tn.Pos()), "%s is that of the file itself and does not ask the context", m)
				continue
			}
			f := w.Prog.MethodValue(sel)
			args := []AV{aSym{name: "f", t: t, nonNil: true}}
			for i, p := range f.Params[1:] {
				args = append(args, aSym{name: fmt.Sprintf("a%d", i), t: p.Type(), nonNil: true})
			}
			rs, ok := w.Interp(f, args, AOpts{Models: true})
			dbgPaths(f, rs, ok)
			bad := ""
			if !ok || len(rs) == 0 {
				bad = "it could not be interpreted"
			}
			for _, p := range rs {
				if p.Panicked {
					bad = "it panics: " + p.PanicVal.str()
					continue
				}
				asked := false
				for _, e := range p.Events {
					switch {
					case strings.HasPrefix(e.Method, "invoke:") && strings.HasSuffix(e.Method, ".Err") && e.Recv != nil && strings.Contains(e.Recv.str(), "*f."+ctxF):
						asked = true
						if !isNilAV(p.St.norm(e.Res)) {
							// cancelled: it must be what is returned
							if r := p.St.norm(p.Ret[len(p.Ret)-1]); r.str() != p.St.norm(e.Res).str() && !p.St.derives(r, func(v AV) bool { return v.str() == e.Res.str() }) && !isNilAV(r) {
								bad = "it returns " + r.str() + " when cancelled"
							}
						}
					case e.Fn != nil && strings.HasPrefix(CalleeName(e.Fn), "os.(File)."):
						if !asked {
							bad = "the file is used before the context is asked"
						}
					case e.Fn != nil && CalleeName(e.Fn) == "io.Copy":
						// through the file's own Read and Write
						for _, a := range e.Args {
							iv, ok := p.St.norm(a).(aIface)
							if ok && (strings.HasSuffix(p.St.norm(iv.v).str(), "*f.File") || types.Identical(iv.t, t) || types.Identical(iv.t, emb)) {
								bad = "it copies from or to the file itself"
							}
						}
						asked = true
					}
				}
				if !asked {
					bad = "the context is not asked"
				}
			}
			c.That(bad == "", "context", key, w.Pos(f.Pos()), "%s", bad)
		}
	}
	if n == 0 {
		c.Missing("context", "files that carry a context")
	}
}

func (w *World) stdFields(t types.Type, fld string) (string, string) {
	s := deref(t).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == fld {
			return inOut(s.Field(i).Type())
		}
	}
	return "", ""
}

// inOut names the fields read from and written to.
func inOut(t types.Type) (in, out string) {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		ms := types.NewMethodSet(s.Field(i).Type())
		if ms.Lookup(nil, "Read") != nil {
			in = s.Field(i).Name()
		}
		if ms.Lookup(nil, "Write") != nil {
			out = s.Field(i).Name()
		}
	}
	return
}

func callOf(e AEvent) *ssa.CallCommon {
	if e.Call == nil {
		return nil
	}
	return e.Call.Common()
}
