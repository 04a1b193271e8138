package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C13",
		Explanation: "Small functions that generate files with each of the provided generators, alone and nested in directories, are added to the program (in memory) and interpreted with an unknown file system, unknown contents and unknown generators, for a real and for a dry run: every operation on the file system, its path, its data and its place in the order is compared with what was declared, and so is the report.",
		Rules: []RuleDoc{
			{"path", "operations apply to the file that was declared, in its directory", 40},
			{"dir", "the directory is there before the file is made", 15},
			{"dry", "a dry run changes nothing and runs nothing", 15},
			{"data", "the file gets the contents given", 5},
			{"report", "what is reported is what happened", 15},
			{"vars", "variables have the names and values given", 3},
			{"stop", "the first error ends the generation and is returned", 8},
			{"root", "the options of the template apply to its generation", 4},
		},
		Run: ruleGen})
}

const genDriver = `package driver

import (
	"context"
	"io"
	"io/fs"
	"time"

	cli "` + modPath + `"
	"` + modPath + `/extensions/template"
)

var _ time.Time
var _ cli.FS

type OC = *template.OutputContext

func File(ctx context.Context, c OC, a template.FileGenerator) error { return template.File("f.txt", a).Generate(ctx, c) }
func FileSub(ctx context.Context, c OC, a template.FileGenerator) error { return template.File("s/f.txt", a).Generate(ctx, c) }
func FileAbs(ctx context.Context, c OC, a template.FileGenerator) error { return template.File("/abs/f.txt", a).Generate(ctx, c) }
func FileTwo(ctx context.Context, c OC, a, b template.FileGenerator) error { return template.File("f.txt", a, b).Generate(ctx, c) }
func InDir(ctx context.Context, c OC, a, b template.FileGenerator) error {
	return template.Dir("d", template.File("f.txt", a), template.File("g.txt", b)).Generate(ctx, c)
}
func InDirs(ctx context.Context, c OC, a, b template.FileGenerator) error {
	return template.Dir("d", template.Dir("e", template.File("f.txt", a)), template.File("g.txt", b)).Generate(ctx, c)
}
func AfterDir(ctx context.Context, c OC, a, b template.FileGenerator) error {
	return template.Sequence{template.Dir("d", template.File("f.txt", a)), template.File("g.txt", b)}.Generate(ctx, c)
}
func EmptyDir(ctx context.Context, c OC, a template.FileGenerator) error {
	return template.New(template.Dir("d"), template.Dir("d", template.Dir("e")), template.File("g.txt", a)).Generate(ctx, c)
}
func Text(ctx context.Context, c OC, v string) error { return template.File("f.txt", template.Contents(v)).Generate(ctx, c) }
func Bytes(ctx context.Context, c OC, v []byte) error { return template.File("f.txt", template.Contents(v)).Generate(ctx, c) }
func Reader(ctx context.Context, c OC, v io.Reader) error { return template.File("f.txt", template.Contents(v)).Generate(ctx, c) }
func JSON(ctx context.Context, c OC, v map[string]int) error { return template.File("f.txt", template.Contents(v)).Generate(ctx, c) }
func Touch(ctx context.Context, c OC) error { return template.File("f.txt", template.Touch()).Generate(ctx, c) }
func Template(ctx context.Context, c OC, v template.Interface, a, b any) error {
	return template.File("f.txt", template.Template(v, "A", a, "B", b)).Generate(ctx, c)
}
func Gofmt(ctx context.Context, c OC) error { return template.File("f.txt", template.Gofmt()).Generate(ctx, c) }
func Mode(ctx context.Context, c OC, v fs.FileMode) error { return template.File("f.txt", template.Mode(v)).Generate(ctx, c) }
func FileMode(ctx context.Context, c OC, v template.FileMode) error { return template.File("f.txt", v).Generate(ctx, c) }
func Executable(ctx context.Context, c OC) error { return template.File("f.txt", template.Executable).Generate(ctx, c) }
func TextMode(ctx context.Context, c OC, v string) error {
	return template.Dir("d", template.File("f.txt", template.Contents(v), template.Executable)).Generate(ctx, c)
}
func GoGet(ctx context.Context, c OC) error { return template.GoGet("example.com/x").Generate(ctx, c) }
func Data(ctx context.Context, c OC, g template.Generator, a, b, d any) error {
	return template.New(template.Data("A", a), template.Data("B", b), template.Data("A", d), g).Generate(ctx, c)
}
func Vars(ctx context.Context, c OC, g template.Generator, a, b any) error {
	return template.New(template.Vars{"A": a, "B": b}, g).Generate(ctx, c)
}
func All(ctx context.Context, c OC, g, h, k template.Generator) error {
	return template.New(g, nil, h, template.Dir("d", k)).Generate(ctx, c)
}
func Do(ctx context.Context, c OC, g, h template.Generator) error { return c.Do(ctx, g, h) }
func Root(c *cli.Context, g template.Generator, dry, over bool, dir string) error {
	r := template.New(g)
	r.SetDryRun(dry)
	r.SetOverwrite(over)
	r.WorkingDirectory = dir
	return r.Execute(c)
}
`

// genMutates: operations of a file system that change it.
func genMutates(n string) bool {
	switch n {
	case "Chmod", "Chown", "Chtimes", "Create", "Mkdir", "MkdirAll", "OpenFile", "Remove", "RemoveAll", "Rename":
		return true
	}
	return false
}

type genOp struct {
	name string
	path string
	idx  int
	ev   AEvent
}

type genRun struct {
	c      *Ctx
	w      *World
	names  map[string]bool
	d      *ssa.Package
	outT   types.Type
	strs   string // the field with the working directory
	out    string
	inVars func(e *AEvent, st *aState)
}

func (g *genRun) result(e *AEvent, st *aState) (AV, bool) {
	n := e.Name()
	if g.inVars != nil {
		g.inVars(e, st)
	}
	errT := types.Universe.Lookup("error").Type()
	nilErr := zeroT(errT)
	switch n {
	case "os.IsNotExist":
		if isNilAV(st.norm(e.Args[0])) {
			return KBool(false), true
		}
	case "errors.Is":
		if isNilAV(st.norm(e.Args[0])) {
			return KBool(false), true
		}
	case "text/template.New":
		return aSym{name: st.fresh("tpl"), t: e.Call.Common().Signature().Results().At(0).Type(), nonNil: true}, true
	case "text/template.(Template).Parse":
		if k, ok := strOf(st, e.Args[1]); ok && !strings.Contains(k, "{{") {
			t := aSym{name: "parsed:" + k, t: e.Call.Common().Signature().Results().At(0).Type(), nonNil: true}
			return aTuple{t, nilErr}, true
		}
	case "text/template.(Template).Execute":
		if t, ok := st.norm(e.Args[0]).(aSym); ok && strings.HasPrefix(t.name, "parsed:") {
			if p, ok := st.ptrOf(unbox(st, e.Args[1])); ok {
				st.bindS["text in "+p.obj] = KStr(strings.TrimPrefix(t.name, "parsed:"))
				return nilErr, true
			}
		}
	case "bytes.(Buffer).String", "strings.(Builder).String":
		if p, ok := st.ptrOf(e.Args[0]); ok {
			if v := st.bindS["text in "+p.obj]; v != nil {
				return v, true
			}
		}
	}
	return nil, false
}

func unbox(st *aState, v AV) AV {
	v = st.norm(v)
	if i, ok := v.(aIface); ok {
		return st.norm(i.v)
	}
	return v
}

func (g *genRun) run(name string, dry AV, args ...AV) ([]APath, bool) {
	f := g.d.Func(name)
	ctx := aSym{name: "ctx", t: f.Signature.Params().At(0).Type(), nonNil: true}
	ps, ok := g.w.Interp(f, append([]AV{ctx, aPtr{obj: "new:oc", t: g.outT}}, args...), AOpts{
		Models: true, Reenter: true, Forks: 8, Depth: 30, MaxPaths: 4000,
		Result: g.result, Keeps: genPure,
		Setup: func(st *aState) {
			s := g.outT.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				fl := s.Field(i)
				p := aPtr{obj: "new:oc", path: "." + fl.Name()}
				switch {
				case fl.Name() == "DryRun":
					st.store(p, dry)
				case fl.Name() == "Vars":
					st.mem["new:vars"] = &aRegion{cells: map[string]AV{}}
					st.store(p, aMap{obj: "new:vars", t: fl.Type()})
				case fl.Name() == g.strs:
					st.store(p, st.Slice(fl.Type(), KStr("w")))
				case !types.IsInterface(fl.Type()):
					st.store(p, zeroT(fl.Type()))
				default:
					st.store(p, aSym{name: "oc." + fl.Name(), t: fl.Type(), nonNil: true})
				}
			}
		},
	})
	dbgPaths(f, ps, ok)
	return ps, ok
}

// genPure: unknown generators leave the output as it is.
func genPure(n string) bool {
	return strings.HasPrefix(n, "invoke:") && strings.Contains(n, "Generate")
}

func (g *genRun) arg(name string, i int, sym string) AV {
	return aSym{name: sym, t: g.d.Func(name).Signature.Params().At(i).Type(), nonNil: true}
}

// ops lists the operations on files, and the calls of unknown file generators.
func (g *genRun) ops(p *APath) []genOp {
	var out []genOp
	for i, e := range p.Events {
		if e.Store != nil {
			continue
		}
		n := e.Name()
		last := n[strings.LastIndex(n, ".")+1:]
		if j := strings.IndexByte(last, '('); j >= 0 {
			last = last[:j]
		}
		switch {
		case strings.HasPrefix(e.Method, "invoke:") && e.Recv != nil && avText(p.St, e.Recv) == "oc.FS" && g.names[last] && len(e.Args) > 0:
			a := e.Args[0]
			if typeIsCtx(e.Call) && len(e.Args) > 1 {
				a = e.Args[1]
			}
			out = append(out, genOp{last, genPath(p, a), i, e})
		case last == "GenerateFile" && strings.HasPrefix(e.Method, "invoke:") && len(e.Args) == 3:
			out = append(out, genOp{"user " + avText(p.St, e.Recv), genPath(p, e.Args[2]), i, e})
		case strings.HasPrefix(n, "os.") && !strings.Contains(n, "(") && (g.names[last] || last == "WriteFile"):
			a := ""
			if len(e.Args) > 0 {
				a = genPath(p, e.Args[0])
			}
			out = append(out, genOp{"os." + last, a, i, e})
		}
	}
	return out
}

func typeIsCtx(call ssa.CallInstruction) bool {
	s := call.Common().Signature()
	return s.Params().Len() > 0 && TypeStr(s.Params().At(0).Type()) == "context.Context"
}

func genPath(p *APath, v AV) string {
	if k, ok := strOf(p.St, v); ok {
		return k
	}
	return "(unknown) " + avText(p.St, v)
}

// labels: what the path prints about files.
func genLabels(p *APath) (labels []string, names []string, dry bool) {
	for _, e := range p.Events {
		if e.Store != nil || !strings.HasPrefix(e.Name(), "fmt.Fprint") && !strings.HasPrefix(e.Method, "invoke:") {
			continue
		}
		var vs []AV
		for _, a := range e.Args {
			vs = append(vs, a)
			if es, ok := p.St.Elems(a); ok {
				vs = append(vs, es...)
			}
		}
		if strings.HasPrefix(e.Method, "invoke:") && !strings.Contains(e.Method, "WriteString") {
			continue
		}
		for _, v := range vs {
			k, ok := strOf(p.St, unbox(p.St, v))
			if !ok {
				continue
			}
			for _, l := range []string{"create", "overwrite", "identical", "error"} {
				if strings.TrimSpace(k) == l {
					labels = append(labels, l)
				}
			}
			if strings.Contains(k, ".") {
				names = append(names, k)
			}
			if strings.Contains(k, "dry-run") {
				dry = true
			}
		}
	}
	return
}

func evErr(p *APath, e AEvent) AV {
	if e.Res == nil {
		return nil
	}
	r := p.St.norm(e.Res)
	if t, ok := r.(aTuple); ok {
		if len(t) == 0 {
			return nil
		}
		r = p.St.norm(t[len(t)-1])
	}
	return r
}

type genCase struct {
	name string
	file map[string]bool // the files that may be worked on
	user []string        // unknown generators, in order, with their path
	args []AV
}

func (g *genRun) cases() []genCase {
	one := func(s ...string) map[string]bool {
		m := map[string]bool{}
		for _, x := range s {
			m[x] = true
		}
		return m
	}
	a := func(n string) []AV {
		var out []AV
		for i := 2; i < g.d.Func(n).Signature.Params().Len(); i++ {
			pt := g.d.Func(n).Signature.Params().At(i)
			out = append(out, aSym{name: pt.Name(), t: pt.Type(), nonNil: true})
		}
		return out
	}
	var out []genCase
	add := func(n string, files map[string]bool, user ...string) {
		out = append(out, genCase{n, files, user, a(n)})
	}
	add("File", one("w/f.txt"), "a w/f.txt")
	add("FileSub", one("w/s/f.txt"), "a w/s/f.txt")
	add("FileAbs", one("/abs/f.txt"), "a /abs/f.txt")
	add("FileTwo", one("w/f.txt"), "a w/f.txt", "b w/f.txt")
	add("InDir", one("w/d/f.txt", "w/d/g.txt"), "a w/d/f.txt", "b w/d/g.txt")
	add("InDirs", one("w/d/e/f.txt", "w/d/g.txt"), "a w/d/e/f.txt", "b w/d/g.txt")
	add("AfterDir", one("w/d/f.txt", "w/g.txt"), "a w/d/f.txt", "b w/g.txt")
	add("EmptyDir", one("w/g.txt"), "a w/g.txt")
	for _, n := range []string{"Text", "Bytes", "Reader", "JSON", "Touch", "Template", "Gofmt", "Mode", "FileMode", "Executable"} {
		add(n, one("w/f.txt"))
	}
	add("TextMode", one("w/d/f.txt"))
	return out
}

func ruleGen(c *Ctx) {
	w, err := c.W.Driven(genDriver)
	if err != nil {
		c.Bad("path", "generators", "-", "the generators cannot be used as documented: %v", err)
		return
	}
	g := &genRun{c: c, w: w, d: w.SSA["driver"], names: map[string]bool{}}
	it := w.Type("cli", "FS")
	if it == nil || w.SSA[modPath+"/extensions/template"] == nil {
		c.Missing("path", "templates")
		return
	}
	for i := 0; i < it.Underlying().(*types.Interface).NumMethods(); i++ {
		g.names[it.Underlying().(*types.Interface).Method(i).Name()] = true
	}
	g.outT = deref(g.d.Func("File").Signature.Params().At(1).Type())
	s := g.outT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if TypeStr(s.Field(i).Type()) == "[]string" {
			g.strs = s.Field(i).Name()
		}
	}
	if g.strs == "" {
		c.Missing("path", "the working directory of a template")
		return
	}
	for _, k := range g.cases() {
		for _, dry := range []bool{false, true} {
			g.one(k, dry)
		}
	}
	g.data()
	g.vars()
	g.stops()
	g.goGet()
	g.methods()
	g.root()
}

func (g *genRun) one(k genCase, dry bool) {
	c := g.c
	key := k.name
	if dry {
		key += " (dry run)"
	}
	ps, ok := g.run(k.name, KBool(dry), k.args...)
	msgs := map[string]string{}
	bad := func(rule, format string, a ...any) {
		if msgs[rule] == "" {
			msgs[rule] = fmt.Sprintf(format, a...)
		}
	}
	if !ok || len(ps) == 0 {
		bad("path", "it could not be interpreted")
	}
	good, made := 0, 0
	for i := range ps {
		p := &ps[i]
		if p.Panicked {
			if !strings.Contains(p.PanicVal.str(), "io.Writer") { // a file that cannot be written
				bad("path", "it panics: %s", p.PanicVal.str())
			}
			continue
		}
		ops := g.ops(p)
		failed := !isNilAV(p.St.norm(p.Ret[0])) && p.St.nonNil(p.Ret[0])
		var users []string
		first := map[string]int{} // the first event that may change the file
		for _, o := range ops {
			dirs := false
			for f := range k.file {
				if o.path == path.Dir(f) {
					dirs = true
				}
			}
			switch {
			case strings.HasPrefix(o.name, "os."):
				bad("path", "%s bypasses the file system", o.name)
			case k.file[o.path]:
			case dirs && (o.name == "Stat" || o.name == "Mkdir" || o.name == "MkdirAll" || o.name == "Open" || o.name == "OpenContext"):
			default:
				bad("path", "%s is applied to %s", o.name, o.path)
			}
			if dry && genMutates(o.name) {
				bad("dry", "%s of %s is done in a dry run", o.name, o.path)
			}
			if strings.HasPrefix(o.name, "user ") {
				users = append(users, strings.TrimPrefix(o.name, "user ")+" "+o.path)
			}
			if k.file[o.path] && (genMutates(o.name) || strings.HasPrefix(o.name, "user ")) {
				if _, seen := first[o.path]; !seen {
					first[o.path] = o.idx
				}
			}
		}
		if !failed {
			good++
			if strings.Join(users, ", ") != strings.Join(k.user, ", ") {
				bad("path", "the generators that run are [%s] instead of [%s]", strings.Join(users, ", "), strings.Join(k.user, ", "))
			}
		}
		// directories
		if !dry {
			for f, at := range first {
				if path.IsAbs(f) {
					continue
				}
				made++
				d := path.Dir(f)
				okDir := false
				for _, o := range ops {
					if o.path != d || o.idx > at {
						continue
					}
					if o.name == "MkdirAll" {
						okDir = true
					}
					if o.name == "Stat" || o.name == "Open" || o.name == "OpenContext" {
						if gone, known := g.gone(p, evErr(p, o.ev)); !gone && known {
							okDir = true
						} else if isNilAV(evErr(p, o.ev)) {
							okDir = true
						}
					}
				}
				if !okDir {
					bad("dir", "%s is worked on although its directory may not exist", f)
				}
			}
		}
		// the report
		if failed {
			continue
		}
		labels, names, said := genLabels(p)
		if len(labels) != len(k.file) {
			bad("report", "%d files, but the report is [%s]", len(k.file), strings.Join(labels, " "))
			continue
		}
		if said != dry {
			bad("report", "the report does not tell a dry run from a real one")
		}
		for f := range k.file {
			hit := false
			for _, n := range names {
				if strings.Contains(n, path.Base(f)) {
					hit = true
				}
			}
			if !hit {
				bad("report", "%s is not in the report", f)
			}
		}
		if len(k.file) == 1 {
			for f := range k.file {
				if m := g.label(p, ops, f, labels[0], first); m != "" {
					bad("report", "%s", m)
				}
			}
		}
	}
	if good == 0 && msgs["path"] == "" {
		bad("path", "it never succeeds")
	}
	at := "extensions/template"
	c.That(msgs["path"] == "", "path", key, at, "%s", msgs["path"])
	if dry {
		c.That(msgs["dry"] == "", "dry", key, at, "%s", msgs["dry"])
	} else if made > 0 || msgs["dir"] != "" {
		c.That(msgs["dir"] == "", "dir", key, at, "%s", msgs["dir"])
	}
	c.That(msgs["report"] == "", "report", key, at, "%s", msgs["report"])
}

// gone: whether the path took the error for "does not exist".
func (g *genRun) gone(p *APath, err AV) (val, known bool) {
	if err == nil {
		return false, false
	}
	for _, e := range p.Events {
		if n := e.Name(); e.Store == nil && (n == "os.IsNotExist" || n == "errors.Is") && len(e.Args) > 0 && p.is(e.Args[0], err) {
			if v, k := isTrue(p.St.norm(e.Res)); k {
				return v, true
			}
		}
	}
	return false, false
}

func (g *genRun) label(p *APath, ops []genOp, f, label string, first map[string]int) string {
	at, changes := first[f]
	isNew, known, was := false, false, false
	for _, o := range ops {
		if o.path != f || changes && o.idx >= at {
			continue
		}
		if v, k := g.gone(p, evErr(p, o.ev)); k {
			known = true
			isNew, was = isNew || v, was || !v
		} else if isNilAV(evErr(p, o.ev)) {
			known, was = true, true
		}
	}
	if isNew && was {
		return "" // it came or went in between
	}
	if !known && label == "create" {
		return "a file is reported as created without having looked whether it was there"
	}
	if known && isNew != (label == "create") {
		if isNew {
			return "a file that did not exist is reported as " + label
		}
		return "a file that existed is reported as created"
	}
	if label == "error" {
		return "success is reported as an error"
	}
	for i, e := range p.Events {
		if e.Store != nil || e.Name() != "bytes.Equal" || isNew {
			continue
		}
		if v, k := isTrue(p.St.norm(e.Res)); k && v != (label == "identical") {
			return fmt.Sprintf("a file whose contents are the same (%v) is reported as %s", v, label)
		}
		// what is compared was read before and after
		before, after := 0, 0
		for _, a := range e.Args {
			j := g.readAt(p, a, i)
			switch {
			case j < 0:
				before++
				after++
			case changes && j > at:
				after++
			case !changes:
				before++
				after++
			default:
				before++
			}
		}
		if before == 0 || after == 0 {
			return "the contents that are compared are not those from before and after"
		}
	}
	return ""
}

// readAt finds the event that read the value.
func (g *genRun) readAt(p *APath, v AV, upto int) int {
	for i := 0; i < upto; i++ {
		e := p.Events[i]
		if e.Store != nil || e.Res == nil || !strings.Contains(e.Name(), "Read") {
			continue
		}
		r := p.St.norm(e.Res)
		if t, ok := r.(aTuple); ok && len(t) > 0 {
			r = t[0]
		}
		if p.is(r, v) {
			return i
		}
	}
	return -1
}

// data: what ends up in the file.
func (g *genRun) data() {
	c := g.c
	for _, name := range []string{"Text", "Bytes", "Reader", "JSON", "Template", "Gofmt"} {
		var args []AV
		f := g.d.Func(name)
		for i := 2; i < f.Signature.Params().Len(); i++ {
			args = append(args, g.arg(name, i, f.Signature.Params().At(i).Name()))
		}
		ps, ok := g.run(name, KBool(false), args...)
		msg := ""
		if !ok || len(ps) == 0 {
			msg = "it could not be interpreted"
		}
		good := 0
		for i := range ps {
			p := &ps[i]
			if p.Panicked || p.St.nonNil(p.Ret[0]) {
				continue
			}
			good++
			created, wrote, closed := -1, -1, -1
			var file AV
			for _, o := range g.ops(p) {
				if o.name == "Create" || o.name == "OpenFile" {
					if created >= 0 {
						msg = "the file is created twice"
					}
					created = o.idx
					if t, ok := p.St.norm(o.ev.Res).(aTuple); ok && len(t) == 2 {
						file = t[0]
					}
				}
			}
			if created < 0 || file == nil {
				msg = "the file is not created"
				continue
			}
			fileText := avText(p.St, file)
			for j := created + 1; j < len(p.Events); j++ {
				e := p.Events[j]
				if e.Store != nil {
					continue
				}
				isF := func(v AV) bool { return v != nil && avText(p.St, v) == fileText }
				touches := isF(e.Recv)
				for _, a := range e.Args {
					touches = touches || isF(a)
				}
				if !touches {
					continue
				}
				if strings.Contains(e.Method, "Close") {
					closed = j
					continue
				}
				src := ""
				for _, a := range e.Args {
					if isF(a) {
						continue
					}
					if t := avText(p.St, a); strings.HasSuffix(t, "]") && strings.Contains(t, ":") {
						msg = "a part of the contents is written"
					}
					src += g.source(p, a, name)
				}
				if src == "" {
					msg = "something else than the contents is written: " + e.Name()
					continue
				}
				if wrote >= 0 {
					msg = "the contents are written twice"
				}
				wrote = j
				if closed >= 0 {
					msg = "the file is written after it was closed"
				}
			}
			switch {
			case wrote < 0:
				msg = "the contents are not written"
			case closed < 0:
				msg = "the file is not closed"
			}
		}
		if good == 0 && msg == "" {
			msg = "it never succeeds"
		}
		c.That(msg == "", "data", name, "extensions/template", "%s", msg)
	}
}

// source says how the value comes from the contents that were given.
func (g *genRun) source(p *APath, v AV, name string) string {
	from := func(v AV, is func(AV) bool) bool { return is(p.St.norm(v)) || p.St.derives(v, is) }
	isV := func(x AV) bool { return avText(p.St, x) == "v" }
	call := func(x AV, fn ...string) *AEvent {
		for i := range p.Events {
			e := &p.Events[i]
			if e.Store != nil || e.Res == nil {
				continue
			}
			hit := false
			for _, n := range fn {
				if strings.HasSuffix(e.Name(), n) {
					hit = true
				}
			}
			r := p.St.norm(e.Res)
			if t, ok := r.(aTuple); ok && len(t) > 0 {
				r = t[0]
			}
			if hit && from(x, func(y AV) bool { return p.is(y, r) }) {
				return e
			}
		}
		return nil
	}
	switch name {
	case "Text", "Bytes":
		if from(v, isV) {
			return "v"
		}
	case "Reader":
		if isV(v) || from(v, isV) {
			return "v"
		}
		if e := call(v, "io.ReadAll"); e != nil && isV(unbox(p.St, e.Args[0])) {
			return "v"
		}
	case "JSON":
		if e := call(v, "json.MarshalIndent", "json.Marshal"); e != nil && isV(unbox(p.St, e.Args[0])) {
			return "v"
		}
	case "Template":
		e := call(v, "(Buffer).Bytes", "(Buffer).String")
		if e == nil {
			return ""
		}
		for _, x := range p.Events {
			if x.Store == nil && strings.HasSuffix(x.Method, "Execute") && x.Recv != nil && avText(p.St, x.Recv) == "v" && p.is(unbox(p.St, x.Args[0]), e.Args[0]) {
				return "v"
			}
		}
	case "Gofmt":
		e := call(v, "format.Source")
		if e == nil {
			return ""
		}
		if r := call(e.Args[0], "io.ReadAll", "fs.ReadFile"); r != nil {
			return "v"
		}
	}
	return ""
}

// vars: at the time a template or generator runs, the variables have their values.
func (g *genRun) vars() {
	c := g.c
	for _, k := range []struct {
		name string
		want map[string]string
	}{
		{"Template", map[string]string{"A": "a", "B": "b"}},
		{"Data", map[string]string{"A": "d", "B": "b"}},
		{"Vars", map[string]string{"A": "a", "B": "b"}},
	} {
		f := g.d.Func(k.name)
		var args []AV
		for i := 2; i < f.Signature.Params().Len(); i++ {
			args = append(args, g.arg(k.name, i, f.Signature.Params().At(i).Name()))
		}
		msg, seen := "", 0
		g.inVars = func(e *AEvent, st *aState) {
			if !strings.HasPrefix(e.Method, "invoke:") || e.Recv == nil {
				return
			}
			rv := avText(st, e.Recv)
			if !(rv == "v" && strings.HasSuffix(e.Method, "Execute") || rv == "g" && strings.HasSuffix(e.Method, "Generate")) {
				return
			}
			seen++
			if rv == "v" {
				if m, ok := unbox(st, e.Args[1]).(aMap); !ok || m.obj != "new:vars" {
					msg = "the template is not given the variables"
				}
			}
			r := st.mem["new:vars"]
			got := map[string]string{}
			if r != nil {
				for p, v := range r.cells {
					if strings.HasPrefix(p, "{") {
						got[strings.Trim(p, `{}"`)] = avText(st, v)
					}
				}
			}
			for n, want := range k.want {
				if got[n] != want {
					msg = fmt.Sprintf("variable %s has value %s", n, orNone(got[n]))
				}
			}
			for n := range got {
				if _, ok := k.want[n]; !ok {
					msg = "there is a variable " + n
				}
			}
		}
		_, ok := g.run(k.name, KBool(false), args...)
		g.inVars = nil
		if msg == "" && (!ok || seen == 0) {
			msg = "nothing that uses the variables runs"
		}
		c.That(msg == "", "vars", k.name, "extensions/template", "%s", msg)
	}
}

// stops: the first error ends it.
func (g *genRun) stops() {
	c := g.c
	for _, k := range []struct {
		name string
		want string
	}{{"All", "g h k"}, {"Do", "g h"}, {"FileTwo", "a b"}, {"InDir", "a b"}, {"InDirs", "a b"}, {"AfterDir", "a b"}, {"TextMode", ""}, {"Touch", ""}} {
		f := g.d.Func(k.name)
		var args []AV
		for i := 2; i < f.Signature.Params().Len(); i++ {
			args = append(args, g.arg(k.name, i, f.Signature.Params().At(i).Name()))
		}
		ps, ok := g.run(k.name, KBool(false), args...)
		msg := ""
		if !ok || len(ps) == 0 {
			msg = "it could not be interpreted"
		}
		for i := range ps {
			p := &ps[i]
			if p.Panicked {
				continue
			}
			var ran []string
			var errs []AV
			failed := ""
			for _, e := range p.Events {
				if e.Store != nil || e.Recv == nil || !strings.HasPrefix(e.Method, "invoke:") {
					continue
				}
				n := e.Method[strings.LastIndex(e.Method, ".")+1:]
				gen := n == "Generate" || n == "GenerateFile"
				if !gen && !(avText(p.St, e.Recv) == "oc.FS" && genMutates(n)) {
					continue
				}
				if failed != "" {
					msg = fmt.Sprintf("%s runs although %s has failed", n, failed)
				}
				if gen {
					ran = append(ran, avText(p.St, e.Recv))
				}
				err := evErr(p, e)
				errs = append(errs, err)
				if err != nil && p.St.nonNil(err) {
					failed = n
				}
			}
			if failed != "" {
				if last := errs[len(errs)-1]; !p.is(p.Ret[0], last) && !p.St.derives(p.Ret[0], func(v AV) bool { return p.is(v, last) }) {
					msg = "the error of " + failed + " is not returned"
				}
			} else if isNilAV(p.St.norm(p.Ret[0])) && strings.Join(ran, " ") != k.want {
				msg = fmt.Sprintf("what runs is [%s] instead of [%s]", strings.Join(ran, " "), k.want)
			}
		}
		c.That(msg == "", "stop", k.name, "extensions/template", "%s", msg)
	}
}

func (g *genRun) goGet() {
	for _, dry := range []bool{false, true} {
		ps, ok := g.run("GoGet", KBool(dry))
		msg := ""
		if !ok || len(ps) == 0 {
			msg = "it could not be interpreted"
		}
		for i := range ps {
			p := &ps[i]
			ran := false
			for _, e := range p.Events {
				n := e.Name()
				if e.Store != nil || !strings.HasPrefix(n, "os/exec.(Cmd).") {
					continue
				}
				if l := n[strings.LastIndex(n, ".")+1:]; l == "Run" || l == "Start" || l == "Output" || l == "CombinedOutput" {
					ran = true
					if dry {
						msg = "a command runs in a dry run"
					}
					if err := evErr(p, e); err != nil && p.St.nonNil(err) && !p.Panicked && !p.is(p.Ret[0], err) && !p.St.derives(p.Ret[0], func(v AV) bool { return p.is(v, err) }) {
						msg = "the failure of the command is not returned"
					}
				}
			}
			if !dry && !ran && !p.Panicked && isNilAV(p.St.norm(p.Ret[0])) {
				msg = "the command does not run"
			}
		}
		key := "GoGet"
		if dry {
			key += " (dry run)"
		}
		g.c.That(msg == "", "dry", key, "extensions/template", "%s", msg)
	}
}

// methods: the file system of the output works in the working directory.
func (g *genRun) methods() {
	c, w := g.c, g.w
	pt := types.NewPointer(g.outT)
	it := w.Type("cli", "FS").Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		name := it.Method(i).Name()
		f := w.method(pt, name)
		if f == nil || f.Blocks == nil {
			c.Missing("path", "method "+name)
			continue
		}
		args := []AV{aPtr{obj: "new:oc", t: g.outT}}
		var want []string
		n := 0
		for j := 0; j < f.Signature.Params().Len(); j++ {
			v := f.Signature.Params().At(j)
			if b := basic(v.Type()); b != nil && b.Kind() == types.String {
				n++
				args = append(args, KStr(fmt.Sprintf("d%d/n.txt", n)))
				want = append(want, fmt.Sprintf("w/d%d/n.txt", n))
				continue
			}
			args = append(args, aSym{name: fmt.Sprintf("p%d", j), t: v.Type(), nonNil: true})
			want = append(want, fmt.Sprintf("p%d", j))
		}
		ps, ok := w.Interp(f, args, AOpts{Models: true, Reenter: true, Forks: 8, Depth: 30, Result: g.result, Setup: func(st *aState) {
			s := g.outT.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				fl := s.Field(i)
				p := aPtr{obj: "new:oc", path: "." + fl.Name()}
				switch {
				case fl.Name() == "DryRun":
					st.store(p, KBool(false))
				case fl.Name() == g.strs:
					st.store(p, st.Slice(fl.Type(), KStr("w")))
				default:
					st.store(p, aSym{name: "oc." + fl.Name(), t: fl.Type(), nonNil: true})
				}
			}
		}})
		dbgPaths(f, ps, ok)
		msg := ""
		if !ok || len(ps) == 0 {
			msg = "it could not be interpreted"
		}
		good := 0
		for i := range ps {
			p := &ps[i]
			if p.Panicked {
				msg = "it panics: " + p.PanicVal.str()
				continue
			}
			done := 0
			for _, o := range g.ops(p) {
				if o.name != name || o.name == "Stat" && o.path == "w/d1" || o.name == "MkdirAll" && o.path == "w" {
					if genMutates(o.name) && o.name != "MkdirAll" {
						msg = "it does " + o.name
					}
					continue
				}
				done++
				var got []string
				for _, a := range o.ev.Args {
					got = append(got, avText(p.St, a))
				}
				if strings.Join(got, " ") != strings.Join(want, " ") {
					msg = fmt.Sprintf("it is given (%s) instead of (%s)", strings.Join(got, " "), strings.Join(want, " "))
				}
				// the result
				r := p.St.norm(o.ev.Res)
				if t, ok := r.(aTuple); ok {
					for k := range p.Ret {
						if k < len(t) && !p.is(p.Ret[k], t[k]) {
							msg = "its result is not returned"
						}
					}
				} else if len(p.Ret) == 1 && !p.is(p.Ret[0], r) {
					msg = "its result is not returned"
				}
			}
			err := p.St.norm(p.Ret[len(p.Ret)-1])
			switch {
			case done > 1:
				msg = "it is done twice"
			case done == 1:
				good++
			case !p.St.nonNil(err):
				msg = "it is not done"
			}
		}
		if good == 0 && msg == "" {
			msg = "it is never done"
		}
		c.That(msg == "", "path", "output "+name, w.Pos(f.Pos()), "%s", msg)
	}
}

// root: running the template as an action.
func (g *genRun) root() {
	c, w := g.c, g.w
	ct := w.Type("cli", "Context")
	f := g.d.Func("Root")
	cpt := types.NewPointer(ct)
	for _, dir := range []string{"", "x"} {
		for _, dry := range []bool{false, true} {
			msg, seen := "", 0
			kt := deref(w.kindType("Command"))
			tf := w.ctxFieldOf(func(v *types.Var) bool { return TypeStr(v.Type()) == "cli.Timing" })
			res := func(e *AEvent, st *aState) (AV, bool) {
				if e.Recv != nil && strings.HasSuffix(e.Method, "Generate") && avText(st, e.Recv) == "g" {
					seen++
					p, ok := st.ptrOf(e.Args[1])
					if !ok {
						msg = "the generator is given no output"
						return nil, false
					}
					s := g.outT.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						fl := s.Field(i)
						v := st.load(aPtr{obj: p.obj, path: p.path + "." + fl.Name(), t: fl.Type()}, fl.Type())
						switch {
						case fl.Name() == "DryRun":
							if b, k := isTrue(st.norm(v)); !k || b != dry {
								msg = "it is a dry run: " + avText(st, v)
							}
						case fl.Name() == "Overwrite":
							if avText(st, v) != "over" {
								msg = "overwrite is " + avText(st, v)
							}
						case fl.Name() == g.strs:
							want := "[x]"
							if dir == "" {
								want = "[.]"
							}
							if avText(st, v) != want {
								msg = fmt.Sprintf("the working directory is %s", avText(st, v))
							}
						case TypeStr(fl.Type()) == "cli.Writer":
							if !strings.Contains(avText(st, v), "Stdout") {
								msg = "it reports to " + avText(st, v)
							}
						case TypeStr(fl.Type()) == "cli.FS":
							if !strings.Contains(avText(st, v), "FS") {
								msg = "it works on " + avText(st, v)
							}
						case fl.Name() == "Vars":
							if isNilAV(st.norm(v)) {
								msg = "it has no place for variables"
							}
						}
					}
				}
				return g.result(e, st)
			}
			ps, ok := w.Interp(f, []AV{aPtr{obj: "new:x0", t: ct}, g.arg("Root", 1, "g"), KBool(dry), g.arg("Root", 3, "over"), KStr(dir)}, AOpts{
				Models: true, Reenter: true, Forks: 8, Depth: 30, Result: res, Setup: func(st *aState) {
					st.store(aPtr{obj: "new:t0", t: kt}, zeroT(kt))
					w.putChain(st, ctxChain{{kind: "Command", name: "app"}})
					st.store(aPtr{obj: "new:x0", path: "." + tf}, w.timingK("ActionTiming"))
					s := ct.Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						if n := s.Field(i).Name(); n == "FS" || n == "Stdout" {
							st.store(aPtr{obj: "new:x0", path: "." + n}, aSym{name: "ctx." + n, t: s.Field(i).Type(), nonNil: true})
						}
					}
				}})
			dbgPaths(f, ps, ok)
			_ = cpt
			for i := range ps {
				p := &ps[i]
				if p.Panicked {
					continue
				}
				var last AV
				n := 0
				for _, e := range p.Events {
					if e.Recv != nil && strings.HasSuffix(e.Method, "Generate") {
						n++
						last = evErr(p, e)
					}
				}
				if n == 0 && isNilAV(p.St.norm(p.Ret[0])) {
					msg = "it succeeds without generating anything"
				}
				if n > 1 {
					msg = "it generates twice"
				}
				if n == 1 && p.St.nonNil(last) && !p.is(p.Ret[0], last) && !p.St.derives(p.Ret[0], func(v AV) bool { return p.is(v, last) }) {
					msg = "the error of the generator is not returned"
				}
			}
			if msg == "" && (!ok || seen == 0) {
				msg = "nothing is generated"
			}
			c.That(msg == "", "root", fmt.Sprintf("directory %q, dry run %v", dir, dry), "extensions/template", "%s", msg)
		}
	}
}

// strOf gives the text of a known string.
func strOf(st *aState, v AV) (string, bool) {
	k, ok := st.norm(v).(aConst)
	if !ok || k.v == nil || k.v.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.v), true
}
