package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C22",
		Explanation: "Every constant template text is parsed and type-checked the way text/template evaluates it, in every branch, for every type of data that the module gives it: fields, methods, functions, arguments, nested templates. The data is followed back from each place where a template is executed.",
		Rules: []RuleDoc{
			{"field", "a field that is mentioned exists and can be read", 20},
			{"call", "a function that is mentioned exists and accepts what it is given", 10},
			{"nested", "a template that is mentioned exists", 6},
			{"text", "what is written out is text", 8},
			{"same", "a template that replaces another shows the same fields", 3},
			{"data", "the data of an element is the element's own", 12},
		},
		Run: func(c *Ctx) {
			newTplWorld(c).run()
			ruleTplData(c)
		}})
}

// tplType is the type of a value in a template; t is nil when it is not known.
type tplType struct {
	t    types.Type
	addr bool
	vars map[string]tplType
}

type tplTree struct {
	name, pkg, where, text string // text: the name of the text that it is in
	tree                   *parse.Tree
	own                    map[string][]*tplTree // the set that it is part of
}

type tplWorld struct {
	c     *Ctx
	w     *World
	root  map[string][]*tplTree
	funcs map[string]map[string][]*types.Signature // by package, by name
	vars  map[string]tplType
	done  map[string]bool
	texts map[string]bool
}

func newTplWorld(c *Ctx) *tplWorld {
	return &tplWorld{c: c, w: c.W, root: map[string][]*tplTree{}, funcs: map[string]map[string][]*types.Signature{},
		vars: map[string]tplType{}, done: map[string]bool{}, texts: map[string]bool{}}
}

// trees parses a text and gives the templates that it defines, under their names.
func (k *tplWorld) trees(name, text, pkg, where string) (map[string]*tplTree, error) {
	t := parse.New(name)
	t.Mode = parse.SkipFuncCheck
	set := map[string]*parse.Tree{}
	if _, err := t.Parse(text, "", "", set); err != nil {
		return nil, err
	}
	out := map[string]*tplTree{}
	for n, tr := range set {
		out[n] = &tplTree{name: n, pkg: pkg, where: where, text: name, tree: tr}
	}
	return out, nil
}

func (k *tplWorld) register(name, text, pkg, where string) {
	key := name + "\x00" + text
	if k.texts[key] {
		return
	}
	k.texts[key] = true
	ts, err := k.trees(name, text, pkg, where)
	if err != nil {
		k.c.Bad("nested", "parse:"+name, where, "the template %q cannot be parsed: %v", name, err)
		return
	}
	var names []string
	for n := range ts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if n == name && parse.IsEmptyTree(ts[n].tree.Root) && len(names) > 1 {
			continue // a text that only defines others
		}
		ts[n].own = k.root
		k.root[n] = append(k.root[n], ts[n])
	}
}

func calleeOf(in ssa.Instruction) (*ssa.CallCommon, *ssa.Function) {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, nil
	}
	return ci.Common(), ci.Common().StaticCallee()
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}

// eachInstr visits every instruction of the module.
func (w *World) eachInstr(visit func(f *ssa.Function, in ssa.Instruction)) {
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				visit(f, in)
			}
		}
	}
}

type mapEntry struct {
	key string
	val ssa.Value
}

// mapEntries are the entries with constant keys of the maps that a value may be.
func (w *World) mapEntries(v ssa.Value) []mapEntry {
	var out []mapEntry
	w.origins(v, func(v ssa.Value, last bool) bool {
		if mm, ok := v.(*ssa.MakeMap); ok {
			for _, r := range *mm.Referrers() {
				if u, ok := r.(*ssa.MapUpdate); ok && u.Map == mm {
					if s, ok := constText(u.Key); ok {
						out = append(out, mapEntry{s, u.Value})
					}
				}
			}
			return true
		}
		return false
	})
	return out
}

// rangeOf gives the map that a value is a key (1) or a value (2) of.
func rangeOf(v ssa.Value) (ssa.Value, int) {
	ex, ok := v.(*ssa.Extract)
	if !ok {
		return nil, 0
	}
	nx, ok := ex.Tuple.(*ssa.Next)
	if !ok || nx.IsString {
		return nil, 0
	}
	return nx.Iter.(*ssa.Range).X, ex.Index
}

// texts that a value may be: constants, embedded files, and the results of functions.
func (k *tplWorld) textsOf(v ssa.Value) []string {
	var out []string
	seen := map[string]bool{}
	k.w.origins(v, func(v ssa.Value, last bool) bool {
		var s string
		var ok bool
		if u, is := v.(*ssa.UnOp); is {
			if g, is := u.X.(*ssa.Global); is {
				s, ok = k.w.embedded(g)
			}
		} else {
			s, ok = constText(v)
		}
		if ok && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
		return ok
	})
	return out
}

// embedded is the content of the file that a variable of type string is initialised from.
func (w *World) embedded(g *ssa.Global) (string, bool) {
	p := w.ByPath[g.Pkg.Pkg.Path()]
	if p == nil {
		return "", false
	}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range gd.Specs {
				vs, ok := sp.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 || p.TypesInfo.Defs[vs.Names[0]] != g.Object() {
					continue
				}
				for _, doc := range []*ast.CommentGroup{vs.Doc, gd.Doc} {
					if doc == nil {
						continue
					}
					for _, cm := range doc.List {
						if rest, ok := strings.CutPrefix(cm.Text, "//go:embed "); ok {
							dir := filepath.Dir(w.Fset.Position(f.Pos()).Filename)
							b, err := os.ReadFile(filepath.Join(dir, strings.TrimSpace(rest)))
							return string(b), err == nil
						}
					}
				}
			}
		}
	}
	return "", false
}

func (k *tplWorld) run() {
	w := k.w
	tplT := w.Type("cli", "Template")
	ctxT := w.Type("cli", "Context")
	if tplT == nil || ctxT == nil {
		k.c.Missing("field", "cli.Template and cli.Context")
		return
	}
	isTpl := func(t types.Type) bool {
		return types.Identical(t, types.NewPointer(tplT)) || TypeStr(t) == "*text/template.Template"
	}
	addFunc := func(pkg, name string, v ssa.Value) {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		sig, ok := v.Type().Underlying().(*types.Signature)
		if !ok {
			return
		}
		if k.funcs[pkg] == nil {
			k.funcs[pkg] = map[string][]*types.Signature{}
		}
		for _, s := range k.funcs[pkg][name] {
			if types.Identical(s, sig) {
				return
			}
		}
		k.funcs[pkg][name] = append(k.funcs[pkg][name], sig)
	}
	// the functions and the templates that are registered
	w.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		pkg := pkgOf(f)
		if u, ok := in.(*ssa.MapUpdate); ok {
			if s, ok := constText(u.Key); ok {
				if m, ok := u.Map.Type().Underlying().(*types.Map); ok && types.IsInterface(m.Elem()) {
					addFunc(pkg, s, u.Value)
				}
			}
			return
		}
		cc, g := calleeOf(in)
		if g == nil || !w.InModule(g) {
			return
		}
		args := cc.Args
		if g.Signature.Recv() != nil {
			args = args[1:]
		}
		switch {
		case g.Name() == "RegisterTemplateFunc" && shortPkg(g.Pkg.Pkg) == "cli" && len(args) == 2:
			if s, ok := constText(args[0]); ok {
				addFunc(pkg, s, args[1])
			}
		case g.Name() == "RegisterTemplate" && shortPkg(g.Pkg.Pkg) == "cli" && len(args) == 2:
			where := w.InstrPos(in)
			if m, i := rangeOf(args[0]); i == 1 {
				for _, e := range w.mapEntries(m) {
					for _, t := range k.valueTexts(e.val) {
						k.register(e.key, t, pkg, where)
					}
				}
				return
			}
			names, ok := w.constStrings(args[0])
			if !ok || len(names) != 1 {
				return
			}
			for _, t := range k.textsOf(args[1]) {
				k.register(names[0], t, pkg, where)
			}
		case g.Name() == "Data" && strings.HasSuffix(pkgOf(g), "/extensions/template"):
			k.dataVars(args)
		}
	})

	// where templates are executed
	sites := 0
	w.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		cc, g := calleeOf(in)
		if cc == nil {
			return
		}
		var recv, data ssa.Value
		where := w.InstrPos(in)
		switch {
		case cc.IsInvoke() && cc.Method.Name() == "Execute" && len(cc.Args) == 2 && isWriter(cc.Args[0].Type()):
			recv, data = cc.Value, cc.Args[1]
		case g != nil && g.Name() == "Execute" && g.Signature.Recv() != nil && isTpl(g.Signature.Recv().Type()) && len(cc.Args) == 3:
			recv, data = cc.Args[0], cc.Args[2]
		case g != nil && g.Name() == "ExecuteTemplate" && w.InModule(g) && shortPkg(g.Pkg.Pkg) == "cli":
			args := cc.Args
			if g.Signature.Recv() != nil {
				args = args[1:]
			}
			name, ok := constText(args[0])
			if !ok {
				return
			}
			for _, t := range k.dataOfFunc(args[1]) {
				sites++
				k.start(k.root, name, t, where)
			}
			return
		default:
			return
		}
		k.pair(recv, data, isTpl, 0, func(set tplRef, t tplType) {
			sites++
			k.start(set.set, set.name, t, where)
		})
	})
	k.c.Sites += sites
	k.same()
}

// same: templates that replace one another write out the same fields of what they are given.
func (k *tplWorld) same() {
	var names []string
	for n, ts := range k.root {
		if len(ts) > 1 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		first := k.shown(k.root[n][0])
		for _, t := range k.root[n][1:] {
			got := k.shown(t)
			var missing []string
			for f := range first {
				if !got[f] {
					missing = append(missing, f)
				}
			}
			sort.Strings(missing)
			k.c.That(len(missing) == 0, "same", n+" of "+t.text, t.where, "the template %q that replaces another of that name does not show %s, which the other shows", n, strings.Join(missing, ", "))
		}
	}
}

// shown are the fields that are written out, and the templates that are used.
func (k *tplWorld) shown(t *tplTree) map[string]bool {
	out := map[string]bool{}
	var walk func(n parse.Node, cond bool)
	walk = func(n parse.Node, cond bool) {
		switch n := n.(type) {
		case *parse.ListNode:
			if n != nil {
				for _, x := range n.Nodes {
					walk(x, cond)
				}
			}
		case *parse.ActionNode:
			walk(n.Pipe, cond)
		case *parse.PipeNode:
			if n == nil {
				return
			}
			for _, x := range n.Cmds {
				for _, a := range x.Args {
					walk(a, cond)
				}
			}
		case *parse.FieldNode:
			if !cond {
				out["."+strings.Join(n.Ident, ".")] = true
			}
		case *parse.TemplateNode:
			out["template "+n.Name] = true
			walk(n.Pipe, cond)
		case *parse.IfNode:
			walk(n.List, cond)
			walk(n.ElseList, cond)
		case *parse.WithNode:
			walk(n.List, cond)
			walk(n.ElseList, cond)
		case *parse.RangeNode:
			walk(n.Pipe, cond)
			walk(n.List, cond)
			walk(n.ElseList, cond)
		}
	}
	walk(t.tree.Root, false)
	return out
}

// fromElsewhere: the value is not made in the function that it is used in.
func fromElsewhere(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Field:
		return true
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.FieldAddr)
		return ok
	}
	return false
}

// pair finds which templates are executed with which data. Of the two, only one
// may come from elsewhere, unless both are given by the same caller.
func (k *tplWorld) pair(recv, data ssa.Value, isTpl func(types.Type) bool, depth int, visit func(tplRef, tplType)) {
	ts := k.dataTypes(data, fromElsewhere)
	rs := k.templatesOf(recv, isTpl, fromElsewhere)
	if len(ts) == 0 && len(rs) == 0 {
		rp, _ := recv.(*ssa.Parameter)
		dp, _ := data.(*ssa.Parameter)
		if rp == nil || dp == nil || rp.Parent() != dp.Parent() || depth > 3 {
			return
		}
		f := rp.Parent()
		at := func(p *ssa.Parameter) int {
			for i, q := range f.Params {
				if p == q {
					return i
				}
			}
			return -1
		}
		for _, cs := range k.w.Callers(f) {
			a := cs.Common().Args
			if !cs.Common().IsInvoke() && len(a) == len(f.Params) {
				k.pair(a[at(rp)], a[at(dp)], isTpl, depth+1, visit)
			}
		}
		return
	}
	if len(ts) == 0 {
		ts = k.dataTypes(data, nil)
	}
	if len(rs) == 0 {
		rs = k.templatesOf(recv, isTpl, nil)
	}
	for _, r := range rs {
		for _, t := range ts {
			visit(r, t)
		}
	}
}

func isWriter(t types.Type) bool {
	return strings.HasSuffix(TypeStr(t), "Writer")
}

// valueTexts are the texts that a value is, or that a function returns.
func (k *tplWorld) valueTexts(v ssa.Value) []string {
	if t := k.textsOf(v); len(t) > 0 {
		return t
	}
	var out []string
	k.w.origins(v, func(v ssa.Value, last bool) bool {
		var f *ssa.Function
		switch x := v.(type) {
		case *ssa.Function:
			f = x
		case *ssa.MakeClosure:
			f = x.Fn.(*ssa.Function)
		}
		if f == nil {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				out = append(out, k.textsOf(r.Results[0])...)
			}
		}
		return true
	})
	return out
}

// dataVars notes the variables defined for the templates of a generator.
func (k *tplWorld) dataVars(args []ssa.Value) {
	var vs []ssa.Value
	for _, a := range args {
		if sl, ok := a.(*ssa.Slice); ok {
			if es, ok := k.w.sliceElems(sl, nil); ok {
				for _, e := range es {
					vs = append(vs, e.v)
				}
				continue
			}
		}
		vs = append(vs, a)
	}
	for i := 0; i+1 < len(vs); i += 2 {
		key, val := vs[i], vs[i+1]
		if mi, ok := key.(*ssa.MakeInterface); ok {
			key = mi.X
		}
		s, ok := constText(key)
		if !ok {
			return
		}
		if mi, ok := val.(*ssa.MakeInterface); ok {
			k.vars[s] = tplType{t: mi.X.Type()}
		}
	}
}

// dataTypes are the types of the values that are given as data.
func (k *tplWorld) dataTypes(v ssa.Value, skip func(ssa.Value) bool) []tplType {
	var out []tplType
	seen := map[string]bool{}
	k.w.origins(v, func(v ssa.Value, last bool) bool {
		if skip != nil && skip(v) {
			return true
		}
		mi, ok := v.(*ssa.MakeInterface)
		if !ok {
			return false
		}
		t := tplType{t: mi.X.Type()}
		if m, ok := t.t.Underlying().(*types.Map); ok && types.IsInterface(m.Elem()) {
			t.vars = k.vars
		}
		if key := types.TypeString(t.t, nil); !seen[key] {
			seen[key] = true
			out = append(out, t)
		}
		return true
	})
	return out
}

// dataOfFunc are the types that a function returns as data: of the one used by default when nil is given.
func (k *tplWorld) dataOfFunc(v ssa.Value) []tplType {
	var out []tplType
	if c, ok := v.(*ssa.Const); ok && c.IsNil() {
		m := k.w.method(types.NewPointer(k.w.Type("cli", "Context")), "ExecuteTemplate")
		if m == nil {
			return nil
		}
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				cc, g := calleeOf(in)
				if g != nil && g.Name() == "Execute" && len(cc.Args) == 3 {
					out = append(out, k.dataTypes(cc.Args[2], func(v ssa.Value) bool {
						_, ok := v.(*ssa.Parameter)
						return ok
					})...)
				}
			}
		}
		return out
	}
	k.w.origins(v, func(v ssa.Value, last bool) bool {
		var f *ssa.Function
		switch x := v.(type) {
		case *ssa.Function:
			f = x
		case *ssa.MakeClosure:
			f = x.Fn.(*ssa.Function)
		}
		if f == nil {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
				out = append(out, k.dataTypes(r.Results[0], nil)...)
			}
		}
		return true
	})
	return out
}

type tplRef struct {
	set  map[string][]*tplTree
	name string
}

// templatesOf are the templates that a value may be.
func (k *tplWorld) templatesOf(v ssa.Value, isTpl func(types.Type) bool, skip func(ssa.Value) bool) []tplRef {
	var out []tplRef
	seen := map[string]bool{}
	single := func(text, pkg, where string) {
		if seen[text] {
			return
		}
		seen[text] = true
		name := "(text)"
		if i := strings.IndexByte(text, '\n'); i < 0 {
			name = text
		}
		ts, err := k.trees(name, text, pkg, where)
		if err != nil {
			k.c.Bad("nested", "parse:"+where, where, "the template cannot be parsed: %v", err)
			return
		}
		set := map[string][]*tplTree{}
		for n, t := range ts {
			t.own = set
			set[n] = []*tplTree{t}
		}
		out = append(out, tplRef{set, name})
	}
	var visit func(v ssa.Value, last bool) bool
	visit = func(v ssa.Value, last bool) bool {
		if skip != nil && skip(v) {
			return true
		}
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		g := call.Call.StaticCallee()
		if g == nil {
			return false
		}
		where := k.w.InstrPos(call)
		if k.w.InModule(g) {
			args := call.Call.Args
			if g.Signature.Recv() != nil && g.Name() == "Template" && shortPkg(g.Pkg.Pkg) == "cli" && len(args) == 2 {
				if ns, ok := k.w.constStrings(args[1]); ok {
					for _, n := range ns {
						if !seen["root:"+n] {
							seen["root:"+n] = true
							out = append(out, tplRef{k.root, n})
						}
					}
				}
				return true
			}
			if g.Signature.Results().Len() > 0 && isTpl(g.Signature.Results().At(0).Type()) {
				found := false
				for _, a := range args {
					if !isText(a.Type()) {
						continue
					}
					for _, s := range k.textsOf(a) {
						if strings.Contains(s, "{{") {
							found = true
							single(s, pkgOf(call.Parent()), where)
						}
					}
				}
				return found
			}
			return false
		}
		switch {
		case g.Name() == "Must" && len(call.Call.Args) == 2:
			k.w.origins(call.Call.Args[0], visit)
			return true
		case g.Name() == "Parse" && len(call.Call.Args) == 2 && strings.Contains(TypeStr(g.Signature.Recv().Type()), "template.Template"):
			for _, s := range k.textsOf(call.Call.Args[1]) {
				if strings.Contains(s, "{{") {
					single(s, pkgOf(call.Parent()), where)
				}
			}
			return true
		}
		return false
	}
	k.w.origins(v, visit)
	return out
}

func isText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (k *tplWorld) start(set map[string][]*tplTree, name string, t tplType, where string) {
	if len(set[name]) == 0 {
		k.c.Bad("nested", "execute:"+name, where, "the template %q is executed and defined nowhere", name)
		return
	}
	k.c.Ok("nested", "execute:"+name, where)
	for _, tr := range set[name] {
		k.tree(tr, t)
	}
}

func (k *tplWorld) tree(tr *tplTree, dot tplType) {
	key := fmt.Sprintf("%p|%s|%v", tr, TypeStr(dot.t), dot.addr)
	if k.done[key] {
		return
	}
	k.done[key] = true
	e := &tplEnv{k: k, tr: tr, vars: []tplVar{{"$", dot}}}
	e.list(tr.tree.Root, dot)
}

type tplVar struct {
	name string
	t    tplType
}

type tplEnv struct {
	k    *tplWorld
	tr   *tplTree
	vars []tplVar
}

func (e *tplEnv) key(n parse.Node) string {
	return e.tr.text + "/" + e.tr.name + ": " + n.String()
}

func (e *tplEnv) bad(rule string, n parse.Node, format string, a ...any) {
	e.k.c.Bad(rule, e.key(n), e.tr.where, "in template %q: %s: %s", e.tr.name, n.String(), fmt.Sprintf(format, a...))
}

func (e *tplEnv) ok(rule string, n parse.Node) { e.k.c.Ok(rule, e.key(n), e.tr.where) }

func (e *tplEnv) list(l *parse.ListNode, dot tplType) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		e.node(n, dot)
	}
}

func (e *tplEnv) node(n parse.Node, dot tplType) {
	switch n := n.(type) {
	case *parse.ListNode:
		e.list(n, dot)
	case *parse.ActionNode:
		ts := e.pipe(n.Pipe, dot)
		if len(n.Pipe.Decl) == 0 {
			e.printable(n, ts)
		}
	case *parse.IfNode:
		e.branch(&n.BranchNode, dot, parse.NodeIf)
	case *parse.WithNode:
		e.branch(&n.BranchNode, dot, parse.NodeWith)
	case *parse.RangeNode:
		e.branch(&n.BranchNode, dot, parse.NodeRange)
	case *parse.TemplateNode:
		ts := []tplType{{}}
		if n.Pipe != nil {
			ts = e.pipe(n.Pipe, dot)
		}
		e.nested(n, n.Name, ts)
	}
}

func (e *tplEnv) nested(n parse.Node, name string, ts []tplType) {
	defs := e.tr.own[name]
	if len(defs) == 0 {
		e.bad("nested", n, "the template %q is defined nowhere", name)
		return
	}
	e.ok("nested", n)
	for _, d := range defs {
		for _, t := range ts {
			if t.t != nil && !types.IsInterface(t.t) {
				e.k.tree(d, t)
			}
		}
	}
}

func (e *tplEnv) branch(b *parse.BranchNode, dot tplType, kind parse.NodeType) {
	mark := len(e.vars)
	decl := b.Pipe.Decl
	ts := e.pipe(b.Pipe, dot)
	for _, t := range ts {
		e.vars = e.vars[:mark]
		switch kind {
		case parse.NodeRange:
			kt, et, ok := rangeTypes(t)
			if !ok {
				e.bad("field", b.Pipe, "%s is not something to range over", TypeStr(t.t))
				continue
			}
			switch len(decl) {
			case 1:
				e.vars = append(e.vars, tplVar{decl[0].Ident[0], et})
			case 2:
				e.vars = append(e.vars, tplVar{decl[0].Ident[0], kt}, tplVar{decl[1].Ident[0], et})
			}
			e.list(b.List, et)
		default:
			for _, d := range decl {
				e.vars = append(e.vars, tplVar{d.Ident[0], t})
			}
			if kind == parse.NodeWith {
				e.list(b.List, t)
			} else {
				e.list(b.List, dot)
			}
		}
	}
	e.vars = e.vars[:mark]
	e.list(b.ElseList, dot)
	e.vars = e.vars[:mark]
}

func rangeTypes(t tplType) (key, elem tplType, ok bool) {
	if t.t == nil {
		return tplType{}, tplType{}, true
	}
	tt := t.t
	if p, is := tt.Underlying().(*types.Pointer); is {
		tt = p.Elem()
	}
	i := tplType{t: types.Typ[types.Int]}
	switch x := tt.Underlying().(type) {
	case *types.Slice:
		return i, tplType{t: x.Elem(), addr: true}, true
	case *types.Array:
		return i, tplType{t: x.Elem(), addr: t.addr}, true
	case *types.Map:
		return tplType{t: x.Key()}, tplType{t: x.Elem()}, true
	case *types.Chan:
		return i, tplType{t: x.Elem()}, true
	case *types.Interface:
		return tplType{}, tplType{}, true
	case *types.Signature:
		return tplType{}, tplType{}, true
	case *types.Basic:
		return i, i, x.Info()&types.IsInteger != 0
	}
	return i, i, false
}

// pipe gives the types that a pipeline may have, and declares its variables.
func (e *tplEnv) pipe(p *parse.PipeNode, dot tplType) []tplType {
	var final []tplType
	for i, cmd := range p.Cmds {
		if i == 0 {
			final = e.command(cmd, dot, nil)
		} else {
			final = e.command(cmd, dot, final)
		}
	}
	for _, d := range p.Decl {
		t := tplType{}
		if len(final) == 1 {
			t = final[0]
		}
		if p.IsAssign {
			for i := len(e.vars) - 1; i >= 0; i-- {
				if e.vars[i].name == d.Ident[0] {
					e.vars[i].t = tplType{}
					break
				}
			}
			continue
		}
		e.vars = append(e.vars, tplVar{d.Ident[0], t})
	}
	return final
}

// command evaluates one command; final are the types of what is piped into it (nil: nothing).
func (e *tplEnv) command(cmd *parse.CommandNode, dot tplType, final []tplType) []tplType {
	first := cmd.Args[0]
	args := cmd.Args[1:]
	switch n := first.(type) {
	case *parse.FieldNode:
		return e.fields(n, []tplType{dot}, n.Ident, args, dot, final)
	case *parse.ChainNode:
		return e.fields(n, e.arg(n.Node, dot), n.Field, args, dot, final)
	case *parse.IdentifierNode:
		return e.function(n, cmd, args, dot, final)
	case *parse.PipeNode:
		return e.pipe(n, dot)
	case *parse.VariableNode:
		return e.fields(n, []tplType{e.variable(n.Ident[0])}, n.Ident[1:], args, dot, final)
	}
	if len(args) > 0 || final != nil {
		e.bad("call", cmd, "arguments are given to something that is not a function")
	}
	return e.arg(first, dot)
}

func (e *tplEnv) variable(name string) tplType {
	for i := len(e.vars) - 1; i >= 0; i-- {
		if e.vars[i].name == name {
			return e.vars[i].t
		}
	}
	return tplType{}
}

// arg gives the types of an operand.
func (e *tplEnv) arg(n parse.Node, dot tplType) []tplType {
	switch n := n.(type) {
	case *parse.DotNode:
		return []tplType{dot}
	case *parse.NilNode:
		return []tplType{{}}
	case *parse.FieldNode:
		return e.fields(n, []tplType{dot}, n.Ident, nil, dot, nil)
	case *parse.VariableNode:
		return e.fields(n, []tplType{e.variable(n.Ident[0])}, n.Ident[1:], nil, dot, nil)
	case *parse.ChainNode:
		return e.fields(n, e.arg(n.Node, dot), n.Field, nil, dot, nil)
	case *parse.PipeNode:
		return e.pipe(n, dot)
	case *parse.IdentifierNode:
		return e.function(n, n, nil, dot, nil)
	case *parse.StringNode:
		return []tplType{{t: types.Typ[types.String]}}
	case *parse.BoolNode:
		return []tplType{{t: types.Typ[types.Bool]}}
	case *parse.NumberNode:
		switch {
		case n.IsInt:
			return []tplType{{t: types.Typ[types.Int]}}
		case n.IsFloat:
			return []tplType{{t: types.Typ[types.Float64]}}
		}
	}
	return []tplType{{}}
}

func (e *tplEnv) fields(n parse.Node, from []tplType, idents []string, args []parse.Node, dot tplType, final []tplType) []tplType {
	cur := from
	if len(idents) == 0 {
		if len(args) > 0 || final != nil {
			e.bad("call", n, "arguments are given to something that is not a function")
		}
		return cur
	}
	for i, id := range idents {
		var next []tplType
		for _, t := range cur {
			var a []parse.Node
			var f []tplType
			if i == len(idents)-1 {
				a, f = args, final
			}
			next = append(next, e.field(n, t, id, a, dot, f)...)
		}
		cur = next
	}
	return cur
}

func (e *tplEnv) field(n parse.Node, t tplType, id string, args []parse.Node, dot tplType, final []tplType) []tplType {
	if t.vars != nil {
		if v, ok := t.vars[id]; ok {
			e.ok("field", n)
			return []tplType{v}
		}
		return []tplType{{}}
	}
	if t.t == nil {
		return []tplType{{}}
	}
	base := t.t
	addr := t.addr
	for {
		p, ok := base.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		base, addr = p.Elem(), true
	}
	if it, ok := base.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
		return []tplType{{}}
	}
	lt := base
	if addr && !types.IsInterface(base) {
		lt = types.NewPointer(base)
	}
	ms := types.NewMethodSet(lt)
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj().(*types.Func)
		if m.Name() == id && m.Exported() {
			return e.apply(n, m.Type().(*types.Signature), args, dot, final)
		}
	}
	switch x := base.Underlying().(type) {
	case *types.Struct:
		obj, _, _ := types.LookupFieldOrMethod(base, false, nil, id)
		if obj == nil {
			obj, _, _ = types.LookupFieldOrMethod(base, false, pkgOfType(base), id)
		}
		v, ok := obj.(*types.Var)
		if !ok {
			e.bad("field", n, "%s has no field or method %s", TypeStr(t.t), id)
			return []tplType{{}}
		}
		if !v.Exported() {
			e.bad("field", n, "the field %s of %s is not exported", id, TypeStr(t.t))
			return []tplType{{}}
		}
		if len(args) > 0 || final != nil {
			e.bad("call", n, "the field %s of %s is given arguments", id, TypeStr(t.t))
		}
		e.ok("field", n)
		return []tplType{{t: v.Type(), addr: addr}}
	case *types.Map:
		if types.AssignableTo(types.Typ[types.String], x.Key()) {
			if types.IsInterface(x.Elem()) {
				return []tplType{{}}
			}
			return []tplType{{t: x.Elem()}}
		}
	case *types.Interface:
		return []tplType{{}} // the dynamic type may have it
	}
	e.bad("field", n, "%s has no field or method %s", TypeStr(t.t), id)
	return []tplType{{}}
}

func pkgOfType(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
		return s.Field(0).Pkg()
	}
	return nil
}

// apply calls a function or method.
func (e *tplEnv) apply(n parse.Node, sig *types.Signature, args []parse.Node, dot tplType, final []tplType) []tplType {
	in := sig.Params().Len()
	num := len(args)
	if final != nil {
		num++
	}
	if sig.Variadic() {
		if num < in-1 {
			e.bad("call", n, "%d arguments are given, at least %d are wanted", num, in-1)
			return []tplType{{}}
		}
	} else if num != in {
		e.bad("call", n, "%d arguments are given, %d are wanted", num, in)
		return []tplType{{}}
	}
	res := sig.Results()
	if res.Len() < 1 || res.Len() > 2 || res.Len() == 2 && !isError(res.At(1).Type()) {
		e.bad("call", n, "it does not give one value, or one and an error")
		return []tplType{{}}
	}
	param := func(i int) types.Type {
		if sig.Variadic() && i >= in-1 {
			return sig.Params().At(in - 1).Type().(*types.Slice).Elem()
		}
		return sig.Params().At(i).Type()
	}
	for i, a := range args {
		e.accepts(n, a, param(i), e.arg(a, dot))
	}
	if final != nil {
		e.accepts(n, nil, param(num-1), final)
	}
	e.ok("call", n)
	return []tplType{{t: res.At(0).Type()}}
}

// accepts decides whether a parameter takes the values given for it.
func (e *tplEnv) accepts(n, a parse.Node, p types.Type, ts []tplType) {
	what := "what is piped into it"
	if a != nil {
		what = a.String()
	}
	if num, ok := a.(*parse.NumberNode); ok {
		b, isB := p.Underlying().(*types.Basic)
		ok := isB && (b.Info()&types.IsInteger != 0 && num.IsInt || b.Info()&types.IsFloat != 0 && num.IsFloat) || types.IsInterface(p)
		if !ok {
			e.bad("call", n, "%s is given for a parameter of type %s", what, TypeStr(p))
		}
		return
	}
	if _, ok := a.(*parse.StringNode); ok {
		if !isText(p) && !types.IsInterface(p) {
			e.bad("call", n, "%s is given for a parameter of type %s", what, TypeStr(p))
		}
		return
	}
	for _, t := range ts {
		if t.t == nil || types.AssignableTo(t.t, p) {
			continue
		}
		if pt, ok := t.t.Underlying().(*types.Pointer); ok && types.AssignableTo(pt.Elem(), p) {
			continue
		}
		if t.addr && types.AssignableTo(types.NewPointer(t.t), p) {
			continue
		}
		if types.IsInterface(t.t) {
			if types.IsInterface(p) {
				continue
			}
			e.bad("call", n, "%s may be of any type that %s allows, and only %s is accepted", what, TypeStr(t.t), TypeStr(p))
			continue
		}
		e.bad("call", n, "%s is of type %s, and %s is wanted", what, TypeStr(t.t), TypeStr(p))
	}
}

var tplBuiltins = map[string]bool{"and": true, "or": true, "not": true, "len": true, "index": true, "slice": true,
	"print": true, "printf": true, "println": true, "html": true, "js": true, "urlquery": true, "call": true,
	"eq": true, "ne": true, "lt": true, "le": true, "gt": true, "ge": true}

func (e *tplEnv) function(id *parse.IdentifierNode, n parse.Node, args []parse.Node, dot tplType, final []tplType) []tplType {
	name := id.Ident
	var sigs []*types.Signature
	known := false
	// a function of the same name that an extension registers replaces it
	for pkg, fs := range e.k.funcs {
		if len(fs[name]) == 0 {
			continue
		}
		own := pkg == e.tr.pkg || pkg == modPath && e.isRoot()
		if own {
			known = true
		}
		if own || e.isRoot() {
			sigs = append(sigs, fs[name]...)
		}
	}
	if known {
		sort.Slice(sigs, func(i, j int) bool { return TypeStr(sigs[i]) < TypeStr(sigs[j]) })
		var out []tplType
		for _, s := range sigs {
			for _, t := range e.apply(n, s, args, dot, final) {
				dup := false
				for _, o := range out {
					dup = dup || o.t != nil && t.t != nil && types.Identical(o.t, t.t)
				}
				if !dup {
					out = append(out, t)
				}
			}
		}
		if name == "Execute" && len(args) == 2 {
			if s, ok := args[0].(*parse.StringNode); ok {
				e.nested(n, s.Text, e.arg(args[1], dot))
			}
		}
		return out
	}
	if !tplBuiltins[name] {
		e.bad("call", n, "the function %s is registered nowhere", name)
		return []tplType{{}}
	}
	var all [][]tplType
	for _, a := range args {
		all = append(all, e.arg(a, dot))
	}
	if final != nil {
		all = append(all, final)
	}
	str, boolT, intT := []tplType{{t: types.Typ[types.String]}}, []tplType{{t: types.Typ[types.Bool]}}, []tplType{{t: types.Typ[types.Int]}}
	e.ok("call", n)
	switch name {
	case "and", "or":
		var out []tplType
		for _, a := range all {
			out = append(out, a...)
		}
		return out
	case "not":
		return boolT
	case "len":
		for _, a := range all {
			for _, t := range a {
				if _, _, ok := rangeTypes(t); !ok && !isText(t.t) {
					e.bad("call", n, "%s has no length", TypeStr(t.t))
				}
			}
		}
		return intT
	case "index":
		if len(all) == 2 {
			var out []tplType
			for _, t := range all[0] {
				if t.t != nil && isText(t.t) {
					out = append(out, tplType{t: types.Typ[types.Uint8]})
					continue
				}
				_, el, ok := rangeTypes(t)
				if !ok {
					e.bad("call", n, "%s cannot be indexed", TypeStr(t.t))
				}
				out = append(out, el)
			}
			return out
		}
		return []tplType{{}}
	case "slice":
		if len(all) > 0 {
			return all[0]
		}
	case "call":
		return []tplType{{}}
	case "eq", "ne", "lt", "le", "gt", "ge":
		e.comparable(n, name, all)
		return boolT
	}
	return str
}

func (e *tplEnv) isRoot() bool {
	return len(e.k.root) > 0 && fmt.Sprintf("%p", e.tr.own) == fmt.Sprintf("%p", e.k.root)
}

// comparable reports comparisons that text/template refuses.
func (e *tplEnv) comparable(n parse.Node, op string, all [][]tplType) {
	if len(all) < 2 {
		e.bad("call", n, "a comparison needs two operands")
		return
	}
	kind := func(t types.Type) string {
		if t == nil || types.IsInterface(t) {
			return ""
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return "other"
		}
		switch {
		case b.Info()&types.IsString != 0:
			return "string"
		case b.Info()&types.IsBoolean != 0:
			return "bool"
		case b.Info()&types.IsInteger != 0:
			return "integer"
		case b.Info()&types.IsFloat != 0:
			return "float"
		}
		return "other"
	}
	for _, a := range all[0] {
		for _, bs := range all[1:] {
			for _, b := range bs {
				x, y := kind(a.t), kind(b.t)
				if x != "" && y != "" && x != y {
					e.bad("call", n, "%s is compared with %s", TypeStr(a.t), TypeStr(b.t))
				}
			}
		}
	}
}

// printable: what an action writes out is text, a number, or has its own text.
func (e *tplEnv) printable(n parse.Node, ts []tplType) {
	for _, t := range ts {
		if t.t == nil || types.IsInterface(t.t) {
			continue
		}
		if hasText(t.t) || t.addr && hasText(types.NewPointer(t.t)) {
			continue
		}
		u := t.t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			if hasText(p.Elem()) {
				continue
			}
			u = p.Elem().Underlying()
		}
		switch u.(type) {
		case *types.Signature, *types.Chan, *types.Struct, *types.Pointer:
			e.bad("text", n, "a value of type %s is written out, which is no text", TypeStr(t.t))
			continue
		}
	}
	e.ok("text", n)
}

func hasText(t types.Type) bool {
	for _, m := range []string{"String", "Error"} {
		obj, _, _ := types.LookupFieldOrMethod(t, false, nil, m)
		f, ok := obj.(*types.Func)
		if !ok {
			continue
		}
		s := f.Type().(*types.Signature)
		if s.Params().Len() == 0 && s.Results().Len() == 1 && isText(s.Results().At(0).Type()) {
			if types.NewMethodSet(t).Lookup(nil, m) != nil {
				return true
			}
		}
	}
	return false
}

// ruleTplData: the functions that make the data of an element take each part from the part of the same name.
func ruleTplData(c *Ctx) {
	w := c.W
	elems := map[string]bool{"cli.Command": true, "cli.Flag": true, "cli.Arg": true, "expr.Expr": true}
	for _, f := range w.Funcs {
		sig := f.Signature
		if f.Parent() != nil || sig.Results().Len() != 1 || f.TypeParams().Len() > 0 {
			continue
		}
		// the element is one of what the function is given, or what it is a method of
		var et *types.Pointer
		var given []AV
		for i, prm := range f.Params {
			t, ok := prm.Type().(*types.Pointer)
			if ok && elems[TypeStr(t.Elem())] {
				if et != nil {
					et = nil
					break
				}
				et = t
				given = append(given, aSym{name: "elem", t: et, nonNil: true})
				continue
			}
			given = append(given, aSym{name: fmt.Sprintf("with%d", i), t: prm.Type()})
		}
		if et == nil {
			continue
		}
		dt, ok := sig.Results().At(0).Type().(*types.Pointer)
		if !ok {
			continue
		}
		ds, ok := dt.Elem().Underlying().(*types.Struct)
		if n, is := types.Unalias(dt.Elem()).(*types.Named); is && n.Obj().Exported() {
			continue // not data of templates only
		}
		if !ok || fieldOfT(dt, "Name") == nil || fieldOfT(dt, "HelpText") == nil || elems[TypeStr(dt.Elem())] {
			continue
		}
		es := et.Elem().Underlying().(*types.Struct)
		ps, complete := w.Interp(f, given, AOpts{
			Inline: func(g *ssa.Function, st *aState, args []AV) bool { return false },
			Pure:   func(string) bool { return true },
			Forks:  2, MaxPaths: 4000,
		})
		c.Funcs[FName(f)] = true
		if !complete || len(ps) == 0 {
			continue
		}
		for i := 0; i < ds.NumFields(); i++ {
			fd := ds.Field(i)
			ef := fieldOfT(et, fd.Name())
			if ef == nil {
				continue
			}
			key := FName(f) + ": " + fd.Name()
			var msg string
			for _, p := range ps {
				if p.Panicked || len(p.Ret) != 1 {
					continue
				}
				st := p.St
				rp, ok := st.ptrOf(p.Ret[0])
				if !ok {
					continue
				}
				got := st.load(aPtr{obj: rp.obj, path: rp.path + "." + fd.Name()}, fd.Type())
				part := func(n string, t types.Type) AV {
					return st.load(aPtr{obj: "*elem", path: "." + n}, t)
				}
				if p.is(got, part(fd.Name(), ef)) {
					continue
				}
				if _, isC := constOf(st, got); isC || isNilAV(got) {
					msg = "it is not set"
				}
				for j := 0; j < es.NumFields(); j++ {
					if n := es.Field(j).Name(); n != fd.Name() && p.is(got, part(n, es.Field(j).Type())) {
						msg = "it is set from " + n
					}
				}
			}
			c.That(msg == "", "data", key, w.Pos(f.Pos()), "the data of a %s has the field %s, and %s", TypeStr(et.Elem()), fd.Name(), msg)
		}
	}
}
