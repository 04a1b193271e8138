package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C11",
		Explanation: "Each function that opens a file is interpreted with unknown arguments: on each of its paths the file is closed, or handed to whoever asked for it. The same way, what is switched on for an operation is followed to each of its exits.",
		Rules: []RuleDoc{
			{"files", "a file that is opened is closed or handed on, on every path", 8},
			{"release", "what stops a timeout or a signal handler is called after the command", 2},
			{"app", "the current app is the previous one again", 2},
			{"request", "the completion request is removed when completion has finished", 1},
			{"flag", "a state that is set for an operation is unset at its end, however it ends", 2},
			{"dir", "a generator leaves each directory that it enters", 1},
		},
		Run: ruleUndo})
}

func lastName(n string) string {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		return n[i+1:]
	}
	return n
}

func hasClose(t types.Type) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	s := ms.Lookup(nil, "Close")
	if s == nil {
		return false
	}
	sig, ok := s.Type().(*types.Signature)
	return ok && sig.Params().Len() == 0
}

func opens(com *ssa.CallCommon, name string) bool {
	switch lastName(name) {
	case "Open", "Create", "OpenFile", "OpenContext", "CreateTemp", "OpenInRoot", "OpenRoot", "Dial", "Listen":
	default:
		return false
	}
	r := com.Signature().Results()
	return r.Len() == 2 && hasClose(r.At(0).Type())
}

// uses says of a function that it uses a file it is given without keeping it.
func onlyUses(name string) bool {
	for _, p := range []string{"io.ReadAll", "io.Copy", "io.WriteString", "io.ReadFull", "fmt.Fprint", "fmt.Fscan", "fs.ReadAll", "errors.", "reflect.", "fmt.Sprint", "fmt.Errorf", "os.IsNotExist", "bytes.", "strings."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func holdsFile(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Slice:
		return holdsFile(u.Elem())
	}
	return !isErrorType(t)
}

// carries: v is or contains what satisfies is.
func (s *aState) contains(v AV, is func(AV) bool) bool {
	seen := map[string]bool{}
	var rec func(v AV, d int) bool
	rec = func(v AV, d int) bool {
		if v == nil || d > 12 {
			return false
		}
		v = s.norm(v)
		if is(v) {
			return true
		}
		switch x := v.(type) {
		case aSym:
			if seen[x.name] || !holdsFile(x.t) {
				return false
			}
			seen[x.name] = true
			for _, y := range x.deps {
				if rec(y, d+1) {
					return true
				}
			}
		case aAgg:
			if rec(x.base, d+1) {
				return true
			}
			for _, y := range x.over {
				if rec(y, d+1) {
					return true
				}
			}
		case aSlice:
			es, _ := s.Elems(x)
			for _, y := range append(es, x.tail...) {
				if rec(y, d+1) {
					return true
				}
			}
		case aIface:
			return rec(x.v, d+1)
		case aTuple:
			for _, y := range x {
				if rec(y, d+1) {
					return true
				}
			}
		case aFn:
			for _, y := range x.bind {
				if rec(y, d+1) {
					return true
				}
			}
		case aPtr:
			if seen["&"+x.obj] {
				return false
			}
			seen["&"+x.obj] = true
			if r := s.mem[x.obj]; r != nil && strings.HasPrefix(x.obj, "new:") {
				for _, y := range r.cells {
					if rec(y, d+1) {
						return true
					}
				}
			}
		case aMap:
			if r := s.mem[x.obj]; r != nil {
				for _, y := range r.cells {
					if rec(y, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(v, 0)
}

// small functions of the module are entered
func (w *World) helper(g *ssa.Function) bool {
	if !w.InModule(g) || len(g.Blocks) == 0 {
		return false
	}
	if g.Parent() != nil {
		return true
	}
	return g.Object() != nil && !g.Object().Exported() && len(g.Blocks) <= 12
}

func ruleUndo(c *Ctx) {
	w := c.W
	c.filesClosed()
	c.released()
	c.currentApp()
	c.completionRequest()
	c.temporaryFlags()
	c.directories()
	_ = w
}

func (c *Ctx) filesClosed() {
	w := c.W
	in := map[*ssa.Function]bool{}
	sites := map[*ssa.Function]int{}
	w.eachInstr(func(f *ssa.Function, i ssa.Instruction) {
		site, ok := i.(ssa.CallInstruction)
		if !ok || fakePkg(f) {
			return
		}
		if opens(site.Common(), callName(w, site.Common())) {
			in[f] = true
			sites[f]++
		}
	})
	for n := 0; n < 2; n++ {
		var more []*ssa.Function
		for f := range in {
			if w.helper(f) {
				for _, call := range w.Callers(f) {
					more = append(more, call.Parent())
				}
				if f.Parent() != nil {
					// run where it is made
					_ = f
				}
			}
		}
		for _, f := range more {
			if !fakePkg(f) {
				in[f] = true
			}
		}
	}
	var fs []*ssa.Function
	for f := range in {
		if f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return FName(fs[i]) < FName(fs[j]) })
	for _, f := range fs {
		ps, ok := w.Interp(f, nil, AOpts{Depth: 4, Forks: 2, MaxPaths: 4000,
			Inline: func(g *ssa.Function, _ *aState, _ []AV) bool {
				for _, p := range g.Params {
					if sl, ok := p.Type().Underlying().(*types.Slice); ok && holdsFile(sl.Elem()) {
						return false // a list of files is handed on
					}
				}
				return w.helper(g)
			},
			Keeps: func(string) bool { return true }})
		dbgPaths(f, ps, ok)
		if len(ps) == 0 {
			continue
		}
		bad := ""
		n := 0
		for _, p := range ps {
			if p.Panicked {
				continue
			}
			for i, e := range p.Events {
				if e.Call == nil || !opens(e.Call.Common(), e.Name()) {
					continue
				}
				tp, ok := e.Res.(aTuple)
				if !ok || len(tp) != 2 {
					continue
				}
				if isNilAV(p.St.norm(tp[0])) || !isNilAV(p.St.norm(tp[1])) && p.St.nonNil(tp[1]) {
					continue // not opened
				}
				n++
				held := false
				for _, x := range p.Events[i+1:] {
					held = held || x.Store != nil && strings.HasPrefix(x.Store.obj, "el:new:make@") && p.St.contains(x.Val, func(v AV) bool { return v.str() == tp[0].str() })
				}
				if !p.closedAfter(i, tp[0]) && !(held && closesElements(f)) {
					bad = "the file opened by " + e.Name() + " (" + w.InstrPos(e.Call) + ") is neither closed nor handed on"
				}
			}
		}
		if n > 0 {
			c.That(bad == "", "files", FName(f), w.Pos(f.Pos()), "%s", bad)
		}
	}
}

// closesElements: the function closes the elements of a list.
func closesElements(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != "Close" {
				continue
			}
			v := ci.Common().Value
			for i := 0; i < 6; i++ {
				switch x := v.(type) {
				case *ssa.Extract:
					v = x.Tuple
				case *ssa.TypeAssert:
					v = x.X
				case *ssa.ChangeInterface:
					v = x.X
				case *ssa.UnOp:
					if _, ok := x.X.(*ssa.IndexAddr); ok {
						return true
					}
				}
			}
		}
	}
	for _, g := range f.AnonFuncs {
		if closesElements(g) {
			return true
		}
	}
	return false
}

func (p *APath) closedAfter(i int, file AV) bool {
	id := p.St.norm(file).str()
	holders := map[string]bool{}
	is := func(v AV) bool {
		t := p.St.norm(v).str()
		if t == id {
			return true
		}
		for h := range holders {
			if strings.HasPrefix(t, h) {
				return true
			}
		}
		return false
	}
	for _, e := range p.Events[i+1:] {
		if e.Store != nil && strings.HasPrefix(e.Store.obj, "el:new:make@") && p.St.contains(e.Val, is) {
			holders[strings.TrimPrefix(e.Store.obj, "el:")] = true
		}
	}
	for _, r := range p.Ret {
		if p.St.contains(r, is) {
			return true
		}
	}
	for _, e := range p.Events[i+1:] {
		if e.Store != nil {
			if !strings.HasPrefix(e.Store.obj, "el:new:make@") && p.St.contains(e.Val, is) {
				return true // kept by something that was there before
			}
			continue
		}
		if e.Recv != nil && p.St.contains(e.Recv, is) && lastName(e.Name()) == "Close" {
			return true
		}
		n := e.Name()
		if strings.HasPrefix(n, "builtin:") {
			continue
		}
		for k, a := range e.Args {
			if !p.St.contains(a, is) {
				continue
			}
			if k == 0 && e.Fn != nil && e.Fn.Signature.Recv() != nil {
				if lastName(n) == "Close" {
					return true
				}
				continue // a method of the file
			}
			if !onlyUses(n) {
				return true // passed on
			}
		}
	}
	return false
}

// released: the function that stops a timeout, or the handling of signals
func (c *Ctx) released() {
	w := c.W
	starts := func(n string) bool {
		switch n {
		case "context.WithTimeout", "context.WithTimeoutCause", "context.WithDeadline", "context.WithDeadlineCause", "context.WithCancel", "context.WithCancelCause", "os/signal.NotifyContext":
			return true
		}
		return false
	}
	afterT := w.constVal("AfterTiming")
	done := map[*ssa.Function]bool{}
	w.eachInstr(func(f *ssa.Function, i ssa.Instruction) {
		com, g := calleeOf(i)
		if com == nil || g == nil || !starts(CalleeName(g)) || done[f] || fakePkg(f) {
			return
		}
		done[f] = true
		ps, ok := w.Interp(f, nil, AOpts{Depth: 4, MaxPaths: 2000, Keeps: func(string) bool { return true },
			Inline: func(g *ssa.Function, _ *aState, _ []AV) bool { return w.helper(g) }})
		dbgPaths(f, ps, ok)
		bad := ""
		for _, p := range ps {
			if p.Panicked {
				continue
			}
			for i, e := range p.Events {
				if e.Call == nil || !starts(e.Name()) {
					continue
				}
				tp, ok := e.Res.(aTuple)
				if !ok || len(tp) != 2 {
					continue
				}
				id := p.St.norm(tp[1]).str()
				is := func(v AV) bool { return p.St.norm(v).str() == id }
				if !p.stopped(i, is, afterT) {
					bad = "what stops " + e.Name() + " is not registered to be called after the command"
				}
			}
		}
		c.That(bad == "", "release", FName(f), w.Pos(f.Pos()), "%s", bad)
	})
}

func (p *APath) stopped(i int, is func(AV) bool, afterT string) bool {
	var handed []string // what is run at the right time
	for _, r := range p.Ret {
		if p.St.contains(r, func(v AV) bool { _, ok := v.(aSym); return ok && is(v) }) {
			if _, ok := p.St.norm(r).(aSym); ok && is(r) {
				return true
			}
		}
	}
	for _, e := range p.Events[i+1:] {
		if e.Store != nil {
			if is(e.Val) {
				return true
			}
			continue
		}
		if strings.HasPrefix(e.Method, "dyn:") && is(e.Recv) {
			return true // called
		}
		in := false
		timed := false
		for _, a := range e.Args {
			in = in || p.St.contains(a, is)
			if k, ok := p.St.norm(a).(aConst); ok && k.v != nil {
				if k.v.ExactString() == afterT && k.t != nil && strings.HasSuffix(k.t.String(), ".Timing") {
					timed = true
				}
			}
		}
		name := lastName(e.Name())
		if in && (name == "After" || timed) {
			if len(e.Args) > 1 {
				return true // of the context
			}
			if e.Res != nil {
				handed = append(handed, p.St.norm(e.Res).str())
			}
			continue
		}
		for _, h := range handed {
			for _, a := range e.Args {
				if p.St.contains(a, func(v AV) bool { return p.St.norm(v).str() == h }) {
					return true
				}
			}
		}
	}
	for _, h := range handed {
		for _, r := range p.Ret {
			if p.St.contains(r, func(v AV) bool { return p.St.norm(v).str() == h }) {
				return true
			}
		}
	}
	return false
}

// touching gives the functions of the module that refer to what the function is true of,
// and those which they are helpers of.
func (w *World) touching(is func(in ssa.Instruction) bool, n int) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	w.eachInstr(func(f *ssa.Function, in ssa.Instruction) {
		if !fakePkg(f) && is(in) {
			out[f] = true
		}
	})
	for ; n > 0; n-- {
		var more []*ssa.Function
		for f := range out {
			if f.Parent() != nil {
				more = append(more, f.Parent())
			}
			if f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil {
				for _, call := range w.Callers(f) {
					more = append(more, call.Parent())
				}
				continue
			}
			if w.helper(f) {
				for _, call := range w.Callers(f) {
					more = append(more, call.Parent())
				}
			}
		}
		for _, f := range more {
			if !fakePkg(f) {
				out[f] = true
			}
		}
	}
	return out
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var fs []*ssa.Function
	for f := range m {
		if f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return FName(fs[i]) < FName(fs[j]) })
	return fs
}

// currentApp: what sets the current app for a run stores the previous one in the end.
func (c *Ctx) currentApp() {
	w := c.W
	set := w.Func("cli.SetCurrentApp")
	if set == nil {
		c.Missing("app", "SetCurrentApp")
		return
	}
	uses := w.touching(func(in ssa.Instruction) bool {
		for _, op := range in.Operands(nil) {
			if g, ok := (*op).(*ssa.Global); ok && g.Name() == "currentApp" {
				return true
			}
		}
		return false
	}, 3)
	for _, f := range sortedFns(uses) {
		if f == set || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		ps, ok := w.Interp(f, nil, AOpts{Depth: 6, MaxPaths: 4000, Keeps: func(string) bool { return true },
			Inline: func(g *ssa.Function, _ *aState, _ []AV) bool {
				return uses[g] && !types.Identical(f.Type(), g.Type()) || uses[g] && g == set
			}})
		dbgPaths(f, ps, ok)
		bad, n := "", 0
		for _, p := range ps {
			if p.Panicked {
				continue
			}
			var loaded, last AV
			for _, e := range p.Events {
				if e.Call == nil || e.Fn == nil {
					continue
				}
				switch CalleeName(e.Fn) {
				case "sync/atomic.(Value).Load", "sync/atomic.(Pointer).Load":
					if loaded == nil && last == nil {
						loaded = e.Res
					}
				case "sync/atomic.(Value).Swap", "sync/atomic.(Pointer).Swap":
					if loaded == nil && last == nil {
						loaded = e.Res
					}
					last = e.Args[1]
				case "sync/atomic.(Value).Store", "sync/atomic.(Pointer).Store":
					last = e.Args[1]
				}
			}
			if last == nil {
				continue
			}
			n++
			if loaded == nil {
				bad = "the current app is not the previous one again at the end"
				continue
			}
			id := p.St.norm(loaded).str()
			is := func(v AV) bool { return p.St.norm(v).str() == id }
			empty := false
			if i, ok := p.St.norm(last).(aIface); ok && isNilAV(p.St.norm(i.v)) {
				empty = true
			}
			if !p.St.derives(last, is) && !(empty && p.notOf(loaded)) {
				bad = "the current app is not the previous one again at the end"
			}
		}
		if n > 0 {
			c.That(bad == "", "app", FName(f), w.Pos(f.Pos()), "%s", bad)
		}
	}
}

// notOf: an assertion about the type of v has failed on the path.
func (p *APath) notOf(v AV) bool {
	y, ok := p.St.norm(v).(aSym)
	if !ok {
		return isNilAV(p.St.norm(v))
	}
	for k, b := range p.St.tfact {
		if !b && strings.HasPrefix(k, "is[") && strings.HasSuffix(k, "]("+y.name+")") {
			return true
		}
	}
	return false
}

// completionRequest: a context's request is removed at the end.
func (c *Ctx) completionRequest() {
	w := c.W
	ct := w.Type("cli", "Context")
	fld := -1
	if ct != nil {
		st := ct.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if strings.HasSuffix(st.Field(i).Type().String(), ".CompletionRequest") {
				fld = i
			}
		}
	}
	if fld < 0 {
		c.Missing("request", "the field of Context for the completion request")
		return
	}
	name := ct.Underlying().(*types.Struct).Field(fld).Name()
	uses := w.touching(func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && fa.Field == fld && fieldName(fa.X.Type(), fld) == name && strings.HasSuffix(fa.X.Type().String(), "cli.Context")
	}, 2)
	for _, f := range sortedFns(uses) {
		if f.Parent() != nil {
			continue
		}
		own := func(g *ssa.Function) bool { return uses[g] && (w.helper(g) || g.Parent() != nil) }
		if own(f) && w.onlyCalledFrom(f, uses) {
			continue
		}
		ps, ok := w.Interp(f, nil, AOpts{Depth: 5, MaxPaths: 3000, Keeps: func(string) bool { return true },
			Inline: func(g *ssa.Function, _ *aState, _ []AV) bool { return own(g) }})
		dbgPaths(f, ps, ok)
		bad, n := "", 0
		for _, p := range ps {
			if p.Panicked {
				continue
			}
			var last AV
			ask := false
			for _, e := range p.Events {
				if e.Store != nil && lastName(e.Store.path) == name {
					last = p.St.norm(e.Val)
					ask = ask || !isNilAV(last)
				}
			}
			if !ask {
				continue
			}
			n++
			if y, ok := last.(aSym); !isNilAV(last) && !(ok && strings.HasSuffix(y.name, "."+name)) {
				bad = "the request is still there after completion has finished"
			}
		}
		if n > 0 {
			c.That(bad == "", "request", FName(f), w.Pos(f.Pos()), "%s", bad)
		}
	}
}

// onlyCalledFrom: each caller is one of the functions.
func (w *World) onlyCalledFrom(f *ssa.Function, m map[*ssa.Function]bool) bool {
	cs := w.Callers(f)
	for _, call := range cs {
		if !m[call.Parent()] {
			return false
		}
	}
	return len(cs) > 0
}

// temporaryFlags: those that are set and also unset, other than for what the user says.
func (c *Ctx) temporaryFlags() {
	w := c.W
	for _, name := range []string{"internalFlagSearchingAlternateCommand", "internalFlagImplicitTimingActive"} {
		val := w.constVal(name)
		if val == "" {
			c.Missing("flag", name)
			continue
		}
		is := func(v ssa.Value) bool {
			k, ok := v.(*ssa.Const)
			return ok && k.Value != nil && k.Value.ExactString() == val && strings.HasSuffix(k.Type().String(), ".internalFlags")
		}
		uses := w.touching(func(in ssa.Instruction) bool {
			com, _ := calleeOf(in)
			if com == nil {
				if ci, ok := in.(ssa.CallInstruction); ok {
					com = ci.Common()
				}
			}
			if com == nil {
				return false
			}
			for _, a := range com.Args {
				if is(a) {
					return true
				}
			}
			return false
		}, 2)
		n := 0
		key := strings.TrimPrefix(name, "internalFlag")
		bad, where := "", "-"
		for _, f := range sortedFns(uses) {
			if f.Parent() == nil && w.helper(f) && w.onlyCalledFrom(f, uses) {
				continue
			}
			ps, ok := w.Interp(f, nil, AOpts{Depth: 5, MaxPaths: 3000, Keeps: func(string) bool { return true },
				Inline: func(g *ssa.Function, _ *aState, _ []AV) bool { return w.helper(g) || setsFlag(g) }})
			dbgPaths(f, ps, ok)
			for _, p := range ps {
				if p.Panicked {
					continue
				}
				on := false
				for _, e := range p.Events {
					if e.Call == nil || len(e.Args) < 2 {
						continue
					}
					a := e.Args[len(e.Args)-2]
					k, ok := p.St.norm(a).(aConst)
					if !ok || k.v == nil || k.v.ExactString() != val || k.t == nil || !strings.HasSuffix(k.t.String(), ".internalFlags") {
						continue
					}
					if b, ok := isTrue(p.St.norm(e.Args[len(e.Args)-1])); ok {
						n++
						on = b
					}
				}
				if on {
					bad, where = "it is still set where "+FName(f)+" returns", w.Pos(f.Pos())
				}
				// what sets it, as an action of a list: the others may fail
				for _, e := range p.Events {
					for _, a := range e.Args {
						if setsIn(p.St, a, val) {
							n++
							bad, where = "it is set by an action of a list: when one of the next fails, it stays set", w.Pos(f.Pos())
						}
					}
				}
				for _, r := range p.Ret {
					if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && setsIn(p.St, r, val) {
						bad, where = "it is set by an action of a list: when one of the next fails, it stays set", w.Pos(f.Pos())
					}
				}
			}
		}
		if n == 0 {
			c.Missing("flag", "what sets "+name)
			continue
		}
		c.That(bad == "", "flag", key, where, "%s", bad)
	}
}

func setsFlag(g *ssa.Function) bool {
	return g.Name() == "setInternalFlag" || g.Name() == "unsetInternalFlag"
}

// setsIn: v has, as one of several elements, a function which is bound to the flag.
func setsIn(st *aState, v AV, val string) bool {
	found := false
	var rec func(v AV, d int)
	rec = func(v AV, d int) {
		if v == nil || d > 8 {
			return
		}
		v = st.norm(v)
		switch x := v.(type) {
		case aSlice:
			es, _ := st.Elems(x)
			if len(es) > 1 {
				for _, e := range es {
					e = st.norm(e)
					if i, ok := e.(aIface); ok {
						e = st.norm(i.v)
					}
					if fn, ok := e.(aFn); ok {
						for _, b := range fn.bind {
							b = st.norm(b)
							if p, ok := b.(aPtr); ok {
								b = st.norm(st.load(p, nil))
							}
							if k, ok := b.(aConst); ok && k.v != nil && k.v.ExactString() == val && k.t != nil && strings.HasSuffix(k.t.String(), ".internalFlags") {
								found = true
							}
						}
					}
				}
			}
			for _, e := range es {
				rec(e, d+1)
			}
		case aIface:
			rec(x.v, d+1)
		case aAgg:
			for _, y := range x.over {
				rec(y, d+1)
			}
		case aSym:
			for _, y := range x.deps {
				rec(y, d+1)
			}
		}
	}
	rec(v, 0)
	return found
}

// directories: a generator leaves what it enters.
func (c *Ctx) directories() {
	w := c.W
	push, pop := "template.(OutputContext).PushDir", "template.(OutputContext).PopDir"
	uses := w.touching(func(in ssa.Instruction) bool {
		com, g := calleeOf(in)
		return com != nil && g != nil && (CalleeName(g) == push || CalleeName(g) == pop)
	}, 2)
	for _, f := range sortedFns(uses) {
		if f.Parent() != nil || w.helper(f) && w.onlyCalledFrom(f, uses) {
			continue
		}
		ps, ok := w.Interp(f, nil, AOpts{Depth: 5, Forks: 2, MaxPaths: 3000, Keeps: func(string) bool { return true },
			Inline: func(g *ssa.Function, _ *aState, _ []AV) bool {
				return uses[g] && CalleeName(g) != push && CalleeName(g) != pop
			}})
		dbgPaths(f, ps, ok)
		bad, n := "", 0
		for _, p := range ps {
			if p.Panicked {
				continue
			}
			in := 0
			for _, e := range p.Events {
				switch e.Name() {
				case push:
					in++
					n++
				case pop:
					in--
				}
			}
			if in > 0 {
				bad = "the directory is not left on every path"
			} else if in < 0 {
				bad = "a directory is left that was not entered"
			}
		}
		if n > 0 {
			c.That(bad == "", "dir", FName(f), w.Pos(f.Pos()), "%s", bad)
		}
	}
}
