package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Abstract interpretation over a small domain: constants, intervals, known
// functions and composites, and named unknowns. States are not joined, they
// are partitioned by the branches taken on unknowns. Nothing is run and no
// solver is involved: an unknown stays an unknown, a branch on it is taken
// both ways unless earlier branches on the same unknown decide it.
// ---------------------------------------------------------------------------

type AV interface{ str() string }

type aConst struct { // a constant; v == nil is the nil or zero of t
	v constant.Value
	t types.Type
}
type aSym struct { // an unknown
	name   string
	t      types.Type
	nonNil bool
	deps   []AV
}
type aPtr struct { // the address of a part of an object
	obj  string
	path string
	t    types.Type
}
type aFn struct {
	f    *ssa.Function
	bind []AV
}
type aBuiltin struct{ name string }
type aAgg struct { // a struct or array value
	t    types.Type
	base AV // what the parts not in over come from; nil: zero
	over map[string]AV
}
type aSlice struct {
	obj  string
	off  int
	n    int
	t    types.Type
	tail []AV // unknown further elements come from these
	full bool // known to have no room behind its elements
}
type aMap struct {
	obj string
	t   types.Type
}
type aIface struct { // an interface value of known dynamic type
	v AV
	t types.Type
}
type aTuple []AV
type aIter struct {
	obj  string // cell that counts
	keys []AV
	m    string
	of   AV
	t    types.Type
}

func (v aConst) str() string {
	if v.v == nil {
		return "nil"
	}
	if v.v.Kind() == constant.String {
		return fmt.Sprintf("%q", constant.StringVal(v.v))
	}
	return v.v.ExactString()
}
func (v aSym) str() string     { return v.name }
func (v aPtr) str() string     { return "&" + v.obj + v.path }
func (v aBuiltin) str() string { return "builtin:" + v.name }
func (v aFn) str() string {
	var s []string
	for _, b := range v.bind {
		s = append(s, b.str())
	}
	if len(s) == 0 {
		return "func:" + FName(v.f)
	}
	return "func:" + FName(v.f) + "{" + strings.Join(s, ",") + "}"
}
func (v aAgg) str() string {
	var ks []string
	for k := range v.over {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := TypeStr(v.t) + "{"
	if v.base != nil {
		s += "…" + v.base.str() + " "
	}
	for _, k := range ks {
		s += k + ":" + v.over[k].str() + " "
	}
	return strings.TrimSpace(s) + "}"
}
func (v aSlice) str() string { return fmt.Sprintf("slice(%s,%d,%d)", v.obj, v.off, v.n) }
func (v aMap) str() string   { return "map:" + v.obj }
func (v aIface) str() string { return v.v.str() }
func (v aTuple) str() string {
	var s []string
	for _, b := range v {
		s = append(s, b.str())
	}
	return "(" + strings.Join(s, ",") + ")"
}
func (v aIter) str() string { return "iter:" + v.obj }

type aRegion struct {
	cells map[string]AV
	order []string // map keys in order of insertion
	root  AV       // where unwritten parts come from; nil: zero
}

type aFrame struct {
	f      *ssa.Function
	env    map[ssa.Value]AV
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	site   ssa.CallInstruction // in the caller; nil for the root
	forks  map[ssa.Instruction]int
	defers []aDefer
	visits map[int]int
	deferd bool // entered by RunDefers: the result is dropped
}

// differs says the frame was entered with something else.
func (fr *aFrame) differs(s *aState, args, bind []AV) bool {
	for i, fv := range fr.f.FreeVars {
		if i < len(bind) && fr.env[fv] != nil && s.norm(fr.env[fv]).str() != s.norm(bind[i]).str() {
			return true
		}
	}
	for i, p := range fr.f.Params {
		if i < len(args) && fr.env[p] != nil && s.norm(fr.env[p]).str() != s.norm(args[i]).str() {
			return true
		}
	}
	return false
}

type aDefer struct {
	call *ssa.Defer
	fn   AV
	args []AV
}

type AEvent struct {
	Call   ssa.CallInstruction
	Fn     *ssa.Function // static callee, if known
	Method string        // for calls through an interface
	Recv   AV
	Args   []AV
	Res    AV
	Depth  int
	In     *ssa.Function
	Store  *aPtr // for stores into objects that exist outside
	Val    AV
}

// Name of the callee, "cli.(Context).act" or "invoke:cli.target.appendAction".
func (e AEvent) Name() string {
	if e.Fn != nil {
		return CalleeName(e.Fn)
	}
	if e.Method != "" {
		return e.Method
	}
	return ""
}

type aState struct {
	frames []*aFrame
	mem    map[string]*aRegion
	bindS  map[string]AV // unknowns decided by branches
	neq    map[string]map[string]bool
	lo, hi map[string]int64
	nn     map[string]bool
	tfact  map[string]bool // "is[T](x)"
	events []AEvent
	count  map[string]int
	steps  int
}

type APath struct {
	Events   []AEvent
	Ret      []AV
	Panicked bool
	PanicVal AV
	St       *aState
	Last     ssa.Instruction
}

type AOpts struct {
	// Inline says whether to go into a callee; nil: every function of the module.
	Inline func(f *ssa.Function, st *aState, args []AV) bool
	// Result gives the result of a call that is not entered; nil or ok false: unknown.
	Result func(e *AEvent, st *aState) (AV, bool)
	// Global gives the value of a package variable that is never assigned; ok false: unknown.
	Pure func(name string) bool
	// Keeps says of an unknown callee that it leaves alone what its arguments point to.
	Keeps    func(name string) bool
	MaxPaths int
	MaxSteps int
	Copies   bool // follow copies between slices whose elements are known
	Depth    int
	Forks    int
	Setup    func(st *aState)
	// Reenter allows a function to be entered from within itself when it is given something else.
	Reenter bool
	// Models interprets well known functions of the standard library.
	Models bool
}

type interp struct {
	w     *World
	o     AOpts
	paths []APath
	work  []*aState
	cut   bool
	steps int
}

func (w *World) newState() *aState {
	return &aState{mem: map[string]*aRegion{}, bindS: map[string]AV{}, neq: map[string]map[string]bool{}, lo: map[string]int64{}, hi: map[string]int64{}, nn: map[string]bool{}, tfact: map[string]bool{}, count: map[string]int{}}
}

func (s *aState) clone() *aState {
	n := &aState{mem: map[string]*aRegion{}, bindS: map[string]AV{}, neq: map[string]map[string]bool{}, lo: map[string]int64{}, hi: map[string]int64{}, nn: map[string]bool{}, tfact: map[string]bool{}, count: map[string]int{}, steps: s.steps}
	for k, r := range s.mem {
		c := &aRegion{cells: make(map[string]AV, len(r.cells)), root: r.root, order: append([]string(nil), r.order...)}
		for p, v := range r.cells {
			c.cells[p] = v
		}
		n.mem[k] = c
	}
	for k, v := range s.bindS {
		n.bindS[k] = v
	}
	for k, v := range s.neq {
		m := map[string]bool{}
		for x := range v {
			m[x] = true
		}
		n.neq[k] = m
	}
	for k, v := range s.lo {
		n.lo[k] = v
	}
	for k, v := range s.hi {
		n.hi[k] = v
	}
	for k, v := range s.nn {
		n.nn[k] = v
	}
	for k, v := range s.tfact {
		n.tfact[k] = v
	}
	for k, v := range s.count {
		n.count[k] = v
	}
	n.events = append([]AEvent(nil), s.events...)
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]AV, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.forks = map[ssa.Instruction]int{}
		for k, v := range f.forks {
			g.forks[k] = v
		}
		g.visits = map[int]int{}
		for k, v := range f.visits {
			g.visits[k] = v
		}
		g.defers = append([]aDefer(nil), f.defers...)
		n.frames = append(n.frames, &g)
	}
	return n
}

func (s *aState) fresh(p string) string {
	s.count[p]++
	return fmt.Sprintf("%s'%d", p, s.count[p])
}

// Sym makes an unknown of a type.
func Sym(name string, t types.Type) AV { return aSym{name: name, t: t} }

func KInt(i int64, t types.Type) AV { return aConst{constant.MakeInt64(i), t} }
func KBool(b bool) AV               { return aConst{constant.MakeBool(b), types.Typ[types.Bool]} }
func KStr(s string) AV              { return aConst{constant.MakeString(s), types.Typ[types.String]} }
func isTrue(v AV) (val, known bool) {
	if k, ok := v.(aConst); ok && k.v != nil && k.v.Kind() == constant.Bool {
		return constant.BoolVal(k.v), true
	}
	return false, false
}

// norm applies what branches have decided about unknowns.
func (s *aState) norm(v AV) AV {
	for i := 0; i < 8; i++ {
		if p, ok := v.(aPre); ok {
			if k, ok := s.bindS[p.rest.name].(aConst); ok && k.v != nil {
				return aConst{constant.MakeString(p.pre + constant.StringVal(k.v)), p.t}
			}
			return v
		}
		y, ok := v.(aSym)
		if !ok {
			return v
		}
		b, ok := s.bindS[y.name]
		if !ok {
			return v
		}
		v = b
	}
	return v
}

// zero is the zero value of a type.
func zeroAV(t types.Type) AV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return aConst{constant.MakeString(""), t}
		case u.Info()&types.IsBoolean != 0:
			return aConst{constant.MakeBool(false), t}
		case u.Info()&types.IsNumeric != 0:
			return aConst{constant.MakeInt64(0), t}
		}
	case *types.Struct, *types.Array:
		return aAgg{t: t}
	}
	return aConst{nil, t}
}

// part reads a part of a value.
func (s *aState) part(v AV, seg string, t types.Type) AV {
	v = s.norm(v)
	switch x := v.(type) {
	case aAgg:
		if y, ok := x.over[seg]; ok {
			return y
		}
		if x.base == nil {
			return zeroAV(t)
		}
		return s.part(x.base, seg, t)
	case aConst:
		return zeroAV(t)
	case aSym:
		n := x.name + seg
		if b, ok := s.bindS[n]; ok {
			return b
		}
		return aSym{name: n, t: t, deps: []AV{x}}
	case aIface:
		return s.part(x.v, seg, t)
	}
	return aSym{name: v.str() + seg, t: t, deps: []AV{v}}
}

func splitPath(p string) []string {
	var out []string
	i := 0
	for i < len(p) {
		j := i + 1
		d := 0
		if p[i] == '[' || p[i] == '{' {
			d = 1
			for j < len(p) && d > 0 {
				switch p[j] {
				case '[', '{':
					d++
				case ']', '}':
					d--
				}
				j++
			}
		} else {
			for j < len(p) && p[j] != '.' && p[j] != '[' && p[j] != '{' {
				j++
			}
		}
		out = append(out, p[i:j])
		i = j
	}
	return out
}

func (s *aState) region(obj string) *aRegion {
	r := s.mem[obj]
	if r == nil {
		r = &aRegion{cells: map[string]AV{}, root: aSym{name: obj}}
		s.mem[obj] = r
	}
	return r
}

// partType walks a path of fields and elements.
func partType(t types.Type, segs []string) []types.Type {
	var out []types.Type
	for _, g := range segs {
		var n types.Type
		if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					if "."+u.Field(i).Name() == g {
						n = u.Field(i).Type()
					}
				}
			case *types.Array:
				n = u.Elem()
			case *types.Slice:
				n = u.Elem()
			}
		}
		out = append(out, n)
		t = n
	}
	return out
}

func (s *aState) load(p aPtr, t types.Type) AV {
	r := s.region(p.obj)
	segs := splitPath(p.path)
	// the longest written prefix
	var v AV = r.root
	if r.root == nil {
		v = nil
	}
	at := 0
	found := false
	for i := len(segs); i >= 0; i-- {
		k := strings.Join(segs[:i], "")
		if c, ok := r.cells[k]; ok {
			v, at, found = c, i, true
			break
		}
	}
	if !found && r.root == nil {
		v = zeroAV(t)
		at = len(segs)
	} else {
		for i := at; i < len(segs); i++ {
			pt := t
			if i < len(segs)-1 {
				pt = types.Typ[types.Invalid]
			}
			v = s.part(v, segs[i], pt)
		}
	}
	// later writes below
	over := map[string]AV{}
	for k, c := range r.cells {
		if len(k) > len(p.path) && strings.HasPrefix(k, p.path) && (p.path == "" || strings.ContainsAny(k[len(p.path):len(p.path)+1], ".[{")) {
			rel := splitPath(k[len(p.path):])
			if len(rel) == 1 {
				over[rel[0]] = c
			} else {
				// nested: load recursively
				over[rel[0]] = nil
			}
		}
	}
	if len(over) > 0 {
		for g := range over {
			pt := partType(t, []string{g})[0]
			if pt == nil {
				pt = types.Typ[types.Invalid]
			}
			over[g] = s.load(aPtr{obj: p.obj, path: p.path + g}, pt)
		}
		var base AV = v
		if !found && r.root == nil {
			base = nil
		}
		return aAgg{t: t, base: base, over: over}
	}
	if y, ok := v.(aSym); ok && (y.t == nil || y.t == types.Typ[types.Invalid]) {
		y.t = t
		v = y
	}
	return s.norm(v)
}

func (s *aState) store(p aPtr, v AV) {
	r := s.region(p.obj)
	for k := range r.cells {
		if k == p.path || (strings.HasPrefix(k, p.path) && (p.path == "" || strings.ContainsAny(k[len(p.path):len(p.path)+1], ".[{"))) {
			delete(r.cells, k)
		}
	}
	r.cells[p.path] = v
}

// ptrOf turns a pointer value into an address.
func (s *aState) ptrOf(v AV) (aPtr, bool) {
	v = s.norm(v)
	switch x := v.(type) {
	case aPtr:
		return x, true
	case aSym:
		return aPtr{obj: "*" + x.name, t: derefOrNil(x.t)}, true
	case aIface:
		return s.ptrOf(x.v)
	}
	return aPtr{}, false
}

func derefOrNil(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return deref(t)
}

// Interp explores every way through f with the given arguments.
func (w *World) Interp(f *ssa.Function, args []AV, o AOpts) ([]APath, bool) {
	if o.MaxPaths == 0 {
		o.MaxPaths = 4000
	}
	if o.MaxSteps == 0 {
		o.MaxSteps = 400000
	}
	if o.Depth == 0 {
		o.Depth = 8
	}
	if o.Forks == 0 {
		o.Forks = 2
	}
	ip := &interp{w: w, o: o}
	st := w.newState()
	if o.Setup != nil {
		o.Setup(st)
	}
	fr := newFrame(f, nil)
	for i, p := range f.Params {
		if i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = aSym{name: "param:" + paramKey(p), t: p.Type()}
		}
	}
	for _, fv := range f.FreeVars {
		fr.env[fv] = aSym{name: "free:" + fv.Name(), t: fv.Type()}
	}
	st.frames = []*aFrame{fr}
	ip.work = []*aState{st}
	for len(ip.work) > 0 {
		s := ip.work[len(ip.work)-1]
		ip.work = ip.work[:len(ip.work)-1]
		ip.run(s)
		if len(ip.paths) > o.MaxPaths || ip.steps > o.MaxSteps {
			return ip.paths, false
		}
	}
	return ip.paths, !ip.cut
}

func newFrame(f *ssa.Function, site ssa.CallInstruction) *aFrame {
	fr := &aFrame{f: f, env: map[ssa.Value]AV{}, site: site, forks: map[ssa.Instruction]int{}, visits: map[int]int{}}
	if len(f.Blocks) > 0 {
		fr.block = f.Blocks[0]
	}
	return fr
}

func (ip *interp) val(s *aState, v ssa.Value) AV {
	fr := s.frames[len(s.frames)-1]
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroAV(x.Type())
		}
		return aConst{x.Value, x.Type()}
	case *ssa.Function:
		return aFn{f: x}
	case *ssa.Builtin:
		return aBuiltin{x.Name()}
	case *ssa.Global:
		return ip.global(s, x)
	}
	if a, ok := fr.env[v]; ok {
		return s.norm(a)
	}
	return aSym{name: FName(v.Parent()) + ":" + v.Name(), t: v.Type()}
}

// global is the address of a package variable, filled from its initialisation
// when nothing else assigns it.
func (ip *interp) global(s *aState, g *ssa.Global) AV {
	obj := "g:" + globalName(g)
	if s.mem[obj] == nil {
		if iv := ip.w.globalValue(g); iv != nil {
			s.mem[obj] = &aRegion{cells: map[string]AV{"": iv.v}}
			for k, r := range iv.mem {
				if s.mem[k] == nil {
					c := &aRegion{cells: map[string]AV{}, root: r.root, order: r.order}
					for p, v := range r.cells {
						c.cells[p] = v
					}
					s.mem[k] = c
				}
			}
		} else {
			s.mem[obj] = &aRegion{cells: map[string]AV{}, root: aSym{name: obj, t: deref(g.Type())}}
		}
	}
	return aPtr{obj: obj, t: deref(g.Type())}
}

type globalVal struct {
	v   AV
	mem map[string]*aRegion
}

// globalValue is what the package's initialisation leaves in a variable that
// is not assigned anywhere else.
func (w *World) globalValue(g *ssa.Global) *globalVal {
	if w.gvals == nil {
		w.gvals = map[*ssa.Global]*globalVal{}
	}
	if v, ok := w.gvals[g]; ok {
		return v
	}
	w.gvals[g] = nil
	init := g.Pkg.Func("init")
	if init == nil || !w.fnSetHasPkg(g.Pkg) {
		return nil
	}
	if w.inits == nil {
		w.inits = map[*ssa.Function]*aState{}
	}
	st, ok := w.inits[init]
	if !ok {
		w.inits[init] = nil
		start := w.newState()
		ip := &interp{w: w, o: AOpts{MaxPaths: 4, MaxSteps: 200000, Depth: 3, Forks: 1,
			Inline: func(f *ssa.Function, st *aState, args []AV) bool {
				n := FName(f)
				return len(f.Blocks) == 1 || n == "cli.ActionOf" || n == "cli.Pipeline"
			},
		}}
		ip.o.Setup = nil
		for _, m := range g.Pkg.Members {
			if gg, ok := m.(*ssa.Global); ok {
				start.mem["g:"+globalName(gg)] = &aRegion{cells: map[string]AV{}}
			}
		}
		fr := newFrame(init, nil)
		start.frames = []*aFrame{fr}
		ip.work = []*aState{start}
		for len(ip.work) > 0 && len(ip.paths) < 4 {
			s := ip.work[len(ip.work)-1]
			ip.work = ip.work[:len(ip.work)-1]
			ip.run(s)
		}
		// the way that does the work is the one with the most stores
		for _, p := range ip.paths {
			if st == nil || len(p.St.mem) > len(st.mem) {
				st = p.St
			}
		}
		w.inits[init] = st
	}
	if st == nil {
		return nil
	}
	for _, f := range w.Funcs {
		if f.Name() == "init" && f.Pkg == g.Pkg && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if so, ok := in.(*ssa.Store); ok && baseGlobal(so.Addr) == g {
					return nil
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok && baseGlobal(u.X) == g {
						return nil
					}
				}
			}
		}
	}
	r := st.mem["g:"+globalName(g)]
	if r == nil {
		return nil
	}
	v := st.load(aPtr{obj: "g:" + globalName(g)}, deref(g.Type()))
	gv := &globalVal{v: v, mem: st.mem}
	w.gvals[g] = gv
	return gv
}

func baseGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (w *World) fnSetHasPkg(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (ip *interp) end(s *aState, ret []AV, panicked bool, pv AV, last ssa.Instruction) {
	ip.paths = append(ip.paths, APath{Events: s.events, Ret: ret, Panicked: panicked, PanicVal: pv, St: s, Last: last})
}

func (ip *interp) run(s *aState) {
	for {
		ip.steps++
		s.steps++
		if ip.steps > ip.o.MaxSteps {
			ip.cut = true
			return
		}
		fr := s.frames[len(s.frames)-1]
		if fr.block == nil || fr.pc >= len(fr.block.Instrs) {
			return
		}
		in := fr.block.Instrs[fr.pc]
		switch x := in.(type) {
		case *ssa.If:
			c := ip.val(s, x.Cond)
			if b, known := s.decide(c); known {
				ip.jump(s, fr, map[bool]int{true: 0, false: 1}[b])
				continue
			}
			if fr.forks[in] >= ip.o.Forks {
				return // enough rounds of a loop
			}
			fr.forks[in]++
			forkAt(ip, in, len(s.frames), c)
			o := s.clone()
			if o.assume(c, false) {
				of := o.frames[len(o.frames)-1]
				ip.jump(o, of, 1)
				ip.work = append(ip.work, o)
			}
			if !s.assume(c, true) {
				return
			}
			ip.jump(s, fr, 0)
		case *ssa.Jump:
			ip.jump(s, fr, 0)
		case *ssa.Return:
			var ret []AV
			for _, r := range x.Results {
				ret = append(ret, ip.val(s, r))
			}
			if len(s.frames) == 1 {
				ip.end(s, ret, false, nil, in)
				return
			}
			s.frames = s.frames[:len(s.frames)-1]
			up := s.frames[len(s.frames)-1]
			if !fr.deferd {
				if v, ok := fr.site.(ssa.Value); ok {
					switch len(ret) {
					case 0:
					case 1:
						up.env[v] = ret[0]
					default:
						up.env[v] = aTuple(ret)
					}
				}
				up.pc++
			}
		case *ssa.Panic:
			ip.end(s, nil, true, ip.val(s, x.X), in)
			return
		case *ssa.RunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				if !ip.call(s, d.call, d.fn, d.args, true) {
					// opaque: stay to run the next one
				}
				continue
			}
			fr.pc++
		case *ssa.Call:
			fn, args := ip.callee(s, x.Common())
			if ip.call(s, x, fn, args, false) {
				continue
			}
			fr.pc++
		case *ssa.Defer:
			fn, args := ip.callee(s, x.Common())
			fr.defers = append(fr.defers, aDefer{x, fn, args})
			fr.pc++
		case *ssa.TypeAssert:
			if !ip.typeAssert(s, fr, x) {
				return
			}
			fr.pc++
		default:
			if why := ip.faults(s, in); why != "" {
				ip.end(s, nil, true, KStr(why), in)
				return
			}
			ip.step(s, fr, in)
			fr.pc++
		}
	}
}

// faults: the instruction certainly panics, for a nil it is given.
func (ip *interp) faults(s *aState, in ssa.Instruction) string {
	isNil := func(v ssa.Value) bool {
		if v == nil {
			return false
		}
		if _, g := v.(*ssa.Global); g {
			return false
		}
		a := s.norm(ip.val(s, v))
		if y, ok := a.(aSym); ok {
			s.nn[y.name] = true // from here on
		}
		return isNilAV(a)
	}
	switch x := in.(type) {
	case *ssa.FieldAddr:
		if isNil(x.X) {
			return "nil dereference"
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && isNil(x.X) {
			return "nil dereference"
		}
	case *ssa.Store:
		if isNil(x.Addr) {
			return "nil dereference"
		}
	case *ssa.MapUpdate:
		if isNil(x.Map) {
			return "assignment to entry in nil map"
		}
	case *ssa.Index:
		if _, isArr := x.X.Type().Underlying().(*types.Array); !isArr && ip.outside(s, x.X, x.Index) {
			return "index out of range"
		}
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && ip.outside(s, x.X, x.Index) {
			return "index out of range"
		}
	case *ssa.IndexAddr:
		if _, isSl := x.X.Type().Underlying().(*types.Slice); isSl && ip.outside(s, x.X, x.Index) {
			return "index out of range"
		}
	}
	return ""
}

// outside says that a known index is not one of text or a list of known length
func (ip *interp) outside(s *aState, of, index ssa.Value) bool {
	k, ok := s.norm(ip.val(s, index)).(aConst)
	if !ok || k.v == nil || k.v.Kind() != constant.Int {
		return false
	}
	i, _ := constant.Int64Val(k.v)
	if i < 0 {
		return true
	}
	switch v := s.norm(ip.val(s, of)).(type) {
	case aConst:
		if v.v == nil {
			return true
		}
		return v.v.Kind() == constant.String && int(i) >= len(constant.StringVal(v.v))
	case aSlice:
		return len(v.tail) == 0 && int(i) >= v.n
	}
	return false
}

func (ip *interp) jump(s *aState, fr *aFrame, i int) {
	to := fr.block.Succs[i]
	from := fr.block
	fr.visits[to.Index]++
	if fr.visits[to.Index] > 300 {
		fr.block = nil
		ip.cut = true
		return
	}
	// phis are read together
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
			if from.Succs[0] == from.Succs[len(from.Succs)-1] {
				break
			}
			break
		}
	}
	if len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] {
		k := 0
		for j, p := range to.Preds {
			if p == from {
				if k == i {
					pi = j
				}
				k++
			}
		}
	}
	vals := map[*ssa.Phi]AV{}
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = ip.val(s, ph.Edges[pi])
		n++
	}
	for ph, v := range vals {
		fr.env[ph] = v
	}
	fr.prev = from
	fr.block = to
	fr.pc = n
}

func (ip *interp) callee(s *aState, c *ssa.CallCommon) (AV, []AV) {
	var args []AV
	for _, a := range c.Args {
		args = append(args, ip.val(s, a))
	}
	return ip.val(s, c.Value), args
}

// call enters a function (true) or records the call and gives it a result.
func (ip *interp) call(s *aState, site ssa.CallInstruction, fn AV, args []AV, deferred bool) bool {
	w := ip.w
	c := site.Common()
	ev := AEvent{Call: site, Depth: len(s.frames), In: s.frames[len(s.frames)-1].f}
	var f *ssa.Function
	var bind []AV
	fr := s.frames[len(s.frames)-1]
	set := func(v AV) {
		if val, ok := site.(ssa.Value); ok && !deferred {
			fr.env[val] = v
		}
	}
	if c.IsInvoke() {
		recv := fn
		if i, ok := recv.(aIface); ok && !types.IsInterface(i.t) {
			if w.Prog.MethodSets.MethodSet(i.t).Lookup(c.Method.Pkg(), c.Method.Name()) != nil {
				f = w.Prog.LookupMethod(i.t, c.Method.Pkg(), c.Method.Name())
			}
			args = append([]AV{i.v}, args...)
		}
		if f == nil {
			ev.Method = "invoke:" + recvName(c.Value.Type()) + "." + c.Method.Name()
			ev.Recv = recv
		}
	} else {
		switch x := fn.(type) {
		case aFn:
			f, bind = x.f, x.bind
		case aBuiltin:
			set(ip.builtin(s, site, x.name, args))
			return false
		default:
			ev.Method = "dyn:" + fn.str()
			ev.Recv = fn
		}
	}
	ev.Args = args
	if f != nil {
		if f.Origin() != nil && len(f.Blocks) == 0 {
			f = f.Origin()
		}
		ev.Fn = f
		if v, g, gargs, ok := ip.native(s, f, args); ok {
			if g == nil {
				set(v)
				return false
			}
			f, args = g, gargs
		}
		model := false
		if ip.o.Models {
			if CalleeName(f) == "cmp.Or" {
				if v, ok := fold("cmp.Or", args, s); ok {
					set(v)
					return false
				}
			}
			if m := w.models[CalleeName(f)]; m != nil {
				f, model = m, true
			}
		}
		enter := len(f.Blocks) > 0 && (model || w.InModule(f)) && len(s.frames) <= ip.o.Depth
		for _, g := range s.frames {
			if g.f == f && !(ip.o.Reenter && g.differs(s, args, bind)) {
				enter = false
			}
		}
		if enter && !model && ip.o.Inline != nil && f.Synthetic == "" {
			enter = ip.o.Inline(f, s, args)
		}
		if enter {
			nf := newFrame(f, site)
			nf.deferd = deferred
			for i, p := range f.Params {
				if i < len(args) {
					nf.env[p] = args[i]
				} else {
					nf.env[p] = aSym{name: s.fresh("arg:" + p.Name()), t: p.Type()}
				}
			}
			for i, fv := range f.FreeVars {
				if i < len(bind) {
					nf.env[fv] = bind[i]
				} else {
					nf.env[fv] = aSym{name: "free:" + fv.Name(), t: fv.Type()}
				}
			}
			s.frames = append(s.frames, nf)
			return true
		}
	}
	var res AV
	if ip.o.Result != nil {
		if v, ok := ip.o.Result(&ev, s); ok {
			res = v
		}
	}
	if res == nil && ip.o.Models && ev.Fn != nil && CalleeName(ev.Fn) == "errors.As" && len(args) == 2 {
		if v, ok := ip.errorsAs(s, args[0], args[1]); ok {
			set(v)
			return false
		}
	}
	if res == nil && ip.o.Models && ev.Fn != nil {
		if v, ok := fold(CalleeName(ev.Fn), args, s); ok {
			set(v)
			return false
		}
	}
	if res == nil {
		res = ip.opaque(s, site, ev)
	}
	ev.Res = res
	s.events = append(s.events, ev)
	// what a callee outside can reach through a pointer it was given
	for _, a := range args {
		if p, ok := s.norm(a).(aPtr); ok && strings.HasPrefix(p.obj, "new:") && (f == nil || !w.InModule(f)) {
			if r := s.mem[p.obj]; r != nil && !pureCallee(ev.Name()) && (ip.o.Keeps == nil || !ip.o.Keeps(ev.Name())) {
				n := s.fresh("written:" + p.obj)
				for k := range r.cells {
					if strings.HasPrefix(k, p.path) {
						delete(r.cells, k)
					}
				}
				r.cells[p.path] = aSym{name: n, t: p.t}
			}
		}
	}
	set(res)
	return false
}

// errorsAs is errors.As of an error whose type is known, unless it could wrap another one.
func (ip *interp) errorsAs(s *aState, err, target AV) (AV, bool) {
	if isNilAV(s.norm(err)) {
		return KBool(false), true
	}
	t, ok2 := s.norm(target).(aIface)
	if !ok2 {
		return nil, false
	}
	p, ok := s.ptrOf(t.v)
	pt, ok2 := t.t.Underlying().(*types.Pointer)
	if !ok || !ok2 {
		return nil, false
	}
	e, ok := s.norm(err).(aIface)
	if !ok || types.IsInterface(e.t) {
		// if it finds one, it is what the target has afterwards
		s.store(p, aSym{name: s.fresh("as"), t: pt.Elem()})
		return nil, false
	}
	if types.AssignableTo(e.t, pt.Elem()) {
		if types.IsInterface(pt.Elem()) {
			s.store(p, e)
		} else {
			s.store(p, e.v)
		}
		return KBool(true), true
	}
	ms := ip.w.Prog.MethodSets.MethodSet(e.t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "Unwrap" || n == "As" {
			return nil, false
		}
	}
	return KBool(false), true
}

func pureCallee(n string) bool {
	switch n {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf", "errors.Is", "errors.New":
		return true
	}
	return false
}

// opaque is the unknown result of a call.
func (ip *interp) opaque(s *aState, site ssa.CallInstruction, ev AEvent) AV {
	n := ev.Name()
	cloned := false
	if ev.Fn != nil && len(ev.Args) == 1 {
		switch CalleeName(ev.Fn) {
		case "slices.Clip":
			v := s.norm(ev.Args[0])
			if sl, ok := v.(aSlice); ok {
				sl.full = true
				v = sl
			}
			return v
		case "slices.Concat":
			if parts, ok := s.Elems(ev.Args[0]); ok && len(parts) > 0 {
				if whole, ok := s.norm(ev.Args[0]).(aSlice); ok && len(whole.tail) == 0 {
					all := s.norm(parts[0])
					if sl, ok := all.(aSlice); ok {
						sl.full = true
						all = sl
					}
					for _, part := range parts[1:] {
						all = ip.builtin(s, site, "append", []AV{all, s.norm(part)})
						if sl, ok := all.(aSlice); ok {
							sl.full = true
							all = sl
						}
					}
					return all
				}
			}
		case "maps.Clone", "slices.Clone":
			if v := s.norm(ev.Args[0]); isNilAV(v) {
				return v
			}
			cloned = s.nonNil(ev.Args[0])
		}
	}
	var as []string
	deps := append([]AV(nil), ev.Args...)
	if ev.Recv != nil {
		deps = append(deps, ev.Recv)
		as = append(as, ev.Recv.str())
	}
	for _, a := range ev.Args {
		as = append(as, ip.show(s, a))
	}
	name := n + "(" + strings.Join(as, ",") + ")"
	if ip.o.Pure == nil || !ip.o.Pure(n) {
		s.count["call:"+name]++
		if k := s.count["call:"+name]; k > 1 {
			name = fmt.Sprintf("%s'%d", name, k)
		}
	}
	sig := site.Common().Signature()
	switch sig.Results().Len() {
	case 0:
		return aSym{name: name}
	case 1:
		return aSym{name: name, t: sig.Results().At(0).Type(), deps: deps, nonNil: cloned || alwaysNonNil(n)}
	}
	var tp aTuple
	for i := 0; i < sig.Results().Len(); i++ {
		tp = append(tp, aSym{name: fmt.Sprintf("%s#%d", name, i), t: sig.Results().At(i).Type(), deps: deps})
	}
	return tp
}

func alwaysNonNil(n string) bool {
	switch n {
	case "errors.New", "fmt.Errorf":
		return true
	}
	return false
}

// show renders a value with the elements of slices.
func (ip *interp) show(s *aState, v AV) string {
	if sl, ok := v.(aSlice); ok {
		var es []string
		for i := 0; i < sl.n; i++ {
			es = append(es, ip.show(s, s.load(aPtr{obj: sl.obj, path: fmt.Sprintf("[%d]", sl.off+i)}, elemType(sl.t))))
		}
		for _, t := range sl.tail {
			es = append(es, "…"+t.str())
		}
		return "[" + strings.Join(es, " ") + "]"
	}
	return v.str()
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// Elems lists the elements of a slice whose length is known.
func (s *aState) Elems(v AV) ([]AV, bool) {
	v = s.norm(v)
	switch x := v.(type) {
	case aSlice:
		var out []AV
		for i := 0; i < x.n; i++ {
			out = append(out, s.load(aPtr{obj: x.obj, path: fmt.Sprintf("[%d]", x.off+i)}, elemType(x.t)))
		}
		return out, len(x.tail) == 0
	case aConst:
		return nil, x.v == nil
	case aIface:
		return s.Elems(x.v)
	}
	return nil, false
}

// derives: v was computed from something that satisfies is.
func (s *aState) derives(v AV, is func(AV) bool) bool {
	seen := map[string]bool{}
	var rec func(v AV, d int) bool
	rec = func(v AV, d int) bool {
		if v == nil || d > 20 {
			return false
		}
		if is(v) {
			return true
		}
		switch x := v.(type) {
		case aSym:
			if seen[x.name] {
				return false
			}
			seen[x.name] = true
			for _, y := range x.deps {
				if rec(y, d+1) {
					return true
				}
			}
		case aAgg:
			if x.base != nil && rec(x.base, d+1) {
				return true
			}
			for _, y := range x.over {
				if rec(y, d+1) {
					return true
				}
			}
		case aSlice:
			es, _ := s.Elems(x)
			for _, y := range append(es, x.tail...) {
				if rec(y, d+1) {
					return true
				}
			}
		case aIface:
			return rec(x.v, d+1)
		case aTuple:
			for _, y := range x {
				if rec(y, d+1) {
					return true
				}
			}
		case aFn:
			for _, y := range x.bind {
				if rec(y, d+1) {
					return true
				}
			}
		case aPtr:
			if seen["&"+x.obj] {
				return false
			}
			seen["&"+x.obj] = true
			if r := s.mem[x.obj]; r != nil && (strings.HasPrefix(x.obj, "new:")) {
				for _, y := range r.cells {
					if rec(y, d+1) {
						return true
					}
				}
			}
		case aMap:
			if r := s.mem[x.obj]; r != nil {
				for _, y := range r.cells {
					if rec(y, d+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(v, 0)
}

func (ip *interp) builtin(s *aState, site ssa.CallInstruction, name string, args []AV) AV {
	res := func() types.Type {
		if v, ok := site.(ssa.Value); ok {
			return v.Type()
		}
		return nil
	}()
	switch name {
	case "ssa:wrapnilchk":
		if s.nonNil(s.norm(args[0])) {
			return s.norm(args[0])
		}
	case "len", "cap":
		if y, ok := args[0].(aSym); ok && name == "len" && len(y.deps) == 1 && isString(typeOfAV(y.deps[0])) && y.name == "conv["+TypeStr(y.t)+"]("+y.deps[0].str()+")" && TypeStr(y.t) == "[]byte" {
			args = []AV{y.deps[0]}
		}
		if r, ok := s.wordLen(args[0]); ok {
			return r
		}
		switch x := args[0].(type) {
		case aConst:
			if x.v == nil {
				return KInt(0, types.Typ[types.Int])
			}
			if x.v.Kind() == constant.String {
				return KInt(int64(len(constant.StringVal(x.v))), types.Typ[types.Int])
			}
		case aSlice:
			if len(x.tail) == 0 && name == "len" {
				return KInt(int64(x.n), types.Typ[types.Int])
			}
			n := name + "(" + x.str() + ")"
			s.lo[n] = int64(x.n)
			return aSym{name: n, t: types.Typ[types.Int], deps: []AV{x}}
		case aMap:
			return KInt(int64(len(s.region(x.obj).order)), types.Typ[types.Int])
		}
		n := name + "(" + args[0].str() + ")"
		if _, ok := s.lo[n]; !ok {
			s.lo[n] = 0
		}
		if s.nn[args[0].str()] == false {
			if b, ok := s.bindS[n]; ok {
				return b
			}
		}
		return s.norm(aSym{name: n, t: types.Typ[types.Int], deps: []AV{args[0]}})
	case "append":
		a, aok := s.Elems(args[0])
		var atail []AV
		if sl, ok := args[0].(aSlice); ok {
			atail = sl.tail
			aok = true
		} else if !aok {
			atail = []AV{args[0]}
		}
		if len(args) == 1 {
			return args[0]
		}
		b, _ := s.Elems(args[1])
		var btail []AV
		if sl, ok := args[1].(aSlice); ok {
			btail = sl.tail
		} else if _, ok := s.Elems(args[1]); !ok {
			btail = []AV{args[1]}
		}
		// room behind the elements: the array is written to
		if sl, ok := args[0].(aSlice); ok && len(atail) == 0 && len(btail) == 0 && !sl.full && len(b) > 0 {
			r := s.region(sl.obj)
			room := true
			for i := range b {
				if _, ok := r.cells[fmt.Sprintf("[%d]", sl.off+sl.n+i)]; !ok {
					room = false
				}
			}
			if room {
				for i, v := range b {
					pp := aPtr{obj: sl.obj, path: fmt.Sprintf("[%d]", sl.off+sl.n+i)}
					s.store(pp, v)
					if !strings.HasPrefix(sl.obj, "new:") {
						s.events = append(s.events, AEvent{Store: &pp, Val: v, Depth: len(s.frames), In: s.frames[len(s.frames)-1].f})
					}
				}
				return aSlice{obj: sl.obj, off: sl.off, n: sl.n + len(b), t: res}
			}
		}
		obj := s.fresh("new:append")
		r := &aRegion{cells: map[string]AV{}}
		s.mem[obj] = r
		n := 0
		if len(atail) == 0 {
			for _, v := range append(a, b...) {
				r.cells[fmt.Sprintf("[%d]", n)] = v
				n++
			}
			return aSlice{obj: obj, n: n, t: res, tail: btail}
		}
		for _, v := range a {
			r.cells[fmt.Sprintf("[%d]", n)] = v
			n++
		}
		return aSlice{obj: obj, n: n, t: res, tail: append(append(append([]AV(nil), atail...), b...), btail...)}
	case "copy":
		d, dok := args[0].(aSlice)
		src, sok := s.Elems(args[1])
		if ss, ok := args[1].(aSlice); ok && len(ss.tail) > 0 {
			sok = false
		}
		if ip.o.Copies && dok && sok && len(d.tail) == 0 {
			n := min(d.n, len(src))
			vals := append([]AV(nil), src[:n]...)
			for i, v := range vals {
				pp := aPtr{obj: d.obj, path: fmt.Sprintf("[%d]", d.off+i)}
				s.store(pp, v)
				if !strings.HasPrefix(d.obj, "new:") {
					s.events = append(s.events, AEvent{Store: &pp, Val: v, Depth: len(s.frames), In: s.frames[len(s.frames)-1].f})
				}
			}
			return KInt(int64(n), types.Typ[types.Int])
		}
	case "delete":
		if m, ok := args[0].(aMap); ok {
			r := s.region(m.obj)
			k := "{" + args[1].str() + "}"
			delete(r.cells, k)
			for i, o := range r.order {
				if o == k {
					r.order = append(append([]string(nil), r.order[:i]...), r.order[i+1:]...)
					break
				}
			}
		}
	}
	s.events = append(s.events, AEvent{Call: site, Method: "builtin:" + name, Args: args, Depth: len(s.frames), In: s.frames[len(s.frames)-1].f})
	if res == nil {
		return aSym{name: name}
	}
	var as []string
	for _, a := range args {
		as = append(as, a.str())
	}
	return aSym{name: s.fresh(name + "(" + strings.Join(as, ",") + ")"), t: res, deps: args}
}

// decide a condition from what is known.
func (s *aState) decide(c AV) (bool, bool) {
	c = s.norm(c)
	if b, ok := isTrue(c); ok {
		return b, true
	}
	return false, false
}

// assume a condition; false if it contradicts.
func (s *aState) assume(c AV, pol bool) bool {
	y, ok := c.(aSym)
	if !ok {
		return true
	}
	s.bindS[y.name] = KBool(pol)
	if d, ok := aConds[y.name]; ok {
		return s.refine(d, pol)
	}
	return true
}

// what an unknown condition is about
type aCond struct {
	op   token.Token
	x, y AV
	not  string // negation of another condition
}

var aConds = map[string]aCond{}

func (s *aState) refine(d aCond, pol bool) bool {
	if d.not != "" {
		s.bindS[d.not] = KBool(!pol)
		if e, ok := aConds[d.not]; ok {
			return s.refine(e, !pol)
		}
		return true
	}
	op := d.op
	if !pol {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		}
	}
	x, y := s.norm(d.x), s.norm(d.y)
	if _, ok := x.(aConst); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	xs, ok := x.(aSym)
	if !ok {
		return true
	}
	k, ok := y.(aConst)
	if !ok {
		return true
	}
	if k.v == nil {
		switch op {
		case token.EQL:
			if xs.nonNil || s.nn[xs.name] {
				return false
			}
			s.bindS[xs.name] = aConst{nil, xs.t}
		case token.NEQ:
			s.nn[xs.name] = true
		}
		return true
	}
	switch op {
	case token.EQL:
		if s.neq[xs.name][k.str()] {
			return false
		}
		if i, ok := constant.Int64Val(constant.ToInt(k.v)); ok && k.v.Kind() == constant.Int {
			if lo, ok := s.lo[xs.name]; ok && i < lo {
				return false
			}
			if hi, ok := s.hi[xs.name]; ok && i > hi {
				return false
			}
		}
		s.bindS[xs.name] = k
	case token.NEQ:
		if s.neq[xs.name] == nil {
			s.neq[xs.name] = map[string]bool{}
		}
		s.neq[xs.name][k.str()] = true
		s.tighten(xs.name)
	default:
		if k.v.Kind() != constant.Int {
			return true
		}
		i, _ := constant.Int64Val(k.v)
		setLo := func(v int64) {
			if lo, ok := s.lo[xs.name]; !ok || v > lo {
				s.lo[xs.name] = v
			}
		}
		setHi := func(v int64) {
			if hi, ok := s.hi[xs.name]; !ok || v < hi {
				s.hi[xs.name] = v
			}
		}
		switch op {
		case token.LSS:
			setHi(i - 1)
		case token.LEQ:
			setHi(i)
		case token.GTR:
			setLo(i + 1)
		case token.GEQ:
			setLo(i)
		}
		return s.tighten(xs.name)
	}
	return true
}

func (s *aState) tighten(n string) bool {
	lo, a := s.lo[n]
	hi, b := s.hi[n]
	for a && s.neq[n][fmt.Sprint(lo)] {
		lo++
		s.lo[n] = lo
	}
	for b && s.neq[n][fmt.Sprint(hi)] {
		hi--
		s.hi[n] = hi
	}
	if a && b && lo > hi {
		return false
	}
	if a && b && lo == hi {
		s.bindS[n] = KInt(lo, types.Typ[types.Int])
	}
	return true
}

func (s *aState) nonNil(v AV) bool {
	switch x := v.(type) {
	case aSym:
		return x.nonNil || s.nn[x.name]
	case aPtr, aFn, aMap, aIface:
		return true
	case aSlice:
		return x.n > 0
	}
	return false
}

func (s *aState) binop(op token.Token, x, y AV, t types.Type) AV {
	x, y = s.norm(x), s.norm(y)
	if i, ok := x.(aIface); ok && (op == token.EQL || op == token.NEQ) {
		if j, ok := y.(aIface); ok && !types.IsInterface(i.t) && !types.IsInterface(j.t) && !types.Identical(i.t, j.t) {
			return KBool(op == token.NEQ)
		}
	}
	if i, ok := x.(aIface); ok && !isNilAV(y) {
		x = i.v
	}
	if i, ok := y.(aIface); ok && !isNilAV(x) {
		y = i.v
	}
	a, aok := x.(aConst)
	b, bok := y.(aConst)
	if aok && bok {
		if a.v == nil || b.v == nil {
			switch op {
			case token.EQL:
				return KBool(a.v == nil && b.v == nil)
			case token.NEQ:
				return KBool(!(a.v == nil && b.v == nil))
			}
		} else {
			switch op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if a.v.Kind() == b.v.Kind() || (isNum(a.v) && isNum(b.v)) {
					return KBool(constant.Compare(a.v, op, b.v))
				}
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(b.v); ok && n < 128 {
					return wrapInt(constant.Shift(a.v, op, uint(n)), t)
				}
			case token.QUO:
				if constant.Sign(b.v) != 0 && a.v.Kind() == constant.Int && b.v.Kind() == constant.Int {
					return wrapInt(constant.BinaryOp(a.v, token.QUO_ASSIGN, b.v), t)
				}
			case token.REM:
				if constant.Sign(b.v) != 0 {
					return wrapInt(constant.BinaryOp(a.v, op, b.v), t)
				}
			case token.LAND, token.LOR:
			default:
				return wrapInt(constant.BinaryOp(a.v, op, b.v), t)
			}
		}
	}
	if op == token.EQL || op == token.NEQ {
		eq := op == token.EQL
		if r, ok := s.wordEq(x, y); ok {
			if !eq {
				return s.not(r)
			}
			return r
		}
		if x.str() == y.str() && !aok {
			if _, agg := x.(aAgg); !agg {
				return KBool(eq)
			}
		}
		if isNilAV(y) && s.nonNil(x) || isNilAV(x) && s.nonNil(y) {
			return KBool(!eq)
		}
		// two different objects, two different functions
		px, ok1 := x.(aPtr)
		py, ok2 := y.(aPtr)
		if ok1 && ok2 && px.obj != py.obj && (strings.HasPrefix(px.obj, "new:") || strings.HasPrefix(py.obj, "new:") || strings.HasPrefix(px.obj, "g:") && strings.HasPrefix(py.obj, "g:")) {
			return KBool(!eq)
		}
		if xs, ok := x.(aSym); ok && bok && b.v != nil && s.neq[xs.name][b.str()] {
			return KBool(!eq)
		}
		if ys, ok := y.(aSym); ok && aok && a.v != nil && s.neq[ys.name][a.str()] {
			return KBool(!eq)
		}
	}
	if op == token.ADD && isString(t) {
		if r, ok := s.wordAdd(x, y, t); ok {
			return r
		}
		if aok && a.v != nil && constant.StringVal(a.v) == "" {
			return y
		}
		if bok && b.v != nil && constant.StringVal(b.v) == "" {
			return x
		}
		if l, r, ok := s.concat(y); ok {
			return s.binop(op, s.binop(op, x, l, t), r, t)
		}
		if l, r, ok := s.concat(x); ok {
			if k, ok := s.norm(r).(aConst); ok && bok && k.v != nil && b.v != nil {
				return s.binop(op, l, aConst{constant.MakeString(constant.StringVal(k.v) + constant.StringVal(b.v)), t}, t)
			}
		}
	}
	// intervals
	if xs, ok := x.(aSym); ok && bok && b.v != nil && b.v.Kind() == constant.Int {
		if r, ok := s.interval(xs.name, op, b.v); ok {
			return KBool(r)
		}
	}
	if ys, ok := y.(aSym); ok && aok && a.v != nil && a.v.Kind() == constant.Int {
		sw := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
		if o2, ok := sw[op]; ok {
			if r, ok := s.interval(ys.name, o2, a.v); ok {
				return KBool(r)
			}
		}
	}
	// bit tests and identities
	if op == token.AND || op == token.OR {
		if aok && a.v != nil && a.v.Kind() == constant.Int && constant.Sign(a.v) == 0 {
			if op == token.AND {
				return a
			}
			return y
		}
		if bok && b.v != nil && b.v.Kind() == constant.Int && constant.Sign(b.v) == 0 {
			if op == token.AND {
				return b
			}
			return x
		}
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		// a canonical name, so that later tests of the same thing agree
		neg := false
		switch op {
		case token.NEQ:
			op, neg = token.EQL, true
		case token.GEQ:
			op, neg = token.LSS, true
		case token.LEQ:
			x, y, op, neg = y, x, token.LSS, true
		case token.GTR:
			x, y, op = y, x, token.LSS
		}
		if op == token.EQL && y.str() < x.str() {
			x, y = y, x
		}
		n := "(" + x.str() + " " + op.String() + " " + y.str() + ")"
		aConds[n] = aCond{op: op, x: x, y: y}
		if _, known := s.bindS[n]; !known {
			// what is known of the two otherwise
			is := func(op string, x, y AV) bool {
				b, ok := isTrue(s.bindS["("+x.str()+" "+op+" "+y.str()+")"])
				return ok && b
			}
			no := func(op string, x, y AV) bool {
				b, ok := isTrue(s.bindS["("+x.str()+" "+op+" "+y.str()+")"])
				return ok && !b
			}
			eq := func(f func(string, AV, AV) bool) bool { return f("==", x, y) || f("==", y, x) }
			switch {
			case op == token.LSS && (is("<", y, x) || eq(is) || x.str() == y.str()):
				return KBool(neg)
			case op == token.LSS && no("<", y, x) && eq(no):
				return KBool(!neg)
			case op == token.EQL && (is("<", x, y) || is("<", y, x)):
				return KBool(neg)
			}
		}
		c := s.norm(aSym{name: n, t: types.Typ[types.Bool], deps: []AV{x, y}})
		if neg {
			return s.not(c)
		}
		return c
	}
	xs, ys := x.str(), y.str()
	if (op == token.ADD && !isString(t) || op == token.MUL || op == token.AND || op == token.OR || op == token.XOR) && ys < xs {
		xs, ys = ys, xs
	}
	return s.norm(aSym{name: "(" + xs + " " + op.String() + " " + ys + ")", t: t, deps: []AV{x, y}})
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b := basic(t)
	return b != nil && b.Info()&types.IsString != 0
}

// touched: something was written in the named thing.
func (s *aState) touched(name string) bool {
	for o := range s.mem {
		if strings.Contains(o, name) {
			return true
		}
	}
	return false
}

// concat: the two texts a text is put together from.
func (s *aState) concat(v AV) (AV, AV, bool) {
	y, ok := v.(aSym)
	if ok && len(y.deps) == 2 && isString(y.t) && y.name == "("+y.deps[0].str()+" + "+y.deps[1].str()+")" {
		return y.deps[0], y.deps[1], true
	}
	return nil, nil, false
}

func isNum(v constant.Value) bool {
	return v.Kind() == constant.Int || v.Kind() == constant.Float
}

func wrapInt(v constant.Value, t types.Type) AV {
	if b := basic(t); b != nil && b.Info()&types.IsInteger != 0 && v.Kind() == constant.Int {
		n := uint(bitsOf(t))
		m := constant.Shift(constant.MakeInt64(1), token.SHL, n)
		r := constant.BinaryOp(v, token.REM, m)
		if constant.Sign(r) < 0 {
			r = constant.BinaryOp(r, token.ADD, m)
		}
		if b.Info()&types.IsUnsigned == 0 {
			h := constant.Shift(constant.MakeInt64(1), token.SHL, n-1)
			if constant.Compare(r, token.GEQ, h) {
				r = constant.BinaryOp(r, token.SUB, m)
			}
		}
		v = r
	}
	return aConst{v, t}
}

func isNilAV(v AV) bool {
	k, ok := v.(aConst)
	return ok && k.v == nil
}

func (s *aState) interval(n string, op token.Token, k constant.Value) (res, known bool) {
	i, ok := constant.Int64Val(k)
	if !ok {
		return false, false
	}
	lo, a := s.lo[n]
	hi, b := s.hi[n]
	switch op {
	case token.LSS:
		if b && hi < i {
			return true, true
		}
		if a && lo >= i {
			return false, true
		}
	case token.LEQ:
		if b && hi <= i {
			return true, true
		}
		if a && lo > i {
			return false, true
		}
	case token.GTR:
		r, ok := s.interval(n, token.LEQ, k)
		return !r, ok
	case token.GEQ:
		r, ok := s.interval(n, token.LSS, k)
		return !r, ok
	case token.EQL:
		if a && lo > i || b && hi < i {
			return false, true
		}
	case token.NEQ:
		r, ok := s.interval(n, token.EQL, k)
		return !r, ok
	}
	return false, false
}

func (s *aState) not(c AV) AV {
	c = s.norm(c)
	if b, ok := isTrue(c); ok {
		return KBool(!b)
	}
	y, ok := c.(aSym)
	if !ok {
		return c
	}
	if d, ok := aConds[y.name]; ok && d.not != "" {
		return s.norm(aSym{name: d.not, t: y.t, deps: y.deps})
	}
	n := "!" + y.name
	aConds[n] = aCond{not: y.name}
	return s.norm(aSym{name: n, t: y.t, deps: []AV{y}})
}

// typeAssert: known dynamic types decide it, unknown ones are told apart once.
func (ip *interp) typeAssert(s *aState, fr *aFrame, x *ssa.TypeAssert) bool {
	v := ip.val(s, x.X)
	yes := func(st *aState, f *aFrame, v AV) {
		var r AV
		switch y := v.(type) {
		case aIface:
			r = y.v
			if types.IsInterface(x.AssertedType) {
				r = y
			}
		case aSym:
			if types.IsInterface(x.AssertedType) {
				r = aSym{name: y.name, t: x.AssertedType, nonNil: true, deps: y.deps}
				st.nn[y.name] = true
			} else {
				r = st.norm(aSym{name: y.name + ".(" + TypeStr(x.AssertedType) + ")", t: x.AssertedType, deps: []AV{y}})
				st.nn[y.name] = true
			}
		default:
			r = v
		}
		if x.CommaOk {
			f.env[x] = aTuple{r, KBool(true)}
		} else {
			f.env[x] = r
		}
	}
	no := func(st *aState, f *aFrame) bool {
		if !x.CommaOk {
			ip.end(st, nil, true, aSym{name: "failed assertion to " + TypeStr(x.AssertedType)}, x)
			return false
		}
		f.env[x] = aTuple{zeroAV(x.AssertedType), KBool(false)}
		return true
	}
	switch y := v.(type) {
	case aConst:
		return no(s, fr)
	case aIface:
		ok := types.Identical(y.t, x.AssertedType)
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(y.t, it)
		}
		if ok {
			yes(s, fr, v)
			return true
		}
		return no(s, fr)
	case aSym:
		key := "is[" + TypeStr(x.AssertedType) + "](" + y.name + ")"
		if b, ok := s.tfact[key]; ok {
			if b {
				yes(s, fr, v)
				return true
			}
			return no(s, fr)
		}
		// statically implied
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI && y.t != nil && types.IsInterface(y.t) && types.Implements(y.t, it) && (y.nonNil || s.nn[y.name]) {
			yes(s, fr, v)
			return true
		}
		// already another concrete type
		if !types.IsInterface(x.AssertedType) {
			if c, ok := s.concreteTypeFact(y.name); ok && !types.Identical(c, x.AssertedType) {
				s.tfact[key] = false
				return no(s, fr)
			}
		} else if c, ok := s.concreteTypeFact(y.name); ok {
			b := types.Implements(c, x.AssertedType.Underlying().(*types.Interface))
			s.tfact[key] = b
			if b {
				yes(s, fr, v)
				return true
			}
			return no(s, fr)
		}
		forkAt(ip, x, len(s.frames), v)
		o := s.clone()
		of := o.frames[len(o.frames)-1]
		o.tfact[key] = false
		if no(o, of) {
			of.pc++
			ip.work = append(ip.work, o)
		}
		s.tfact[key] = true
		if !types.IsInterface(x.AssertedType) {
			aConcrete[key] = x.AssertedType
		}
		yes(s, fr, v)
		return true
	}
	// something else (a tuple, a pointer without wrapping): unknown
	fr.env[x] = aTuple{aSym{name: "assert(" + v.str() + ")", t: x.AssertedType}, aSym{name: "is(" + v.str() + ")", t: types.Typ[types.Bool]}}
	if !x.CommaOk {
		fr.env[x] = fr.env[x].(aTuple)[0]
	}
	return true
}

var aConcrete = map[string]types.Type{}

func (s *aState) concreteTypeFact(name string) (types.Type, bool) {
	for k, b := range s.tfact {
		if b && strings.HasSuffix(k, "]("+name+")") {
			if t, ok := aConcrete[k]; ok {
				return t, true
			}
		}
	}
	return nil, false
}

// step: the other instructions.
func (ip *interp) step(s *aState, fr *aFrame, in ssa.Instruction) {
	w := ip.w
	_ = w
	switch x := in.(type) {
	case *ssa.Alloc:
		obj := s.fresh("new:" + FName(x.Parent()) + ":" + x.Name() + ":" + x.Comment)
		s.mem[obj] = &aRegion{cells: map[string]AV{}}
		fr.env[x] = aPtr{obj: obj, t: deref(x.Type())}
	case *ssa.Store:
		p, ok := s.ptrOf(ip.val(s, x.Addr))
		if !ok {
			return
		}
		v := ip.val(s, x.Val)
		s.store(p, v)
		if !strings.HasPrefix(p.obj, "new:") {
			pp := p
			s.events = append(s.events, AEvent{Store: &pp, Val: v, Depth: len(s.frames), In: fr.f})
		}
	case *ssa.UnOp:
		v := ip.val(s, x.X)
		switch x.Op {
		case token.MUL:
			p, ok := s.ptrOf(v)
			if !ok {
				fr.env[x] = aSym{name: "*" + v.str(), t: x.Type(), deps: []AV{v}}
				return
			}
			fr.env[x] = s.load(p, x.Type())
		case token.NOT:
			fr.env[x] = s.not(v)
		case token.SUB, token.XOR:
			if k, ok := v.(aConst); ok && k.v != nil && isNum(k.v) {
				fr.env[x] = wrapInt(constant.UnaryOp(x.Op, k.v, 0), x.Type())
				return
			}
			fr.env[x] = aSym{name: x.Op.String() + v.str(), t: x.Type(), deps: []AV{v}}
		default:
			r := AV(aSym{name: s.fresh("recv(" + v.str() + ")"), t: x.Type(), deps: []AV{v}})
			if x.CommaOk {
				r = aTuple{r, aSym{name: s.fresh("recvok"), t: types.Typ[types.Bool]}}
			}
			fr.env[x] = r
		}
	case *ssa.BinOp:
		fr.env[x] = s.binop(x.Op, ip.val(s, x.X), ip.val(s, x.Y), x.Type())
	case *ssa.FieldAddr:
		p, ok := s.ptrOf(ip.val(s, x.X))
		if !ok {
			fr.env[x] = aSym{name: "&nil." + fieldName(x.X.Type(), x.Field), t: x.Type()}
			return
		}
		fr.env[x] = aPtr{obj: p.obj, path: p.path + "." + fieldName(x.X.Type(), x.Field), t: deref(x.Type())}
	case *ssa.Field:
		fr.env[x] = s.part(ip.val(s, x.X), "."+fieldName(x.X.Type(), x.Field), x.Type())
	case *ssa.IndexAddr:
		base, idx := ip.val(s, x.X), ip.val(s, x.Index)
		k, known := idx.(aConst)
		switch b := base.(type) {
		case aSlice:
			if known {
				i, _ := constant.Int64Val(k.v)
				if int(i) < b.n {
					fr.env[x] = aPtr{obj: b.obj, path: fmt.Sprintf("[%d]", b.off+int(i)), t: deref(x.Type())}
					return
				}
			}
			es, _ := s.Elems(b)
			n := s.fresh("elem(" + b.str() + ")")
			s.mem[n] = &aRegion{cells: map[string]AV{"": aSym{name: n, t: deref(x.Type()), deps: append(es, b.tail...)}}}
			fr.env[x] = aPtr{obj: n, t: deref(x.Type())}
			return
		case aPtr:
			if known {
				i, _ := constant.Int64Val(k.v)
				fr.env[x] = aPtr{obj: b.obj, path: fmt.Sprintf("%s[%d]", b.path, i), t: deref(x.Type())}
				return
			}
			fr.env[x] = aPtr{obj: b.obj, path: b.path + "[" + idx.str() + "]", t: deref(x.Type())}
			return
		}
		p, ok := s.ptrOf(base)
		if !ok {
			fr.env[x] = aSym{name: "&" + base.str() + "[" + idx.str() + "]", t: x.Type(), deps: []AV{base, idx}}
			return
		}
		if _, isSlice := x.X.Type().Underlying().(*types.Slice); isSlice {
			// elements of an unknown slice
			p = aPtr{obj: "el:" + base.str()}
			if s.mem[p.obj] == nil {
				s.mem[p.obj] = &aRegion{cells: map[string]AV{}, root: base}
			}
		}
		fr.env[x] = aPtr{obj: p.obj, path: p.path + "[" + idx.str() + "]", t: deref(x.Type())}
	case *ssa.Index:
		v, idx := ip.val(s, x.X), ip.val(s, x.Index)
		k, known := idx.(aConst)
		if c, ok := v.(aConst); ok && known && c.v != nil && c.v.Kind() == constant.String {
			i, _ := constant.Int64Val(k.v)
			str := constant.StringVal(c.v)
			if int(i) < len(str) {
				fr.env[x] = KInt(int64(str[i]), x.Type())
				return
			}
		}
		if r, ok := s.wordAt(v, idx, x.Type()); ok {
			fr.env[x] = r
			return
		}
		fr.env[x] = s.part(v, "["+idx.str()+"]", x.Type())
	case *ssa.Lookup:
		ip.lookup(s, fr, x)
	case *ssa.MapUpdate:
		m, k, v := ip.val(s, x.Map), ip.val(s, x.Key), ip.val(s, x.Value)
		if mm, ok := m.(aMap); ok {
			r := s.region(mm.obj)
			key := "{" + k.str() + "}"
			if _, has := r.cells[key]; !has {
				r.order = append(r.order, key)
				r.cells["k"+key] = k
			}
			r.cells[key] = v
			return
		}
		pp := aPtr{obj: "m:" + m.str(), path: "{" + k.str() + "}"}
		s.store(pp, v)
		s.events = append(s.events, AEvent{Store: &pp, Val: v, Recv: m, Args: []AV{k}, Depth: len(s.frames), In: fr.f})
	case *ssa.Extract:
		t := ip.val(s, x.Tuple)
		if tp, ok := t.(aTuple); ok && x.Index < len(tp) {
			fr.env[x] = s.norm(tp[x.Index])
			return
		}
		fr.env[x] = s.norm(aSym{name: fmt.Sprintf("%s#%d", t.str(), x.Index), t: x.Type(), deps: []AV{t}})
	case *ssa.MakeInterface:
		v := ip.val(s, x.X)
		fr.env[x] = aIface{v: v, t: x.X.Type()}
	case *ssa.ChangeInterface:
		fr.env[x] = ip.val(s, x.X)
	case *ssa.ChangeType:
		fr.env[x] = retype(ip.val(s, x.X), x.Type())
	case *ssa.Convert:
		fr.env[x] = ip.convert(s, ip.val(s, x.X), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = ip.convert(s, ip.val(s, x.X), x.Type())
	case *ssa.SliceToArrayPointer:
		fr.env[x] = ip.val(s, x.X)
	case *ssa.MakeClosure:
		var b []AV
		for _, y := range x.Bindings {
			b = append(b, ip.val(s, y))
		}
		fr.env[x] = aFn{f: x.Fn.(*ssa.Function), bind: b}
	case *ssa.MakeMap:
		obj := s.fresh("new:map@" + FName(x.Parent()) + ":" + x.Name())
		s.mem[obj] = &aRegion{cells: map[string]AV{}}
		fr.env[x] = aMap{obj: obj, t: x.Type()}
	case *ssa.MakeSlice:
		obj := s.fresh("new:make@" + FName(x.Parent()) + ":" + x.Name())
		s.mem[obj] = &aRegion{cells: map[string]AV{}}
		if k, ok := ip.val(s, x.Len).(aConst); ok && k.v != nil {
			n, _ := constant.Int64Val(k.v)
			if n <= 256 {
				fr.env[x] = aSlice{obj: obj, n: int(n), t: x.Type()}
				return
			}
		}
		fr.env[x] = aSym{name: obj, t: x.Type(), nonNil: true}
	case *ssa.Slice:
		ip.slice(s, fr, x)
	case *ssa.Range:
		v := ip.val(s, x.X)
		obj := s.fresh("iter")
		it := aIter{obj: obj, of: v, t: x.X.Type()}
		if m, ok := v.(aMap); ok {
			r := s.region(m.obj)
			it.m = m.obj
			for _, o := range r.order {
				it.keys = append(it.keys, r.cells["k"+o])
			}
		}
		s.mem[obj] = &aRegion{cells: map[string]AV{"": KInt(0, types.Typ[types.Int])}}
		fr.env[x] = it
	case *ssa.Next:
		it, ok := ip.val(s, x.Iter).(aIter)
		if !ok {
			fr.env[x] = aSym{name: s.fresh("next"), t: x.Type()}
			return
		}
		cur := s.mem[it.obj].cells[""].(aConst)
		i64, _ := constant.Int64Val(cur.v)
		i := int(i64)
		s.mem[it.obj].cells[""] = KInt(i64+1, types.Typ[types.Int])
		tup := x.Type().(*types.Tuple)
		if it.m != "" {
			if i >= len(it.keys) {
				fr.env[x] = aTuple{KBool(false), zeroT(tup.At(1).Type()), zeroT(tup.At(2).Type())}
				return
			}
			k := it.keys[i]
			fr.env[x] = aTuple{KBool(true), k, s.region(it.m).cells["{"+k.str()+"}"]}
			return
		}
		if k, ok := it.of.(aConst); ok && (k.v == nil || k.v.Kind() == constant.String && constant.StringVal(k.v) == "") {
			fr.env[x] = aTuple{KBool(false), zeroT(tup.At(1).Type()), zeroT(tup.At(2).Type())}
			return
		}
		if k, ok := it.of.(aConst); ok && k.v.Kind() == constant.String {
			rs := []rune(constant.StringVal(k.v))
			if i >= len(rs) {
				fr.env[x] = aTuple{KBool(false), zeroT(tup.At(1).Type()), zeroT(tup.At(2).Type())}
				return
			}
			fr.env[x] = aTuple{KBool(true), KInt(int64(len(string(rs[:i]))), types.Typ[types.Int]), KInt(int64(rs[i]), types.Typ[types.Rune])}
			return
		}
		if p, ok := it.of.(aPre); ok {
			if rs := []rune(p.pre); i < len(rs) {
				fr.env[x] = aTuple{KBool(true), KInt(int64(len(string(rs[:i]))), types.Typ[types.Int]), KInt(int64(rs[i]), types.Typ[types.Rune])}
				return
			}
		}
		n := fmt.Sprintf("%s#%d", it.of.str(), i)
		fr.env[x] = aTuple{aSym{name: s.fresh("more(" + it.of.str() + ")"), t: types.Typ[types.Bool]},
			aSym{name: "key(" + n + ")", t: tup.At(1).Type(), deps: []AV{it.of}}, aSym{name: "val(" + n + ")", t: tup.At(2).Type(), deps: []AV{it.of}}}
	case *ssa.Go:
		fn, args := ip.callee(s, x.Common())
		s.events = append(s.events, AEvent{Call: x, Method: "go:" + fn.str(), Args: args, Recv: fn, Depth: len(s.frames), In: fr.f})
	case *ssa.Send, *ssa.DebugRef:
	case *ssa.Select:
		fr.env[x] = aSym{name: s.fresh("select"), t: x.Type()}
	case *ssa.MakeChan:
		fr.env[x] = aSym{name: s.fresh("chan"), t: x.Type(), nonNil: true}
	default:
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = aSym{name: s.fresh(fmt.Sprintf("%T", in)), t: v.Type()}
		}
	}
}

func zeroT(t types.Type) AV {
	if t == nil || t == types.Typ[types.Invalid] {
		return aConst{nil, t}
	}
	return zeroAV(t)
}

func retype(v AV, t types.Type) AV {
	switch x := v.(type) {
	case aConst:
		x.t = t
		return x
	case aSym:
		x.t = t
		return x
	case aSlice:
		x.t = t
		return x
	case aAgg:
		x.t = t
		return x
	case aMap:
		x.t = t
		return x
	}
	return v
}

func (ip *interp) convert(s *aState, v AV, t types.Type) AV {
	if k, ok := v.(aConst); ok && k.v != nil {
		b := basic(t)
		switch {
		case b != nil && b.Info()&types.IsInteger != 0 && k.v.Kind() == constant.Int:
			return wrapInt(k.v, t)
		case b != nil && b.Info()&types.IsString != 0 && k.v.Kind() == constant.String:
			return aConst{k.v, t}
		case b != nil && b.Info()&types.IsString != 0 && k.v.Kind() == constant.Int:
			i, _ := constant.Int64Val(k.v)
			return aConst{constant.MakeString(string(rune(i))), t}
		case b != nil && b.Info()&types.IsFloat != 0:
			return aConst{constant.ToFloat(k.v), t}
		}
	}
	if y, ok := v.(aSym); ok {
		// the same number: comparisons still apply
		if b1, b2 := basic(y.t), basic(t); b1 != nil && b2 != nil && b1.Info()&types.IsInteger != 0 && b2.Info()&types.IsInteger != 0 && bitsOf(y.t) == bitsOf(t) {
			return aSym{name: y.name, t: t, deps: y.deps}
		}
	}
	if r, ok := s.textConv(v, t); ok {
		return r
	}
	// the bytes of a text are that text
	if y, ok := v.(aSym); ok && isString(t) && len(y.deps) == 1 && isString(typeOfAV(y.deps[0])) && y.name == "conv["+TypeStr(y.t)+"]("+y.deps[0].str()+")" && !s.touched(y.name) {
		return y.deps[0]
	}
	return s.norm(aSym{name: "conv[" + TypeStr(t) + "](" + v.str() + ")", t: t, deps: []AV{v}})
}

// objOf: the object a pointer points to, as a whole.
func objOf(v AV) string {
	if i, ok := v.(aIface); ok {
		v = i.v
	}
	if p, ok := v.(aPtr); ok && p.path == "" {
		return p.obj
	}
	return ""
}

func (ip *interp) lookup(s *aState, fr *aFrame, x *ssa.Lookup) {
	m, k := ip.val(s, x.X), ip.val(s, x.Index)
	var vt types.Type
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		vt = mt.Elem()
	}
	put := func(v AV, ok AV) {
		if x.CommaOk {
			fr.env[x] = aTuple{v, ok}
		} else {
			fr.env[x] = v
		}
	}
	switch mm := m.(type) {
	case aMap:
		r := s.region(mm.obj)
		if v, ok := r.cells["{"+k.str()+"}"]; ok {
			put(v, KBool(true))
			return
		}
		if _, isC := k.(aConst); isC || strings.HasPrefix(objOf(k), "new:") || len(r.order) == 0 {
			allC := true
			for _, o := range r.order {
				o := r.cells["k"+o]
				_, ok := o.(aConst)
				if p := objOf(k); p != "" {
					ok = objOf(o) != "" && objOf(o) != p
				}
				allC = allC && ok
			}
			if allC {
				put(zeroAV(vt), KBool(false))
				return
			}
		}
	case aConst:
		if mm.v == nil {
			put(zeroAV(vt), KBool(false))
			return
		}
		if kk, ok := k.(aConst); ok && mm.v.Kind() == constant.String {
			i, _ := constant.Int64Val(kk.v)
			if str := constant.StringVal(mm.v); int(i) < len(str) {
				fr.env[x] = KInt(int64(str[i]), x.Type())
				return
			}
		}
	}
	if vt == nil {
		if r, ok := s.wordAt(m, k, x.Type()); ok {
			fr.env[x] = r
			return
		}
		fr.env[x] = s.norm(aSym{name: m.str() + "[" + k.str() + "]", t: x.Type(), deps: []AV{m, k}})
		return
	}
	// an entry written before on this path
	if r := s.mem["m:"+m.str()]; r != nil {
		if v, ok := r.cells["{"+k.str()+"}"]; ok {
			put(s.norm(v), KBool(true))
			return
		}
	}
	n := m.str() + "[" + k.str() + "]"
	put(s.norm(aSym{name: n, t: vt, deps: []AV{m, k}}), s.norm(aSym{name: "has(" + n + ")", t: types.Typ[types.Bool]}))
}

func (ip *interp) slice(s *aState, fr *aFrame, x *ssa.Slice) {
	v := ip.val(s, x.X)
	at := func(y ssa.Value, d int) (int, bool) {
		if y == nil {
			return d, true
		}
		k, ok := ip.val(s, y).(aConst)
		if !ok || k.v == nil {
			return 0, false
		}
		i, _ := constant.Int64Val(k.v)
		return int(i), true
	}
	switch b := v.(type) {
	case aPtr:
		if arr, ok := deref(x.X.Type()).Underlying().(*types.Array); ok && b.path == "" {
			lo, ok1 := at(x.Low, 0)
			hi, ok2 := at(x.High, int(arr.Len()))
			if ok1 && ok2 {
				fr.env[x] = aSlice{obj: b.obj, off: lo, n: hi - lo, t: x.Type()}
				return
			}
		}
	case aSlice:
		lo, ok1 := at(x.Low, 0)
		hi, ok2 := at(x.High, b.n)
		if ok1 && ok2 && lo <= hi && hi <= b.n {
			tail := b.tail
			if x.High != nil {
				tail = nil
			}
			fr.env[x] = aSlice{obj: b.obj, off: b.off + lo, n: hi - lo, t: x.Type(), tail: tail, full: x.Max != nil || b.full && hi == b.n}
			return
		}
		es, _ := s.Elems(b)
		fr.env[x] = aSym{name: s.fresh("part(" + b.str() + ")"), t: x.Type(), deps: append(es, b.tail...)}
		return
	case aConst:
		if b.v != nil && b.v.Kind() == constant.String {
			str := constant.StringVal(b.v)
			lo, ok1 := at(x.Low, 0)
			hi, ok2 := at(x.High, len(str))
			if ok1 && ok2 && lo <= hi && hi <= len(str) {
				fr.env[x] = aConst{constant.MakeString(str[lo:hi]), x.Type()}
				return
			}
		} else if b.v == nil {
			fr.env[x] = b
			return
		}
	}
	if lo, ok := at(x.Low, 0); ok {
		if hi, ok := at(x.High, 0); ok {
			if r, ok := s.wordSlice(v, lo, hi, x.High != nil); ok {
				fr.env[x] = r
				return
			}
		}
	}
	str := func(y ssa.Value) string {
		if y == nil {
			return ""
		}
		return ip.val(s, y).str()
	}
	if x.Low == nil && x.High == nil {
		fr.env[x] = v
		if y, ok := v.(aSym); ok {
			fr.env[x] = aSym{name: y.name + "[:]", t: x.Type(), deps: []AV{y}}
		}
		return
	}
	fr.env[x] = s.norm(aSym{name: v.str() + "[" + str(x.Low) + ":" + str(x.High) + "]", t: x.Type(), deps: []AV{v}})
}

// Const of an abstract value.
func constOf(s *aState, v AV) (string, bool) {
	v = s.norm(v)
	if i, ok := v.(aIface); ok {
		return constOf(s, i.v)
	}
	k, ok := v.(aConst)
	if !ok {
		return "", false
	}
	return k.str(), true
}

var forkLog = os.Getenv("JC_FORK")

func forkAt(ip *interp, in ssa.Instruction, depth int, c AV) {
	if forkLog != "" {
		fmt.Fprintln(os.Stderr, "FORK", depth, FName(in.Parent()), ip.w.InstrPos(in), c.str())
	}
}
