A, X, K, T = "action.go", "context.go", "command.go", "extensions/table/table.go"
CASES = [
    ("C09", "bad", "flags added in place", [(X, "fn(slices.Clone(cmd.Flags))", "fn(cmd.Flags)")]),
    ("C09", "bad", "args added in place", [(X, "	cmd.Args = fn(slices.Clone(cmd.Args))", "	cmd.Args = fn(cmd.Args)")]),
    ("C09", "bad", "aliases of flags in place", [(X, "	case *Flag:\n		t.Aliases = fn(slices.Clone(t.Aliases))", "	case *Flag:\n		t.Aliases = fn(t.Aliases)")]),
    ("C09", "bad", "append in place", [(A, "append(slices.Clip(p), x...)", "append(p, x...)")]),
    ("C09", "bad", "prepend in place", [(A, "append(slices.Clip(x), p...)", "append(x, p...)")]),
    ("C09", "bad", "handler grows", [(K, "		actual := fn\n", ""), (K, "				actual = func(c *Context, err1 error) (*Command, error) {\n					cmd, err := fn(c", "				newFn := fn\n				fn = func(c *Context, err1 error) (*Command, error) {\n					cmd, err := newFn(c"), (K, "c.SetData(commandNotFoundKey, actual)", "c.SetData(commandNotFoundKey, fn)")]),
    ("C09", "bad", "functions of all templates", [("completion.go", "withExecute(maps.Clone(builtinFuncs), t)", "withExecute(builtinFuncs, t)"), ("completion.go", '	"maps"\n', '')]),
    ("C09", "bad", "format written", [(T, "	actual := *format\n", "	actual := format\n")]),
    ("C09", "bad", "cache in a map", [("flag.go", "func (f *Flag) newSynopsis() *synopsis.Flag {\n	return ", "var synopses = map[string]*synopsis.Flag{}\n\nfunc (f *Flag) newSynopsis() *synopsis.Flag {\n	if s, ok := synopses[f.Name]; ok && len(f.Aliases) > 5 {\n		return s\n	}\n	synopses[f.Name] = ")  , ("flag.go", "f.value(), getGroup(f))\n}", "f.value(), getGroup(f))\n	return synopses[f.Name]\n}")]),
    ("C09", "bad", "cache in a sync.Map", [("flag.go", "func (f *Flag) newSynopsis() *synopsis.Flag {\n	return ", "var synopses sync.Map\n\nfunc (f *Flag) newSynopsis() *synopsis.Flag {\n	if s, ok := synopses.Load(f.Name); ok && len(f.Aliases) > 5 {\n		return s.(*synopsis.Flag)\n	}\n	s := "), ("flag.go", "f.value(), getGroup(f))\n}", "f.value(), getGroup(f))\n	synopses.Store(f.Name, s)\n	return s\n}"), ("flag.go", '	"strings"\n', '	"strings"\n	"sync"\n')]),
    ("C09", "bad", "mutex accumulates", [(A, "	return At(ValidatorTiming, ActionFunc(func(c *Context) error {\n		if c.Seen(\"\") {\n			alsoSeen := make([]string, 0, len(names))\n", "	alsoSeen := make([]string, 0, len(names))\n	return At(ValidatorTiming, ActionFunc(func(c *Context) error {\n		if c.Seen(\"\") {\n")]),
    ("C09", "bad", "data of the prototype", [(A, "return maps.Clone(src)", "return src")]),
    ("C09", "bad", "one template for all", [("app.go", "	root := template.New(\"_Root\")\n	tf", "	root := sharedRoot.New(\"_Root\")\n	tf"), ("app.go", "func newRootCommandData()", "var sharedRoot = template.New(\"_All\")\n\nfunc newRootCommandData()")]),
    ("C09", "bad", "seen names kept", [(A, "	return ActionFunc(func(c *Context) error {\n		return c.Parent().HookBefore(name,", "	seen := map[string]bool{}\n	return ActionFunc(func(c *Context) error {\n		seen[c.Name()] = true\n		return c.Parent().HookBefore(name,")]),
    ("C09", "bad", "default format by pointer", [(T, "	format := defaultFormat\n", "	defaultFormat.ColWidth = max(defaultFormat.ColWidth, 0)\n	format := defaultFormat\n")]),
    ("C09", "bad", "visible flags in place", [(K, "		slices.Clone(flags),\n		func(f *Flag) bool {\n			return f.internalFlags().hidden()", "		flags,\n		func(f *Flag) bool {\n			return f.internalFlags().hidden()")]),
    ("C09", "same", "filled at initialization", [("flag.go", "func (f *Flag) newSynopsis()", "var kinds = map[string]int{}\n\nfunc init() {\n	fillKinds(kinds)\n}\n\nfunc fillKinds(m map[string]int) {\n	m[\"a\"] = 1\n}\n\nfunc (f *Flag) newSynopsis()")]),
    ("C09", "same", "copied first", [("completion.go", "withExecute(maps.Clone(builtinFuncs), t)", "withExecute(templateFuncs(), t)"), ("completion.go", "func newSourceTemplate(", "func templateFuncs() template.FuncMap {\n	res := make(template.FuncMap, len(builtinFuncs))\n	maps.Copy(res, builtinFuncs)\n	return res\n}\n\nfunc newSourceTemplate(")]),
    ("C09", "same", "a counter in a run", [(A, "			alsoSeen := make([]string, 0, len(names))\n", "			alsoSeen := make([]string, 0, len(names))\n			count := 0\n			tick := func() { count++ }\n			tick()\n")]),
    ("C09", "same", "concat", [(A, "append(slices.Clip(p), x...)", "slices.Concat(p, ActionPipeline(x))")]),
    ("C09", "same", "made and filled", [(A, "append(slices.Clip(p), x...)", "append(append(make(ActionPipeline, 0, len(p)+len(x)), p...), x...)")]),
    ("C09", "same", "format by value", [(T, "	actual := *format\n	if actual", "	f0 := *format\n	actual := &f0\n	if actual")]),
    ("C09", "same", "cloned by the callback", [(X, "	cmd.Flags = fn(slices.Clone(cmd.Flags))", "	flags := make([]*Flag, len(cmd.Flags))\n	copy(flags, cmd.Flags)\n	cmd.Flags = fn(flags)")]),
    ("C09", "same", "initialized once", [("flag.go", "func (f *Flag) newSynopsis()", "var (\n	kindsOnce sync.Once\n	kinds map[string]int\n)\n\nfunc allKinds() map[string]int {\n	kindsOnce.Do(func() {\n		kinds = map[string]int{}\n		kinds[\"a\"] = 1\n	})\n	return kinds\n}\n\nfunc (f *Flag) newSynopsis()"), ("flag.go", '	"strings"\n', '	"strings"\n	"sync"\n')]),
    ("C09", "same", "appended to a literal", [("flag.go", "func (f *Flag) newSynopsis()", "var kinds = []string{\"a\", \"b\"}\n\nfunc allKinds(x ...string) []string {\n	return append(kinds, x...)\n}\n\nfunc (f *Flag) newSynopsis()")]),
    ("C09", "bad", "appended to a list with room", [("flag.go", "func (f *Flag) newSynopsis()", "var kinds = append(make([]string, 0, 8), \"a\", \"b\")\n\nfunc allKinds(x ...string) []string {\n	return append(kinds, x...)\n}\n\nfunc (f *Flag) newSynopsis()")]),
]
