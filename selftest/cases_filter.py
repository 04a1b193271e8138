X, F, A = "context.go", "filter.go", "action.go"
LOOP = """	for _, match := range decompose(filterModeMatches).items(f) {
		if !match(c) {
			return false
		}
	}
	return true
"""
M = """	for i, j := len(cp.parts)-1, len(c)-1; i >= 0; i, j = i-1, j-1 {
		if !matchField(cp.parts[i], c[j]) {
			return false
		}
	}
	return true
"""
CASES = [
    ("C28", "bad", "longer pattern", [(X, "	if len(cp.parts) > len(c) {\n		return false\n	}\n	for i, j := len(cp.parts)-1, len(c)-1; i >= 0;", "	for i, j := len(cp.parts)-1, len(c)-1; i >= 0 && j >= 0;")]),
    ("C28", "bad", "from the start", [(X, "	for i, j := len(cp.parts)-1, len(c)-1; i >= 0; i, j = i-1, j-1 {", "	for i, j := len(cp.parts)-1, len(cp.parts)-1; i >= 0; i, j = i-1, j-1 {")]),
    ("C28", "bad", "only the last", [(X, M, "	return matchField(cp.parts[len(cp.parts)-1], c[len(c)-1])\n")]),
    ("C28", "bad", "expr is an arg", [(X, 'strings.HasPrefix(field, "<") && !strings.HasPrefix(field, "<-")', 'strings.HasPrefix(field, "<")')]),
    ("C28", "bad", "prefix of a name", [(X, "	if pattern == field {\n		return true\n	}\n\n	// Special", "	if strings.HasPrefix(field, pattern) {\n		return true\n	}\n\n	// Special")]),
    ("C28", "bad", "any of the modes", [(F, LOOP, "	for _, match := range decompose(filterModeMatches).items(f) {\n		if match(c) {\n			return true\n		}\n	}\n	return f == 0\n")]),
    ("C28", "bad", "value of args only", [(X, "	return c.isOption() || ok\n", "	return c.IsArg() || ok\n")]),
    ("C28", "bad", "not initially", [(A, "	case InitialTiming:\n		return c.IsInitializing()\n	case AfterTiming:\n		return c.IsAfter()", "	case AfterTiming:\n		return c.IsAfter()")]),
    ("C28", "bad", "described passes", [(A, "			if desc != \"\" {\n				c := FromContext(ctx)", "			if desc == \"described\" {\n				return nil\n			}\n			if desc != \"\" {\n				c := FromContext(ctx)")]),
    ("C28", "bad", "assert of a bare filter", [(A, "			return errAssertFailed\n", "			return nil\n")]),
    ("C28", "bad", "error lost", [(A, "		if f.Matches(c) {\n			return Do(c, a)\n		}\n		return nil", "		if f.Matches(c) {\n			Do(c, a)\n		}\n		return nil")]),
    ("C28", "bad", "nothing without a filter", [(A, "	if f == nil {\n		return a\n	}\n	return actionFunc(func(c context.Context) error {\n		if f.M", "	if f == nil {\n		return ActionFunc(nil)\n	}\n	return actionFunc(func(c context.Context) error {\n		if f.M")]),
    ("C28", "same", "cut from the end", [(X, "	for i, j := len(cp.parts)-1, len(c)-1; i >= 0; i, j = i-1, j-1 {\n		if !matchField(cp.parts[i], c[j]) {", "	tail := c[len(c)-len(cp.parts):]\n	for i, part := range cp.parts {\n		if !matchField(part, tail[i]) {")]),
    ("C28", "same", "switch", [(X, """	if pattern == "" {
		return true
	}
	if pattern == "*" {
		return matchCommand(field)
	}
	if pattern == "-" || pattern == "--" {
		return matchFlag(field)
	}
""", """	switch pattern {
	case "":
		return true
	case "*":
		return matchCommand(field)
	case "-", "--":
		return matchFlag(field)
	}
""")]),
    ("C28", "same", "bit by bit", [(F, LOOP, """	if f&Anything == Anything {
		f &^= Anything
	}
	for i := FilterModes(1); i <= f; i <<= 1 {
		if f&i != 0 && !filterModeMatches[i](c) {
			return false
		}
	}
	return true
""")]),
    ("C28", "same", "all by slices", [(F, LOOP, """	return !slices.ContainsFunc(decompose(filterModeMatches).items(f), func(match func(*Context) bool) bool {
		return !match(c)
	})
"""), (F, '	"sort"\n', '	"slices"\n	"sort"\n')]),
    ("C28", "same", "sort func", [(F, """	sort.Slice(keys, func(i, j int) bool {
		if x, y := bits.OnesCount(keys[i]), bits.OnesCount(keys[j]); x != y {
			return x > y
		}
		return keys[i] > keys[j]
	})
""", """	slices.SortFunc(keys, func(a, b uint) int {
		if x, y := bits.OnesCount(a), bits.OnesCount(b); x != y {
			return y - x
		}
		return cmp.Compare(b, a)
	})
"""), (F, '	"context"\n', '	"cmp"\n	"context"\n'), (F, '	"sort"\n', '	"slices"\n')]),
    ("C28", "same", "inverted", [(A, "		if f.Matches(c) {\n			return Do(c, a)\n		}\n		return nil", "		if !f.Matches(c) {\n			return nil\n		}\n		return Do(c, a)")]),
    ("C28", "same", "description apart", [(A, """			var desc string
			if d, ok := filter.(interface{ Describe() string }); ok {
				desc = d.Describe()
			} else if d, ok := filter.(fmt.Stringer); ok {
				desc = d.String()
			}
			if desc != "" {
""", """			if desc := describeFilter(filter); desc != "" {
"""), (A, "// Assert provides", """func describeFilter(filter ContextFilter) string {
	switch d := filter.(type) {
	case interface{ Describe() string }:
		return d.Describe()
	case fmt.Stringer:
		return d.String()
	}
	return ""
}

// Assert provides""")]),
]
