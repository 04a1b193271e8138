S = "internal/synopsis/synopsis.go"
GROUPS = """	for _, f := range flags {
		groups[f.Group] = append(groups[f.Group], f)
	}
"""
VIS = """	res := make([]*Command, 0, len(c.Subcommands))
	for _, o := range c.Subcommands {
		if o.internalFlags().hidden() {
			continue
		}
		res = append(res, o)
	}
	return res
"""
OTHER = """			sb.WriteString(" [")
			f.primaryWriteTo(sb)
			sb.WriteString("]")
"""
CASES = [
    ("C15", "bad", "required flag listed as optional", [("command.go", "	if f.internalFlags().required() {\n		return synopsis.Other\n	}\n", "")]),
    ("C15", "bad", "a hidden exit flag is listed", [("command.go", """	if f.internalFlags().hidden() {
		return synopsis.Hidden
	}
	if f.internalFlags().exits() {
		return synopsis.ActionGroup
	}
""", """	if f.internalFlags().exits() {
		return synopsis.ActionGroup
	}
	if f.internalFlags().hidden() {
		return synopsis.Hidden
	}
""")]),
    ("C15", "bad", "hidden args in the synopsis", [("command.go", "	visibleArgs := c.VisibleArgs()\n", "	visibleArgs := c.Args\n")]),
    ("C15", "bad", "switches in one order, optional ones not", [(S, "	sortedByName(groups[OnlyShortNoValueOptional])\n", "")]),
    ("C15", "bad", "hidden flags in categories", [("flag.go", "	return filterInVisibleFlags(f.Flags)\n", "	return f.Flags\n")]),
    ("C15", "bad", "persistent flags that are hidden", [("usage.go", "filterInVisibleFlags(ctxt.PersistentFlags())", "ctxt.PersistentFlags()")]),
    ("C15", "bad", "the flags of the list itself are filtered", [("command.go", "		slices.Clone(flags),\n", "		flags,\n")]),
    ("C15", "bad", "two words are one", [(S, "		return c == 0, c < 0 || c > 1\n", "		return c == 0, c < 0 || c > 2\n")]),
    ("C15", "bad", "help of the parent", [("usage.go", "current := ctxt.Command()", "current := c.Parent().Command()")]),
    ("C15", "bad", "help of a shorter path", [("usage.go", "for len(command) > len(parent) {", "for len(command) > len(parent)+1 {")]),
    ("C15", "bad", "lineage has the command", [("usage.go", "path = path[0 : len(path)-1]", "path = path[0:]")]),
    ("C15", "bad", "names in the middle hidden", [("context.go", 'strings.HasPrefix(strings.TrimLeft(c.Name(), "<-"), "_")', 'strings.Contains(strings.TrimLeft(c.Name(), "<-"), "_")')]),
    ("C15", "bad", "explicitly visible is hidden", [("context.go", """		if c.target.internalFlags().visibleExplicitlyRequested() {
			return nil
		}
		if c.flag""", "		if c.flag")]),
    ("C15", "bad", "only itself asked about names", [("context.go", "if c.flagSetOrAncestor((internalFlags).disableAutoVisibility) {", "if c.target.internalFlags().disableAutoVisibility() {")]),
    ("C15", "bad", "stale group", [("flag.go", "			syn.Group = getGroup(f)\n", "")]),
    ("C15", "bad", "last long name", [(S, "			return []string{shorts[0], longs[0]}, append(shorts[1:], longs[1:]...)", "			return []string{shorts[0], longs[len(longs)-1]}, append(shorts[1:], longs[:len(longs)-1]...)")]),
    ("C15", "bad", "usage text ignored", [(S, """	if usageString != "" {
		return &Value{
			Placeholder: usageString,""", """	if usageString != "" && placeholders != "" {
		return &Value{
			Placeholder: usageString,""")]),
    ("C15", "same", "groups by a helper", [(S, GROUPS, """	put := func(f *Flag) {
		list := groups[f.Group]
		groups[f.Group] = append(list, f)
	}
	for i := range flags {
		put(flags[i])
	}
""")]),
    ("C15", "same", "visible by DeleteFunc", [("command.go", VIS, """	return slices.DeleteFunc(slices.Clone(c.Subcommands), func(o *Command) bool {
		return o.internalFlags().hidden()
	})
""")]),
    ("C15", "same", "group by switch", [("command.go", """	if f.internalFlags().hidden() {
		return synopsis.Hidden
	}
	if f.internalFlags().exits() {
		return synopsis.ActionGroup
	}
""", """	flags := f.internalFlags()
	switch {
	case flags.hidden():
		return synopsis.Hidden
	case flags.exits():
		return synopsis.ActionGroup
	}
""")]),
    ("C15", "same", "brackets by a helper", [(S, OTHER, """			bracketed(sb, f.primaryWriteTo)
"""), (S, "func boldFirst(", """func bracketed(sb styleWriter, fn func(styleWriter)) {
	sb.WriteString(" ")
	sb.WriteString("[")
	fn(sb)
	sb.WriteString("]")
}

func boldFirst(""")]),
    ("C15", "same", "sort by slices", [(S, """	sort.Slice(flags, func(i, j int) bool {
		return flags[i].Short < flags[j].Short
	})
""", """	slices.SortStableFunc(flags, func(a, b *Flag) int {
		return strings.Compare(a.Short, b.Short)
	})
"""), (S, "	\"sort\"\n", "	\"slices\"\n")]),
    ("C15", "same", "help data in a variable", [("usage.go", "			lineage := strings.Join(path, \" \")\n", "			sep := \" \"\n			lineage := strings.Join(path, sep)\n")]),
]
