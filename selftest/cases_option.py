O, A = "option.go", "action.go"
CASES = [
    ("C27", "bad", "swapped marks", [(O, "SkipFlagParsing:        setInternalFlag(internalFlagSkipFlagParsing)", "SkipFlagParsing:        setInternalFlag(internalFlagDisallowFlagsAfterArgs)")]),
    ("C27", "bad", "label", [(O, '		Exits:                  "EXITS",', '		Exits:                  "EXIT",')]),
    ("C27", "bad", "merge not explicit", [(O, "setInternalFlag(internalFlagMerge | internalFlagMergeExplicitlyRequested)", "setInternalFlag(internalFlagMerge)")]),
    ("C27", "bad", "missing is fine", [(O, "		_, err := wrapFS(c.actualFS()).Stat(f)\n		return err", "		_, err := wrapFS(c.actualFS()).Stat(f)\n		return ignoreBlankPathError(err)")]),
    ("C27", "bad", "chdir when not given", [(O, "	if c.Seen(\"\") {\n		newDir", "	if v := c.Value(\"\"); v != nil {\n		newDir")]),
    ("C27", "bad", "no sets true", [(O, "SetValue(false)", "SetValue(true)")]),
    ("C27", "bad", "mirror does not trigger", [(O, "				return c.ContextOf(f).Trigger()", "				return nil")]),
    ("C27", "bad", "@ kept", [(A, "f.Open(s[1:])", "f.Open(s)")]),
    ("C27", "bad", "leak", [(A, "			f, err := f.Open(s)\n			if err != nil {\n				closeReaders(readers[:i])", "			f, err := f.Open(s)\n			if err != nil {")]),
    ("C27", "bad", "exit loses the error", [(A, "		err := a.Execute(c)\n		if err != nil {\n			return err\n		}\n		return Exit(0)", "		a.Execute(c)\n		return Exit(0)")]),
    ("C27", "bad", "sorted wrong list", [(O, "	slices.SortFunc(cmd.Flags, flagsByNameOrder)", "	slices.SortFunc(cmd.Subcommands, commandsByNameOrder)")]),
    ("C27", "bad", "visible does not unhide", [(O, "	c.target.setInternalFlags(internalFlagHidden, false)\n", "")]),
    ("C27", "same", "hidden through the mark", [(O, "	c.target.SetHidden(true)\n	return nil", "	t := c.target\n	t.SetHidden(true)\n	return nil")]),
    ("C27", "same", "early return", [(O, "	if c.Seen(\"\") {\n		newDir := fmt.Sprint(c.Value(\"\"))\n		if newDir == \"\" {\n			return nil\n		}\n		return os.Chdir(newDir)\n	}\n	return nil", "	if !c.Seen(\"\") {\n		return nil\n	}\n	newDir := fmt.Sprintf(\"%v\", c.Value(\"\"))\n	if len(newDir) > 0 {\n		return os.Chdir(newDir)\n	}\n	return nil")]),
    ("C27", "same", "no without closure", [(O, "		Action: func(c *Context) error {\n			return c.ContextOf(f).SetValue(false)\n		},", "		Action: func(c *Context) error {\n			cf := c.ContextOf(f)\n			off := false\n			return cf.SetValue(off)\n		},")]),
    ("C27", "same", "helper opens", [(A, "			f, err := f.Open(s)\n			if err != nil {\n				closeReaders(readers[:i])\n				return nil, err\n			}", "			r, err := openIt(f, s)\n			if err != nil {\n				closeReaders(readers[:i])\n				return nil, err\n			}\n			f := r"), (A, "func doThenExit(", "func openIt(f fs.FS, n string) (fs.File, error) {\n	return f.Open(n)\n}\n\nfunc doThenExit(")]),
    ("C27", "same", "sort by name", [(O, "slices.SortFunc(cmd.Flags, flagsByNameOrder)", "slices.SortFunc(cmd.Flags, func(x, y *Flag) int { return strings.Compare(x.Name, y.Name) })")]),
    ("C27", "same", "sort stable", [(O, "slices.SortFunc(cmd.Flags, flagsByNameOrder)", "slices.SortStableFunc(cmd.Flags, flagsByNameOrder)")]),
    ("C27", "same", "sort.Slice", [(O, "slices.SortFunc(cmd.Flags, flagsByNameOrder)", "sort.Slice(cmd.Flags, func(i, j int) bool { return cmd.Flags[i].Name < cmd.Flags[j].Name })"), (O, '	"slices"\n', '	"slices"\n	"sort"\n')]),
]
