K, F, Z = "command.go", "completion.go", "completion_zsh.go"
CASES = [
    ("C25", "bad", "hidden flags offered", [(K, "		for _, f := range cmd.VisibleFlags() {\n			for _, n := range f.newSynopsis().Names {\n				if strings.HasPrefix(n, cc.Incomplete) {", "		for _, f := range cmd.Flags {\n			for _, n := range f.newSynopsis().Names {\n				if strings.HasPrefix(n, cc.Incomplete) {")]),
    ("C25", "bad", "hidden flag's values offered", [(K, "	for _, f := range cmd.VisibleFlags() {\n		for _, n := range f.newSynopsis().Names {\n			if n ==", "	for _, f := range cmd.Flags {\n		for _, n := range f.newSynopsis().Names {\n			if n ==")]),
    ("C25", "bad", "first match taken", [(K, "				if match != nil && match != f {\n					return nil\n				}\n", "")]),
    ("C25", "bad", "two names are two matches", [(K, "match != nil && match != f", "match != nil")]),
    ("C25", "bad", "switches get an equals sign", [(K, "!match.internalFlags().flagOnly() && len(matchName) > 2", "len(matchName) > 1")]),
    ("C25", "bad", "space after an equals sign", [(K, "HelpText: match.HelpText, PreventSpaceAfter: len(suffix) > 0}", "HelpText: match.HelpText}")]),
    ("C25", "bad", "parent's flags after a sub-command", [(K, "	if arg, ok := cmd.Arg(\"command\"); ok && len(cmd.Subcommands) > 0 && len(cc.Bindings[\"command\"]) > 0 {\n		return actualCompletion(arg.completion()).Complete(c.newChild(arg))\n	}\n", "")]),
    ("C25", "bad", "always the first arg", [(K, "			last = a\n			if len(", "			if len(")]),
    ("C25", "bad", "last arg", [(K, "			if len(cc.Bindings[a.Name]) == 0 {\n				break\n			}\n", "			_ = cc.Bindings[a.Name]\n")]),
    ("C25", "bad", "hidden sub-commands offered", [(K, "visible := cmd.VisibleSubcommands()\n		res", "visible := cmd.Subcommands\n		res")]),
    ("C25", "bad", "aliases not offered", [(K, "if detect(alias) {", "if detect(alias) && detect(s.Name) {")]),
    ("C25", "bad", "help text of aliases", [(K, "CompletionItem{Value: alias, HelpText: s.HelpText}", "CompletionItem{Value: alias}")]),
    ("C25", "bad", "sub-command completes nothing typed", [(K, "newCtx.Complete(invoke, cc.Incomplete)", "newCtx.Complete(invoke[:1], cc.Incomplete)")]),
    ("C25", "bad", "own completion ignored", [(K, "	if c.Completion != nil {\n		return c.Completion\n	}\n	return CompletionFunc(defaultCommandCompletion)", "	return CompletionFunc(defaultCommandCompletion)")]),
    ("C25", "bad", "values not filtered", [(F, "					v := prefix + a\n					if strings.HasPrefix(v, c.CompletionRequest().Incomplete) {", "					v := prefix + a\n					if strings.HasPrefix(v, prefix) {")]),
    ("C25", "bad", "short names take an equals sign", [(F, "if len(n) == 2 {", "if len(n) == 1 {")]),
    ("C25", "bad", "arg values not filtered", [(F, "			for _, v := range values {\n				if strings.HasPrefix(v, c.CompletionRequest().Incomplete) {", "			for _, v := range values {\n				if c.CompletionRequest() != nil {")]),
    ("C25", "bad", "request kept", [(F, "	defer c.clearCompletionRequest()\n", "")]),
    ("C25", "bad", "directories for files", [(F, "Type: CompletionTypeFile}", "Type: CompletionTypeDirectory}")]),
    ("C25", "bad", "bindings not passed", [(F, "		Bindings:   re.bindings,\n", "")]),
    ("C25", "bad", "lines of the help text", [(Z, "strings.ReplaceAll(item.HelpText, \"\\n\", \" \")", "strings.Replace(item.HelpText, \"\\n\", \" \", 1)")]),
    ("C25", "bad", "no line for no help", [(Z, "		itemDesc = \"_\"\n", "		itemDesc = \"\"\n")]),
    ("C25", "bad", "only the last item", [(Z, "		buf.WriteString(z", "		buf.Reset()\n		buf.WriteString(z")]),
    ("C25", "bad", "word under the cursor is typed", [(Z, "args = cwords[0:cword]", "args = cwords")]),
    ("C25", "bad", "one word early", [(Z, "	if cword <= len(cwords) {", "	if cword < len(cwords) {")]),
    ("C25", "bad", "status of an answer", [(K, "c.Print(comp.FormatCompletions(items))\n		return Exit(0)", "c.Print(comp.FormatCompletions(items))\n		return nil")]),
    ("C25", "bad", "answer on standard error", [(K, "c.Print(comp", "fmt.Fprint(c.Stderr, comp")]),
    ("C25", "same", "matches in a slice", [(K, """	if match == nil {
		return nil
	}

	var suffix string
	if !match""", """	found := match
	if found == nil {
		return nil
	}

	suffix := ""
	if !match""")]),
    ("C25", "same", "prefix by a helper", [(K, "	detect := func(s string) bool {\n		return strings.HasPrefix(s, cc.Incomplete)\n	}\n", "	detect := cc.matches\n"), (F, "func actualCompletion(", "func (c *CompletionRequest) matches(s string) bool {\n	_, ok := strings.CutPrefix(s, c.Incomplete)\n	return ok\n}\n\nfunc actualCompletion(")]),
    ("C25", "same", "next arg by index", [(K, """		last := cmd.Args[0]
		for _, a := range cmd.Args {
			last = a
			if len(cc.Bindings[a.Name]) == 0 {
				break
			}
		}
""", """		index := 0
		for index < len(cmd.Args)-1 && len(cc.Bindings[cmd.Args[index].Name]) > 0 {
			index++
		}
		last := cmd.Args[index]
""")]),
    ("C25", "same", "a builder", [(Z, "var buf bytes.Buffer", "var buf strings.Builder"), (Z, "	\"bytes\"\n", "")]),
    ("C25", "same", "sprintf", [(Z, 'fmt.Sprint(itemType, "\\n", item.Value, "\\n", itemDesc, "\\n", spaceAfter, "\\n")', 'fmt.Sprintf("%s\\n%s\\n%s\\n%s\\n", itemType, item.Value, itemDesc, spaceAfter)')]),
    ("C25", "same", "joined", [(Z, 'fmt.Sprint(itemType, "\\n", item.Value, "\\n", itemDesc, "\\n", spaceAfter, "\\n")', 'strings.Join([]string{itemType, item.Value, itemDesc, spaceAfter, ""}, "\\n")'), (Z, '	"fmt"\n', '')]),
    ("C25", "same", "values by closure", [(F, """			res := make([]CompletionItem, 0, len(values))
			for _, v := range values {
				if strings.HasPrefix(v, c.CompletionRequest().Incomplete) {
					res = append(res, CompletionItem{Value: v})
				}
			}
			return res
""", """			return itemsWithPrefix(c, values)
"""), (F, "func actualCompletion(", """func itemsWithPrefix(c *Context, values []string) (res []CompletionItem) {
	inc := c.CompletionRequest().Incomplete
	for i := range values {
		if len(values[i]) >= len(inc) && values[i][:len(inc)] == inc {
			res = append(res, CompletionItem{Value: values[i]})
		}
	}
	return
}

func actualCompletion(""")]),
    ("C25", "same", "write string", [(K, "c.Print(comp.FormatCompletions(items))", "text := comp.FormatCompletions(items)\n		_, _ = c.Stdout.WriteString(text)")]),
]
