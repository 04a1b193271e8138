A, C, V = "action.go", "context.go", "value.go"
CASES = [
    ("C19", "bad", "last variable wins", [(A, "				c.SetValue(val)\n				return nil\n			}\n		}\n		return nil", "				c.SetValue(val)\n			}\n		}\n		return nil"), (C, "			return ErrImplicitValueAlreadySet\n", "			return c.target.(option).Set(arg)\n")]),
    ("C19", "bad", "empty variable counts", [(A, 'if val := os.Getenv(envVar); val != "" {', 'if val, ok := os.LookupEnv(envVar); ok {')]),
    ("C19", "bad", "explicit once only", [(A, 'if FromContext(c).Occurrences("") == 0 {', 'if FromContext(c).Occurrences("") != 1 {')]),
    ("C19", "bad", "name of the flag", [(A, "		name = f.LongName()", "		name = f.Name")]),
    ("C19", "bad", "no underscore", [(A, 'if idx[1] < len(content) {', 'if idx[1] < len(content)-1 {')]),
    ("C19", "bad", "file twice", [(A, "				c.SetValue(string(data))", "				c.option().Set(string(data))")]),
    ("C19", "bad", "file before variable", [(C, "		FromEnv(opt.envVars()...),\n		FromFilePath(nil, opt.filePath()),", "		FromFilePath(nil, opt.filePath()),\n		FromEnv(opt.envVars()...),")]),
    ("C19", "bad", "implied always", [(A, 'if c.Occurrences("") == 0 {\n				return "", false', 'if c.Occurrences("") < 0 {\n				return "", false')]),
    ("C19", "bad", "implied not marked", [(C, "		c.target.setInternalFlags(internalFlagSeenImplied, true)\n", "")]),
    ("C19", "bad", "value appended", [(V, "	o.reset()\n	err := o.Set(arg)\n", "	err := o.Set(arg)\n")]),
    ("C19", "bad", "value lost", [(V, "		restore()\n", "		_ = restore\n")]),
    ("C19", "same", "lookup", [(A, 'if val := os.Getenv(envVar); val != "" {', 'if val, ok := os.LookupEnv(envVar); ok && len(val) > 0 {')]),
    ("C19", "same", "builder", [(A, "	var buf bytes.Buffer\n	var prev int", "	var buf strings.Builder\n	var prev int"), (A, '	"bytes"\n', "")]),
    ("C19", "same", "found flag", [(A, "			if val := os.Getenv(envVar); val != \"\" {\n				c.SetValue(val)\n				return nil\n			}\n		}\n		return nil", "			val := os.Getenv(envVar)\n			if val == \"\" {\n				continue\n			}\n			_ = c.SetValue(val)\n			break\n		}\n		return nil")]),
    ("C19", "same", "implicitly inverted", [(A, '		if FromContext(c).Occurrences("") == 0 {\n			return Do(c, a)\n		}\n		return nil', '		if n := FromContext(c).Occurrences(""); n != 0 {\n			return nil\n		}\n		return Do(c, a)')]),
    ("C19", "same", "concatenation", [(A, "		buf.WriteString(name)\n", "		buf.WriteString(\"\" + name)\n")]),
    ("C19", "same", "split on braces", [(A, "	var buf bytes.Buffer\n	var prev int\n\n	for _, idx := range patFlagName.FindAllStringIndex(content, -1) {\n		buf.WriteString(content[prev:idx[0]])\n		if idx[0] > 0 {\n			buf.WriteString(\"_\")\n		}\n		buf.WriteString(name)\n		if idx[1] < len(content) {\n			buf.WriteString(\"_\")\n		}\n		prev = idx[1]\n	}\n	buf.WriteString(content[prev:])\n	return buf.String()", "	before, after, ok := strings.Cut(content, \"{}\")\n	if !ok {\n		return content\n	}\n	if before != \"\" {\n		before += \"_\"\n	}\n	if after != \"\" {\n		after = \"_\" + after\n	}\n	return before + name + expandEnvVarName(after, name)"), (A, '	"bytes"\n', "")]),
]
