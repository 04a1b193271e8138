S="set.go"; A="arg.go"
CASES=[
("C07","bad","long value trimmed",[(S,"				value = arg[e+1:]\n","				value = strings.TrimSpace(arg[e+1:])\n")]),
("C07","bad","last equal sign",[(S,"e := strings.IndexRune(arg, '=')","e := strings.LastIndex(arg, \"=\")")]),
("C07","bad","empty value takes next",[(S,"			if e < 0 {\n","			if e < 0 || value == \"\" {\n")]),
("C07","bad","only first occurrence applied",[(S,"""	for _, values := range v {
		err := value.SetOccurrence(values[1:]...)""","""	for _, values := range v[:1] {
		err := value.SetOccurrence(values[1:]...)""")]),
("C07","bad","name applied",[(S,"value.SetOccurrence(values[1:]...)","value.SetOccurrence(values...)")]),
("C07","bad","apply goes on",[(S,"""		err := value.SetOccurrence(values[1:]...)
		if err != nil {
			return err
		}
	}
	return nil""","""		err = value.SetOccurrence(values[1:]...)
	}
	return err"""),(S,"	for _, values := range v {\n		err = ","	var err error\n	for _, values := range v {\n		err = ")]),
("C07","bad","until flag includes dash",[(S,"""	if arg == "-" {
		// Solitary dash is treated as if an argument
		return false
	}
""","")]),
("C07","bad","discrete off by one",[(A,"			return &discreteCounter{count, count}","			return &discreteCounter{count, count - 1}")]),
("C07","bad","done ignores",[(A,"	if d.count > 0 {\n		return expectedArgument(d.total)","	if d.count > 1 {\n		return expectedArgument(d.total)")]),
("C07","bad","cluster stops after two",[(S,"				if err == EndOfArguments {\n					// Should","				if i == 0 && err == EndOfArguments {\n					// Should")]),
("C07","bad","optional short takes next",[(S,"if optional := b.BehaviorFlags(flag); optional {","if optional := b.BehaviorFlags(flag); optional && args.empty() {")]),
("C07","bad","double dash passed on",[(S,"""		if arg == "--" {
			state = argsOnly
		}

		if state == argsOnly {
			continue Parsing
		}
""","""		if arg == "--" {
			state = argsOnly
			continue Parsing
		}
""" ), (S,"""arg[0] != '-' || state == argsOnly {""","""arg[0] != '-' || state == argsOnly && len(arg) > 2 {""")]),
("C07","bad","negative numbers",[(S,"""arg == "-" || arg[0] != '-' || state""","""arg == "-" || arg[0] != '-' || len(arg) > 7 || state""")]),
("C07","bad","at file",[(S,"		arg := args.pop()\n\n		// end","		arg := args.pop()\n		if arg != \"\" && arg[0] == '@' {\n			continue\n		}\n\n		// end")]),
("C07","bad","aliases by prefix",[(S,"	if _, ok := b.names[name]; ok {\n		return name, true\n	}\n	return \"\", false","	if _, ok := b.names[name]; ok {\n		return name, true\n	}\n	for k, r := range b.longOptions {\n		if strings.HasPrefix(k, name) {\n			return r, true\n		}\n	}\n	return \"\", false")]),
("C07","bad","shadow",[(S,"	if _, ok := b.names[name]; ok {\n		return\n	}\n	for","	for")]),
("C07","bad","anyArgs at first",[(S,"				arg = args.pop()\n				anyArgs = true","				arg = args.pop()\n				anyArgs = len(args) > 0")]),
("C07","bad","remaining",[(S,"err = unknownOption(arg[2:], prepend(optionName(arg[2:]), args...))","err = unknownOption(arg[2:], args)")]),
("C07","bad","error name",[(S,"err = argTakerError(optionName(arg[2:]), \"\", err, oldArgs)","err = argTakerError(flag, \"\", err, oldArgs)")]),
("C07","bad","implied counter",[(A,"	case *[]string:\n		return ArgCount(TakeUntilNextFlag)\n	case valueP","	case valueP")]),
("C07","bad","resets value only first",[("value.go","	resetOnFirstOccur := !flags.merge()\n","	resetOnFirstOccur := !flags.merge() && firstOccur\n")]),
("C07","same","cut",[(S,"""			e := strings.IndexRune(arg, '=')
			var value string
			if e > 0 {
				value = arg[e+1:]
				arg = arg[:e]
			}
""","""			e := -1
			name, value, hasValue := strings.Cut(arg, "=")
			if hasValue {
				e = len(name)
				arg = name
			}
""")]),
("C07","same","switch",[(S,"""		if arg == "" || arg == "-" || arg[0] != '-' || state == argsOnly {""","""		if state == argsOnly || len(arg) < 2 || !strings.HasPrefix(arg, "-") {""")]),
("C07","same","append",[(S,"""	if e, ok := m[name]; ok {
		m[name] = append(e, args)
	} else {
		m[name] = [][]string{args}
	}
""","	m[name] = append(m[name], args)\n")]),
("C07","same","names order",[(S,"""		if len(alias) == 1 {
			options = b.shortOptions
		}""","""		switch len(alias) {
		case 1:
			options = b.shortOptions
		}""")]),
("C07","same","helper",[(S,"""		if optional := b.BehaviorFlags(flag); optional {""","""		if isOptional(b, flag) {"""),(S,"func newSet(","func isOptional(b Binding, name string) bool {\n	return b.BehaviorFlags(name)\n}\n\nfunc newSet(")]),
("C07","same","runes",[(S,"		for i, c := range arg {\n","		rest := []rune(arg)\n		for n, c := range rest {\n			i := len(string(rest[:n]))\n")]),
("C07","same","splitn",[(S,"""			e := strings.IndexRune(arg, '=')
			var value string
			if e > 0 {
				value = arg[e+1:]
				arg = arg[:e]
			}
""","""			e := -1
			var value string
			if parts := strings.SplitN(arg, "=", 2); len(parts) == 2 {
				e = len(parts[0])
				arg, value = parts[0], parts[1]
			}
""")]),
("C07","same","trim dashes",[(S,"flag, ok := b.ResolveAlias(arg[2:])","flag, ok := b.ResolveAlias(strings.TrimPrefix(arg, \"--\"))")]),
("C07","same","decode",[(S,"		for i, c := range arg {\n","		for i, size := 0, 0; i < len(arg); i += size {\n			var c rune\n			c, size = utf8.DecodeRuneInString(arg[i:])\n"),(S,'	"strings"\n','	"strings"\n	"unicode/utf8"\n')]),
]
