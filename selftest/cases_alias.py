S = "set.go"
RA = """	options := b.longOptions
	if len(name) == 1 {
		options = b.shortOptions
	}
	if r, ok := options[name]; ok {
		return r, ok
	}
	if _, ok := b.names[name]; ok {
		return name, true
	}
	return "", false
"""
LV = """	_, _, g, ok := s.Binding.LookupOption(name)
	if _, isArg := g.(*Arg); !isArg {
		// An alias of a nearer flag precedes the name of an inherited one
		if flag, found := s.Binding.ResolveAlias(name); found {
			_, _, g, ok = s.Binding.LookupOption(flag)
		}
	}
	if ok {
		return g.(option).value(), true
	}
	return nil, false
"""
CASES = [
    ("C07", "bad", "names first", [(S, RA, """	if _, ok := b.names[name]; ok {
		return name, true
	}
	options := b.longOptions
	if len(name) == 1 {
		options = b.shortOptions
	}
	r, ok := options[name]
	return r, ok
""")]),
    ("C07", "bad", "inherited alias takes a name", [(S, "		if _, ok := b.names[alias]; ok {\n			continue\n		}\n", "")]),
    ("C07", "bad", "last alias wins", [(S, "		if _, ok := options[alias]; !ok {\n			options[alias] = name\n		}\n", "		options[alias] = name\n")]),
    ("C07", "bad", "farthest first", [(S, "for _, f := range slices.Backward(parent.Flags()) {", "for _, f := range parent.Flags() {")]),
    ("C16", "bad", "no aliases", [(S, LV, """	if _, _, g, ok := s.Binding.LookupOption(name); ok {
		return g.(option).value(), true
	}
	return nil, false
""")]),
    ("C16", "bad", "alias before arg", [(S, "	if _, isArg := g.(*Arg); !isArg {\n", "	if true {\n")]),
    ("C16", "bad", "name before nearer alias", [(S, "	if _, isArg := g.(*Arg); !isArg {\n", "	if !ok {\n")]),
    ("C16", "same", "split", [(S, LV, """	g, ok := s.named(name)
	if !ok {
		return nil, false
	}
	return g.(option).value(), true
"""), (S, "func (m BindingMap) appendOutput", """func (s *set) named(name string) (BindingState, bool) {
	_, _, g, ok := s.LookupOption(name)
	if a, is := g.(*Arg); is && ok {
		return a, true
	}
	flag, found := s.ResolveAlias(name)
	if !found {
		return g, ok
	}
	_, _, g, ok = s.LookupOption(flag)
	return g, ok
}

func (m BindingMap) appendOutput""")]),
    ("C07", "same", "switch", [(S, RA, """	var flag string
	var ok bool
	switch len(name) {
	case 1:
		flag, ok = b.shortOptions[name]
	default:
		flag, ok = b.longOptions[name]
	}
	if ok {
		return flag, true
	}
	if b.names[name] == nil {
		return "", false
	}
	return name, true
""")]),
]
