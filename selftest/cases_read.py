CASES = [
 ("C16","bad","accessor reads narrower",[("context.go","	return lookupInt64(c, name)","	return int64(lookupInt32(c, name))")]),
 ("C16","bad","accessor ignores name",[("lookup.go","""func (c LookupFunc) Duration(name any) time.Duration {
	return lookupDuration(c, name)""","""func (c LookupFunc) Duration(name any) time.Duration {
	return lookupDuration(c, "")""")]),
 ("C16","bad","accessor asks the parent",[("context.go","	return lookupBytes(c, name)","	return lookupBytes(c.Parent(), name)")]),
 ("C16","bad","flag by first alias",[("lookup.go","""	case *Flag:
		return v.Name
""","""	case *Flag:
		if len(v.Aliases) > 0 {
			return v.Aliases[0]
		}
		return v.Name
""")]),
 ("C16","bad","alias not found",[("flag.go","""		if slices.Contains(sub.Aliases, name) {
			return sub, index, true
		}
	}
	return nil, -1, false
}

func isFlagType""","""	}
	return nil, -1, false
}

var _ = slices.Contains[[]string]

func isFlagType""")]),
 ("C16","bad","last command wins index",[("command.go","""		if slices.Contains(sub.Aliases, name) {
			return sub, index, true""","""		if slices.Contains(sub.Aliases, name) {
			return sub, index + 1, true""")]),
 ("C16","bad","outer first",[("lookup.go","""	if v, ok := p.lookupCore.lookupValue(name); ok {
		return v, true
	}

	return p.parent.lookupValue(name)""","""	if v, ok := p.parent.lookupValue(name); ok {
		return v, true
	}

	return p.lookupCore.lookupValue(name)""")]),
 ("C16","bad","data not inherited",[("context.go","	return c.Parent().LookupData(name)","	return nil, false")]),
 ("C16","bad","arg lookup in parent by its context name",[("context.go","	return c.Parent().LookupArg(name)","	return c.Parent().LookupArg(c.Name())")]),
 ("C16","bad","raw from parent mixes",[("context.go","			return c.Parent().rawCore(c.nameToString(f), occurs)","			return c.Parent().rawCore(c.nameToString(f), (internalContext).Raw)[:0]")]),
 ("C16","bad","occurrences only of flags",[("context.go","""		return f, true
	}
	return c.LookupArg(name)
}

func (c *Context) option() option""","""		return f, true
	}
	return nil, false
}

func (c *Context) option() option""")]),
 ("C16","bad","wrong interface argument trimmed whole",[("lookup.go","""	name = withoutDecorators(name)
	if v, ok := c.lookupValue(name); ok {""","""	name = withoutDecorators(name)
	if v, ok := c.lookupValue(strings.ToLower("")); ok {""")]),
 ("C16","same","accessor through generic",[("lookup.go","""func lookupMap(c Lookup, name any) (res map[string]string) {
	val := c.Value(name)
	if val != nil {
		res = val.(map[string]string)
	}
	return
}""","""func lookupMap(c Lookup, name any) map[string]string {
	return lookupRef[map[string]string](c, name)
}

func lookupRef[T any](c Lookup, name any) T {
	var zero T
	switch v := c.Value(name).(type) {
	case nil:
		return zero
	case T:
		return v
	default:
		return v.(T)
	}
}""")]),
 ("C16","same","find with helper and IndexFunc-like loop",[("flag.go","""	for index, sub := range items {
		if sub.Name == name {
			return sub, index, true
		}
		if slices.Contains(sub.Aliases, name) {
			return sub, index, true
		}
	}
	return nil, -1, false
}

func isFlagType""","""	for i := 0; i < len(items); i++ {
		if flagIsNamed(items[i], name) {
			return items[i], i, true
		}
	}
	return nil, -1, false
}

func flagIsNamed(f *Flag, name string) bool {
	if f.Name == name {
		return true
	}
	for _, a := range f.Aliases {
		if a == name {
			return true
		}
	}
	return false
}

var _ = slices.Contains[[]string]

func isFlagType""")]),
 ("C16","same","find command with one condition",[("command.go","""		if sub.Name == name {
			return sub, index, true
		}
		if slices.Contains(sub.Aliases, name) {
			return sub, index, true
		}
""","""		if sub.Name == name || slices.Contains(sub.Aliases, name) {
			return sub, index, true
		}
""")]),
 ("C16","same","parent lookup inverted",[("lookup.go","""	if v, ok := p.lookupCore.lookupValue(name); ok {
		return v, true
	}

	return p.parent.lookupValue(name)""","""	v, ok := p.lookupCore.lookupValue(name)
	if !ok {
		v, ok = p.parent.lookupValue(name)
	}
	return v, ok""")]),
 ("C16","same","data lookup as loop",[("context.go","""	if c == nil || c.target == nil {
		return nil, false
	}
	if res, ok := c.target.LookupData(name); ok {
		return res, true
	}
	return c.Parent().LookupData(name)""","""	if c == nil || c.target == nil {
		return nil, false
	}
	res, ok := c.target.LookupData(name)
	if ok {
		return res, true
	}
	up := c.Parent()
	return up.LookupData(name)""")]),
]
