V, S, B, U = "value.go", "set.go", "value/value.go", "internal/support/support.go"
PB = """	switch strings.ToLower(value) {

	case "", "1", "true", "on", "t":
		return true, nil
	case "0", "false", "off", "f":
		return false, nil
	default:
		return false, fmt.Errorf("invalid value for bool %q", value)
	}
"""
SPL = """		unquote := func(x string) string {
			return strings.ReplaceAll(x, "\\\\"+sep, sep)
		}
		res := make([]string, 0)

		var last int
		for i := 0; i < len(s); i++ {
			if n > 0 && len(res) == n-1 {
				break
			}
			if !strings.HasPrefix(s[i:], sep) || (i > 0 && s[i-1] == '\\\\') {
				continue
			}
			res = append(res, unquote(s[last:i]))
			last = i + len(sep)
			i = last - 1
		}
		return append(res, unquote(s[last:]))
"""
CASES = [
    ("C02", "bad", "any word is false", [(V, '		return false, fmt.Errorf("invalid value for bool %q", value)', "		return false, nil")]),
    ("C02", "bad", "on is lost", [(V, '"true", "on", "t":', '"true", "t":'), (V, '"false", "off", "f":', '"false", "off", "f", "on":')]),
    ("C02", "bad", "bool matters in case", [(V, "switch strings.ToLower(value) {\n\n	case \"\"", "switch value {\n\n	case \"\"")]),
    ("C02", "bad", "byte length error lost", [(B, "	val, err := ParseByteLength(string(data))\n	if err != nil {\n		return err\n", "	val, err := ParseByteLength(string(data))\n	if err != nil {\n		return nil\n")]),
    ("C02", "bad", "items repeated", [(U, "			last = i + len(sep)\n			i = last - 1\n", "			i += len(sep) - 1\n")]),
    ("C02", "bad", "separator kept", [(U, "			last = i + len(sep)\n			i = last - 1\n", "			last = i\n")]),
    ("C02", "bad", "bytes reversed", [(V, "*p = append(*p, bb...)\n		return nil\n	case *map", "*p = append(bb, *p...)\n		return nil\n	case *map")]),
    ("C02", "bad", "text prepended", [(V, "*p = s + value", "*p = value + s")]),
    ("C02", "bad", "map keeps the first", [(V, "		maps.Copy(m, support.ParseMap(values()))\n", "		for k, v := range support.ParseMap(values()) {\n			if _, ok := m[k]; !ok {\n				m[k] = v\n			}\n		}\n"), (V, '	"maps"\n', "")]),
    ("C02", "same", "bool by a table", [(V, PB, """	words := map[string]bool{"": true, "1": true, "true": true, "on": true, "t": true, "0": false, "false": false, "off": false, "f": false}
	if b, ok := words[strings.ToLower(value)]; ok {
		return b, nil
	}
	return false, fmt.Errorf("invalid value for bool %q", value)
""")]),
    ("C02", "same", "bool by EqualFold", [(V, PB, """	for _, w := range []string{"", "1", "true", "on", "t"} {
		if strings.EqualFold(w, value) {
			return true, nil
		}
	}
	for _, w := range []string{"0", "false", "off", "f"} {
		if strings.EqualFold(w, value) {
			return false, nil
		}
	}
	return false, fmt.Errorf("invalid value for bool %q", value)
""")]),
    ("C02", "same", "bool by slices", [(V, PB, """	low := strings.ToLower(value)
	if slices.Contains([]string{"", "1", "true", "on", "t"}, low) {
		return true, nil
	}
	if slices.Index([]string{"0", "false", "off", "f"}, low) >= 0 {
		return false, nil
	}
	return false, fmt.Errorf("invalid value for bool %q", value)
"""), (V, '	"strings"\n', '	"slices"\n	"strings"\n')]),
    ("C02", "same", "split with a builder", [(U, SPL, """		res := make([]string, 0)
		var cur strings.Builder
		for i := 0; i < len(s); {
			if s[i] == '\\\\' && strings.HasPrefix(s[i+1:], sep) {
				cur.WriteString(sep)
				i += 1 + len(sep)
				continue
			}
			if strings.HasPrefix(s[i:], sep) && !(n > 0 && len(res) == n-1) {
				res = append(res, cur.String())
				cur.Reset()
				i += len(sep)
				continue
			}
			cur.WriteByte(s[i])
			i++
		}
		return append(res, cur.String())
""")]),
    ("C02", "same", "split with Index", [(U, SPL, """		var res []string
		rest, from := s, 0
		for n <= 0 || len(res) < n-1 {
			j := strings.Index(rest[from:], sep)
			if j < 0 {
				break
			}
			j += from
			if j > 0 && rest[j-1] == '\\\\' {
				from = j + len(sep)
				continue
			}
			res = append(res, strings.ReplaceAll(rest[:j], "\\\\"+sep, sep))
			rest, from = rest[j+len(sep):], 0
		}
		return append(res, strings.ReplaceAll(rest, "\\\\"+sep, sep))
""")]),
    ("C02", "same", "text with Join", [(V, "		s := *p\n		if len(s) > 0 {\n			s += \" \"\n		}\n		*p = s + value\n", "		if *p == \"\" {\n			*p = value\n		} else {\n			*p = strings.Join([]string{*p, value}, \" \")\n		}\n")]),
    ("C02", "same", "bytes by hand", [(V, "		*p = append(*p, bb...)\n		return nil\n	case *map", "		for _, b := range bb {\n			*p = append(*p, b)\n		}\n		return nil\n	case *map")]),
    ("C02", "same", "map by hand", [(V, "		maps.Copy(m, support.ParseMap(values()))\n", "		for k, v := range support.ParseMap(values()) {\n			m[k] = v\n		}\n"), (V, '	"maps"\n', "")]),
    ("C02", "same", "pair by Cut", [(V, "	a := SplitList(arg, \"=\", 2)\n	if len(a) == 1 {\n		return a[0], \"true\", false\n	}\n	return support.Unescape(a[0]), support.Unescape(a[1]), true\n", "	switch a := SplitList(arg, \"=\", 2); len(a) {\n	case 1:\n		k, v = a[0], \"true\"\n		return\n	default:\n		k, v, hasValue = support.Unescape(a[0]), support.Unescape(a[1]), true\n		return\n	}\n")]),
    ("C07", "bad", "lone dash panics", [(S, "if len(arg) > 1 && arg[0] == '-' && state == flagsOrArgs", "if len(arg) > 0 && arg[0] == '-' && state == flagsOrArgs")]),
    ("C07", "bad", "empty word", [(S, "	return len(arg) > 0 && (possibleFlag && arg[0] == '-')", "	return possibleFlag && arg[0] == '-'")]),
    ("C07", "bad", "dash is a flag", [(S, "	if arg == \"-\" {\n		// Solitary dash is treated as if an argument\n		return false\n	}\n", "")]),
    ("C07", "same", "HasPrefix", [(S, "	return len(arg) > 0 && (possibleFlag && arg[0] == '-')", "	return possibleFlag && strings.HasPrefix(arg, \"-\")")]),
    ("C07", "same", "dash by HasPrefix", [(S, "if len(arg) > 1 && arg[0] == '-' && state == flagsOrArgs", "if arg != \"-\" && strings.HasPrefix(arg, \"-\") && state == flagsOrArgs")]),
]
