U="internal/support/support.go"; P="extensions/provider/provider.go"; S="set.go"; F="filter.go"; A="action.go"
FM="""	items := make([]string, len(m))
	var i int
	for k, v := range m {
		items[i] = k + "=" + v
		i++
	}
	sort.Strings(items)
	return strings.Join(items, delim)
"""
PN="""	keys := make([]string, len(m))
	var i int
	for k := range m {
		keys[i] = k
		i++
	}
	sort.Strings(keys)
	return keys
"""
AP="""	for _, name := range slices.Sorted(maps.Keys(m)) {
		v := m[name]
"""
CASES=[
("C08","bad","map text unsorted",[(U,"	sort.Strings(items)\n",""),(U,'	"sort"\n',"")]),
("C08","bad","map text written",[(U,FM,"""	var b strings.Builder
	for k, v := range m {
		if b.Len() > 0 {
			b.WriteString(delim)
		}
		b.WriteString(k + "=" + v)
	}
	return b.String()
"""),(U,'	"sort"\n',"")]),
("C08","bad","map text concatenated",[(U,FM,"""	var b string
	for k, v := range m {
		if b != "" {
			b += delim
		}
		b += k + "=" + v
	}
	return b
"""),(U,'	"sort"\n',"")]),
("C08","bad","map text formatted",[(U,FM,"""	var b strings.Builder
	sep := ""
	for k, v := range m {
		fmt.Fprintf(&b, "%s%s=%s", sep, k, v)
		sep = delim
	}
	return b.String()
"""),(U,'	"sort"\n','	"fmt"\n')]),
("C08","bad","keys collected unsorted",[(P,PN,"	return slices.Collect(maps.Keys(m))\n")]),
("C08","bad","keys sorted before they are there",[(P,PN,"""	var keys []string
	sort.Strings(keys)
	for k := range m {
		keys = append(keys, k)
	}
	return keys
""")]),
("C08","bad","first error in a loop over keys",[(S,AP,"""	for name := range maps.Keys(m) {
		v := m[name]
"""),(S,"	keys := make([]string, 0, len(m))\n","	_ = slices.Clone[[]string]\n	keys := make([]string, 0, len(m))\n")]),
("C08","bad","last error kept",[(S,AP,"""	var err error
	for name, v := range m {
"""),(S,"""		err := rawApplyToOption(v, transform, value)
		if err != nil {
			return err
		}
	}
	return nil
}

// Bindings""","""		if e := rawApplyToOption(v, transform, value); e != nil {
			err = e
		}
	}
	return err
}

// Bindings"""),(S,'	"maps"\n','')]),
("C08","bad","comparison only by bits",[(F,"""		if x, y := bits.OnesCount(keys[i]), bits.OnesCount(keys[j]); x != y {
			return x > y
		}
		return keys[i] > keys[j]
""","		return bits.OnesCount(keys[i]) >= bits.OnesCount(keys[j])\n")]),
("C08","bad","comparison of either",[(F,"""		if x, y := bits.OnesCount(keys[i]), bits.OnesCount(keys[j]); x != y {
			return x > y
		}
		return keys[i] > keys[j]
""","		return bits.OnesCount(keys[i]) > bits.OnesCount(keys[j]) || keys[i] > keys[j]\n")]),
("C08","bad","names not greater",[("flag.go","return f[i].Category < f[j].Category","return f[i].Category <= f[j].Category")]),
("C08","bad","commands compared one way",[("command.go","	return cmp.Compare(x.Name, y.Name)\n","	if x.Name <= y.Name {\n		return -1\n	}\n	return 1\n"),("command.go",'	"cmp"\n',"")]),
("C08","same","sorted keys",[(P,PN,"	return slices.Sorted(maps.Keys(m))\n")]),
("C08","same","sorted elsewhere",[(P,PN,"	return ordered(m)\n"),(P,"func (m Map) LookupProvider","""func keysOf(m Map) (keys []string) {
	for k := range m {
		keys = append(keys, k)
	}
	return
}

func ordered(m Map) []string {
	keys := keysOf(m)
	slices.Sort(keys)
	return keys
}

func (m Map) LookupProvider""")]),
("C08","same","helper that sorts",[(P,PN,"""	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	order(keys)
	return keys
"""),(P,"func (m Map) LookupProvider","""func order(s []string) {
	slices.SortFunc(s, func(x, y string) int { return strings.Compare(x, y) })
}

func (m Map) LookupProvider""")]),
("C08","same","returned by the sort",[(P,PN,"""	keys := make([]string, 0, len(m))
	for k := range maps.Keys(m) {
		keys = append(keys, k)
	}
	return ordered(keys)
"""),(P,"func (m Map) LookupProvider","""func ordered(s []string) []string {
	sort.Strings(s)
	return s
}

func (m Map) LookupProvider""")]),
("C08","same","copied then sorted",[(P,PN,"""	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	res := slices.Clone(keys)
	sort.Strings(res)
	return res
""")]),
("C08","same","sorted keys in text",[(U,FM,"""	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for i, k := range keys {
		if i > 0 {
			b.WriteString(delim)
		}
		b.WriteString(k)
		b.WriteString("=")
		b.WriteString(m[k])
	}
	return b.String()
""")]),
("C08","same","sorted via sort.Sort",[(U,"	sort.Strings(items)\n","	sort.Sort(sort.StringSlice(items))\n")]),
("C08","same","deferred sort",[(P,PN,"""	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		slices.Sort(keys)
	}
	return keys
""")]),
("C08","same","comparison as function",[(F,"""		if x, y := bits.OnesCount(keys[i]), bits.OnesCount(keys[j]); x != y {
			return x > y
		}
		return keys[i] > keys[j]
""","		return precedes(keys[i], keys[j])\n"),(F,"func decompose[","""func precedes(a, b uint) bool {
	x, y := bits.OnesCount(a), bits.OnesCount(b)
	return x > y || (x == y && a > b)
}

func decompose[""")]),
("C08","same","slices.SortFunc",[(F,"""	sort.Slice(keys, func(i, j int) bool {
		if x, y := bits.OnesCount(keys[i]), bits.OnesCount(keys[j]); x != y {
			return x > y
		}
		return keys[i] > keys[j]
	})
""","""	slices.SortFunc(keys, func(a, b uint) int {
		return cmp.Or(cmp.Compare(bits.OnesCount(b), bits.OnesCount(a)), cmp.Compare(b, a))
	})
"""),(F,'	"sort"\n','	"cmp"\n	"slices"\n')]),
("C08","same","lookup helper",[("option.go","""	for k, v := range builtinOptionLabels {
		if token == v {
			return k
		}
	}
	return None
""","""	res := None
	for k, v := range builtinOptionLabels {
		if v == token {
			res = k
			break
		}
	}
	return res
""")]),
("C08","same","lookup with continue",[("option.go","""		if token == v {
			return k
		}
""","""		if token != v {
			continue
		}
		return k
""")]),
("C08","same","copy of data",[(A,"	for k, v := range p.Data {\n","	for k := range p.Data {\n		v := p.Data[k]\n")]),
("C08","same","unordered then checked in order",[(P,"""	for _, k := range slices.Sorted(maps.Keys(v.rawArgs)) {
		if _, exists := p[k]; !exists {
			return fmt.Errorf("unknown argument %q for %q %s", k, v.Name, provider)
		}
	}
""","""	var unknown []string
	for k := range v.rawArgs {
		if _, exists := p[k]; !exists {
			unknown = append(unknown, k)
		}
	}
	if len(unknown) > 0 {
		return fmt.Errorf("unknown argument %q for %q %s", slices.Min(unknown), v.Name, provider)
	}
""")]),
]
