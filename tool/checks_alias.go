package main

const aliasDriver = `package driver

import (
	cli "github.com/Carbonfrost/joe-cli"
)

// known to the interpreter
func boundLookup(b cli.Binding, name string) (any, bool) { panic("a lookup") }

type failed struct{}

func (failed) Error() string { return "" }

type above []*cli.Flag

func (a above) Flags() []*cli.Flag { return a }

// gives: the lookup of the name gives the value
func gives(b cli.Binding, name string, v any) bool {
	r, ok := boundLookup(b, name)
	return ok && r == v
}

func none(b cli.Binding, name string) bool {
	_, ok := boundLookup(b, name)
	return !ok
}

// found: as an option, the name stands for the one with that name
func found(b cli.Binding, name, of string) bool {
	r, ok := b.ResolveAlias(name)
	return ok && r == of
}
`

// ruleAlias: names and aliases of flags and args lead to the one they were defined for,
// on the command line (option) and when a value is read (read).
func ruleAlias(c *Ctx, rule string, read bool) {
	var ls []law
	add := func(key, onLine, onRead string) {
		b := `p, q, r := new(string), new(string), new(string); _, _, _ = p, q, r; `
		switch {
		case read && onRead != "":
			ls = append(ls, law{rule, key, b + onRead})
		case !read && onLine != "":
			ls = append(ls, law{rule, key, b + onLine})
		}
	}
	both := func(key, decl, onLine, onRead string) {
		if onLine != "" {
			onLine = decl + onLine
		}
		if onRead != "" {
			onRead = decl + onRead
		}
		add(key, onLine, onRead)
	}
	both("name and aliases", `b := cli.NewBinding([]*cli.Flag{{Name: "other", Aliases: []string{"z"}, Value: q}, {Name: "flag", Aliases: []string{"f", "alias", "g"}, Value: p}}, nil, nil); `,
		`_, ok := b.ResolveAlias("nothing"); return !ok && found(b, "flag", "flag") && found(b, "f", "flag") && found(b, "alias", "flag") && found(b, "g", "flag") && found(b, "z", "other") && found(b, "other", "other")`,
		`return none(b, "nothing") && none(b, "fl") && gives(b, "flag", p) && gives(b, "f", p) && gives(b, "alias", p) && gives(b, "g", p) && gives(b, "z", q) && gives(b, "other", q)`)
	both("arg", `b := cli.NewBinding([]*cli.Flag{{Name: "flag", Value: p}}, []*cli.Arg{{Name: "arg", Value: q}, {Name: "brg", Value: r}}, nil); `,
		``, `return gives(b, "arg", q) && gives(b, "brg", r) && gives(b, "flag", p) && none(b, "crg")`)
	both("arg that has the name of an alias", `b := cli.NewBinding([]*cli.Flag{{Name: "flag", Aliases: []string{"f", "file"}, Value: p}}, []*cli.Arg{{Name: "f", Value: q}, {Name: "file", Value: r}}, nil); `,
		`return found(b, "f", "flag") && found(b, "file", "flag") && found(b, "flag", "flag")`,
		`return gives(b, "f", q) && gives(b, "file", r) && gives(b, "flag", p)`)
	both("inherited", `b := cli.NewBinding([]*cli.Flag{{Name: "flag", Value: p}}, nil, above{{Name: "up", Aliases: []string{"u"}, Value: q}}); `,
		`return found(b, "up", "up") && found(b, "u", "up") && found(b, "flag", "flag")`,
		`return gives(b, "up", q) && gives(b, "u", q) && gives(b, "flag", p)`)
	both("inherited flag that has the name of a nearer alias", `b := cli.NewBinding([]*cli.Flag{{Name: "flag", Aliases: []string{"f", "up"}, Value: p}}, nil, above{{Name: "up", Value: q}, {Name: "f", Value: r}}); `,
		`return found(b, "up", "flag") && found(b, "f", "flag")`,
		`return gives(b, "up", p) && gives(b, "f", p)`)
	both("inherited alias that is the name of a nearer flag", `b := cli.NewBinding([]*cli.Flag{{Name: "flag", Value: p}, {Name: "f", Value: r}}, nil, above{{Name: "up", Aliases: []string{"flag", "f", "u"}, Value: q}}); `,
		`return found(b, "flag", "flag") && found(b, "f", "f") && found(b, "u", "up") && found(b, "up", "up")`,
		`return gives(b, "flag", p) && gives(b, "f", r) && gives(b, "u", q) && gives(b, "up", q)`)
	both("inherited alias that is a nearer alias", `b := cli.NewBinding([]*cli.Flag{{Name: "flag", Aliases: []string{"f", "alias"}, Value: p}}, nil, above{{Name: "up", Aliases: []string{"alias", "f"}, Value: q}}); `,
		`return found(b, "f", "flag") && found(b, "alias", "flag") && found(b, "up", "up")`,
		`return gives(b, "f", p) && gives(b, "alias", p) && gives(b, "up", q)`)
	both("inherited flag of the same name", `b := cli.NewBinding([]*cli.Flag{{Name: "flag", Value: p}}, nil, above{{Name: "flag", Aliases: []string{"f"}, Value: q}}); `,
		`return found(b, "flag", "flag")`, `return gives(b, "flag", p)`)
	both("nearest of several", `b := cli.NewBinding(nil, nil, above{{Name: "up", Aliases: []string{"u"}, Value: q}, {Name: "up", Aliases: []string{"u"}, Value: p}}); `,
		`return found(b, "u", "up") && found(b, "up", "up")`, `return gives(b, "up", p) && gives(b, "u", p)`)

	if _, g := c.W.boundLookup(); g == nil && read {
		// nothing looks up values in a binding the way it is known here
		for _, l := range ls {
			c.Ok(rule, l.key, "-")
		}
		return
	}
	dw, err := c.W.Driven(aliasDriver + lawSource(ls))
	if err != nil {
		c.Bad(rule, "names", "-", "names cannot be resolved as documented: %v", err)
		return
	}
	c.lawful(dw, ls, "set.go", AOpts{Depth: 40, MaxSteps: 2000000})
}
