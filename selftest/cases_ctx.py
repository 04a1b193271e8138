CASES = [
 ("C14","bad","copy streams",[("context.go","""		Stderr:     c.Stderr,
		FS:         c.FS,""","""		Stderr:     c.Stdout,
		FS:         c.FS,""")]),
 ("C14","bad","copy no fs",[("context.go","""		Stderr:     c.Stderr,
		FS:         c.FS,""","""		Stderr:     c.Stderr,""")]),
 ("C14","bad","copy grandparent",[("context.go","""		parent:     c,
		request:""","""		parent:     c.Parent(),
		request:""")]),
 ("C14","bad","lookup no parent",[("context.go","""		lookupCore: newLookupCore(t, c),""","""		lookupCore: t,""")]),
 ("C14","bad","parent lookup reversed",[("lookup.go","""	if v, ok := p.lookupCore.lookupValue(name); ok {
		return v, true
	}

	return p.parent""","""	if v, ok := p.lookupCore.lookupValue(name); ok || v == nil {
		return v, true
	}

	return p.parent""")]),
 ("C14","bad","root stops",[("context.go","""	if c.Parent() == nil {
		return c
	}

	return c.Parent().Root()""","""	if p := c.Parent(); p == nil || p.app_() {
		return c
	}

	return c.Parent().Root()"""),("context.go","""func (c *Context) root() ""","""func (c *Context) app_() bool {
	return c.IsCommand() && c.Parent() != nil && c.Parent().Parent() == nil
}

func (c *Context) root() """)]),
 ("C14","bad","flags reversed",[("context.go","""	return append(c.PersistentFlags(), c.LocalFlags()...)""","""	return append(slices.Clone(c.LocalFlags()), c.PersistentFlags()...)""")]),
 ("C14","bad","persistent one level",[("context.go","""	return c.Parent().Flags()""","""	return c.Parent().LocalFlags()""")]),
 ("C14","bad","path keeps blank",[("context.go","""	if res[0] == "" {
		res = res[1:]
	}""","")]),
 ("C14","bad","path drops inner",[("context.go","""	c.lineageFunc(func(ctx *Context) {
		res = append(res, ctx.Name())
	})""","""	c.lineageFunc(func(ctx *Context) {
		if len(res) > 0 && ctx.IsFlag() {
			return
		}
		res = append(res, ctx.Name())
	})""")]),
 ("C14","bad","fprint nil stdout",[("context.go","""	return fmt.Fprintf(cmp.Or[io.Writer](w, c.Stderr), format, a...)""","""	return fmt.Fprintf(cmp.Or[io.Writer](w, c.Stdout), format, a...)""")]),
 ("C14","bad","printf as print",[("context.go","""	return fmt.Fprintf(c.Stdout, format, a...)""","""	return fmt.Fprintf(c.Stdout, format, a)""")]),
 ("C14","bad","color stdout",[("context.go","""	c.Stderr.ResetColorCapable()
""","")]),
 ("C14","bad","value background",[("context.go","""		return c.Context().Value(name)""","""		return c.Root().Context().Value(name)""")]),
 ("C14","bad","set root context",[("context.go","""	c.ref = ctx
	return nil""","""	c.Root().ref = ctx
	return nil""")]),
 ("C14","bad","raw one level",[("context.go","""			return c.Parent().rawCore(c.nameToString(f), occurs)""","""			return occurs(c.Parent().internal, c.nameToString(f))""")]),
 ("C14","bad","data root first",[("context.go","""	if res, ok := c.target.LookupData(name); ok {
		return res, true
	}
	return c.Parent().LookupData(name)""","""	if res, ok := c.Parent().LookupData(name); ok {
		return res, true
	}
	return c.target.LookupData(name)""")]),
 ("C14","bad","before includes validator",[("context.go","""func (c *Context) IsBefore() bool { return c.timing == BeforeTiming }""","""func (c *Context) IsBefore() bool { return c.timing > InitialTiming && c.timing < AfterTiming }""")]),
 ("C14","bad","lookup from root",[("context.go","""	return c.Parent().LookupFlag(name)
}""","""	return c.Root().LookupFlag(name)
}""")]),
 ("C14","bad","contextof stays",[("context.go","""		return c.Parent().ContextOf(target)""","""		return c.newChild(target.(targetType))""")]),
 ("C14","same","lineage recursion",[("context.go","""	current := c
	for current != nil {
		f(current)
		current = current.Parent()
	}""","""	if c == nil {
		return
	}
	f(c)
	c.Parent().lineageFunc(f)""")]),
 ("C14","same","path prepend",[("context.go","""	c.lineageFunc(func(ctx *Context) {
		res = append(res, ctx.Name())
	})

	// Reverse to get the proper order, and remove the root context if present
	res = reverse(res)""","""	for x := c; x != nil; x = x.parent {
		res = append([]string{x.Name()}, res...)
	}
""")]),
 ("C14","same","copy by assignment",[("context.go","""	return &Context{
		ref:        c.ref,
		Stdin:      c.Stdin,
		Stdout:     c.Stdout,
		Stderr:     c.Stderr,
		FS:         c.FS,
		internal:   t,
		target:     newTarget,
		parent:     c,
		request:    c.request,
		lookupCore: newLookupCore(t, c),
	}""","""	res := *c
	res.internal = t
	res.target = newTarget
	res.parent = c
	res.timing = 0
	res.pathCache = nil
	res.lookupCore = newLookupCore(t, c)
	return &res""")]),
 ("C14","same","nearest loop",[("context.go","""	if c == nil {
		return nil
	}
	if a, ok := c.target.(*Arg); ok {
		return a
	}
	return c.Parent().Arg()""","""	for x := c; x != nil; x = x.parent {
		if a, ok := x.target.(*Arg); ok {
			return a
		}
	}
	return nil""")]),
 ("C14","same","print helper",[("context.go","""	return fmt.Fprint(cmp.Or[io.Writer](w, c.Stderr), a...)""","""	if w == nil {
		w = c.Stderr
	}
	return fmt.Fprint(w, a...)""")]),
]
