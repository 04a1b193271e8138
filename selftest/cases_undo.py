F="extensions/template/file.go"; X="extensions/template/context.go"; D="extensions/template/dir.go"; A="action.go"; P="app.go"; K="completion.go"; C="command.go"
CASES=[
("C11","bad","touch leaves open",[(F,"			defer file.Close()\n			return nil\n","			_ = file\n			return nil\n")]),
("C11","bad","contents: write error leaves open",[(F,"""		_, err = file.(io.Writer).Write(data)
		if e := file.Close(); err == nil {
			err = e
		}
		return err
""","""		if _, err = file.(io.Writer).Write(data); err != nil {
			return err
		}
		return file.Close()
""")]),
("C11","bad","gofmt: read error leaves open",[(F,"""		src, err := io.ReadAll(file)
		file.Close()
		if err != nil {
			return err
		}
""","""		src, err := io.ReadAll(file)
		if err != nil {
			return err
		}
		file.Close()
""")]),
("C11","bad","compared file stays open",[(X,"		defer f.Close()\n","")]),
("C11","bad","original stays open",[(F,"		original, _ = io.ReadAll(file)\n		file.Close()\n","		original, _ = io.ReadAll(file)\n")]),
("C11","bad","readers not closed",[(A,"""			f, err := f.Open(s)
			if err != nil {
				closeReaders(readers[:i])
""","""			f, err := f.Open(s)
			if err != nil {
""")]),
("C11","bad","cancel not registered",[(A,"""			SetContext(ctx),
			cancelAfter(cancel),
		))""","""			SetContext(ctx),
			func() { _ = cancel },
		))""")]),
("C11","bad","cancel before",[(A,"	return After(ActionOf(f))\n","	return Before(ActionOf(f))\n")]),
("C11","bad","stop forgotten",[(A,"		ctx, stop := signal.NotifyContext(c1.Context(), s...)\n		return Do(c1, Pipeline(\n			SetContext(ctx),\n			cancelAfter(stop),\n		))","		ctx, _ := signal.NotifyContext(c1.Context(), s...)\n		return Do(c1, SetContext(ctx))")]),
("C11","bad","app set to nil",[(P,"		SetCurrentApp(previous)\n","		_ = previous\n		SetCurrentApp(nil)\n")]),
("C11","bad","app stays after error",[(P,"""	defer provideCurrentApp(a)()
	ctx := rootContext(c, a)
	err := ctx.initialize()
	return ctx, err
""","""	done := provideCurrentApp(a)
	ctx := rootContext(c, a)
	if err := ctx.initialize(); err != nil {
		return ctx, err
	}
	done()
	return ctx, nil
""")]),
("C11","bad","request stays",[(K,"	defer c.clearCompletionRequest()\n\n	return c.target","	return c.target"),(K,"func (c *Context) clearCompletionRequest() {\n	c.request = nil\n}\n","")]),
("C11","bad","search stays",[(C,"	defer c.target.setInternalFlags(internalFlagSearchingAlternateCommand, false)\n","")]),
("C11","bad","search stays on success",[(C,"	defer c.target.setInternalFlags(internalFlagSearchingAlternateCommand, false)\n",""),(C,"	return nil, commandMissing(sub)\n}\n","	c.target.setInternalFlags(internalFlagSearchingAlternateCommand, false)\n	return nil, commandMissing(sub)\n}\n")]),
("C11","bad","implied stays on error",[(A,"""			defer c.target.setInternalFlags(internalFlagImplicitTimingActive, false)
		}
		return Do(c, a)
""","""		}
		err := Do(c, a)
		if err == nil {
			c.target.setInternalFlags(internalFlagImplicitTimingActive, false)
		}
		return err
""")]),
("C11","bad","directory stays",[(D,"			_ = c.PopDir()\n","")]),
("C11","bad","directory left twice",[(D,"	return c.PopDir()\n","	c.PopDir()\n	return c.PopDir()\n")]),
("C11","same","close by closure",[(F,"""		_, err = file.(io.Writer).Write(data)
		if e := file.Close(); err == nil {
			err = e
		}
		return err
""","""		defer func() {
			if e := file.Close(); err == nil {
				err = e
			}
		}()
		_, err = file.(io.Writer).Write(data)
		return err
""")]),
("C11","same","read helper",[(F,"""		file, err := c.FS.OpenContext(ctx, name)
		if err != nil {
			return err
		}

		src, err := io.ReadAll(file)
		file.Close()
		if err != nil {
			return err
		}
""","""		src, err := readFile(ctx, c, name)
		if err != nil {
			return err
		}
"""),(F,"func Mode(mode","""func readFile(ctx context.Context, c *OutputContext, name string) ([]byte, error) {
	file, err := c.FS.OpenContext(ctx, name)
	if err != nil {
		return nil, err
	}
	defer file.Close()
	return io.ReadAll(file)
}

func Mode(mode""")]),
("C11","same","opened and closed by helpers",[(F,"			defer file.Close()\n			return nil\n","			return finish(file)\n"),(F,"func Mode(mode","""func finish(c io.Closer) error {
	_ = c.Close()
	return nil
}

func Mode(mode""")]),
("C11","same","readers closed in place",[(A,"""			f, err := f.Open(s)
			if err != nil {
				closeReaders(readers[:i])
				return nil, err
""","""			f, err := f.Open(s)
			if err != nil {
				for _, r := range readers[:i] {
					if c, ok := r.(io.Closer); ok {
						_ = c.Close()
					}
				}
				return nil, err
""")]),
("C11","same","readers closed by defer",[(A,"""	return func(raw []string) (any, error) {
		readers := make([]io.Reader, len(raw)-1)
		for i, s := range raw[1:] {
			f, err := f.Open(s)
			if err != nil {
				closeReaders(readers[:i])
				return nil, err
			}
			readers[i] = f
		}
""","""	return func(raw []string) (res any, err error) {
		readers := make([]io.Reader, len(raw)-1)
		defer func() {
			if err != nil {
				closeReaders(readers)
			}
		}()
		for i, s := range raw[1:] {
			f, err := f.Open(s)
			if err != nil {
				return nil, err
			}
			readers[i] = f
		}
""")]),
("C11","same","cancel via context",[(A,"""		ctx, cancel := context.WithTimeout(c1.Context(), timeout)
		return Do(c1, Pipeline(
			SetContext(ctx),
			cancelAfter(cancel),
		))""","""		ctx, cancel := context.WithTimeout(c1.Context(), timeout)
		if err := c1.SetContext(ctx); err != nil {
			cancel()
			return err
		}
		return c1.After(cancelAction(cancel))"""),(A,"func cancelAfter(","func cancelAction(fn context.CancelFunc) Action {\n	return ActionOf(func() { fn() })\n}\n\nfunc cancelAfter(")]),
("C11","same","cancel inline",[(A,"			cancelAfter(stop),\n","			After(ActionOf(func() { stop() })),\n")]),
("C11","same","cancel at",[(A,"			cancelAfter(stop),\n","			At(AfterTiming, ActionOf(func() { stop() })),\n")]),
("C11","same","app restored inline",[(P,"	defer provideCurrentApp(a)()\n","	prev := CurrentApp()\n	SetCurrentApp(a)\n	defer SetCurrentApp(prev)\n")]),
("C11","same","app restored by swap",[(P,"	previous := CurrentApp()\n	SetCurrentApp(a)\n","	previous, _ := currentApp.Swap(a).(*App)\n")]),
("C11","same","request restored",[(K,"	c.request = cc\n	defer c.clearCompletionRequest()\n","	before := c.request\n	c.request = cc\n	defer func() { c.request = before }()\n"),(K,"func (c *Context) clearCompletionRequest() {\n	c.request = nil\n}\n","")]),
("C11","same","request cleared inline",[(K,"	c.request = cc\n	defer c.clearCompletionRequest()\n\n	return c.target.completion().Complete(c)\n","	c.request = cc\n	res := c.target.completion().Complete(c)\n	c.request = nil\n	return res\n"),(K,"func (c *Context) clearCompletionRequest() {\n	c.request = nil\n}\n","")]),
("C11","same","search flag in helper",[(C,"	c.target.setInternalFlags(internalFlagSearchingAlternateCommand, true)\n	defer c.target.setInternalFlags(internalFlagSearchingAlternateCommand, false)\n","	defer c.searching()()\n"),(C,"func tryFindCommandOrIntercept(","""func (c *Context) searching() func() {
	t := c.target
	t.setInternalFlags(internalFlagSearchingAlternateCommand, true)
	return func() {
		t.setInternalFlags(internalFlagSearchingAlternateCommand, false)
	}
}

func tryFindCommandOrIntercept(""")]),
("C11","same","implied unset directly",[(A,"""			defer c.target.setInternalFlags(internalFlagImplicitTimingActive, false)
		}
		return Do(c, a)
""","""			err := Do(c, a)
			c.target.setInternalFlags(internalFlagImplicitTimingActive, false)
			return err
		}
		return Do(c, a)
""")]),
("C11","same","directory by defer",[(D,"	c.PushDir(d.name)\n","	c.PushDir(d.name)\n	defer c.PopDir()\n"),(D,"			_ = c.PopDir()\n",""),(D,"	return c.PopDir()\n","	return nil\n")]),
("C11","same","directory in helper",[(D,"""	c.PushDir(d.name)
	for _, g := range d.contents {
		err := c.Do(ctx, g)
		if err != nil {
			_ = c.PopDir()
			return err
		}
	}

	return c.PopDir()
""","""	return within(c, d.name, func() error {
		for _, g := range d.contents {
			if err := c.Do(ctx, g); err != nil {
				return err
			}
		}
		return nil
	})
}

func within(c *OutputContext, name string, fn func() error) error {
	c.PushDir(name)
	err := fn()
	if e := c.PopDir(); err == nil {
		err = e
	}
	return err
""")]),
]
