CASES = [
 ("C04","bad","after skips deferred of value",[("action.go","""		After: actions(
			executeDeferredPipeline(AfterTiming),
			executeUserPipeline(AfterTiming),
			ActionFunc(triggerAfterOptions),
		),""","""		After: actions(
			executeUserPipeline(AfterTiming),
			ActionFunc(triggerAfterOptions),
		),""")]),
 ("C04","bad","user before deferred in option",[("action.go","""		Initializers: actions(
			actionFunc(preventSetupIfPresent),
			executeDeferredPipeline(InitialTiming),
			executeUserPipeline(InitialTiming),
			actionFunc(applyUserOptions),
			ActionFunc(applyImplicitVisibility),
			actionFunc(setupValueInitializer),""","""		Initializers: actions(
			actionFunc(preventSetupIfPresent),
			executeUserPipeline(InitialTiming),
			executeDeferredPipeline(InitialTiming),
			actionFunc(applyUserOptions),
			ActionFunc(applyImplicitVisibility),
			actionFunc(setupValueInitializer),""")]),
 ("C04","bad","slots swapped",[("action.go","append(append(append(b[0], b[1]...), b[2]...), b[3]...)","append(append(append(b[1], b[0]...), b[2]...), b[3]...)")]),
 ("C04","bad","wrong timing in deferred",[("action.go","""			executeDeferredPipeline(AfterTiming),
			executeUserPipeline(AfterTiming),
			ActionFunc(triggerAfterValueTargets),""","""			executeDeferredPipeline(ActionTiming),
			executeUserPipeline(AfterTiming),
			ActionFunc(triggerAfterValueTargets),""")]),
 ("C04","bad","hidden flags are passed over",[("context.go","""		for _, f := range ctx.LocalFlags() {
			err := on""","""		for _, f := range ctx.LocalFlags() {
			if f.internalFlags().hidden() {
				continue
			}
			err := on""")]),
 ("C04","bad","tunnel leaves out the root",[("context.go","	for i := len(lineage) - 1; i >= 0; i-- {","	for i := len(lineage) - 2; i >= 0; i-- {")]),
 ("C04","bad","after only when action... ",[("context.go","""	if err := c.executeSelf(); err != nil {
		return err
	}
""","""	if err := c.executeSelf(); err != nil {
		return err
	}
	if c.target.internalFlags().hidden() {
		return nil
	}
""")]),
 ("C04","bad","triggers only first arg",[("context.go","""	for _, f := range ctx.LocalArgs() {
		err := triggerOption(ctx, f)
		if err != nil {
			return err
		}
	}
""","""	for _, f := range ctx.LocalArgs() {
		err := triggerOption(ctx, f)
		if err != nil {
			return err
		}
		if len(f.EnvVars) > 3 {
			break
		}
	}
""")]),
 ("C04","same","helper for a child",[("context.go","""		for _, f := range ctx.LocalArgs() {
			err := on(ctx.newChild(f).setTiming(t))
			if err != nil {
				return err
			}
		}
""","""		run := func(f *Arg) error {
			child := ctx.newChild(f)
			child.setTiming(t)
			return on(child)
		}
		args := ctx.LocalArgs()
		for i := 0; i < len(args); i++ {
			if err := run(args[i]); err != nil {
				return err
			}
		}
""")]),
 ("C04","same","execute phases helper",[("context.go","""	if err := c.executeBefore(); err != nil {
		return err
	}

	if err := c.executeSelf(); err != nil {
		return err
	}

	return c.executeAfter()
}
""","""	return c.runPhases()
}

func (c *Context) runPhases() error {
	err := c.executeBefore()
	if err != nil {
		return err
	}
	err = c.executeSelf()
	if err == nil {
		err = c.executeAfter()
	}
	return err
}
""")]),
 ("C04","same","slots in a loop",[("action.go","	return ActionPipeline(append(append(append(b[0], b[1]...), b[2]...), b[3]...)).Execute(c)","""	var all ActionPipeline
	for _, p := range b {
		all = append(all, p...)
	}
	return all.Execute(c)""")]),
 ("C04","same","flow with ifs",[("context.go","""	switch c.target.(type) {
	case *Flag, *Arg:
		return flow[targetTypeOption]
	case *Command:
		return flow[targetTypeCommand]
	default:
		return flow[targetTypeValue]
	}
""","""	if c.isOption() {
		return flow[targetTypeOption]
	}
	if _, ok := c.target.(*Command); ok {
		return flow[targetTypeCommand]
	}
	return flow[targetTypeValue]
""")]),
 ("C04","same","tunnel by slices.Backward",[("context.go","""	for i := len(lineage) - 1; i >= 0; i-- {
		current := lineage[i]
		if i == 0 {
			fn = self
		}
		if fn == nil {
			continue
		}
		if err := fn(current, start); err != nil {
			return err
		}
	}
	return nil""","""	for i := range lineage {
		i = len(lineage) - 1 - i
		if i == 0 {
			fn = self
		}
		if fn != nil {
			if err := fn(lineage[i], start); err != nil {
				return err
			}
		}
	}
	return nil""")]),
 ("C04","same","triggerOption inlined",[("context.go","""	for _, f := range ctx.LocalArgs() {
		err := triggerOption(ctx, f)
		if err != nil {
			return err
		}
	}
""","""	for _, f := range ctx.LocalArgs() {
		if !f.Seen() && !hasSeenImplied(f, ctx.target) {
			continue
		}
		if err := ctx.newChild(f).executeSelf(); err != nil {
			return err
		}
	}
""")]),
]
