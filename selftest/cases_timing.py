CASES = [
 ("C06","bad","present timing stored",[("context.go","	if c.timing < actual {\n		c.target.append","	if c.timing <= actual {\n		c.target.append")]),
 ("C06","bad","actual used for storing",[("context.go","c.target.appendAction(desired, ActionOf(v))","c.target.appendAction(actual, ActionOf(v))")]),
 ("C06","bad","synthetic not mapped",[("context.go","	actual := desired\n	if desired > syntheticTiming {\n		actual = BeforeTiming\n	}\n	if c.timing","	actual := desired\n	if desired > justBeforeTiming {\n		actual = BeforeTiming\n	}\n	if c.timing")]),
 ("C06","bad","past is ignored when not initializing",[("context.go","	if c.timing > actual {\n		return c.internalError","	if c.timing > actual && c.timing != AfterTiming {\n		return c.internalError")]),
 ("C06","bad","before index",[("action.go","p.Before[actualIndex] = Pipeline(p.Before[actualIndex], h)","p.Before[actualIndex] = Pipeline(p.Before[1], h)")]),
 ("C06","bad","after stored in action",[("action.go","		p.After = Pipeline(p.After, h)\n	default","		p.Action = Pipeline(p.Action, h)\n	default")]),
 ("C06","bad","pipeline before read as after",[("action.go","	case BeforeTiming:\n		return p.Before\n	case InitialTiming:\n		return p.Initializers","	case BeforeTiming:\n		return p.Initializers\n	case InitialTiming:\n		return p.Before")]),
 ("C06","bad","after is lost when the list is empty",[("action.go","		p.After = Pipeline(p.After, h)\n	default","		if p.After != nil {\n			p.After = Pipeline(p.After, h)\n		}\n	default")]),
 ("C06","bad","setup action at before",[("action.go","c.act(s.Action, ActionTiming, s.Optional)","c.act(s.Action, BeforeTiming, s.Optional)")]),
 ("C06","bad","setup after not optional",[("action.go","c.act(s.After, AfterTiming, s.Optional)","c.act(s.After, AfterTiming, false)")]),
 ("C06","bad","setup skips after when action is set",[("action.go","	if s.After != nil {\n		if err := c.act","	if s.After != nil && s.Action == nil {\n		if err := c.act")]),
 ("C06","bad","HookAfter before",[("context.go","return c.hookAt(AfterTiming, pattern, handler)","return c.hookAt(BeforeTiming, pattern, handler)")]),
 ("C06","bad","After is Action",[("action.go","	return At(AfterTiming, a)","	return At(ActionTiming, a)")]),
 ("C06","bad","IsAfter",[("context.go","IsAfter() bool { return c.timing == AfterTiming }","IsAfter() bool { return c.timing >= ActionTiming }")]),
 ("C06","bad","hook accepted late",[("context.go","if c.Timing() <= actual {","if c.Timing() <= timing {")]),
 ("C06","bad","hooks at action",[("context.go","		if actual == ActionTiming {\n","		if actual == ActionTiming && c.IsAfter() {\n")]),
 ("C06","bad","command after field",[("command.go","	case AfterTiming:\n		return c.After","	case AfterTiming:\n		return c.Action")]),
 ("C06","bad","withTiming",[("action.go","	return c.act(w.Action, w.t, false)","	return c.act(w.Action, w.t, w.t == AfterTiming)")]),
 ("C06","same","act as switch",[("context.go","""	if c.timing < actual {
		c.target.appendAction(desired, ActionOf(v))
		return nil
	}
	if c.timing == actual {
		return ActionOf(v).Execute(c)
	}
	if optional {
		return nil
	}
	if c.timing > actual {
		return c.internalError(ErrTimingTooLate)
	}
	return nil
""","""	action := ActionOf(v)
	switch {
	case actual > c.Timing():
		c.target.appendAction(desired, action)
	case c.Timing() > actual:
		if !optional {
			return c.internalError(ErrTimingTooLate)
		}
	default:
		return action.Execute(c)
	}
	return nil
""")]),
 ("C06","same","setup in loop",[("action.go","""	if s.Uses != nil {
		if err := c.act(s.Uses, InitialTiming, s.Optional); err != nil {
			return err
		}
	}
	if s.Before != nil {
		if err := c.act(s.Before, BeforeTiming, s.Optional); err != nil {
			return err
		}
	}
	if s.Action != nil {
		if err := c.act(s.Action, ActionTiming, s.Optional); err != nil {
			return err
		}
	}
	if s.After != nil {
		if err := c.act(s.After, AfterTiming, s.Optional); err != nil {
			return err
		}
	}
	return nil
}
""","""	part := func(v any, t Timing) error {
		if v == nil {
			return nil
		}
		return c.act(v, t, s.Optional)
	}
	if err := part(s.Uses, InitialTiming); err != nil {
		return err
	}
	if err := part(s.Before, BeforeTiming); err != nil {
		return err
	}
	if err := part(s.Action, ActionTiming); err != nil {
		return err
	}
	return part(s.After, AfterTiming)
}
""")]),
 ("C06","same","setup helper table",[("action.go","""	if s.Uses != nil {
		if err := c.act(s.Uses, InitialTiming, s.Optional); err != nil {
			return err
		}
	}
	if s.Before != nil {
		if err := c.act(s.Before, BeforeTiming, s.Optional); err != nil {
			return err
		}
	}
	if s.Action != nil {
		if err := c.act(s.Action, ActionTiming, s.Optional); err != nil {
			return err
		}
	}
	if s.After != nil {
		if err := c.act(s.After, AfterTiming, s.Optional); err != nil {
			return err
		}
	}
	return nil
}
""","""	for _, part := range []struct {
		v any
		t Timing
	}{
		{s.Uses, InitialTiming},
		{s.Before, BeforeTiming},
		{s.Action, ActionTiming},
		{s.After, AfterTiming},
	} {
		if part.v == nil {
			continue
		}
		if err := c.act(part.v, part.t, s.Optional); err != nil {
			return err
		}
	}
	return nil
}
""")]),
 ("C06","same","hook with helper",[("context.go","""		actual := timing
		if timing > syntheticTiming {
			actual = BeforeTiming
		}
		if actual == ActionTiming {
			// There are no hooks for the primary action
			return c.internalError(errCantHook)
		}
		if c.Timing() <= actual {
			return h.hook(timing, handler)
		}

		return c.internalError(fmt.Errorf("%s: %w", errCantHook, ErrTimingTooLate))
	}
	return errCantHook
}
""","""		actual := realTiming(timing)
		if actual == ActionTiming {
			// There are no hooks for the primary action
			return c.internalError(errCantHook)
		}
		if c.timing > actual {
			return c.internalError(fmt.Errorf("%s: %w", errCantHook, ErrTimingTooLate))
		}
		return h.hook(timing, handler)
	}
	return errCantHook
}

func realTiming(t Timing) Timing {
	if t > syntheticTiming {
		return BeforeTiming
	}
	return t
}
""")]),
 ("C06","same","add with helper",[("action.go","""		if _, ok := h.(Middleware); ok {
			p.Action = Pipeline(h, p.Action)
		} else {
			p.Action = Pipeline(p.Action, h)
		}
	case AfterTiming:""","""		p.addAction(h)
	case AfterTiming:"""),("action.go","func (p *actionPipelines) pipeline(t Timing) Action {","""func (p *actionPipelines) addAction(h Action) {
	first, second := Action(p.Action), h
	if _, ok := h.(Middleware); ok {
		first, second = h, p.Action
	}
	p.Action = Pipeline(first, second)
}

func (p *actionPipelines) pipeline(t Timing) Action {""")]),
]
