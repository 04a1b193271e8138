CASES = [
 ("C05","bad","aliases any time",[("context.go","""func (c *Context) updateAliases(fn func([]string) []string) error {
	err := c.requireInit()
	if err != nil {
		return err
	}
""","""func (c *Context) updateAliases(fn func([]string) []string) error {
""")]),
 ("C05","bad","before too",[("context.go","""	if !c.IsInitializing() {
		return c.internalError(ErrTimingTooLate)""","""	if !c.IsInitializing() && !c.IsBefore() {
		return c.internalError(ErrTimingTooLate)""")]),
 ("C05","bad","other error",[("context.go","""	if !c.IsInitializing() {
		return c.internalError(ErrTimingTooLate)""","""	if !c.IsInitializing() {
		return c.internalError(ErrImplicitValueAlreadySet)""")]),
 ("C05","bad","prepended",[("context.go","		return append(cmds, v)","		return append([]*Command{v}, cmds...)")]),
 ("C05","bad","removes next",[("context.go","			return append(args[0:index], args[index+1:]...)","			return append(args[0:index+1], args[index+1:]...)")]),
 ("C05","bad","removes the rest",[("context.go","			return slices.Delete(flags, index, index+1)","			return slices.Delete(flags, index, len(flags))")]),
 ("C05","bad","swap remove",[("context.go","			return slices.Delete(cmds, index, index+1)","""			cmds[index] = cmds[len(cmds)-1]
			return cmds[:len(cmds)-1]""")]),
 ("C05","bad","array reused",[("context.go","cmd.Args = fn(slices.Clone(cmd.Args))","cmd.Args = fn(cmd.Args)")]),
 ("C05","bad","add only last",[("context.go","""	for _, f := range flags {
		if err = c.AddFlag(f); err != nil {
			break
		}
	}""","""	for _, f := range flags {
		defer func() { err = c.AddFlag(f) }()
	}""")]),
 ("C05","bad","removes by case",[("context.go","			return s == a\n","			return strings.EqualFold(s, a) || len(s) == len(a)\n")]),
 ("C05","bad","transform late",[("context.go","""func (c *Context) SetTransform(fn TransformFunc) error {
	err := c.requireInit()
	if err != nil {
		return err
	}""","""func (c *Context) SetTransform(fn TransformFunc) error {""")]),
 ("C05","bad","stores then refuses",[("context.go","""	err := c.requireInit()
	if err != nil {
		return err
	}
	cmd := c.Command()
	cmd.Flags =""","""	err := c.requireInit()
	cmd := c.Command()
	if err != nil && len(cmd.Flags) == 0 {
		return err
	}
	cmd.Flags =""")]),
 ("C05","same","loop removal",[("context.go","			return slices.Delete(cmds, index, index+1)","""			var res []*Command
			for i, cmd := range cmds {
				if i != index {
					res = append(res, cmd)
				}
			}
			return res""")]),
 ("C05","same","generic helper",[("context.go","""	cmd := c.Command()
	cmd.Flags = fn(slices.Clone(cmd.Flags))
	return nil""","""	cmd := c.Command()
	return change(&cmd.Flags, fn)"""),("context.go","func (c *Context) updateSubcommands(","""func change[T any](p *[]T, fn func([]T) []T) error {
	items := append([]T(nil), *p...)
	*p = fn(items)
	return nil
}

func (c *Context) updateSubcommands(""")]),
 ("C05","same","timing test spelled out",[("context.go","""	if !c.IsInitializing() {
		return c.internalError(ErrTimingTooLate)
	}
	return nil""","""	switch c.Timing() {
	case InitialTiming:
		return nil
	}
	return c.internalError(ErrTimingTooLate)""")]),
 ("C05","same","index func",[("context.go","""		return slices.DeleteFunc(aliases, func(s string) bool {
			return s == a
		})""","""		if i := slices.Index(aliases, a); i >= 0 {
			return slices.Delete(aliases, i, i+1)
		}
		return aliases""")]),
 ("C05","same","early return in loop",[("context.go","""	for _, a := range args {
		if err = c.AddArg(a); err != nil {
			break
		}
	}
	return""","""	for i := 0; i < len(args); i++ {
		if err := c.AddArg(args[i]); err != nil {
			return err
		}
	}
	return nil""")]),
]
