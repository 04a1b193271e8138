CASES = [
 ("C26","bad","setter wrong field",[("flag.go","""func (f *Flag) setManualText(name string) {
	f.ManualText = name""","""func (f *Flag) setManualText(name string) {
	f.HelpText = name""")]),
 ("C26","bad","setter also other field",[("command.go","""func (c *Command) setManualText(name string) {
	c.ManualText = name""","""func (c *Command) setManualText(name string) {
	c.ManualText = name
	c.HelpText = name""")]),
 ("C26","bad","getter other",[("context.go","""	return c.target.manualText()""","""	return c.target.usageText()""")]),
 ("C26","bad","context sets other",[("context.go","""	c.target.setUsageText(s)""","""	c.target.setHelpText(s)""")]),
 ("C26","bad","value setter name",[("context.go","""	if val, ok := v.v.(interface{ SetManualText(string) }); ok {
		val.SetManualText(arg)""","""	if val, ok := v.v.(interface{ SetUsageText(string) }); ok {
		val.SetUsageText(arg)""")]),
 ("C26","bad","action other op",[("action.go","""	return actionThunk1((*Context).SetManualText, s)""","""	return actionThunk1((*Context).SetUsageText, s)""")]),
 ("C26","bad","hook swapped",[("action.go","""	return actionThunk2((*Context).HookAfter, pattern, handler)""","""	return actionThunk2((*Context).HookBefore, pattern, handler)""")]),
 ("C26","bad","app field dropped",[("app.go","""				Options:     a.Options,
				HelpText""","""				HelpText""")]),
 ("C26","bad","app field swapped",[("app.go","""				ManualText:  a.ManualText,
				UsageText:   a.UsageText,""","""				ManualText:  a.UsageText,
				UsageText:   a.ManualText,""")]),
 ("C26","bad","only if blank",[("arg.go","""func (a *Arg) setHelpText(value string) {
	a.HelpText = value""","""func (a *Arg) setHelpText(value string) {
	if a.HelpText == "" {
		a.HelpText = value
	}""")]),
 ("C26","same","temp variable",[("arg.go","""func (a *Arg) setHelpText(value string) {
	a.HelpText = value""","""func (a *Arg) setHelpText(value string) {
	h := &a.HelpText
	*h = value""")]),
 ("C26","same","helper",[("flag.go","""func (f *Flag) setManualText(name string) {
	f.ManualText = name""","""func (f *Flag) setManualText(name string) {
	set := func(p *string) { *p = name }
	set(&f.ManualText)""")]),
 ("C26","same","thunk written out",[("action.go","""	return actionThunk1((*Context).SetManualText, s)""","""	return ActionFunc(func(c *Context) error {
		return c.SetManualText(s)
	})""")]),
 ("C26","same","root assigned",[("app.go","""			return &Command{
				Name:        a.Name,
				Flags:       a.Flags,""","""			res := new(Command)
			*res = Command{
				Name:        a.Name,
				Flags:       a.Flags,"""),("app.go","""				UsageText:   a.UsageText,
			}
""","""				UsageText:   a.UsageText,
			}
			return res
""")]),
 ("C17","bad","help overwritten",[("action.go","""	if p.HelpText != "" && o.helpText() == "" {""","""	if p.HelpText != "" {""")]),
 ("C17","bad","default tests wrong",[("action.go","""	if p.DefaultText != "" && o.defaultText() == "" {""","""	if p.DefaultText != "" && o.usageText() == "" {""")]),
 ("C17","bad","arg filepath dropped",[("action.go","""	if o.FilePath == "" {
		o.FilePath = p.FilePath
	}
	if o.NArg == nil {""","""	if o.NArg == nil {""")]),
 ("C17","bad","flag options replaced",[("action.go","""	o.Aliases = append(o.Aliases, p.Aliases...)
	o.EnvVars = append(o.EnvVars, p.EnvVars...)
	o.Options |= p.Options""","""	o.Aliases = append(o.Aliases, p.Aliases...)
	o.EnvVars = append(o.EnvVars, p.EnvVars...)
	o.Options = p.Options""")]),
 ("C17","bad","env vars replaced",[("action.go","""	o.Aliases = append(o.Aliases, p.Aliases...)
	o.EnvVars = append(o.EnvVars, p.EnvVars...)""","""	o.Aliases = append(o.Aliases, p.Aliases...)
	if p.EnvVars != nil {
		o.EnvVars = p.EnvVars
	}""")]),
 ("C17","bad","data merge reversed",[("action.go","""	maps.Copy(data, src)
	return data""","""	maps.Copy(src, data)
	return src""")]),
 ("C17","bad","completion overwritten",[("action.go","""	o.Data = mergeData(o.Data, p.Data)
	if o.Completion == nil {
		o.Completion = p.Completion
	}
	o.Aliases = append(o.Aliases, p.Aliases...)
}""","""	o.Data = mergeData(o.Data, p.Data)
	if p.Completion != nil {
		o.Completion = p.Completion
	}
	o.Aliases = append(o.Aliases, p.Aliases...)
}""")]),
 ("C17","bad","value replaced always",[("action.go","""	if p.Value != nil && (o.internalFlags().destinationImplicitlyCreated() || o.Value == nil) {
		o.Value = p.Value
		o.setInternalFlags(internalFlagDestinationImplicitlyCreated, false)
	}
	if o.Completion == nil {
		o.Completion = p.Completion
	}

	o.Aliases""","""	if p.Value != nil {
		o.Value = p.Value
		o.setInternalFlags(internalFlagDestinationImplicitlyCreated, false)
	}
	if o.Completion == nil {
		o.Completion = p.Completion
	}

	o.Aliases""")]),
 ("C17","bad","setup dropped",[("action.go","""			commandSetupCore(true, p.copyToCommand),
			p.Setup,""","""			commandSetupCore(true, p.copyToCommand),""")]),
 ("C17","bad","prevented ignored",[("action.go","""	if FromContext(ctx).SkipImplicitSetup() {
		return nil
	}
	return Do(ctx,""","""	return Do(ctx,""")]),
 ("C17","bad","value aliases blanked",[("action.go","""	if p.Aliases != nil {
		o.setAliases(p.Aliases)
	}""","""	o.setAliases(p.Aliases)""")]),
 ("C17","same","order changed",[("action.go","""			p.copyToFlag,
			p.copyToArg,""","""			p.copyToArg,
			p.copyToFlag,""")]),
 ("C17","same","helper extracted",[("action.go","""	if p.HelpText != "" && o.helpText() == "" {
		o.setHelpText(p.HelpText)
	}""","""	fillText(p.HelpText, o.helpText, o.setHelpText)"""),("action.go","""func mergeData(""","""func fillText(s string, get func() string, set func(string)) {
	if s == "" {
		return
	}
	if get() != "" {
		return
	}
	set(s)
}

func mergeData(""")]),
 ("C17","same","nested inverted",[("action.go","""	if p.DefaultText != "" && o.defaultText() == "" {
		o.setDefaultText(p.DefaultText)
	}""","""	if o.defaultText() == "" {
		if t := p.DefaultText; len(t) > 0 {
			o.setDefaultText(t)
		}
	}""")]),
 ("C17","same","merge by loop",[("action.go","""	maps.Copy(data, src)
	return data""","""	for k, v := range src {
		data[k] = v
	}
	return data""")]),
 ("C17","same","sequential",[("action.go","""	return Do(ctx,
		Pipeline(
			p.copyCommonToTarget,
			p.copyToFlag,
			p.copyToArg,
			p.copyToValue,
			commandSetupCore(true, p.copyToCommand),
			p.Setup,
		))""","""	c := FromContext(ctx)
	if err := p.copyCommonToTarget(c); err != nil {
		return err
	}
	p.copyToFlag(c)
	p.copyToArg(c)
	if err := p.copyToValue(c); err != nil {
		return err
	}
	return Do(ctx,
		Pipeline(
			commandSetupCore(true, p.copyToCommand),
			p.Setup,
		))""")]),
]
