U, T, M, C, X = "usage.go", "extensions/color/color_templates.go", "extensions/color/mode.go", "extensions/color/color.go", "context.go"
CASES = [
    ("C21", "bad", "no reset", [(U, "	w.Reset()\n	return n, err", "	return n, err")]),
    ("C21", "bad", "bold underlines", [(U, "	return w.Styled(Bold, v...)", "	return w.Styled(Underline, v...)")]),
    ("C21", "bad", "enabled not told", [(U, "	w.enabled = value\n	w.Writer.SetColorCapable(value)", "	w.enabled = value")]),
    ("C21", "bad", "only ever on", [(U, "	w.Writer.SetColorCapable(value)", "	w.Writer.SetColorCapable(w.enabled || value)"), (U, "	w.enabled = value\n", "	w.enabled = w.enabled || value\n")]),
    ("C21", "bad", "NO_COLOR empty", [(U, 'if _, ok := os.LookupEnv("NO_COLOR"); ok {', 'if s := os.Getenv("NO_COLOR"); s != "" {')]),
    ("C21", "bad", "dumb", [(U, 'os.Getenv("TERM") != "dumb" && ', '')]),
    ("C21", "bad", "stderr not switched", [(X, "	c.Stderr.SetColorCapable(v)\n", "")]),
    ("C21", "bad", "autodetect output only", [(X, "	c.Stderr.ResetColorCapable()\n", "")]),
    ("C21", "bad", "buffer no color", [(U, "	res.SetColorCapable(colorEnabled(c.Stdout))\n", "")]),
    ("C21", "bad", "template name", [(T, '"Italic":        t.sprintStyle(cli.Italic)', '"Italic":        t.sprintStyle(cli.Faint)')]),
    ("C21", "bad", "color table", [(T, '"BrightBlue":    cli.BrightBlue', '"BrightBlue":    cli.Blue')]),
    ("C21", "bad", "background not ended", [(T, "func(w cli.Writer) { w.SetBackground(cli.Default) }", "func(w cli.Writer) { w.SetForeground(cli.Default) }")]),
    ("C21", "bad", "emoji always", [(T, "len(name) > 0 && t.colorEnabled()", "len(name) > 0")]),
    ("C21", "bad", "mode off", [(M, '"never", "false", "off"', '"never", "false"'), (M, '"always", "true", "on", ""', '"always", "true", "on", "", "off"')]),
    ("C21", "bad", "set mode", [(C, "return cli.SetColor(false)", "return cli.SetColor(true)")]),
    ("C21", "bad", "a code", [(U, "	return w.Writer.Write([]byte(s))", "	return w.Writer.Write([]byte(s + \"\\x1b[0m\"))")]),
    ("C21", "same", "styled with sprint", [(U, "	n, err := fmt.Fprint(w, v...)", "	n, err := w.WriteString(fmt.Sprint(v...))")]),
    ("C21", "same", "defer reset", [(U, "	n, err := fmt.Fprint(w, v...)\n	w.Reset()\n	return n, err", "	defer w.Reset()\n	return fmt.Fprint(w, v...)")]),
    ("C21", "same", "detect reordered", [(U, "	return os.Getenv(\"TERM\") != \"dumb\" && term.IsTerminal(int(f.Fd()))", "	if !term.IsTerminal(int(f.Fd())) {\n		return false\n	}\n	return os.Getenv(\"TERM\") != \"dumb\"")]),
    ("C21", "same", "order of writers", [(X, "	c.Stderr.SetColorCapable(v)\n	c.Stdout.SetColorCapable(v)\n", "	for _, w := range []Writer{c.Stdout, c.Stderr} {\n		w.SetColorCapable(v)\n	}\n")]),
    ("C21", "same", "write string", [(U, "	return w.Writer.Write([]byte(s))", "	return io.WriteString(w.Writer, s)")]),
    ("C21", "same", "mode lower", [(M, "	switch strings.ToLower(arg) {", "	arg = strings.ToLower(arg)\n	switch arg {")]),
]
