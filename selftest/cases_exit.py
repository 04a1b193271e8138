CASES = [
 ("C24","bad","code ignored",[("app.go","""	if coder, ok := err.(ExitCoder); ok {
		code = coder.ExitCode()
	}""","""	if coder, ok := err.(ExitCoder); ok && coder.ExitCode() > 2 {
		code = coder.ExitCode()
	}""")]),
 ("C24","bad","only exitError",[("app.go","""	if coder, ok := err.(ExitCoder); ok {""","""	if coder, ok := err.(*exitError); ok {""")]),
 ("C24","bad","default status",[("app.go","""	code := 1
	if handler == nil""","""	code := 2
	if handler == nil""")]),
 ("C24","bad","stdout",[("app.go","""	stderr := c.Stderr
	if message""","""	stderr := c.Stdout
	if message""")]),
 ("C24","bad","exit only nonzero",[("app.go","""		fmt.Fprintln(stderr, message)
	}
	osExit(status)""","""		fmt.Fprintln(stderr, message)
	} else {
		return
	}
	osExit(status)""")]),
 ("C24","bad","prints always",[("app.go","""	if message != "" && status != 0 {""","""	if message != "" || status != 0 {""")]),
 ("C24","bad","last int lost",[("error.go","""			return exitCore(fmt.Sprint(message[0:last]...), code)""","""			return exitCore(fmt.Sprint(message...), code)""")]),
 ("C24","bad","error code 1",[("error.go","""fmt.Sprint(message[0:last]...)), 2)""","""fmt.Sprint(message[0:last]...)), 1)""")]),
 ("C24","bad","int masked",[("error.go","""			return exitCore("", msg)""","""			return exitCore("", msg&3)""")]),
 ("C24","bad","same text",[("error.go","""		return "unknown expression\"""","""		return "unknown option\"""")]),
 ("C24","bad","text missing",[("error.go","""	case FlagUsedAfterArgs:
		return "flag used after arguments"
""","")]),
 ("C24","bad","handler default too",[("app.go","""	handler(FromContext(c), err.Error(), code)
}""","""	handler(FromContext(c), err.Error(), code)
	osExit(code)
}""")]),
 ("C24","same","errors.As",[("app.go","""	if coder, ok := err.(ExitCoder); ok {
		code = coder.ExitCode()
	}
	handler(""","""	code = statusOf(err)
	handler("""),("app.go","func defaultExitHandler(","""func statusOf(err error) int {
	if coder, ok := err.(ExitCoder); ok {
		return coder.ExitCode()
	}
	return 1
}

func defaultExitHandler(""")]),
 ("C24","same","table",[("error.go","""	switch e {
	case UnexpectedArgument:
		return "unexpected argument"
	case ExpectedArgument:""","""	if e == UnexpectedArgument {
		return "unexpected argument"
	}
	switch e {
	case ExpectedArgument:""")]),
 ("C24","same","early return",[("app.go","""	if message != "" && status != 0 {
		fmt.Fprintln(stderr, message)
	}
	osExit(status)""","""	defer osExit(status)
	if len(message) == 0 || status == 0 {
		return
	}
	fmt.Fprintf(stderr, "%s\\n", message)""")]),
 ("C24","same","join",[("error.go","""			return exitCore(fmt.Sprint(message[0:last]...), code)""","""			text := message[:len(message)-1]
			return exitCore(fmt.Sprint(text...), code)""")]),
]
CASES += [
 ("C24","same","really errors.As",[("app.go","""	if coder, ok := err.(ExitCoder); ok {
		code = coder.ExitCode()
	}""","""	var coder ExitCoder
	if errors.As(err, &coder) {
		code = coder.ExitCode()
	}"""),("app.go","""	"context"
""","""	"context"
	"errors"
""")]),
]
