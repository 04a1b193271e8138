X = "extensions/expr/expr.go"
PIPE = """	for ik := range e.items {
		i := ik
		yielders[i] = func(in any) error {
			return e.items[i].Evaluate(ctx, in, yielderThunk(i+1))
		}
	}
	for _, v := range items {
		err := yielderThunk(0)(v)
		if err != nil {
			return err
		}
	}
	return nil
}
"""
CTXBOOL = """	case func(*cli.Context, any) bool:
		return EvaluatorFunc(func(c *cli.Context, v any, y func(any) error) error {
			if a(c, v) {
				return y(v)
			}
			return nil
		})
"""
CTXERR = """	case func(context.Context, any) error:
		return evaluatorFunc(func(c context.Context, v any, y func(any) error) error {
			err := a(c, v)
			if err == nil {
				return y(v)
			}
			return err
		})
"""
FULL = """		return evaluatorFunc(func(_ context.Context, v any, y func(any) error) error {
			return a(v, y)
		})
"""
CORE = """	yielders := make([]Yielder, len(e.items))
	yielderThunk := func(i int) Yielder {
		if i >= len(yielders) || yielders[i] == nil {
			return emptyYielder
		}
		return yielders[i]
	}

"""
RECUR = """	var from func(i int, v any) error
	from = func(i int, v any) error {
		if i == len(e.items) {
			return nil
		}
		return e.items[i].Evaluate(ctx, v, func(out any) error {
			return from(i+1, out)
		})
	}
	for _, v := range items {
		if err := from(0, v); err != nil {
			return err
		}
	}
	return nil
}
"""
BACK = """	next := Yielder(emptyYielder)
	for i := len(e.items) - 1; i >= 0; i-- {
		item, then := e.items[i], next
		next = func(in any) error { return item.Evaluate(ctx, in, then) }
	}
	for _, v := range items {
		if err := next(v); err != nil {
			return err
		}
	}
	return nil
}
"""
CASES = [
    ("C29", "bad", "filter ignored", [(X, CTXBOOL, CTXBOOL.replace("return nil", "return y(v)"))]),
    ("C29", "bad", "filter the other way", [(X, CTXBOOL, CTXBOOL.replace("if a(", "if !a("))]),
    ("C29", "bad", "error swallowed", [(X, CTXERR, CTXERR.replace("return err\n", "return nil\n"))]),
    ("C29", "bad", "error but passed on", [(X, CTXERR, CTXERR.replace("if err == nil {", "if err == nil || v == nil {"))]),
    ("C29", "bad", "yields the value too", [(X, FULL, FULL.replace("return a(v, y)", "if err := a(v, y); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\treturn y(v)"))]),
    ("C29", "bad", "invariant", [(X, "	if i {\n		return y(v)\n	}\n	return nil", "	if i || v != nil {\n		return y(v)\n	}\n	return nil")]),
    ("C29", "bad", "goes on after an error", [(X, PIPE, PIPE.replace("		err := yielderThunk(0)(v)\n		if err != nil {\n			return err\n		}\n	}\n	return nil", "		if e := yielderThunk(0)(v); e != nil {\n			err = e\n		}\n	}\n	return err")), (X, "evaluateCore(ctx context.Context, items ...any) error {", "evaluateCore(ctx context.Context, items ...any) (err error) {")]),
    ("C29", "bad", "skips one", [(X, PIPE, PIPE.replace("yielderThunk(i+1))", "yielderThunk(max(i+1, 2*i)))"))]),
    ("C29", "bad", "the first value", [(X, PIPE, PIPE.replace("Evaluate(ctx, in,", "Evaluate(ctx, items[0],"))]),
    ("C29", "bad", "error between operators lost", [(X, PIPE, PIPE.replace("yielderThunk(i+1))", "func(v any) error { yielderThunk(i + 1)(v); return nil })"))]),
    ("C29", "bad", "prepend at the end", [(X, "append([]Binding{expr}, e.items...)", "append(e.items, expr)")]),
    ("C29", "bad", "walk goes on", [(X, "		err := fn(x)\n		if err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc (e *Expression) Prepend", "		if err := fn(x); err != nil && err != errStopWalk {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc (e *Expression) Prepend")]),
    ("C29", "bad", "only the first alias", [(X, "		for _, alias := range e.Aliases {\n			exprs[alias] = e\n		}\n", "		if len(e.Aliases) > 0 {\n			exprs[e.Aliases[0]] = e\n		}\n")]),
    ("C29", "bad", "unknown skipped", [(X, "		expr, ok := exprs[name]\n		if !ok {\n			return nil, nil, unknownExpr(arg)\n		}", "		expr, ok := exprs[name]\n		if !ok {\n			continue\n		}")]),
    ("C29", "bad", "any word", [(X, "name, ok := strings.CutPrefix(arg, \"-\")\n		if !ok {\n			return nil, nil, unknownExpr(arg)\n		}", "name := strings.TrimPrefix(arg, \"-\")"), (X, "expr, ok := exprs[name]", "expr, ok := exprs[name]")]),
    ("C29", "bad", "shared values", [(X, "		boundExpr.exprSet.BindingMap = bin\n", "		boundExpr.exprSet.BindingMap = all\n")]),
    ("C29", "bad", "values of the last one", [(X, "	err := b.BindingMap().ApplyTo(b.exprSet)\n	if err != nil {\n		return err\n	}\n\n	return EvaluatorOf", "	return EvaluatorOf")]),
    ("C29", "bad", "expected arg ignored", [(X, "			case cli.ExpectedArgument:\n				return nil, nil, pe\n", "			case cli.ExpectedArgument:\n				return results, all, nil\n")]),
    ("C29", "bad", "unexpected ends it", [(X, "return nil, nil, argsMustPrecedeExprs(args[0])", "return results, all, nil")]),
    ("C29", "same", "recursive", [(X, CORE + PIPE, RECUR)]),
    ("C29", "same", "from the back", [(X, CORE + PIPE, BACK)]),
    ("C29", "same", "one helper for errors", [(X, CTXERR, "	case func(context.Context, any) error:\n		return guarded(a)\n"), (X, "// Evaluate implements the Evaluator interface for Predicate", "func guarded(fn func(context.Context, any) error) Evaluator {\n	return evaluatorFunc(func(c context.Context, v any, y func(any) error) error {\n		if err := fn(c, v); err != nil {\n			return err\n		}\n		return y(v)\n	})\n}\n\n// Evaluate implements the Evaluator interface for Predicate")]),
    ("C29", "same", "names", [(X, "		exprs[e.Name] = e\n		for _, alias := range e.Aliases {\n			exprs[alias] = e\n		}\n", "		for _, n := range e.Names() {\n			exprs[n] = e\n		}\n")]),
    ("C29", "same", "prepend by insert", [(X, "append([]Binding{expr}, e.items...)", "slices.Insert(e.items, 0, expr)")]),
    ("C29", "same", "filter by not", [(X, CTXBOOL, CTXBOOL.replace("			if a(c, v) {\n				return y(v)\n			}\n			return nil\n", "			if !a(c, v) {\n				return nil\n			}\n			return y(v)\n"))]),
    ("C29", "same", "predicate direct", [(X, "	if ok := p(v); ok {\n		return yield(v)\n	}\n	return nil", "	if !p(v) {\n		return nil\n	}\n	return yield(v)")]),
    ("C29", "same", "index loop", [(X, "	for len(args) > 0 {\n		arg := args[0]\n		args = args[1:]\n", "	for {\n		if len(args) == 0 {\n			break\n		}\n		var arg string\n		arg, args = args[0], args[1:]\n")]),
    ("C29", "same", "errors as", [(X, "			pe = err.(*cli.ParseError)\n", "			if !errors.As(err, &pe) {\n				return nil, nil, err\n			}\n")]),
]
