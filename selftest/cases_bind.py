F="extensions/bind/func.go"; B="extensions/bind/binder.go"
CASES = [
 ("C23","bad","bind order",[(B,"""	a1, err = u.Bind(c)
	if err != nil {
		return
	}

	a2, err = v.Bind(c)
	return""","""	a2, err = v.Bind(c)
	if err != nil {
		return
	}

	a1, err = u.Bind(c)
	return""")]),
 ("C23","bad","bind2 error lost",[(B,"""func bind2[T, U any](c context.Context, t Binder[T], u Binder[U]) (a0 T, a1 U, err error) {
	a0, err = t.Bind(c)
	if err != nil {
		return
	}""","""func bind2[T, U any](c context.Context, t Binder[T], u Binder[U]) (a0 T, a1 U, err error) {
	a0, _ = t.Bind(c)""")]),
 ("C23","bad","int16 reads int",[(B,"""	return byName((*cli.Context).Int16, nameopt)""","""	return byName(func(c *cli.Context, n any) int16 { return int16(c.Int(n)) }, nameopt)""")]),
 ("C23","bad","for mixup",[(B,"""		case *big.Float:
			return BigFloat(nameopt...)""","""		case *big.Float:
			return BigInt(nameopt...)""")]),
 ("C23","bad","for drops name",[(B,"""		case net.IP:
			return IP(nameopt...)""","""		case net.IP:
			return IP()""")]),
 ("C23","bad","name overridden",[(B,"""	if b.impliedName == nil {
		b.impliedName = name
	}""","""	b.impliedName = name""")]),
 ("C23","bad","index off",[(F,"""			b.SetName(index)""","""			b.SetName(index + 1)""")]),
 ("C23","bad","flag only",[(F,"""		if c.IsFlag() || c.IsArg() {""","""		if c.IsFlag() {""")]),
 ("C23","bad","indirect order",[(F,"""	return Call2(call, Value[T](name), Exact(valopt...))""","""	return Call2(call, Value[T](""), Exact(valopt...))""")]),
 ("C23","bad","redirect self",[(F,"""		return c.ContextOf(name).SetValue(val)""","""		return c.SetValue(val)""")]),
 ("C23","bad","redirect reads other",[(F,"""		return Call3(call, Context(), Value[V](""), Value[V](name))""","""		return Call3(call, Context(), Value[V](name), Value[V](name))""")]),
 ("C23","bad","evaluator error dropped",[(F,"""			a0, a1, err := bind2(c, t, u)
			if err != nil {
				return err
			}
			return eval(a0, a1).Evaluate(c, v, yield)""","""			a0, a1, err := bind2(c, t, u)
			if err != nil {
				return nil
			}
			return eval(a0, a1).Evaluate(c, v, yield)""")]),
 ("C23","bad","init other type",[(B,"""		return ctx.Do(&cli.Prototype{Value: support.BindSupportedValue(new(V))})""","""		return ctx.Do(&cli.Prototype{Value: support.BindSupportedValue(new(string))})""")]),
 ("C23","bad","exact ignored",[(B,"""	return &exactBinder[T]{v: valopt[0]}""","""	return &exactBinder[T]{}""")]),
 ("C23","bad","call evaluates twice",[(F,"""			a0, err := bind(c, t)
			if err != nil {
				return err
			}
			return call(a0)""","""			a0, err := bind(c, t)
			if err != nil {
				return err
			}
			if err := call(a0); err == nil {
				return err
			}
			return call(a0)""")]),
 ("C23","same","bind3 by bind2",[(B,"""	a0, err = t.Bind(c)
	if err != nil {
		return
	}
	a1, err = u.Bind(c)
	if err != nil {
		return
	}

	a2, err = v.Bind(c)
	return""","""	a0, a1, err = bind2(c, t, u)
	if err == nil {
		a2, err = bind(c, v)
	}
	return""")]),
 ("C23","same","call inline",[(F,"""			a0, err := bind(c, t)
			if err != nil {
				return err
			}
			return call(a0)""","""			a0, err := t.Bind(c)
			if err == nil {
				err = call(a0)
			}
			return err""")]),
 ("C23","same","initializers rewritten",[(F,"""		if b, ok := binder.(binderImpliedName); ok {
			setters = append(setters, willSetImpliedName(b, index))
		}
		if b, ok := binder.(binderInit); ok {
			uses = append(uses, b.Initializer())
		}""","""		switch b := binder.(type) {
		case interface {
			binderImpliedName
			binderInit
		}:
			setters = append(setters, willSetImpliedName(b, index))
			uses = append(uses, b.Initializer())
		case binderImpliedName:
			setters = append(setters, willSetImpliedName(b, index))
		case binderInit:
			uses = append(uses, b.Initializer())
		}""")]),
 ("C23","same","for by value",[(B,"""		case int16:
			return Int16(nameopt...)""","""		case int16:
			return byName(func(c *cli.Context, n any) int16 { return c.Int16(n) }, nameopt)""")]),
]
