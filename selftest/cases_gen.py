F="extensions/template/file.go"; C="extensions/template/context.go"; D="extensions/template/dir.go"; T="extensions/template/template.go"; G="extensions/template/go_get.go"
CASES=[
("C13","bad","chmod unexpanded",[(F,"return c.actualFS().Chmod(name, mode)","return c.actualFS().Chmod(filepath.Base(name), mode)"),(F,'"os"\n','"os"\n\t"path/filepath"\n')]),
("C13","bad","chmod dry",[(F,"func chmod(c *OutputContext, name string, mode fs.FileMode) error {\n\tif c.DryRun {\n\t\treturn nil\n\t}\n","func chmod(c *OutputContext, name string, mode fs.FileMode) error {\n")]),
("C13","bad","touch dry",[(F,"""		if c.DryRun {
			return nil
		}

		f := c.actualFS()""","""		f := c.actualFS()""")]),
("C13","bad","touch dry late",[(F,"""		if c.DryRun {
			return nil
		}

		f := c.actualFS()""","""		f := c.actualFS()"""),(F,"		currentTime := time.Now().Local()","		if c.DryRun {\n\t\t\treturn nil\n\t\t}\n		currentTime := time.Now().Local()")]),
("C13","bad","contents dry",[(F,"""		if c.DryRun {
			return nil
		}

		file, err := c.actualFS().Create(name)""","""		file, err := c.actualFS().Create(name)""")]),
("C13","bad","ensure dry",[(C,"""	if c.DryRun {
		return name, nil
	}

	dir""","	dir")]),
("C13","bad","ensure after",[(F,"""	fileName, err = c.pathEnsure(name)
	if err != nil {
		return
	}
	for _,""","""	fileName = c.File(name)
	defer c.pathEnsure(name)
	for _,""")]),
("C13","bad","ensure inverted",[(C,"err := c.actualFS().Stat(dir); os.IsNotExist(err)","err := c.actualFS().Stat(dir); !os.IsNotExist(err)")]),
("C13","bad","ensure parent dir",[(C,"dir := filepath.Dir(name)","dir := filepath.Dir(filepath.Dir(name))")]),
("C13","bad","pathEnsure of base",[(F,"fileName, err = c.pathEnsure(name)","fileName, err = c.pathEnsure(path.Base(name))"),(F,'"os"\n','"os"\n\t"path"\n')]),
("C13","bad","created inverted",[(F,"created := os.IsNotExist(err)","created := err == nil")]),
("C13","bad","created always false",[(F,"c.reportChange(original, fileName, created)","_ = created\n\tc.reportChange(original, fileName, false)")]),
("C13","bad","compare swapped label",[(C,"	if bytes.Equal(original, newContents) {","	if !bytes.Equal(original, newContents) {")]),
("C13","bad","original after",[(F,"	created := os.IsNotExist(err)\n	var original []byte\n	if err == nil {\n\t\toriginal, _ = io.ReadAll(file)\n\t\tfile.Close()\n\t}\n","	created := os.IsNotExist(err)\n	var original []byte\n	_ = file\n"),(F,"	c.reportChange(original,","	if !created {\n\t\tif f, e := c.FS.Open(fileName); e == nil {\n\t\t\toriginal, _ = io.ReadAll(f)\n\t\t\tf.Close()\n\t\t}\n\t}\n	c.reportChange(original,")]),
("C13","bad","pop missing",[(D,"	return c.PopDir()","	return nil")]),
("C13","bad","pop too early",[(D,"		if err != nil {\n\t\t\treturn err\n\t\t}\n","		if err != nil {\n\t\t\treturn err\n\t\t}\n\t\tif len(c.working) > 2 {\n\t\t\tc.working = c.working[:2]\n\t\t}\n")]),
("C13","bad","dir error lost",[(D,"			return err\n","			break\n")]),
("C13","bad","seq continues",[(T,"		err := u.Generate(ctx, c)\n		if err != nil {\n			return err\n		}","		if e := u.Generate(ctx, c); e != nil {\n			defer func() { _ = e }()\n		}")]),
("C13","bad","do continues",[(C,"		err := g.Generate(ctx, c)\n		if err != nil {\n			return err\n		}\n	}\n	return nil","		if e := g.Generate(ctx, c); e != nil {\n			err = e\n		}\n	}\n	return err"),(C,"gens ...Generator) error","gens ...Generator) (err error)")]),
("C13","bad","file ops continue",[(F,"			break\n		}\n	}\n\n	return","			continue\n		}\n	}\n\n	return")]),
("C13","bad","nil ends sequence",[(T,"			continue\n","			break\n")]),
("C13","bad","someData first name",[(T,"name := namevalues[i].(string)","name := namevalues[0].(string)")]),
("C13","bad","someData odd",[(T,"i += 2 {","i += 4 {")]),
("C13","bad","vars not replaced",[(C,"	c.Vars[name] = value","	if _, ok := c.Vars[name]; !ok {\n\t\tc.Vars[name] = value\n\t}")]),
("C13","bad","bytes copied wrong",[(F,"_, err = file.(io.Writer).Write(data)","_, err = file.(io.Writer).Write(data[:len(data)/2*2])")]),
("C13","bad","json of type",[(F,'return json.MarshalIndent(c, "", "    ")','return json.MarshalIndent(&name{c}, "", "    ")'),(F,"// Touch touches","type name struct{ V any }\n\n// Touch touches")]),
("C13","bad","write after close",[(F,"		_, err = file.(io.Writer).Write(data)\n		if e := file.Close(); err == nil {\n			err = e\n		}\n","		e := file.Close()\n		_, err = file.(io.Writer).Write(data)\n		if err == nil {\n			err = e\n		}\n")]),
("C13","bad","gofmt writes source",[(F,"return Contents(result).Gen","return Contents(src).Gen"),(F,"		result, err := format","		_, err = format")]),
("C13","bad","goget dry",[(G,"	originalMod, _ := d.files()\n\n	for","	originalMod, _ := d.files()\n	execGoGet(d.pkgs)\n\n	for")]),
("C13","bad","goget err",[(G,'		c.error("go.mod")\n		return err','		c.error("go.mod")\n		return nil')]),
("C13","bad","dry flag root",[(T,"DryRun:    r.DryRun,","DryRun:    r.Overwrite,")]),
("C13","bad","workdir root",[(T,"			if workDir == \"\" {","			if workDir != \"\" {")]),
("C13","bad","rename same",[(C,"newpath, err = c.pathEnsure(newpath)","newpath, err = c.pathEnsure(oldpath)")]),
("C13","bad","chown swap",[(C,"Chown(name, uid, gid)","Chown(name, gid, uid)")]),
("C13","bad","remove raw",[(C,"	name = c.File(name)\n	return c.actualFS().Remove(name)","	return c.actualFS().Remove(name)")]),
("C13","bad","working alias order",[(C,"filepath.Clean(filepath.Join(c.working...))","filepath.Clean(c.working[len(c.working)-1])")]),
("C13","bad","dry-run not said",[(C,"	if c.DryRun {\n		fmt","	if !c.DryRun {\n		fmt")]),
("C13","bad","reader twice",[(F,"		_, err = file.(io.Writer).Write(data)\n","		_, err = file.(io.Writer).Write(data)\n		if err == nil && len(data) > 4096 {\n			_, err = file.(io.Writer).Write(data)\n		}\n")]),
("C13","same","helper join",[(C,"	return filepath.Join(c.WorkDir(), c.expandName(name))","	name = c.expandName(name)\n	return c.inDir(name)"),(C,"// WorkDir is","func (c *OutputContext) inDir(n string) string {\n\treturn filepath.Join(c.WorkDir(), n)\n}\n\n// WorkDir is")]),
("C13","same","mkdir always",[(C,"""	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
		err = c.actualFS().MkdirAll(dir, 0755)
		if err != nil {
			return name, err
		}
	}
""","""	if err := c.actualFS().MkdirAll(dir, 0755); err != nil {
		return name, err
	}
"""),(C,'	"os"\n','')]),
("C13","same","errors is",[(C,"; os.IsNotExist(err)","; errors.Is(err, fs.ErrNotExist)"),(C,'	"os"\n','')]),
("C13","same","io.WriteString",[(F,"_, err = file.(io.Writer).Write(data)","_, err = io.Copy(file.(io.Writer), bytes.NewReader(data))")]),
("C13","same","dir do all",[(D,"""	for _, g := range d.contents {
		err := c.Do(ctx, g)
		if err != nil {
			return err
		}
	}
""","""	if err := c.Do(ctx, d.contents...); err != nil {
		return err
	}
""")]),
("C13","same","label helper",[(C,"	if bytes.Equal(original, newContents) {\n		c.identical(name)\n	} else {\n		c.overwrite(name)\n	}",'	label := "overwrite"\n	if bytes.Equal(original, newContents) {\n		label = "identical"\n	}\n	c.trace(label, name)')]),
("C13","same","trace one print",[(C,'''	fmt.Fprint(out, file)
	if c.DryRun {
		fmt.Fprint(out, " (dry-run)")
	}
	fmt.Fprintln(out)''','''	suffix := ""
	if c.DryRun {
		suffix = " (dry-run)"
	}
	fmt.Fprintln(out, file+suffix)''')]),
("C13","same","dry first",[(F,"		data, err := f(ctx, c)\n		if err != nil {\n			return err\n		}\n\n		if c.DryRun {\n			return nil\n		}\n","		if data, err = f(ctx, c); err != nil || c.DryRun {\n			return err\n		}\n"),(F,"			c.identical(name)\n			return nil\n		}\n\n","			c.identical(name)\n			return nil\n		}\n		var (\n			data []byte\n			err  error\n		)\n\n")]),
("C13","same","working copy",[(C,"	c.working = append(c.working, name)","	w := make([]string, 0, len(c.working)+1)\n	w = append(w, c.working...)\n	c.working = append(w, name)")]),
("C13","same","someData pairs",[(T,"	for i := 0; i < len(namevalues); i += 2 {\n		name := namevalues[i].(string)\n		value := namevalues[i+1]\n		res = append(res, Data(name, value))\n	}","	for i := range len(namevalues) / 2 {\n		res = append(res, &dataSetter{namevalues[2*i].(string), namevalues[2*i+1]})\n	}")]),
("C13","same","touch switch",[(F,"		if os.IsNotExist(err) {\n			file, err := f.Create(name)\n			if err != nil {\n				return err\n			}\n			defer file.Close()\n			return nil\n		}\n","		switch {\n		case os.IsNotExist(err):\n			file, err := f.Create(fileName)\n			if err != nil {\n				return err\n			}\n			return file.Close()\n		}\n")]),
]
