CASES = [
 ("C12","bad","wrong op",[("file.go","""	return f.actualFS().RemoveAll(f.Name)""","""	return f.actualFS().Remove(f.Name)""")]),
 ("C12","bad","swapped times",[("file.go","""	return f.actualFS().Chtimes(f.Name, atime, mtime)""","""	return f.actualFS().Chtimes(f.Name, mtime, atime)""")]),
 ("C12","bad","wrapper swapped",[("file.go","""		return s.Rename(oldpath, newpath)""","""		return s.Rename(newpath, oldpath)""")]),
 ("C12","bad","wrapper silent",[("file.go","""	return &fs.PathError{
		Op:   "chmod",
		Path: name,
		Err:  errors.New("not supported"),
	}""","""	return nil""")]),
 ("C12","bad","uid gid",[("file.go","""	return os.Chown(full, uid, gid)""","""	return os.Chown(full, gid, uid)""")]),
 ("C12","bad","create no trunc",[("file.go","""func (d defaultFS) Create(name string) (fs.File, error) {
	return d.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)""","""func (d defaultFS) Create(name string) (fs.File, error) {
	return d.OpenFile(name, os.O_RDWR|os.O_CREATE, 0666)""")]),
 ("C12","bad","context dropped",[("file.go","""	return d.FS.OpenContext(c, name)""","""	return d.FS.OpenContext(context.Background(), name)""")]),
 ("C12","bad","context file Open",[("file.go","""	return f.actualFS().OpenContext(c, f.Name)""","""	return f.actualFS().Open(f.Name)""")]),
 ("C12","bad","read unchecked",[("file.go","""	if err = c.ctx.Err(); err != nil {
		return
	}
	if n, err = c.File.Read(p); err != nil {""","""	if n, err = c.File.Read(p); err != nil {""")]),
 ("C12","bad","dash prefix",[("file.go","""	if name == "-" && d.std != nil {
		switch""","""	if strings.HasPrefix(name, "-") && d.std != nil {
		switch""")]),
 ("C12","bad","dash stat file",[("file.go","""func (d defaultFS) Stat(name string) (fs.FileInfo, error) {
	if name == "-" && d.std != nil {
		return d.std.Stat()
	}
""","""func (d defaultFS) Stat(name string) (fs.FileInfo, error) {
""")]),
 ("C12","bad","dash writes in",[("file.go","""		case os.O_WRONLY:
			return d.std.fileOf(d.std.out), nil""","""		case os.O_WRONLY:
			return d.std.fileOf(d.std.in), nil""")]),
 ("C12","bad","set skips",[("file.go","""	for _, file := range f.Files {
		if err := fn(&File{file, ff}, nil); err != nil {""","""	for i := range f.Files {
		file := f.Files[len(f.Files)-1-i]
		if err := fn(&File{file, ff}, nil); err != nil {""")]),
 ("C12","bad","set exists any",[("file.go","""		if fileNotExists(err) {
			return false
		}
	}
	return true""","""		if !fileNotExists(err) {
			return true
		}
	}
	return false""")]),
 ("C12","bad","mkdirall name",[("file.go","""	return os.Rename(old, new)""","""	return os.Rename(new, old)""")]),
 ("C12","same","helper",[("file.go","""func (d defaultFS) Stat(name string) (fs.FileInfo, error) {
	if name == "-" && d.std != nil {
		return d.std.Stat()
	}
	return d.FS.Stat(name)""","""func (d defaultFS) isStd(name string) bool { return d.std != nil && name == "-" }
func (d defaultFS) Stat(name string) (fs.FileInfo, error) {
	if !d.isStd(name) {
		return d.FS.Stat(name)
	}
	return d.std.Stat()""")]),
 ("C12","same","loop index",[("file.go","""	for _, file := range f.Files {
		if err := fn(&File{file, ff}, nil); err != nil {
			return err
		}
	}
	return nil""","""	var err error
	for i := 0; i < len(f.Files) && err == nil; i++ {
		err = fn(&File{f.Files[i], ff}, nil)
	}
	return err""")]),
 ("C12","same","create via open",[("file.go","""func (d defaultFS) Create(name string) (fs.File, error) {
	return d.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)""","""func (d defaultFS) Create(name string) (fs.File, error) {
	const mode = os.O_TRUNC | os.O_CREATE | os.O_RDWR
	file, err := d.OpenFile(name, mode, 0o666)
	if err != nil {
		return nil, err
	}
	return file, nil""")]),
 ("C12","same","unsupported helper",[("file.go","""	return &fs.PathError{
		Op:   "chmod",
		Path: name,
		Err:  errors.New("not supported"),
	}""","""	return unsupported("chmod", name)"""),("file.go","""func fileNotExists(""","""func unsupported(op, name string) error {
	return &fs.PathError{Op: op, Path: name, Err: errors.New("not supported")}
}

func fileNotExists(""")]),
 ("C12","same","context helper",[("file.go","""func (c *contextFile) Read(p []byte) (n int, err error) {
	if err = c.ctx.Err(); err != nil {
		return
	}
	if n, err = c.File.Read(p); err != nil {
		return
	}
	err = c.ctx.Err()
	return
}""","""func (c *contextFile) guard(fn func([]byte) (int, error), p []byte) (int, error) {
	if err := c.ctx.Err(); err != nil {
		return 0, err
	}
	n, err := fn(p)
	if err != nil {
		return n, err
	}
	return n, c.ctx.Err()
}

func (c *contextFile) Read(p []byte) (n int, err error) {
	return c.guard(c.File.Read, p)
}""")]),
]
CASES += [
    ("C12", "bad", "directory below the name", [("file.go", "path.Join(string(d), name)", "path.Join(name, string(d))")]),
    ("C12", "same", "directory with a slash", [("file.go", "	return path.Join(string(d), name), nil", "	full := string(d) + \"/\" + name\n	return path.Clean(full), nil")]),
]
