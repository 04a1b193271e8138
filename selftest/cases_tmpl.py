CASES = [
 ("C22","bad","expr names",[("extensions/expr/templates.go","func (e exprDataList) Names()","func (e exprDataList) AllNames()")]),
 ("C22","bad","description any",[("templates.go",".SelectedCommand.Description | print | Wrap 4",".SelectedCommand.Description | Wrap 4")]),
 ("C22","bad","joe quote",[("internal/joe/tpl/app.go.tpl","{{ .App.HelpText | Quote }}","{{ .App.Help | Quote }}")]),
 ("C22","bad","joe license",[("internal/joe/new.go","	License    bool\n","	Licensed   bool\n"),("internal/joe/new.go","&g.License","&g.Licensed"),("internal/joe/templates.go","data.License","data.Licensed")]),
 ("C22","bad","version",[("templates.go","{{ .App.Version }}","{{ .App.Ver }}")]),
 ("C22","bad","category unexported",[("extensions/provider/provider.go","	Defaults defaultsMap","	defaults defaultsMap"),("extensions/provider/provider.go","{{ .Defaults }}","{{ .Defaults }}")]),
 ("C22","bad","join args",[("templates.go",'"Join": func(v string, args []string) string {\n			return strings.Join(args, v)','"Join": func(args []string, v string) string {\n			return strings.Join(args, v)')]),
 ("C22","bad","nested missing",[("templates.go",'{{- define "InlineFlagListing" -}}','{{- define "InlineFlags" -}}')]),
 ("C22","bad","boldfirst color",[("extensions/color/color_templates.go",'"BoldFirst": func(s []string) []string {\n			if len(s) == 0 {\n				return s\n			}\n			first, _ := bold(s[0])\n			return append([]string{first}, s[1:]...)','"BoldFirst": func(s string) string {\n			return s')]),
 ("C22","bad","table help",[("extensions/table/table.go","{{- Cell .HelpText -}}\n`","{{- Cell .Name -}}\n`")]),
 ("C22","bad","arg manual",[("templates.go","		ManualText:  val.ManualText,\n		Description: val.Description,\n		Data:        val.Data,\n	}\n}\n","		ManualText:  val.HelpText,\n		Description: val.Description,\n		Data:        val.Data,\n	}\n}\n")]),
 ("C22","bad","flag no data",[("templates.go","		Synopsis:    wrapSynopsis(syn),\n		Data:        val.Data,\n","		Synopsis:    wrapSynopsis(syn),\n")]),
 ("C22","bad","completion var",[("completion_zsh.go","{{ .JoeCompletionVar }}","{{ .CompletionVar }}")]),
 ("C22","same","named data",[("usage.go","			data := struct {\n				SelectedCommand *commandData\n				App             *App\n				Debug           bool\n			}{\n","			type helpData struct {\n				SelectedCommand *commandData\n				App             *App\n				Debug           bool\n			}\n			data := &helpData{\n")]),
 ("C22","same","concat",[("templates.go",'VersionTemplate = "{{ .App.Name }}, version {{ .App.Version }}\\n"','VersionTemplate = "{{ .App.Name }}, " + "version {{ .App.Version }}\\n"')]),
 ("C22","same","helper",[("extensions/provider/provider.go","			return tpl.Execute(c.Stdout, data)","			return render(c, tpl, data)"),("extensions/provider/provider.go","func fallbackTemplate(","func render(c *cli.Context, tpl *cli.Template, data any) error {\n	return tpl.Execute(c.Stdout, data)\n}\n\nfunc fallbackTemplate(")]),
 ("C22","same","adapter var",[("templates.go","	syn := val.newSynopsis()\n	return &flagData{\n","	syn := val.newSynopsis()\n	var res *flagData\n	res = &flagData{\n"),("templates.go","		Synopsis:    wrapSynopsis(syn),\n		Data:        val.Data,\n	}\n","		Synopsis:    wrapSynopsis(syn),\n		Data:        val.Data,\n	}\n	return res\n")]),
 ("C22","same","with",[("templates.go","{{ if .Category }}{{.Category}}:{{ end }}","{{ with .Category }}{{ . }}:{{ end }}")]),
]
