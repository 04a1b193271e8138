From 3df18a38aa42d89b698348df7603345ae950c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 01/81] fix: leave bool and name-value list variables unchanged
 when the text is not valid

---
 value.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/value.go b/value.go
index 72b88f8..52e36cb 100644
--- a/value.go
+++ b/value.go
@@ -350,11 +350,11 @@ func setCore(dest any, disableSplitting bool, value string) error {
 	case Value:
 		return p.Set(value)
 	case *bool:
-		var err error
-		*p, err = parseBool(value)
+		b, err := parseBool(value)
 		if err != nil {
 			return err
 		}
+		*p = b
 		return nil
 	case *string:
 		s := *p
@@ -383,6 +383,7 @@ func setCore(dest any, disableSplitting bool, value string) error {
 
 		return nil
 	case *[]*NameValue:
+		var items []*NameValue
 		for _, kvp := range values() {
 			nvp := new(NameValue)
 			var hasValue bool
@@ -391,8 +392,9 @@ func setCore(dest any, disableSplitting bool, value string) error {
 			if !hasValue {
 				return fmt.Errorf("value required for %s", nvp.Name)
 			}
-			*p = append(*p, nvp)
+			items = append(items, nvp)
 		}
+		*p = append(*p, items...)
 		return nil
 
 	case *int:
-- 
2.43.0


From 22bf1b0dfd5e47aa666c6a33b2b9577e10b4306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 02/81] fix: leave octal and hex values unchanged when the text
 is not valid

---
 value/value.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/value/value.go b/value/value.go
index d2ef4ea..e38e1b0 100644
--- a/value/value.go
+++ b/value/value.go
@@ -94,8 +94,11 @@ func (b *ByteLength) UnmarshalText(data []byte) error {
 
 func (h *Octal) UnmarshalText(d []byte) error {
 	s, err := strconv.ParseInt(strings.TrimPrefix(string(d), "0o"), 8, 64)
+	if err != nil {
+		return formatStrconvError(err, string(d))
+	}
 	*h = Octal(s)
-	return formatStrconvError(err, string(d))
+	return nil
 }
 
 func (h Octal) String() string {
@@ -104,8 +107,11 @@ func (h Octal) String() string {
 
 func (h *Hex) UnmarshalText(d []byte) error {
 	s, err := strconv.ParseInt(strings.TrimPrefix(string(d), "0x"), 16, 64)
+	if err != nil {
+		return formatStrconvError(err, string(d))
+	}
 	*h = Hex(s)
-	return formatStrconvError(err, string(d))
+	return nil
 }
 
 func (h Hex) String() string {
-- 
2.43.0


From 5e8184d1be926b551200266ce4c6599fe1a5777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 03/81] fix: report byte lengths whose number is not valid
 instead of reading them as zero

---
 value/value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value/value.go b/value/value.go
index e38e1b0..ea6facb 100644
--- a/value/value.go
+++ b/value/value.go
@@ -74,7 +74,10 @@ func ParseByteLength(s string) (int, error) {
 		return strconv.Atoi(string(sub[1]))
 	}
 
-	num, _ := strconv.ParseFloat(string(sub[1]), 64)
+	num, err := strconv.ParseFloat(string(sub[1]), 64)
+	if err != nil {
+		return -1, fmt.Errorf("invalid byte length")
+	}
 	var base float64 = 1000
 	if strings.HasSuffix(string(sub[2]), "i") {
 		base = 1024
-- 
2.43.0


From 5ae5ccd535a6996598d583ef88eeb92bc4c3a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:33 +0000
Subject: [PATCH 04/81] fix: reject text around a byte length instead of
 ignoring it

---
 value/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value/value.go b/value/value.go
index ea6facb..170a895 100644
--- a/value/value.go
+++ b/value/value.go
@@ -42,7 +42,7 @@ func JSON(v any) flag.Getter {
 }
 
 var (
-	byteLengthPat = regexp.MustCompile(`([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B`)
+	byteLengthPat = regexp.MustCompile(`^([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B$`)
 	magnitude     = map[string]int{
 		"":  0,
 		"k": 1,
-- 
2.43.0


From 842d5a6523a3f2cb77cdaad650b75f82e2cf1f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 05/81] fix: bind.For provides the binder for net.IP

---
 extensions/bind/binder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/bind/binder.go b/extensions/bind/binder.go
index 84fbf26..68ef069 100644
--- a/extensions/bind/binder.go
+++ b/extensions/bind/binder.go
@@ -503,7 +503,7 @@ func For[T any](nameopt ...any) Binder[T] {
 			return URL(nameopt...)
 		case *regexp.Regexp:
 			return Regexp(nameopt...)
-		case *net.IP:
+		case net.IP:
 			return IP(nameopt...)
 		case *big.Int:
 			return BigInt(nameopt...)
-- 
2.43.0


From 19fce9240d4841340e3cdb7beb53de2408639d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 06/81] fix: allow a list of name-value pairs to be assigned
 directly

---
 value.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/value.go b/value.go
index 52e36cb..d402a32 100644
--- a/value.go
+++ b/value.go
@@ -525,6 +525,8 @@ func setDirect(dest any, v any) error {
 		*p = v.([]string)
 	case *map[string]string:
 		*p = v.(map[string]string)
+	case *[]*NameValue:
+		*p = v.([]*NameValue)
 	case *int:
 		*p = v.(int)
 	case *int8:
-- 
2.43.0


From 54b9492e4d9b72201334130fbd65f283d56bcabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 07/81] fix: clear the default of a bytes variable at its first
 occurrence

---
 value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value.go b/value.go
index d402a32..5825346 100644
--- a/value.go
+++ b/value.go
@@ -818,6 +818,9 @@ func optionApplyValueConventions(p any, flags internalFlags, firstOccur bool) {
 		case *[]string:
 			*p = nil
 
+		case *[]byte:
+			*p = nil
+
 		case *[]*NameValue:
 			*p = []*NameValue{}
 
-- 
2.43.0


From 155838cb1bbba434d1ee83c05decda466073310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 08/81] fix: report the errors of hooks that run again after a
 flag or command is renamed

---
 command.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index 1c955f7..ee04332 100644
--- a/command.go
+++ b/command.go
@@ -635,7 +635,9 @@ func initializeFlagsArgs(ctx *Context) error {
 			// The name has changed, so hooks need to run again
 			// on the flag
 			if sub.Name != originalName {
-				ctx.newChild(sub).reinitialize()
+				if err := ctx.newChild(sub).reinitialize(); err != nil {
+					return err
+				}
 			}
 		}
 		anyFlags = len(flags) > 0
@@ -674,7 +676,9 @@ func initializeSubcommands(ctx *Context) error {
 		// The name has changed, so hooks need to run again
 		// on the flag
 		if sub.Name != originalName {
-			ctx.newChild(sub).reinitialize()
+			if err := ctx.newChild(sub).reinitialize(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 0876821e5ee4bb4e5f61d55d254cb8e5f0eb2c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:59 +0000
Subject: [PATCH 09/81] fix: report errors of the options of a prototype
 applied to a value

---
 action.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/action.go b/action.go
index dfb42d6..ac94c28 100644
--- a/action.go
+++ b/action.go
@@ -1604,8 +1604,7 @@ func (p *Prototype) copyToValue(c *Context) error {
 		o.SetData(k, v)
 	}
 	o.setAliases(p.Aliases)
-	p.Options.Execute(c)
-	return nil
+	return p.Options.Execute(c)
 }
 
 // Execute the action by calling the function
-- 
2.43.0


From abb8a27cde0db2c34c45ee8e87ca3aaeed762e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 10/81] fix: report errors of rendering the help screen

---
 usage.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/usage.go b/usage.go
index cd66d46..798e5cc 100644
--- a/usage.go
+++ b/usage.go
@@ -235,9 +235,11 @@ func DisplayHelpScreen(command ...string) Action {
 
 			w := ansiterm.NewTabWriter(c.Stderr, 1, 8, 2, ' ', tabwriter.StripEscape)
 
-			_ = tpl.Execute(w, data)
-			_ = w.Flush()
-			return nil
+			err = tpl.Execute(w, data)
+			if e := w.Flush(); err == nil {
+				err = e
+			}
+			return err
 		}),
 		))
 }
-- 
2.43.0


From 3d000813c7b385fc029ded6e4f7b2894af92230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 11/81] fix: report errors of setting the value of a flag given
 without one

---
 flag.go  | 6 +++---
 value.go | 9 ++++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/flag.go b/flag.go
index ea4a266..dbffa75 100644
--- a/flag.go
+++ b/flag.go
@@ -470,10 +470,10 @@ func (f *Flag) Names() []string {
 // Set will update the value of the flag
 func (f *Flag) Set(arg any) error {
 	if arg, ok := arg.(string); ok {
-		if trySetOptional(f.Value, func() (any, bool) {
+		if ok, err := trySetOptional(f.Value, func() (any, bool) {
 			return f.optionalValue, (arg == "" && f.flags.optional())
-		}) {
-			return nil
+		}); ok {
+			return err
 		}
 
 		return setCore(f.Value, f.flags.disableSplitting(), arg)
diff --git a/value.go b/value.go
index 5825346..f014e24 100644
--- a/value.go
+++ b/value.go
@@ -324,15 +324,14 @@ func SetData(dest any, arg any) error {
 	panic(fmt.Sprintf("unexpected argument type %T", arg))
 }
 
-func trySetOptional(dest any, trySetOptional func() (any, bool)) bool {
+func trySetOptional(dest any, trySetOptional func() (any, bool)) (bool, error) {
 	if _, ok := dest.(Value); ok {
-		return false
+		return false, nil
 	}
 	if v, ok := trySetOptional(); ok {
-		setDirect(dest, v)
-		return true
+		return true, setDirect(dest, v)
 	}
-	return false
+	return false, nil
 }
 
 // setCore sets the variable; no additional splitting is applied
-- 
2.43.0


From 339e124fbdb1f16b306e0188622647eb149d28fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 12/81] fix: keep the cause of the error for invalid bytes

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index f014e24..0f10fce 100644
--- a/value.go
+++ b/value.go
@@ -368,7 +368,7 @@ func setCore(dest any, disableSplitting bool, value string) error {
 	case *[]byte:
 		bb, err := hex.DecodeString(value)
 		if err != nil {
-			return fmt.Errorf("invalid bytes: %s", err)
+			return fmt.Errorf("invalid bytes: %w", err)
 		}
 		*p = append(*p, bb...)
 		return nil
-- 
2.43.0


From 722dd6cfbc1b3544065e68fd4ae90a616eb1169b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 13/81] fix: run the After actions of persistent flags when a
 sub-command runs

---
 context.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/context.go b/context.go
index ac1809e..6503121 100644
--- a/context.go
+++ b/context.go
@@ -1563,13 +1563,8 @@ func (c *Context) setTiming(t Timing) *Context {
 
 func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
-		for _, f := range ctx.Flags() {
-			if f.internalFlags().persistent() {
-				// This is a persistent flag that was cloned into the flag set of the current
-				// command; don't process it again
-				continue
-			}
-
+		// Persistent flags are processed by the command that defines them
+		for _, f := range ctx.LocalFlags() {
 			err := on(ctx.newChild(f).setTiming(t))
 			if err != nil {
 				return err
-- 
2.43.0


From 82a7aaa1c338a85a5025c7ec50a748fea739b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:42 +0000
Subject: [PATCH 14/81] fix: invoke the action of a persistent flag only in the
 command it was given to

---
 context.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 6503121..67376e2 100644
--- a/context.go
+++ b/context.go
@@ -2128,7 +2128,18 @@ func executeUserPipeline(at Timing) actionFunc {
 func triggerOptions(ctx *Context) error {
 	// Invoke the Before action on all flags and args, but only the actual
 	// Action when the flag or arg was set
-	for _, f := range ctx.Flags() {
+	for _, f := range ctx.PersistentFlags() {
+		if f.Seen() && len(ctx.internal.Raw(f.Name)) == 0 {
+			// Specified to the command that defines it, which invoked the action
+			continue
+		}
+		err := triggerOption(ctx, f)
+		if err != nil {
+			return err
+		}
+	}
+
+	for _, f := range ctx.LocalFlags() {
 		err := triggerOption(ctx, f)
 		if err != nil {
 			return err
-- 
2.43.0


From 0f9167b610ccfcbc851f71502e384528a28c50b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 15/81] fix: Setup ignores timing errors of every part when
 optional, and of parts that are not set

---
 action.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/action.go b/action.go
index ac94c28..e4b344a 100644
--- a/action.go
+++ b/action.go
@@ -451,15 +451,19 @@ func (s Setup) Execute(ctx context.Context) error {
 		}
 	}
 	if s.Before != nil {
-		if err := c.Before(ActionOf(s.Before)); err != nil {
+		if err := c.act(s.Before, BeforeTiming, s.Optional); err != nil {
 			return err
 		}
 	}
-	if err := c.Action(ActionOf(s.Action)); err != nil {
-		return err
+	if s.Action != nil {
+		if err := c.act(s.Action, ActionTiming, s.Optional); err != nil {
+			return err
+		}
 	}
-	if err := c.After(ActionOf(s.After)); err != nil {
-		return err
+	if s.After != nil {
+		if err := c.act(s.After, AfterTiming, s.Optional); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 4e7d5ecb36b684a7da0768242b87f8ef3a1df507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 16/81] fix: report hooks that would never run instead of
 accepting them

---
 context.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 67376e2..c499637 100644
--- a/context.go
+++ b/context.go
@@ -993,7 +993,15 @@ func (c *Context) Target() any {
 // Hook registers a hook that runs for any context in the given timing.
 func (c *Context) Hook(timing Timing, handler Action) error {
 	if h, ok := c.hookable(); ok {
-		if c.Timing() <= timing {
+		actual := timing
+		if timing > syntheticTiming {
+			actual = BeforeTiming
+		}
+		if actual == ActionTiming {
+			// There are no hooks for the primary action
+			return c.internalError(errCantHook)
+		}
+		if c.Timing() <= actual {
 			return h.hook(timing, handler)
 		}
 
-- 
2.43.0


From 8db686310298e9066541d269a27715bc8b356d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 17/81] fix: App help, manual, and usage text apply to the root
 command

---
 app.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app.go b/app.go
index dbc8596..0e21331 100644
--- a/app.go
+++ b/app.go
@@ -236,6 +236,9 @@ func (a *App) createRoot() *Command {
 				Uses:        a.Uses,
 				Before:      a.Before,
 				Options:     a.Options,
+				HelpText:    a.HelpText,
+				ManualText:  a.ManualText,
+				UsageText:   a.UsageText,
 			}
 		}
 		return a.rootCommandCreator()
-- 
2.43.0


From 36db7e637eed06b79eaa645b7ff482cd5179d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:53 +0000
Subject: [PATCH 18/81] fix: a Prototype with Data applies to targets that have
 none

---
 action.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/action.go b/action.go
index e4b344a..313342b 100644
--- a/action.go
+++ b/action.go
@@ -1523,7 +1523,7 @@ func (p *Prototype) copyToCommand(o *Command) {
 	}
 
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	o.Data = mergeData(o.Data, p.Data)
 	if o.Completion == nil {
 		o.Completion = p.Completion
 	}
@@ -1554,7 +1554,7 @@ func (p *Prototype) copyToArg(c *Context) {
 
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	o.Data = mergeData(o.Data, p.Data)
 }
 
 func (p *Prototype) copyToFlag(c *Context) {
@@ -1580,7 +1580,7 @@ func (p *Prototype) copyToFlag(c *Context) {
 	o.Aliases = append(o.Aliases, p.Aliases...)
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	o.Data = mergeData(o.Data, p.Data)
 }
 
 func (p *Prototype) copyToValue(c *Context) error {
@@ -1839,6 +1839,14 @@ func setData(data map[string]any, name string, v any) map[string]any {
 	return data
 }
 
+func mergeData(data, src map[string]any) map[string]any {
+	if data == nil {
+		return maps.Clone(src)
+	}
+	maps.Copy(data, src)
+	return data
+}
+
 // actions provides a pipeline without flattening
 func actions(actions ...Action) ActionPipeline {
 	return ActionPipeline(actions)
-- 
2.43.0


From ba531c6cc3f5ff71c862d532106fb8e4e4edb3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:24 +0000
Subject: [PATCH 19/81] fix: a Prototype does nothing where setup has been
 prevented

---
 action.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/action.go b/action.go
index 313342b..27ff7a6 100644
--- a/action.go
+++ b/action.go
@@ -1478,6 +1478,9 @@ func (t Timing) Describe() string {
 }
 
 func (p Prototype) Execute(ctx context.Context) error {
+	if FromContext(ctx).SkipImplicitSetup() {
+		return nil
+	}
 	return Do(ctx,
 		Pipeline(
 			p.copyCommonToTarget,
-- 
2.43.0


From 796aab7d4881b2d3edf77f5368002d26dcbe91dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 20/81] fix: a Prototype leaves the attributes it does not
 define on a value as they are

---
 action.go | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/action.go b/action.go
index 27ff7a6..86f37e7 100644
--- a/action.go
+++ b/action.go
@@ -1499,22 +1499,22 @@ func (p Prototype) Use(action Action) Prototype {
 
 func (p *Prototype) copyCommonToTarget(c *Context) error {
 	o := c.target
-	if o.category() == "" {
+	if p.Category != "" && o.category() == "" {
 		o.setCategory(p.Category)
 	}
-	if o.helpText() == "" {
+	if p.HelpText != "" && o.helpText() == "" {
 		o.setHelpText(p.HelpText)
 	}
-	if o.manualText() == "" {
+	if p.ManualText != "" && o.manualText() == "" {
 		o.setManualText(p.ManualText)
 	}
-	if o.usageText() == "" {
+	if p.UsageText != "" && o.usageText() == "" {
 		o.setUsageText(p.UsageText)
 	}
-	if o.description() == "" || o.description() == nil {
+	if p.Description != nil && (o.description() == "" || o.description() == nil) {
 		o.setDescription(p.Description)
 	}
-	if o.defaultText() == "" {
+	if p.DefaultText != "" && o.defaultText() == "" {
 		o.setDefaultText(p.DefaultText)
 	}
 	return nil
@@ -1592,25 +1592,12 @@ func (p *Prototype) copyToValue(c *Context) error {
 		return nil
 	}
 
-	if o.category() == "" {
-		o.setCategory(p.Category)
-	}
-	if o.helpText() == "" {
-		o.setHelpText(p.HelpText)
-	}
-	if o.manualText() == "" {
-		o.setManualText(p.ManualText)
-	}
-	if o.usageText() == "" {
-		o.setUsageText(p.UsageText)
-	}
-	if o.description() == "" || o.description() == nil {
-		o.setDescription(p.Description)
-	}
 	for k, v := range p.Data {
 		o.SetData(k, v)
 	}
-	o.setAliases(p.Aliases)
+	if p.Aliases != nil {
+		o.setAliases(p.Aliases)
+	}
 	return p.Options.Execute(c)
 }
 
-- 
2.43.0


From 2e711dc8dd3683b055d3fd6f65fcea4235a7b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:37 +0000
Subject: [PATCH 21/81] fix: adding and removing elements leaves the slices of
 the definition alone

---
 context.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/context.go b/context.go
index c499637..77943bf 100644
--- a/context.go
+++ b/context.go
@@ -775,9 +775,9 @@ func (c *Context) updateAliases(fn func([]string) []string) error {
 	}
 	switch t := c.Target().(type) {
 	case *Command:
-		t.Aliases = fn(t.Aliases)
+		t.Aliases = fn(slices.Clone(t.Aliases))
 	case *Flag:
-		t.Aliases = fn(t.Aliases)
+		t.Aliases = fn(slices.Clone(t.Aliases))
 	}
 	return nil
 }
@@ -1266,7 +1266,7 @@ func (c *Context) updateFlags(fn func([]*Flag) []*Flag) error {
 		return err
 	}
 	cmd := c.Command()
-	cmd.Flags = fn(cmd.Flags)
+	cmd.Flags = fn(slices.Clone(cmd.Flags))
 	return nil
 }
 
@@ -1279,16 +1279,16 @@ func (c *Context) updateArgs(fn func([]*Arg) []*Arg) error {
 	if a, ok := c.Target().(haveLocalArgs); ok {
 		switch aa := a.(type) {
 		case interface{ SetLocalArgs([]*Arg) error }:
-			return aa.SetLocalArgs(fn(a.LocalArgs()))
+			return aa.SetLocalArgs(fn(slices.Clone(a.LocalArgs())))
 
 		case interface{ SetLocalArgs([]*Arg) }:
-			aa.SetLocalArgs(fn(a.LocalArgs()))
+			aa.SetLocalArgs(fn(slices.Clone(a.LocalArgs())))
 			return nil
 		}
 	}
 
 	cmd := c.Command()
-	cmd.Args = fn(cmd.Args)
+	cmd.Args = fn(slices.Clone(cmd.Args))
 	return nil
 }
 
@@ -1298,7 +1298,7 @@ func (c *Context) updateSubcommands(fn func([]*Command) []*Command) error {
 		return err
 	}
 	cmd := c.Command()
-	cmd.Subcommands = fn(cmd.Subcommands)
+	cmd.Subcommands = fn(slices.Clone(cmd.Subcommands))
 	return nil
 }
 
-- 
2.43.0


From 3cfebbecfb1302a2359dc6b27a78987931dfa6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 22/81] fix: the file named dash works with streams that are
 not files

---
 file.go | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/file.go b/file.go
index 6689e26..3f564ae 100644
--- a/file.go
+++ b/file.go
@@ -423,14 +423,14 @@ func (d defaultFS) OpenFile(name string, flag int, perm os.FileMode) (fs.File, e
 	if name == "-" && d.std != nil {
 		switch flag & readWriteMask {
 		case os.O_RDONLY:
-			return d.std.in.(*os.File), nil
+			return d.std.fileOf(d.std.in), nil
 		case os.O_RDWR:
 			if (flag & (os.O_APPEND | os.O_CREATE)) > 0 {
-				return d.std.out.(*os.File), nil
+				return d.std.fileOf(d.std.out), nil
 			}
 			return nil, errors.New("open not supported: O_RDWR must be specified with O_APPEND or O_CREATE")
 		case os.O_WRONLY:
-			return d.std.out.(*os.File), nil
+			return d.std.fileOf(d.std.out), nil
 		}
 	}
 	return d.FS.OpenFile(name, flag, perm)
@@ -585,7 +585,34 @@ func (s *stdFile) Stat() (fs.FileInfo, error) {
 	if f, ok := s.in.(*os.File); ok {
 		return f.Stat()
 	}
-	return nil, nil
+	return stdFileInfo{}, nil
+}
+
+// stdFileInfo describes a stream which isn't a file
+type stdFileInfo struct{}
+
+func (stdFileInfo) Name() string       { return "-" }
+func (stdFileInfo) Size() int64        { return 0 }
+func (stdFileInfo) Mode() fs.FileMode  { return fs.ModeNamedPipe }
+func (stdFileInfo) ModTime() time.Time { return time.Time{} }
+func (stdFileInfo) IsDir() bool        { return false }
+func (stdFileInfo) Sys() any           { return nil }
+
+// fileOf obtains the file which is the stream, or the combined file for streams
+// which aren't files
+func (s *stdFile) fileOf(stream any) fs.File {
+	if f, ok := stream.(*os.File); ok {
+		return f
+	}
+	return s
+}
+
+func (s *stdFile) notSupported(op string) error {
+	return &fs.PathError{
+		Op:   op,
+		Path: "-",
+		Err:  errors.New("not supported"),
+	}
 }
 
 func (s *stdFile) Read(d []byte) (int, error) {
@@ -606,11 +633,17 @@ func (s *stdFile) Close() error {
 }
 
 func (s *stdFile) ReadAt(p []byte, off int64) (n int, err error) {
-	return s.in.(io.ReaderAt).ReadAt(p, off)
+	if r, ok := s.in.(io.ReaderAt); ok {
+		return r.ReadAt(p, off)
+	}
+	return 0, s.notSupported("read")
 }
 
 func (s *stdFile) Seek(offset int64, whence int) (int64, error) {
-	return s.in.(io.Seeker).Seek(offset, whence)
+	if r, ok := s.in.(io.Seeker); ok {
+		return r.Seek(offset, whence)
+	}
+	return 0, s.notSupported("seek")
 }
 
 func (s *stdFile) WriteString(str string) (n int, err error) {
-- 
2.43.0


From 9fd59f6968577eb847cf6fcd50cdcf7c37ccc92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 23/81] fix: every way of reading and writing a file opened
 with a context checks the context

---
 file.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/file.go b/file.go
index 3f564ae..80b04fd 100644
--- a/file.go
+++ b/file.go
@@ -679,6 +679,34 @@ func (c *contextFile) Write(p []byte) (n int, err error) {
 	return
 }
 
+func (c *contextFile) WriteString(s string) (n int, err error) {
+	return c.Write([]byte(s))
+}
+
+func (c *contextFile) ReadAt(p []byte, off int64) (n int, err error) {
+	if err = c.ctx.Err(); err != nil {
+		return
+	}
+	return c.File.ReadAt(p, off)
+}
+
+func (c *contextFile) WriteAt(p []byte, off int64) (n int, err error) {
+	if err = c.ctx.Err(); err != nil {
+		return
+	}
+	return c.File.WriteAt(p, off)
+}
+
+// ReadFrom and WriteTo copy using Write and Read, which check the context
+
+func (c *contextFile) ReadFrom(r io.Reader) (n int64, err error) {
+	return io.Copy(struct{ io.Writer }{c}, r)
+}
+
+func (c *contextFile) WriteTo(w io.Writer) (n int64, err error) {
+	return io.Copy(w, struct{ io.Reader }{c})
+}
+
 func (d dirFS) Stat(name string) (fs.FileInfo, error) {
 	full, err := d.path(name)
 	if err != nil {
-- 
2.43.0


From 8860c75da2fe43d8a98372e742c28fb12e72249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:01 +0000
Subject: [PATCH 24/81] fix: let the description of a command that is a
 fmt.Stringer be rendered on the help screen

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 85bbbb6..838bcf9 100644
--- a/templates.go
+++ b/templates.go
@@ -129,7 +129,7 @@ usage: {{ if .SelectedCommand.Lineage -}}
 {{- .SelectedCommand.Synopsis | print | HangingIndent .SelectedCommand.HangingIndent -}}{{ "\n" }}
 
 {{- if .SelectedCommand.Description -}}
-{{ "\n" }}{{- .SelectedCommand.Description | Wrap 4 -}}
+{{ "\n" }}{{- .SelectedCommand.Description | print | Wrap 4 -}}
 {{ else if .SelectedCommand.HelpText -}}
 {{ "\n" }}{{- .SelectedCommand.HelpText | Wrap 4 -}}
 {{- end -}}
-- 
2.43.0


From 36ef4ca8e3d538d2c709f01275413dba375ba22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:04 +0000
Subject: [PATCH 25/81] fix: render the synopsis of flags in tables on the help
 screen without a template that does not exist

---
 extensions/table/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 86b7133..dab603c 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -132,7 +132,7 @@ const (
 const (
 	flagTemplate = `
 {{- Row -}}
-{{- Execute "FlagSynopsis" .Synopsis | ExtraSpaceBeforeFlag | Cell -}}
+{{- .Synopsis | print | ExtraSpaceBeforeFlag | Cell -}}
 {{- Cell .HelpText -}}
 `
 
-- 
2.43.0


From 42dc5fd3461cecfb5121c2f083cb7644ec86b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:10 +0000
Subject: [PATCH 26/81] fix: list the names of undocumented expression
 operators on the help screen

---
 extensions/expr/templates.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/extensions/expr/templates.go b/extensions/expr/templates.go
index 4b0c5e8..2282b3f 100644
--- a/extensions/expr/templates.go
+++ b/extensions/expr/templates.go
@@ -18,9 +18,11 @@ type exprData struct {
 type exprDataCategory struct {
 	Undocumented bool
 	Category     string
-	VisibleExprs []*exprData
+	VisibleExprs exprDataList
 }
 
+type exprDataList []*exprData
+
 type exprDescriptionData struct {
 	VisibleExprs    []*exprData
 	ExprsByCategory []*exprDataCategory
@@ -40,6 +42,14 @@ func (s *synopsisWrapper[T]) String() string {
 	return buf.String()
 }
 
+func (e exprDataList) Names() []string {
+	res := make([]string, 0, len(e))
+	for _, x := range e {
+		res = append(res, "-"+x.Name)
+	}
+	return res
+}
+
 func exprAdapter(val *Expr) *exprData {
 	syn := val.newSynopsis()
 	return &exprData{
-- 
2.43.0


From e86761a51a8f68573dc8220b8585e0a8a687f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:19 +0000
Subject: [PATCH 27/81] fix: generate files of a nested directory inside of it,
 with each operation on the same path

---
 extensions/template/context.go | 8 +++++---
 extensions/template/file.go    | 7 +++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index 1194756..eae4fbb 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -115,6 +115,7 @@ func (c *OutputContext) trace(category string, file string) {
 	fmt.Fprintln(out)
 }
 
+// reportChange reports what happened to the file; name is its actual path
 func (c *OutputContext) reportChange(original []byte, name string, created bool) {
 	if created {
 		c.create(name)
@@ -122,7 +123,7 @@ func (c *OutputContext) reportChange(original []byte, name string, created bool)
 	}
 
 	newContents, _ := func() ([]byte, error) {
-		f, err := c.actualFS().Open(c.File(name))
+		f, err := c.actualFS().Open(name)
 		if err != nil {
 			return nil, nil
 		}
@@ -238,15 +239,16 @@ func (c *OutputContext) pathEnsure(name string) (string, error) {
 		return name, nil
 	}
 
+	name = c.File(name)
 	dir := filepath.Dir(name)
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
 		err = c.actualFS().MkdirAll(dir, 0755)
 		if err != nil {
-			return c.File(name), err
+			return name, err
 		}
 	}
 
-	return c.File(name), nil
+	return name, nil
 }
 
 func (c *OutputContext) actualFS() cli.FS {
diff --git a/extensions/template/file.go b/extensions/template/file.go
index cf43969..7e1db78 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -137,14 +137,13 @@ func Gofmt() FileGenerator {
 			return err
 		}
 
-		_, err = doFileGenerate(ctx, c, name, Contents(result))
-		return err
+		return Contents(result).GenerateFile(ctx, c, name)
 	})
 }
 
 func Mode(mode fs.FileMode) FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		return c.Chmod(name, mode)
+		return c.actualFS().Chmod(name, mode)
 	})
 }
 
@@ -156,7 +155,7 @@ func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, n
 }
 
 func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string) error {
-	return c.Chmod(name, fs.FileMode(int(m)))
+	return c.actualFS().Chmod(name, fs.FileMode(int(m)))
 }
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
-- 
2.43.0


From d337bd8f8232d40c13d5d7893d03866b3664a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:36 +0000
Subject: [PATCH 28/81] fix: leave the file system alone in a dry run of a
 template

---
 extensions/template/context.go |  4 ++++
 extensions/template/file.go    | 20 ++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index eae4fbb..2224ba4 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -240,6 +240,10 @@ func (c *OutputContext) pathEnsure(name string) (string, error) {
 	}
 
 	name = c.File(name)
+	if c.DryRun {
+		return name, nil
+	}
+
 	dir := filepath.Dir(name)
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
 		err = c.actualFS().MkdirAll(dir, 0755)
diff --git a/extensions/template/file.go b/extensions/template/file.go
index 7e1db78..3c83acb 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -86,6 +86,10 @@ func Contents(contents any) FileGenerator {
 // Touch touches the file.
 func Touch() FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
+		if c.DryRun {
+			return nil
+		}
+
 		f := c.actualFS()
 		fileName := name
 		_, err := f.Stat(fileName)
@@ -123,6 +127,11 @@ func Template(tt Interface, namedata ...any) FileGenerator {
 
 func Gofmt() FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
+		if c.DryRun {
+			// The file might not have been written
+			return nil
+		}
+
 		file, err := c.FS.OpenContext(ctx, name)
 		if err != nil {
 			return err
@@ -143,7 +152,7 @@ func Gofmt() FileGenerator {
 
 func Mode(mode fs.FileMode) FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		return c.actualFS().Chmod(name, mode)
+		return chmod(c, name, mode)
 	})
 }
 
@@ -155,7 +164,14 @@ func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, n
 }
 
 func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string) error {
-	return c.actualFS().Chmod(name, fs.FileMode(int(m)))
+	return chmod(c, name, fs.FileMode(int(m)))
+}
+
+func chmod(c *OutputContext, name string, mode fs.FileMode) error {
+	if c.DryRun {
+		return nil
+	}
+	return c.actualFS().Chmod(name, mode)
 }
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
-- 
2.43.0


From 062947461044db1be43c7352300b6c5291159b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:40 +0000
Subject: [PATCH 29/81] fix: give a template each of the variables that it is
 given

---
 extensions/template/template.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/template/template.go b/extensions/template/template.go
index 6da5b9c..e61f3a0 100644
--- a/extensions/template/template.go
+++ b/extensions/template/template.go
@@ -155,8 +155,8 @@ func someData(namevalues ...any) Generator {
 
 	res := make([]Generator, 0, len(namevalues)/2)
 	for i := 0; i < len(namevalues); i += 2 {
-		name := namevalues[0].(string)
-		value := namevalues[0]
+		name := namevalues[i].(string)
+		value := namevalues[i+1]
 		res = append(res, Data(name, value))
 	}
 
-- 
2.43.0


From 79d7407c43d5276d99f5747df6d5b75ebc639a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:55 +0000
Subject: [PATCH 30/81] fix: close the files that a template reads and writes

---
 extensions/template/context.go | 1 +
 extensions/template/file.go    | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index 2224ba4..64423ae 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -127,6 +127,7 @@ func (c *OutputContext) reportChange(original []byte, name string, created bool)
 		if err != nil {
 			return nil, nil
 		}
+		defer f.Close()
 		return io.ReadAll(f)
 	}()
 	if bytes.Equal(original, newContents) {
diff --git a/extensions/template/file.go b/extensions/template/file.go
index 3c83acb..d9958ba 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -54,6 +54,9 @@ func newGenerateContents(f generateFile) FileGeneratorFunc {
 		}
 
 		_, err = file.(io.Writer).Write(data)
+		if e := file.Close(); err == nil {
+			err = e
+		}
 		return err
 	}
 }
@@ -138,6 +141,7 @@ func Gofmt() FileGenerator {
 		}
 
 		src, err := io.ReadAll(file)
+		file.Close()
 		if err != nil {
 			return err
 		}
@@ -185,6 +189,7 @@ func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	var original []byte
 	if err == nil {
 		original, _ = io.ReadAll(file)
+		file.Close()
 	}
 
 	if len(f.ops) == 0 {
-- 
2.43.0


From beeef9103148505fb16e5c6547d648d4bf72e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 31/81] fix: optional args and flag values don't consume flags

---
 arg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 6e2bf70..0a6f0d1 100644
--- a/arg.go
+++ b/arg.go
@@ -547,10 +547,13 @@ func (d *discreteCounter) Usage() (optional, multi bool) {
 	return false, d.count > 1
 }
 
-func (d *defaultCounter) Take(_ string, _ bool) error {
+func (d *defaultCounter) Take(arg string, possibleFlag bool) error {
 	if d.seen {
 		return EndOfArguments
 	}
+	if !d.requireSeen && allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	d.seen = true
 	return nil
 }
-- 
2.43.0


From 3648bed229dbaeaea607da60dae2f594e4403262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 32/81] fix: a fixed number of arguments doesn't consume flags

---
 arg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 0a6f0d1..1bd63d0 100644
--- a/arg.go
+++ b/arg.go
@@ -528,10 +528,13 @@ func (o *optionContext) lookupValue(name string) (any, bool) {
 	return nil, false
 }
 
-func (d *discreteCounter) Take(_ string, _ bool) error {
+func (d *discreteCounter) Take(arg string, possibleFlag bool) error {
 	if d.count == 0 {
 		return EndOfArguments
 	}
+	if allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	d.count--
 	return nil
 }
-- 
2.43.0


From c6f511d4839d7c76fde698b903c194cec2cfeaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:21 +0000
Subject: [PATCH 33/81] fix: a command's own flags take precedence over
 inherited ones of the same name

---
 set.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/set.go b/set.go
index daf8bb5..6f7aeb0 100644
--- a/set.go
+++ b/set.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"slices"
 	"strings"
 )
 
@@ -97,7 +98,8 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 	}
 
 	if parent != nil {
-		for _, f := range parent.Flags() {
+		// Start from the flags of the nearest ancestor, which are last
+		for _, f := range slices.Backward(parent.Flags()) {
 			if f.internalFlags().nonPersistent() {
 				continue
 			}
@@ -438,11 +440,17 @@ func (b *bindingImpl) defineFlag(f *Flag) {
 		return
 	}
 
+	// The nearest definition takes precedence, as it does in lookups
+	if _, ok := b.names[name]; ok {
+		return
+	}
 	for _, alias := range f.Aliases {
+		options := b.longOptions
 		if len(alias) == 1 {
-			b.shortOptions[alias] = name
-		} else {
-			b.longOptions[alias] = name
+			options = b.shortOptions
+		}
+		if _, ok := options[alias]; !ok {
+			options[alias] = name
 		}
 	}
 	b.names[name] = f
-- 
2.43.0


From a52c48c06bc55a93eb68ede8ae665ac14dd66b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:28 +0000
Subject: [PATCH 34/81] fix: values following multi-byte short flags

---
 set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 6f7aeb0..d6b3bea 100644
--- a/set.go
+++ b/set.go
@@ -328,7 +328,7 @@ Parsing:
 			}
 
 			_, opt, _, _ := b.LookupOption(flag)
-			value := arg[1+i:]
+			value := arg[i+len(short)-1:]
 
 			if value != "" {
 				err = instanceTake(value, false, opt)
-- 
2.43.0


From 6a896b359bfd51587285a6e06292ffdd8bf72445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:16 +0000
Subject: [PATCH 35/81] fix: order of composite options doesn't depend on map
 iteration

---
 filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 66095f3..feccff4 100644
--- a/filter.go
+++ b/filter.go
@@ -139,8 +139,8 @@ func decompose[T ~int, V any](m map[T]V) *bitSet[T, V] {
 		i++
 	}
 	sort.Slice(keys, func(i, j int) bool {
-		if bits.OnesCount(keys[i]) > bits.OnesCount(keys[j]) {
-			return true
+		if x, y := bits.OnesCount(keys[i]), bits.OnesCount(keys[j]); x != y {
+			return x > y
 		}
 		return keys[i] > keys[j]
 	})
-- 
2.43.0


From 4619439665c0dc6ec5937b8379bb2de465b8a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:16 +0000
Subject: [PATCH 36/81] fix: report the same error each time when several
 values are invalid

---
 set.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index d6b3bea..97c1063 100644
--- a/set.go
+++ b/set.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"maps"
 	"slices"
 	"strings"
 )
@@ -506,7 +507,9 @@ func (m BindingMap) RawOccurrences(name string) []string {
 // ApplyTo uses the given binding to apply the values in the
 // map
 func (m BindingMap) ApplyTo(b Binding) error {
-	for name, v := range m {
+	// In the same order each time so that the same error is reported
+	for _, name := range slices.Sorted(maps.Keys(m)) {
+		v := m[name]
 		transform, _, value, ok := b.LookupOption(name)
 		if !ok {
 			continue
-- 
2.43.0


From 89facaa71024585074bcaaaffffadaf0ca276ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:16 +0000
Subject: [PATCH 37/81] fix: binding names have the same order each time

---
 set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/set.go b/set.go
index 97c1063..6af951b 100644
--- a/set.go
+++ b/set.go
@@ -538,6 +538,7 @@ func (m BindingMap) BindingNames() []string {
 		}
 		keys = append(keys, k)
 	}
+	slices.Sort(keys)
 	return keys
 }
 
-- 
2.43.0


From 621ef48d2dcbd968eac620fb867a8fb66570429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:16 +0000
Subject: [PATCH 38/81] fix: provider names have the same order each time

---
 extensions/provider/provider.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 5c45806..efc4058 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -375,6 +375,7 @@ func (m Map) ProviderNames() []string {
 		keys[i] = k
 		i++
 	}
+	sort.Strings(keys)
 	return keys
 }
 
@@ -390,6 +391,7 @@ func (d Details) ProviderNames() []string {
 		keys[i] = k
 		i++
 	}
+	sort.Strings(keys)
 	return keys
 }
 
-- 
2.43.0


From d98931297bca648e7f0e40b2446a21a787364822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:24 +0000
Subject: [PATCH 39/81] fix: report the same unknown provider argument each
 time

---
 extensions/provider/provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index efc4058..9ad286a 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -23,6 +23,7 @@ import (
 	"fmt"
 	"maps"
 	"reflect"
+	"slices"
 	"sort"
 	"strings"
 
@@ -330,7 +331,7 @@ func validateProviderExists(c *cli.Context) error {
 	if !exists {
 		return fmt.Errorf("unknown %q %s", v.Name, provider)
 	}
-	for k := range v.rawArgs {
+	for _, k := range slices.Sorted(maps.Keys(v.rawArgs)) {
 		if _, exists := p[k]; !exists {
 			return fmt.Errorf("unknown argument %q for %q %s", k, v.Name, provider)
 		}
-- 
2.43.0


From 8d47e1d3f29610155ffad84c25c152e43887255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:28 +0000
Subject: [PATCH 40/81] fix: values set later aren't taken to be implied after
 an implied value failed

---
 action.go | 16 +++++++++++-----
 option.go |  7 -------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/action.go b/action.go
index 86f37e7..2004d85 100644
--- a/action.go
+++ b/action.go
@@ -1728,16 +1728,22 @@ func (p *actionPipelines) pipeline(t Timing) Action {
 func (w withTimingWrapper) Execute(ctx context.Context) error {
 	c := FromContext(ctx)
 	if w.t == ImplicitValueTiming {
-		return c.act(Pipeline(
-			setInternalFlag(internalFlagImplicitTimingActive),
-			w.Action,
-			unsetInternalFlag(internalFlagImplicitTimingActive),
-		), BeforeTiming, false)
+		return c.act(withImplicitTiming(w.Action), BeforeTiming, false)
 	}
 
 	return c.act(w.Action, w.t, false)
 }
 
+func withImplicitTiming(a Action) ActionFunc {
+	return func(c *Context) error {
+		if !c.target.internalFlags().implicitTimingActive() {
+			c.target.setInternalFlags(internalFlagImplicitTimingActive, true)
+			defer c.target.setInternalFlags(internalFlagImplicitTimingActive, false)
+		}
+		return Do(c, a)
+	}
+}
+
 func (b beforePipeline) Execute(c context.Context) error {
 	return ActionPipeline(append(append(append(b[0], b[1]...), b[2]...), b[3]...)).Execute(c)
 }
diff --git a/option.go b/option.go
index f9fa999..0e8649f 100644
--- a/option.go
+++ b/option.go
@@ -520,13 +520,6 @@ func setInternalFlag(f internalFlags) ActionFunc {
 	}
 }
 
-func unsetInternalFlag(f internalFlags) ActionFunc {
-	return func(c *Context) error {
-		c.target.setInternalFlags(f, false)
-		return nil
-	}
-}
-
 func noOption(c *Context) error {
 	f := c.Flag()
 
-- 
2.43.0


From c3858dcc6ab95b2ac99f80de477c91c78e51ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 41/81] fix: the current app is the outer one again after an
 app was run within an app

---
 app.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 0e21331..3d8b2c4 100644
--- a/app.go
+++ b/app.go
@@ -271,9 +271,10 @@ func (a *App) Initialize(c context.Context) (context.Context, error) {
 }
 
 func provideCurrentApp(a *App) func() {
+	previous := CurrentApp()
 	SetCurrentApp(a)
 	return func() {
-		SetCurrentApp(nil)
+		SetCurrentApp(previous)
 	}
 }
 
-- 
2.43.0


From 0b523c25af2ed7791260b9fce575b166b6743baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:42 +0000
Subject: [PATCH 42/81] fix: leave the directory when one of its generators
 fails

---
 extensions/template/dir.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensions/template/dir.go b/extensions/template/dir.go
index 4f2f585..fe53b5e 100644
--- a/extensions/template/dir.go
+++ b/extensions/template/dir.go
@@ -18,6 +18,7 @@ func (d *dirGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	for _, g := range d.contents {
 		err := c.Do(ctx, g)
 		if err != nil {
+			_ = c.PopDir()
 			return err
 		}
 	}
-- 
2.43.0


From 87657ccbd31a2c3a4e7bafec3012480c4b8ae7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:13 +0000
Subject: [PATCH 43/81] fix: close the files that were opened when another one
 can't be

---
 action.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/action.go b/action.go
index 2004d85..b5d4042 100644
--- a/action.go
+++ b/action.go
@@ -1268,6 +1268,7 @@ func TransformOptionalFileReference(f fs.FS) TransformFunc {
 			if strings.HasPrefix(s, "@") {
 				f, err := f.Open(s[1:])
 				if err != nil {
+					closeReaders(readers[:i])
 					return nil, err
 				}
 				readers[i] = f
@@ -1286,6 +1287,7 @@ func TransformFileReference(f fs.FS) TransformFunc {
 		for i, s := range raw[1:] {
 			f, err := f.Open(s)
 			if err != nil {
+				closeReaders(readers[:i])
 				return nil, err
 			}
 			readers[i] = f
@@ -1294,6 +1296,14 @@ func TransformFileReference(f fs.FS) TransformFunc {
 	}
 }
 
+func closeReaders(readers []io.Reader) {
+	for _, r := range readers {
+		if c, ok := r.(io.Closer); ok {
+			_ = c.Close()
+		}
+	}
+}
+
 // FromEnv loads the flag or arg value from the given environment variable(s).
 // Alternatively, you can set the EnvVars field on Flag or Arg to achieve the same
 // behavior.
-- 
2.43.0


From 39dd99caea347d8acd5237c9bfa12b7dc222b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:18 +0000
Subject: [PATCH 44/81] fix: SetColor keeps whether color is to be on when it
 is deferred

---
 usage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usage.go b/usage.go
index 798e5cc..7ce0236 100644
--- a/usage.go
+++ b/usage.go
@@ -164,7 +164,7 @@ func SetColor(enabled bool) Action {
 		// It is possible if this is called early, it will need to be
 		// deferred
 		if c.IsInitializing() && c.Stdout == nil {
-			return c.Before(SetColor(true))
+			return c.Before(SetColor(enabled))
 		}
 
 		c.SetColor(enabled)
-- 
2.43.0


From 51f8207b1154b02ebc00cf5a4a4c928f688a5177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:26 +0000
Subject: [PATCH 45/81] fix: a writer of a color writer writes color when it
 says so

---
 usage.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/usage.go b/usage.go
index 7ce0236..72f648c 100644
--- a/usage.go
+++ b/usage.go
@@ -152,10 +152,11 @@ func (c *Context) NewBuffer() *buffer {
 
 // NewWriter creates a new writer with support for color if TTY is detected
 func NewWriter(w io.Writer) Writer {
-	return &stringHelper{
-		Writer:  ansiterm.NewWriter(w),
-		enabled: colorEnabled(w),
+	res := &stringHelper{
+		Writer: ansiterm.NewWriter(w),
 	}
+	res.SetColorCapable(colorEnabled(w))
+	return res
 }
 
 // SetColor enables or disables color output on stdout.
-- 
2.43.0


From 87b33e0120ba1ecb67b788170748b0a1db9d3b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:34 +0000
Subject: [PATCH 46/81] fix: auto detection of color considers the actual
 output

---
 usage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/usage.go b/usage.go
index 72f648c..e5e1ed9 100644
--- a/usage.go
+++ b/usage.go
@@ -540,7 +540,8 @@ func (w *stringHelper) WriteString(s string) (int, error) {
 }
 
 func (w *stringHelper) ResetColorCapable() {
-	w.SetColorCapable(colorEnabled(w.Writer))
+	// What is written to, not the writer of control codes in between
+	w.SetColorCapable(colorEnabled(w.Writer.Writer))
 }
 
 func (w *stringHelper) ColorCapable() bool {
-- 
2.43.0


From 3c9e363ec0fa236c6c2f4140cba8093e6be89cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 47/81] fix: buffers have the color setting of any kind of
 writer

---
 usage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usage.go b/usage.go
index e5e1ed9..6f833a1 100644
--- a/usage.go
+++ b/usage.go
@@ -580,8 +580,8 @@ func (s *synopsisWrapper[T]) String() string {
 }
 
 func colorEnabled(w io.Writer) bool {
-	if s, ok := w.(*stringHelper); ok {
-		return s.enabled
+	if s, ok := w.(Writer); ok {
+		return s.ColorCapable()
 	}
 
 	f, ok := w.(*os.File)
-- 
2.43.0


From b0ed204c8d8c5b5152d9b6896b673f32af9f04be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:47 +0000
Subject: [PATCH 48/81] fix: the default color can be set in a template

---
 extensions/color/color_templates.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/color/color_templates.go b/extensions/color/color_templates.go
index a72c33c..1b188c6 100644
--- a/extensions/color/color_templates.go
+++ b/extensions/color/color_templates.go
@@ -136,8 +136,8 @@ func (t *templateContext) resetColor() func() string {
 }
 
 func (t *templateContext) setColor(color string, a ...any) (string, error) {
-	if _, ok := colorNames[color]; ok {
-		return t.funcs[color].(sprinter)(a...)
+	if f, ok := colorNames[color]; ok {
+		return t.sprintForegroundColor(f)(a...)
 	}
 	return "", fmt.Errorf("not valid color: %q", color)
 }
-- 
2.43.0


From df2cd999df40d05939c00d777425587942ca8888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:12 +0000
Subject: [PATCH 49/81] fix: emoji depends on the current color setting, as the
 styles do

---
 extensions/color/color_templates.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/extensions/color/color_templates.go b/extensions/color/color_templates.go
index 1b188c6..fb52d72 100644
--- a/extensions/color/color_templates.go
+++ b/extensions/color/color_templates.go
@@ -10,8 +10,6 @@ import (
 type templateContext struct {
 	c     *cli.Context
 	funcs map[string]any
-
-	colorEnabledCache *bool
 }
 
 type sprinter = func(...any) (string, error)
@@ -211,10 +209,6 @@ func (t *templateContext) emoji(name string) (string, error) {
 }
 
 func (t *templateContext) colorEnabled() bool {
-	if t.colorEnabledCache == nil {
-		res := t.c.NewBuffer()
-		enabled := res.ColorCapable()
-		t.colorEnabledCache = &enabled
-	}
-	return *t.colorEnabledCache
+	// Like the styles, which depend on the setting at the time
+	return t.c.NewBuffer().ColorCapable()
 }
-- 
2.43.0


From 1c02107564652ea9512fee307f5204d6b828ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:11 +0000
Subject: [PATCH 50/81] fix: text that is not that of an option or timing is
 refused

---
 action.go |  2 +-
 option.go | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/action.go b/action.go
index b5d4042..4cd9254 100644
--- a/action.go
+++ b/action.go
@@ -1479,7 +1479,7 @@ func (t *Timing) UnmarshalText(b []byte) error {
 			return nil
 		}
 	}
-	return nil
+	return fmt.Errorf("unknown timing: %q", token)
 }
 
 // Describe produces a representation of the timing suitable for use in messages
diff --git a/option.go b/option.go
index 0e8649f..1f82fb3 100644
--- a/option.go
+++ b/option.go
@@ -301,19 +301,23 @@ func (o *Option) UnmarshalText(b []byte) error {
 	res := *o
 	for _, s := range strings.Split(string(b), ",") {
 		token := strings.TrimSpace(s)
-		res |= unmarshalText(token)
+		opt, ok := unmarshalText(token)
+		if !ok {
+			return fmt.Errorf("unknown option: %q", token)
+		}
+		res |= opt
 	}
 	*o = res
 	return nil
 }
 
-func unmarshalText(token string) Option {
+func unmarshalText(token string) (Option, bool) {
 	for k, v := range builtinOptionLabels {
 		if token == v {
-			return k
+			return k, true
 		}
 	}
-	return None
+	return None, token == ""
 }
 
 // Execute treats the options as if an action
-- 
2.43.0


From b156ad750610fb60bc54183f9d7960af345912aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:43 +0000
Subject: [PATCH 51/81] fix: combined filter modes have a text, and text that
 is not one is refused

---
 filter.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/filter.go b/filter.go
index feccff4..fb1d1ad 100644
--- a/filter.go
+++ b/filter.go
@@ -2,6 +2,7 @@ package cli
 
 import (
 	"context"
+	"fmt"
 	"math/bits"
 	"sort"
 	"strings"
@@ -98,7 +99,7 @@ func (f FilterModes) Matches(ctx context.Context) bool {
 
 // String produces a textual representation of the timing
 func (f FilterModes) String() string {
-	return filterModeLabels[f][1]
+	return strings.Join(f.labels(1), ", ")
 }
 
 // MarshalText provides the textual representation
@@ -108,19 +109,38 @@ func (f FilterModes) MarshalText() ([]byte, error) {
 
 // UnmarshalText converts the textual representation
 func (f *FilterModes) UnmarshalText(b []byte) error {
-	token := strings.TrimSpace(string(b))
+	var res FilterModes
+	for _, s := range strings.Split(string(b), ",") {
+		mode, ok := filterModeFromLabel(strings.TrimSpace(s))
+		if !ok {
+			return fmt.Errorf("unknown filter mode: %q", strings.TrimSpace(s))
+		}
+		res |= mode
+	}
+	*f = res
+	return nil
+}
+
+func filterModeFromLabel(token string) (FilterModes, bool) {
 	for k, y := range filterModeLabels {
 		if token == y[1] {
-			*f = k
-			return nil
+			return k, true
 		}
 	}
-	return nil
+	return 0, token == ""
+}
+
+func (f FilterModes) labels(i int) []string {
+	var res []string
+	for _, label := range decompose(filterModeLabels).items(f) {
+		res = append(res, label[i])
+	}
+	return res
 }
 
 // Describe produces a representation of the timing suitable for use in messages
 func (f FilterModes) Describe() string {
-	return filterModeLabels[f][0]
+	return strings.Join(f.labels(0), " and ")
 }
 
 func (f ContextFilterFunc) Matches(c context.Context) bool {
-- 
2.43.0


From 81d49f5dfc3243ac16557645c1d5a6048fa9ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:38 +0000
Subject: [PATCH 52/81] fix: setting a value replaces the default rather than
 being appended to it

---
 context.go |  2 +-
 value.go   | 25 +++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 77943bf..39570f9 100644
--- a/context.go
+++ b/context.go
@@ -922,7 +922,7 @@ func (c *Context) SetValue(arg any) error {
 
 		c.target.setInternalFlags(internalFlagSeenImplied, true)
 	}
-	return c.target.(option).Set(arg)
+	return optionSetValue(c.target.(option), arg)
 }
 
 // At either stores or executes the action at the given timing.
diff --git a/value.go b/value.go
index 0f10fce..e98eb9c 100644
--- a/value.go
+++ b/value.go
@@ -829,6 +829,31 @@ func optionApplyValueConventions(p any, flags internalFlags, firstOccur bool) {
 	}
 }
 
+// optionSetValue sets the value in place of the present one, which text would
+// otherwise be added to.  If the text is not valid, the present value stays.
+func optionSetValue(o option, arg any) error {
+	if _, ok := arg.(string); !ok {
+		return o.Set(arg)
+	}
+
+	restore := func() {}
+	switch p := o.value().(type) {
+	case *[]byte:
+		prev := *p
+		restore = func() { *p = prev }
+	case *[]*NameValue:
+		prev := *p
+		restore = func() { *p = prev }
+	}
+
+	o.reset()
+	err := o.Set(arg)
+	if err != nil {
+		restore()
+	}
+	return err
+}
+
 func optionSetOccurrence(o option, values ...string) error {
 	o.nextOccur()
 	for _, arg := range values {
-- 
2.43.0


From 2c63a79b4919a4245a9d09b3544c81b9530f511a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:52 +0000
Subject: [PATCH 53/81] fix: FromFilePath uses the file system of each context
 it is run in

---
 action.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index 4cd9254..da2c740 100644
--- a/action.go
+++ b/action.go
@@ -1353,14 +1353,15 @@ func flagScreamingSnakeCase(o option) string {
 // Alternatively, you can set the Flag or Arg field FilePath.
 func FromFilePath(f fs.FS, filePath string) Action {
 	return Implicitly(ActionFunc(func(c *Context) error {
-		if f == nil {
-			f = c.actualFS()
-		}
 		if c.ImplicitlySet() {
 			return nil
 		}
 		if len(filePath) > 0 {
-			data, err := fs.ReadFile(f, filePath)
+			fsys := f
+			if fsys == nil {
+				fsys = c.actualFS()
+			}
+			data, err := fs.ReadFile(fsys, filePath)
 			if err == nil {
 				c.SetValue(string(data))
 				return nil
-- 
2.43.0


From f1917b5cfea22352ca6ce63d1d23a3dc7e04c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:49 +0000
Subject: [PATCH 54/81] fix: splitting a list with an escaped separator neither
 repeats items nor keeps the escape

---
 internal/support/support.go | 37 ++++++++++++++++++++-----------------
 value.go                    |  2 +-
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/internal/support/support.go b/internal/support/support.go
index 732845d..abeff61 100644
--- a/internal/support/support.go
+++ b/internal/support/support.go
@@ -2,7 +2,6 @@ package support
 
 import (
 	"os"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -18,8 +17,8 @@ func ParseMap(values []string) map[string]string {
 		k := SplitList(kvp, "=", 2)
 		switch len(k) {
 		case 2:
-			key = k[0]
-			value = k[1]
+			key = Unescape(k[0])
+			value = Unescape(k[1])
 		case 1:
 			// Implies comma was meant to be escaped
 			// -m key=value,s,t  --> interpreted as key=value,s,t rather than s and t keys
@@ -30,6 +29,11 @@ func ParseMap(values []string) map[string]string {
 	return res
 }
 
+// Unescape removes the escape characters from the text
+func Unescape(s string) string {
+	return strings.ReplaceAll(s, "\\", "")
+}
+
 func FormatMap(m map[string]string, delim string) string {
 	items := make([]string, len(m))
 	var i int
@@ -46,26 +50,25 @@ func SplitList(s, sep string, n int) []string {
 	if s == "" {
 		return nil
 	}
-	if strings.Contains(s, "\\") {
-		regex := regexp.MustCompile(`(^|[^\\])` + regexp.QuoteMeta(sep))
-		matches := regex.FindAllStringSubmatchIndex(s, n)
-
-		if len(matches) == 0 {
-			return []string{s}
-		}
-
+	if strings.Contains(s, "\\") && n != 0 {
 		unquote := func(x string) string {
-			return strings.ReplaceAll(x, "\\", "")
+			return strings.ReplaceAll(x, "\\"+sep, sep)
 		}
 		res := make([]string, 0)
 
 		var last int
-		for _, match := range matches {
-			res = append(res, unquote(s[last:match[1]-1]))
-			res = append(res, unquote(s[match[2]+1+1:]))
-			last = match[2] + 1 + 1
+		for i := 0; i < len(s); i++ {
+			if n > 0 && len(res) == n-1 {
+				break
+			}
+			if !strings.HasPrefix(s[i:], sep) || (i > 0 && s[i-1] == '\\') {
+				continue
+			}
+			res = append(res, unquote(s[last:i]))
+			last = i + len(sep)
+			i = last - 1
 		}
-		return res
+		return append(res, unquote(s[last:]))
 	}
 	return strings.SplitN(s, sep, n)
 }
diff --git a/value.go b/value.go
index e98eb9c..eea4ee3 100644
--- a/value.go
+++ b/value.go
@@ -774,7 +774,7 @@ func splitValuePair(arg string) (k, v string, hasValue bool) {
 	if len(a) == 1 {
 		return a[0], "true", false
 	}
-	return a[0], a[1], true
+	return support.Unescape(a[0]), support.Unescape(a[1]), true
 }
 
 func optionReset(p any, flags internalFlags) {
-- 
2.43.0


From 8b82440712cdf521d99a9e81480b3d8b0eb4434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:05 +0000
Subject: [PATCH 55/81] fix: a single dash that no arg takes is an error rather
 than a panic

---
 set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 6af951b..e317cb4 100644
--- a/set.go
+++ b/set.go
@@ -238,7 +238,7 @@ Parsing:
 				if err != nil {
 					// Not accepted as an argument, possibly a flag per usual out of
 					// order
-					if len(arg) > 0 && arg[0] == '-' && state == flagsOrArgs {
+					if len(arg) > 1 && arg[0] == '-' && state == flagsOrArgs {
 						break
 					}
 					if isHardArgCountErr(err) {
-- 
2.43.0


From b35cf1d6b565e4971285ac03bfc68f0c600d7a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:12 +0000
Subject: [PATCH 56/81] fix: a pattern longer than the path does not match it

---
 context.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 39570f9..08486d0 100644
--- a/context.go
+++ b/context.go
@@ -1491,7 +1491,10 @@ func (cp contextPathPattern) Match(c ContextPath) bool {
 	if len(cp.parts) == 0 {
 		return true
 	}
-	for i, j := len(cp.parts)-1, len(c)-1; i >= 0 && j >= 0; i, j = i-1, j-1 {
+	if len(cp.parts) > len(c) {
+		return false
+	}
+	for i, j := len(cp.parts)-1, len(c)-1; i >= 0; i, j = i-1, j-1 {
 		if !matchField(cp.parts[i], c[j]) {
 			return false
 		}
-- 
2.43.0


From 99d2b0d9da064b678dccfa715bf638ce356216d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:55 +0000
Subject: [PATCH 57/81] fix: the path of a context has the name its target has
 now

---
 context.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/context.go b/context.go
index 08486d0..be96f5f 100644
--- a/context.go
+++ b/context.go
@@ -48,9 +48,8 @@ type Context struct {
 	timing   Timing
 	request  *CompletionRequest
 
-	parent    *Context
-	pathCache ContextPath
-	ref       context.Context
+	parent *Context
+	ref    context.Context
 }
 
 // WalkFunc provides the callback for the Walk function
@@ -1113,13 +1112,6 @@ func (c *Context) Path() ContextPath {
 	if c == nil {
 		return nil
 	}
-	if len(c.pathCache) == 0 {
-		c.pathCache = c.pathSlow()
-	}
-	return c.pathCache
-}
-
-func (c *Context) pathSlow() ContextPath {
 	res := make([]string, 0)
 	c.lineageFunc(func(ctx *Context) {
 		res = append(res, ctx.Name())
-- 
2.43.0


From 7f2fcc9d0901c24bb3c0b8fd0327781345ae20c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:28 +0000
Subject: [PATCH 58/81] fix: an alias of a flag is not taken by an arg or an
 inherited flag of that name

---
 set.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/set.go b/set.go
index e317cb4..4a6ddc3 100644
--- a/set.go
+++ b/set.go
@@ -409,18 +409,16 @@ func (b *bindingImpl) LookupOption(name string) (TransformFunc, ArgCounter, Bind
 }
 
 func (b *bindingImpl) ResolveAlias(name string) (string, bool) {
-	if _, ok := b.names[name]; ok {
-		return name, true
-	}
+	options := b.longOptions
 	if len(name) == 1 {
-		if r, ok := b.shortOptions[name]; ok {
-			return r, ok
-		}
-		return "", false
+		options = b.shortOptions
 	}
-	if r, ok := b.longOptions[name]; ok {
+	if r, ok := options[name]; ok {
 		return r, ok
 	}
+	if _, ok := b.names[name]; ok {
+		return name, true
+	}
 	return "", false
 }
 
@@ -450,6 +448,9 @@ func (b *bindingImpl) defineFlag(f *Flag) {
 		if len(alias) == 1 {
 			options = b.shortOptions
 		}
+		if _, ok := b.names[alias]; ok {
+			continue
+		}
 		if _, ok := options[alias]; !ok {
 			options[alias] = name
 		}
-- 
2.43.0


From d230c7e7ccf88ae1155d8cc4ecc2f38dd499e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:38 +0000
Subject: [PATCH 59/81] fix: a value can be read by an alias of its flag

---
 set.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 4a6ddc3..df28f7c 100644
--- a/set.go
+++ b/set.go
@@ -467,7 +467,14 @@ func (s *set) lookupValue(name string) (any, bool) {
 	if s.Binding == nil {
 		return nil, false
 	}
-	if _, _, g, ok := s.Binding.LookupOption(name); ok {
+	_, _, g, ok := s.Binding.LookupOption(name)
+	if _, isArg := g.(*Arg); !isArg {
+		// An alias of a nearer flag precedes the name of an inherited one
+		if flag, found := s.Binding.ResolveAlias(name); found {
+			_, _, g, ok = s.Binding.LookupOption(flag)
+		}
+	}
+	if ok {
 		return g.(option).value(), true
 	}
 	return nil, false
-- 
2.43.0


From 5463bf894a8afe309a533860d88e280d14be3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:44 +0000
Subject: [PATCH 60/81] fix: a word that does not start with a dash is no
 expression operator

---
 extensions/expr/expr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 21021ed..783ccb0 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -779,7 +779,11 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		arg := args[0]
 		args = args[1:]
 
-		expr, ok := exprs[arg[1:]]
+		name, ok := strings.CutPrefix(arg, "-")
+		if !ok {
+			return nil, nil, unknownExpr(arg)
+		}
+		expr, ok := exprs[name]
 		if !ok {
 			return nil, nil, unknownExpr(arg)
 		}
-- 
2.43.0


From efd879b3057f70fb4abf1eaa5b2a4bfc664686de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:50 +0000
Subject: [PATCH 61/81] fix: expression operators are not taken for the args of
 the operator before them

---
 extensions/expr/expr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 783ccb0..838bf8e 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -826,6 +826,12 @@ func (b *exprBinding) Expr() *Expr {
 	return b.expr
 }
 
+// ResolveAlias never finds an option because an expression operator only has args, and
+// what looks like an option is the next expression operator
+func (s *exprSet) ResolveAlias(string) (string, bool) {
+	return "", false
+}
+
 func (s *exprSet) lookupValue(name string) (any, bool) {
 	if _, _, g, ok := s.Binding.LookupOption(name); ok {
 		return g.(*cli.Arg).Value, true
-- 
2.43.0


From 6ae3e0fe741b85890fe947c8a73c54e3c438d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:07 +0000
Subject: [PATCH 62/81] fix: an evaluator that is a func() error passes the
 value on, as the others do

---
 extensions/expr/expr.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 838bf8e..da8f1df 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -413,8 +413,12 @@ func EvaluatorOf(v any) Evaluator {
 			return a()
 		})
 	case func() error:
-		return evaluatorFunc(func(context.Context, any, func(any) error) error {
-			return a()
+		return evaluatorFunc(func(_ context.Context, v any, y func(any) error) error {
+			err := a()
+			if err == nil {
+				return y(v)
+			}
+			return err
 		})
 	case bool:
 		return Invariant(a)
-- 
2.43.0


From 600199447cc27afb81f1796922063a7137b17ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:50 +0000
Subject: [PATCH 63/81] fix: hidden sub-commands are not listed on the help
 screen

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 838bcf9..50892b2 100644
--- a/templates.go
+++ b/templates.go
@@ -291,7 +291,7 @@ func commandAdapter(val *Command) *commandData {
 		VisibleArgs:        visibleArgs(val.VisibleArgs()),
 		VisibleFlags:       visibleFlags(val.VisibleFlags()),
 		VisibleCommands:    visibleCommands(val.VisibleSubcommands()),
-		CommandsByCategory: visibleCategories(groupedByCategory(val.Subcommands)),
+		CommandsByCategory: visibleCategories(groupedByCategory(val.VisibleSubcommands())),
 		FlagsByCategory:    visibleFlagCategories(groupFlagsByCategory(val.Flags)),
 		Persistent: &persistentCommandData{
 			VisibleFlags: []*flagData{},
-- 
2.43.0


From 0dd775b1fd149f497a7746102bca6b3f5491be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:50 +0000
Subject: [PATCH 64/81] fix: hidden sub-commands are not offered as completions

---
 command.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/command.go b/command.go
index ee04332..e4cb3fb 100644
--- a/command.go
+++ b/command.go
@@ -370,14 +370,15 @@ func completeSubCommand(c *Context) []CompletionItem {
 
 	if len(invoke) == 0 {
 		cmd := c.Command()
-		res := make([]CompletionItem, 0, len(cmd.Subcommands))
+		visible := cmd.VisibleSubcommands()
+		res := make([]CompletionItem, 0, len(visible))
 
-		for _, s := range cmd.Subcommands {
+		for _, s := range visible {
 			if detect(s.Name) {
 				res = append(res, CompletionItem{Value: s.Name, HelpText: s.HelpText})
 			}
 		}
-		for _, s := range cmd.Subcommands {
+		for _, s := range visible {
 			for _, alias := range s.Aliases {
 				if detect(alias) {
 					res = append(res, CompletionItem{Value: alias, HelpText: s.HelpText})
-- 
2.43.0


From 47215ca43d7d9a03f8813865616db3b473f823c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:51 +0000
Subject: [PATCH 65/81] fix: hidden args are not part of the synopsis of a
 command

---
 command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index e4cb3fb..306a502 100644
--- a/command.go
+++ b/command.go
@@ -496,11 +496,12 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 
 func (c *Command) newSynopsis() *synopsis.Command {
 	flags := make([]*synopsis.Flag, len(c.Flags))
-	args := make([]*synopsis.Arg, len(c.Args))
+	visibleArgs := c.VisibleArgs()
+	args := make([]*synopsis.Arg, len(visibleArgs))
 	for i, f := range c.Flags {
 		flags[i] = f.synopsis()
 	}
-	for i, a := range c.Args {
+	for i, a := range visibleArgs {
 		args[i] = a.newSynopsis()
 	}
 
-- 
2.43.0


From f6155d8da1f9d74a71c05079b6c6b74cb3bd582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:17 +0000
Subject: [PATCH 66/81] fix: required flags are separated from what is before
 them in the synopsis

---
 internal/synopsis/synopsis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index cf58829..6611b5b 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -241,6 +241,7 @@ func (c *Command) WriteTo(sb styleWriter) {
 
 	if flags := c.Flags[Other]; len(flags) > 0 {
 		for _, f := range flags {
+			sb.WriteString(" ")
 			f.primaryWriteTo(sb)
 		}
 	}
-- 
2.43.0


From e73174eadefcc8cd2b781fea5264898a37590372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:24 +0000
Subject: [PATCH 67/81] fix: optional args are separated from each other in the
 synopsis

---
 internal/synopsis/synopsis.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 6611b5b..f38797e 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -356,6 +356,9 @@ func writeArgList(sb styleWriter, rtl bool, req, opt []*Arg) {
 					sb.WriteString(" ")
 				}
 			} else {
+				if i > 0 {
+					sb.WriteString(" ")
+				}
 				sb.WriteString("[")
 			}
 			arg.WriteTo(sb)
-- 
2.43.0


From 3fd1ea86d96fef206328d96b97497bf95a77a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:30 +0000
Subject: [PATCH 68/81] fix: required args are not optional in the synopsis of
 a right-to-left command

---
 internal/synopsis/synopsis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index f38797e..6ffb44e 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -103,7 +103,7 @@ func NewCommand(name string, flags []*Flag, args []*Arg, rtl bool) *Command {
 	var optional []*Arg
 
 	if rtl {
-		var start int
+		start := len(args)
 		for i, p := range args {
 			if p.Optional {
 				start = i
-- 
2.43.0


From 39b1b3aefb22ded9f424a2df6423fc077e60c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:22 +0000
Subject: [PATCH 69/81] fix: a flag hidden after its synopsis was used is not
 shown in the synopsis of its command

---
 flag.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flag.go b/flag.go
index dbffa75..e99a391 100644
--- a/flag.go
+++ b/flag.go
@@ -226,7 +226,9 @@ func (f *Flag) cacheSynopsis(syn *synopsis.Flag) *synopsis.Flag {
 func (f *Flag) synopsis() *synopsis.Flag {
 	if f.Data != nil {
 		if a, ok := f.Data[synopsisKey]; ok {
-			return a.(*synopsis.Flag)
+			syn := a.(*synopsis.Flag)
+			syn.Group = getGroup(f)
+			return syn
 		}
 	}
 	return f.cacheSynopsis(f.newSynopsis())
-- 
2.43.0


From 56e5666be92b207fe5c19009fdb2960bfd5afb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:22 +0000
Subject: [PATCH 70/81] fix: asking for help after args or values of flags is
 not an error

---
 usage.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/usage.go b/usage.go
index 6f833a1..f811fe1 100644
--- a/usage.go
+++ b/usage.go
@@ -260,10 +260,18 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 			})
 
 			// Use either the parent path or this inferred command,
-			// whicever is longer and therefore more specific.
-			if len(c.Parent().Path()) >= len(command) {
-				return c.Parent(), c.Parent().Path(), nil
+			// whicever is longer and therefore more specific.  Words
+			// which aren't names of commands (they could be args or values
+			// of flags) don't take part.
+			parent := c.Parent().Path()
+			command = append(slices.Clone(parent[:len(parent)-1]), command...)
+			for len(command) > len(parent) {
+				if cmd, path, ok := findCommandAtPath(c, command); ok {
+					return cmd, path, nil
+				}
+				command = command[:len(command)-1]
 			}
+			return c.Parent(), parent, nil
 
 		} else {
 			list, _ := c.Value("command").([]string)
@@ -271,17 +279,22 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 		}
 	}
 
+	if cmd, path, ok := findCommandAtPath(c, command); ok {
+		return cmd, path, nil
+	}
+	return nil, nil, commandMissing(command[len(command)-1])
+}
+
+func findCommandAtPath(c *Context, command []string) (*Context, ContextPath, bool) {
 	// App name might be automatic or contain paths, so find target
 	// can find anything at the app level
-	command2 := slices.Clone(command)
-	if len(command2) > 0 {
-		command2[0] = "*"
-		command[0] = c.Root().Name()
-	}
-	if cmd, ok := c.Root().FindTarget(ContextPath(command2)); ok {
-		return cmd, command, nil
+	pattern, path := slices.Clone(command), slices.Clone(command)
+	if len(command) > 0 {
+		pattern[0] = "*"
+		path[0] = c.Root().Name()
 	}
-	return nil, nil, commandMissing(command[len(command)-1])
+	cmd, ok := c.Root().FindTarget(ContextPath(pattern))
+	return cmd, path, ok && cmd.IsCommand()
 }
 
 // PrintVersion displays the version string.  The VersionTemplate provides the Go template
-- 
2.43.0


From 434a857270ba7b3f4dee6bc92175ba1bae4432f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:05 +0000
Subject: [PATCH 71/81] fix: flags that have a mirror flag are offered as
 completions by their own names

---
 command.go    | 4 ++--
 completion.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/command.go b/command.go
index 306a502..f08c727 100644
--- a/command.go
+++ b/command.go
@@ -417,7 +417,7 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		}
 
 		for _, f := range cmd.VisibleFlags() {
-			for _, n := range f.synopsis().Names {
+			for _, n := range f.newSynopsis().Names {
 				if strings.HasPrefix(n, cc.Incomplete) {
 					items = append(items, CompletionItem{Value: n, HelpText: f.HelpText})
 				}
@@ -469,7 +469,7 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 	var matchName string
 
 	for _, f := range cmd.VisibleFlags() {
-		for _, n := range f.synopsis().Names {
+		for _, n := range f.newSynopsis().Names {
 			if n == cc.Incomplete || (hasArg && strings.HasPrefix(n, flagName)) {
 				return actualCompletion(f.completion()).Complete(c.newChild(f))
 			}
diff --git a/completion.go b/completion.go
index 4e1ed3b..def0ba3 100644
--- a/completion.go
+++ b/completion.go
@@ -195,7 +195,7 @@ func CompletionValues(values ...string) Completion {
 				}
 				return res
 			}
-			for _, n := range o.synopsis().Names {
+			for _, n := range o.newSynopsis().Names {
 				var prefix string
 				if len(n) == 2 { // as in -s short names
 					prefix = n // Force run-in style, which is most compatible
-- 
2.43.0


From c7ce08cf592cee0481d3e9cf1e0d05a0788f0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:13 +0000
Subject: [PATCH 72/81] fix: values are completed for the flag that was named,
 not for one with a longer name

---
 command.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command.go b/command.go
index f08c727..949fd65 100644
--- a/command.go
+++ b/command.go
@@ -470,7 +470,7 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 
 	for _, f := range cmd.VisibleFlags() {
 		for _, n := range f.newSynopsis().Names {
-			if n == cc.Incomplete || (hasArg && strings.HasPrefix(n, flagName)) {
+			if n == cc.Incomplete || (hasArg && n == flagName) {
 				return actualCompletion(f.completion()).Complete(c.newChild(f))
 			}
 			if strings.HasPrefix(n, cc.Incomplete) {
-- 
2.43.0


From 3662b2fdb39f2c01b621c661958cce679361b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:39 +0000
Subject: [PATCH 73/81] fix: an error of a custom counter does not make
 completion panic

---
 command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index 949fd65..0272233 100644
--- a/command.go
+++ b/command.go
@@ -426,8 +426,9 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		return items
 	}
 
-	if cc.Err != nil {
-		name := cc.Err.(*ParseError).Name
+	var parseErr *ParseError
+	if errors.As(cc.Err, &parseErr) {
+		name := parseErr.Name
 
 		if strings.HasPrefix(name, "-") {
 			flag, ok := cmd.Flag(name)
-- 
2.43.0


From c10aee0ec96a56577bcc3aced2690b70d80085bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:49 +0000
Subject: [PATCH 74/81] fix: completions with help text of several lines are
 formatted as one item

---
 completion_zsh.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/completion_zsh.go b/completion_zsh.go
index 9615206..e1e935c 100644
--- a/completion_zsh.go
+++ b/completion_zsh.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"strconv"
+	"strings"
 )
 
 type zshComplete struct {
@@ -79,7 +80,8 @@ func (z *zshComplete) FormatCompletions(items []CompletionItem) string {
 }
 
 func (z *zshComplete) formatCompletion(item CompletionItem) string {
-	itemDesc := item.HelpText
+	// The response has one line for each part of an item
+	itemDesc := strings.ReplaceAll(item.HelpText, "\n", " ")
 	if itemDesc == "" {
 		itemDesc = "_"
 	}
-- 
2.43.0


From 81662b391292e60e79f47a5fb6e9ffcf9e7f821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:06 +0000
Subject: [PATCH 75/81] fix: the flags of a sub-command that was named are
 completed rather than those of its parent

---
 command.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/command.go b/command.go
index 0272233..76c84df 100644
--- a/command.go
+++ b/command.go
@@ -409,6 +409,11 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	cmd := c.Target().(*Command)
 	var items []CompletionItem
 
+	// Once a sub-command was named, whatever follows is its own to complete
+	if arg, ok := cmd.Arg("command"); ok && len(cmd.Subcommands) > 0 && len(cc.Bindings["command"]) > 0 {
+		return actualCompletion(arg.completion()).Complete(c.newChild(arg))
+	}
+
 	if strings.HasPrefix(cc.Incomplete, "-") {
 		// If a search only finds one match, then complete the flag
 		items = findSolitaryMatch(c)
-- 
2.43.0


From 2f89be774d498c75f9d5b348c82c5e32b99c2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:47 +0000
Subject: [PATCH 76/81] fix: a double dash after the name of a sub-command is
 left to the sub-command

---
 set.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index df28f7c..3791c23 100644
--- a/set.go
+++ b/set.go
@@ -225,7 +225,7 @@ Parsing:
 		// end of options?
 		if arg == "" || arg == "-" || arg[0] != '-' || state == argsOnly {
 			for {
-				if arg == "--" {
+				if arg == "--" && !positionalOpts.takesRemaining() {
 					state = argsOnly
 					if err = positionalOpts.Done(); err != nil {
 						return
@@ -647,6 +647,12 @@ func (a *argBinding) name() string {
 	return a.names[a.index]
 }
 
+// takesRemaining is whether the current arg is the last one and takes whatever is left
+func (a *argBinding) takesRemaining() bool {
+	c, ok := a.current().(*varArgsCounter)
+	return ok && !c.stopOnFlags && a.index == len(a.takers)-1
+}
+
 func (a *argBinding) current() ArgCounter {
 	if a.index < len(a.takers) {
 		return a.takers[a.index]
-- 
2.43.0


From a13639030bcdf5d3bdeaeec2dd2f38d7690c597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:26 +0000
Subject: [PATCH 77/81] fix: a help screen does not leave its color to later
 help screens

---
 templates.go | 28 ++++++++++++++--------------
 usage.go     | 18 +++++++-----------
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/templates.go b/templates.go
index 50892b2..0f2bd5b 100644
--- a/templates.go
+++ b/templates.go
@@ -210,11 +210,11 @@ Expressions:
 	}
 )
 
-func (c *commandData) withLineage(lineage string, persistent []*Flag) *commandData {
+func (c *commandData) withLineage(lineage string, persistent []*Flag, color bool) *commandData {
 	c.Lineage = lineage
 	c.Persistent = &persistentCommandData{
-		VisibleFlags:    visibleFlags(persistent),
-		FlagsByCategory: visibleFlagCategories(groupFlagsByCategory(persistent)),
+		VisibleFlags:    visibleFlags(persistent, color),
+		FlagsByCategory: visibleFlagCategories(groupFlagsByCategory(persistent), color),
 	}
 	c.HangingIndent = len("usage: ") + len(lineage) + 1 + len(c.Name)
 	return c
@@ -228,21 +228,21 @@ func (e flagDataList) Names() []string {
 	return res
 }
 
-func visibleFlags(items []*Flag) []*flagData {
+func visibleFlags(items []*Flag, color bool) []*flagData {
 	res := make([]*flagData, 0, len(items))
 	for _, a := range items {
-		res = append(res, flagAdapter(a))
+		res = append(res, flagAdapter(a, color))
 	}
 	return res
 }
 
-func visibleFlagCategories(items flagsByCategory) []*flagDataCategory {
+func visibleFlagCategories(items flagsByCategory, color bool) []*flagDataCategory {
 	res := make([]*flagDataCategory, 0, len(items))
 	for _, a := range items {
 		res = append(res, &flagDataCategory{
 			Category:     a.Category,
 			Undocumented: a.Undocumented(),
-			VisibleFlags: visibleFlags(a.VisibleFlags()),
+			VisibleFlags: visibleFlags(a.VisibleFlags(), color),
 		})
 	}
 	if len(res) == 1 && res[0].Category == "" {
@@ -251,7 +251,7 @@ func visibleFlagCategories(items flagsByCategory) []*flagDataCategory {
 	return res
 }
 
-func commandAdapter(val *Command) *commandData {
+func commandAdapter(val *Command, color bool) *commandData {
 	var (
 		visibleArgs = func(items []*Arg) []*flagData {
 			res := make([]*flagData, 0, len(items))
@@ -264,7 +264,7 @@ func commandAdapter(val *Command) *commandData {
 		visibleCommands = func(items []*Command) []*commandData {
 			res := make([]*commandData, 0, len(items))
 			for _, a := range items {
-				res = append(res, commandAdapter(a))
+				res = append(res, commandAdapter(a, color))
 			}
 			return res
 		}
@@ -287,12 +287,12 @@ func commandAdapter(val *Command) *commandData {
 		Description:        val.Description,
 		HelpText:           val.HelpText,
 		ManualText:         val.ManualText,
-		Synopsis:           wrapSynopsis(val.newSynopsis()),
+		Synopsis:           wrapSynopsis(val.newSynopsis(), color),
 		VisibleArgs:        visibleArgs(val.VisibleArgs()),
-		VisibleFlags:       visibleFlags(val.VisibleFlags()),
+		VisibleFlags:       visibleFlags(val.VisibleFlags(), color),
 		VisibleCommands:    visibleCommands(val.VisibleSubcommands()),
 		CommandsByCategory: visibleCategories(groupedByCategory(val.VisibleSubcommands())),
-		FlagsByCategory:    visibleFlagCategories(groupFlagsByCategory(val.Flags)),
+		FlagsByCategory:    visibleFlagCategories(groupFlagsByCategory(val.Flags), color),
 		Persistent: &persistentCommandData{
 			VisibleFlags: []*flagData{},
 		},
@@ -306,14 +306,14 @@ func renderHelp(us *synopsis.Usage) string {
 	return sb.String()
 }
 
-func flagAdapter(val *Flag) *flagData {
+func flagAdapter(val *Flag, color bool) *flagData {
 	syn := val.newSynopsis()
 	return &flagData{
 		Name:        val.Name,
 		HelpText:    renderHelp(syn.Value.Usage),
 		ManualText:  val.ManualText,
 		Description: val.Description,
-		Synopsis:    wrapSynopsis(syn),
+		Synopsis:    wrapSynopsis(syn, color),
 		Data:        val.Data,
 	}
 }
diff --git a/usage.go b/usage.go
index f811fe1..de342ad 100644
--- a/usage.go
+++ b/usage.go
@@ -20,7 +20,6 @@ import (
 
 var (
 	controlCodes = regexp.MustCompile("\u001B\\[\\d+m")
-	usageColor   = false
 )
 
 // Template provides a wrapper around text templates to support some additional configuration
@@ -93,7 +92,8 @@ type wrapper struct {
 }
 
 type synopsisWrapper[T synopsis.Stringer] struct {
-	s T
+	s     T
+	color bool
 }
 
 // ANSI terminal styles
@@ -212,11 +212,7 @@ func DisplayHelpScreen(command ...string) Action {
 				panic("help template not registered")
 			}
 
-			// HACK Using global state to set up the usage screen rather
-			// than propagating it (quite a distance) through to synopsis
-			// wrapper
-			usageColor = c.Stdout.ColorCapable()
-
+			color := c.Stdout.ColorCapable()
 			current := ctxt.Command()
 			persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
 
@@ -229,7 +225,7 @@ func DisplayHelpScreen(command ...string) Action {
 				App             *App
 				Debug           bool
 			}{
-				SelectedCommand: commandAdapter(current).withLineage(lineage, persistentFlags),
+				SelectedCommand: commandAdapter(current, color).withLineage(lineage, persistentFlags, color),
 				App:             c.App(),
 				Debug:           tpl.Debug,
 			}
@@ -581,13 +577,13 @@ func (w *stringHelper) Styled(style Style, v ...any) (int, error) {
 	return n, err
 }
 
-func wrapSynopsis[T synopsis.Stringer](s T) *synopsisWrapper[T] {
-	return &synopsisWrapper[T]{s}
+func wrapSynopsis[T synopsis.Stringer](s T, color bool) *synopsisWrapper[T] {
+	return &synopsisWrapper[T]{s, color}
 }
 
 func (s *synopsisWrapper[T]) String() string {
 	buf := NewBuffer()
-	buf.SetColorCapable(usageColor)
+	buf.SetColorCapable(s.color)
 	s.s.WriteTo(buf)
 	return buf.String()
 }
-- 
2.43.0


From 32594a8fb30efae44f7b94a997ce35e3bc254ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:35 +0000
Subject: [PATCH 78/81] fix: a shell completion script does not take over the
 function Execute of all templates

---
 completion.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/completion.go b/completion.go
index def0ba3..ace58d9 100644
--- a/completion.go
+++ b/completion.go
@@ -3,6 +3,7 @@ package cli
 import (
 	"context"
 	"fmt"
+	"maps"
 	"os"
 	"regexp"
 	"strings"
@@ -295,7 +296,7 @@ func newSourceTemplate(name string, text string) *Template {
 	t := template.New(name)
 	return &Template{
 		Template: template.Must(
-			t.Funcs(withExecute(builtinFuncs, t)).Parse(text),
+			t.Funcs(withExecute(maps.Clone(builtinFuncs), t)).Parse(text),
 		),
 		Debug: debugTemplates(),
 	}
-- 
2.43.0


From 7fab85f2d54f1769e94b45f57f0d7b0694ecb3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:38 +0000
Subject: [PATCH 79/81] fix: a table does not fix the width of the format it
 uses for later tables

---
 extensions/table/table.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index dab603c..24c127b 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -213,10 +213,11 @@ func newTableContext(f ...*Format) *tableContext {
 	if len(f) > 1 {
 		panic("expected zero or one arg")
 	}
-	if format.ColWidth <= 0 {
-		format.ColWidth = support.GuessWidth()
+	actual := *format
+	if actual.ColWidth <= 0 {
+		actual.ColWidth = support.GuessWidth()
 	}
-	format.apply(c)
+	actual.apply(c)
 
 	c.headers = nil
 	c.footers = nil
-- 
2.43.0


From 87284460bab0c196d7d59298a38582acf32998d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:45 +0000
Subject: [PATCH 80/81] fix: an action that handles commands not found can be
 used for several commands

---
 command.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/command.go b/command.go
index 76c84df..d41091b 100644
--- a/command.go
+++ b/command.go
@@ -179,13 +179,13 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 			return nil
 		}
 
+		actual := fn
 		if existing, ok := cmd.Data[commandNotFoundKey]; ok {
 			existingFn, ok := existing.(func(*Context, error) (*Command, error))
 			if ok {
 				// Compose functions
-				newFn := fn
-				fn = func(c *Context, err1 error) (*Command, error) {
-					cmd, err := newFn(c, err1)
+				actual = func(c *Context, err1 error) (*Command, error) {
+					cmd, err := fn(c, err1)
 					if cmd != nil && err == nil {
 						return cmd, nil
 					}
@@ -193,7 +193,7 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 				}
 			}
 		}
-		c.SetData(commandNotFoundKey, fn)
+		c.SetData(commandNotFoundKey, actual)
 		return nil
 	})
 }
-- 
2.43.0


From 2fcd7096cb75cdb20381237d0d2dd81d22ebe7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:40 +0000
Subject: [PATCH 81/81] fix: appending to one pipeline does not change another

---
 action.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index da2c740..07d094e 100644
--- a/action.go
+++ b/action.go
@@ -12,6 +12,7 @@ import (
 	"os/signal"
 	"regexp"
 	"runtime/debug"
+	"slices"
 	"strings"
 	"time"
 
@@ -1629,12 +1630,12 @@ func (af actionFunc) Execute(ctx context.Context) error {
 
 // Append appends actions to the pipeline
 func (p ActionPipeline) Append(x ...Action) ActionPipeline {
-	return append(p, x...)
+	return append(slices.Clip(p), x...)
 }
 
 // Prepend prepends actions to the pipeline
 func (p ActionPipeline) Prepend(x ...Action) ActionPipeline {
-	return append(x, p...)
+	return append(slices.Clip(x), p...)
 }
 
 // Execute the pipeline by calling each action successively
-- 
2.43.0

