PROPS = []
def P(id, title, statement, over, quant, why, files, mech, tech="", note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, tech=tech, note=note, na=na))

TRUST = " Trusts the Go type checker and x/tools SSA; reflection and code outside the module are not followed; calls through user-supplied interfaces are taken by their signature."

P("C01", "An error is never silently lost",
  "Whenever a step of building, parsing or running an app fails (a hook, an action, a validator, a conversion, the file system, a writer, a provider, an expression), the failure reaches the caller as a non-nil error or the documented exit path. No operation reports success after one of the fallible operations it relies on failed, except for the few documented best-effort ones. An error that is wrapped keeps its cause available.",
  ["inputs", "fault_sequences", "configurations"],
  "for every operation of every package that can fail, and every place it fails",
  "A test provokes a few chosen failures; that no call site anywhere drops one quantifies over every call of a fallible operation and every failure of it.",
  ["context.go", "action.go", "command.go", "flag.go", "arg.go", "option.go", "file.go", "value.go", "usage.go", "lookup.go", "error.go", "extensions/*"],
  [("error results are checked and returned on every path", "all packages"), ("Cause / Err / Unwrap keep the wrapped error", "error.go")],
  "SSA error-result flow analysis over every fallible call site, with a reasoned exception table",
  "For every call returning an error (605 obligations) the analysis decides that on each feasible path on which the error is non-nil the error is returned, wrapped, stored in an accumulating list or passed on; wrappers keep the cause; recover handlers turn the panic into an error. It does not decide that the text of the error is right." + TRUST)

P("C02", "Converting text is exact: full width, all or nothing, no text ignored",
  "Text given for a flag or arg is either converted entirely or refused with an error: numbers are read at the width and signedness of the variable that receives them, with one notation for all integer types, and no part of the text is ignored. A conversion that reports failure leaves the variable as it was, and one that reports success has assigned it: a later occurrence adds to text, bytes, lists, pairs and maps what it stands for, in order, with escaped separators kept.",
  ["inputs"],
  "for every text and every supported variable type",
  "Each type has its own case with its own parser and its own order of assignment and check; tests give each type a few texts, mostly valid ones.",
  ["set.go", "value.go", "value/value.go", "extensions/color/mode.go", "extensions/provider/provider.go"],
  [("setCore: text to built-in types", "value.go"), ("Set and UnmarshalText methods", "value.go, option.go, flag.go, extensions")],
  "SSA path enumeration of every conversion; width/signedness flow from parser to destination; abstract interpretation of Flag.Set and Arg.Set against the documented result",
  "Decides assignment order, width, signedness, notation and anchoring of accepted patterns on all acyclic paths, and what each built-in type holds after text is set on the interpreted paths; the arithmetic of the standard library's parsers is trusted." + TRUST)

P("C03", "Every supported variable type is supported everywhere",
  "A variable type that is accepted for a flag or arg works in every operation on values: it can be set from text, assigned directly, copied, read back with its accessor, written as JSON and bound to a function. Each of these yields exactly that type and never shares memory with the variable it was copied from. Types that collect occurrences start empty at the first occurrence, discarding a default.",
  ["inputs", "configurations"],
  "for every supported type and every operation on values",
  "The type tables are separate switches in separate files; a test of one type in one operation says nothing about another cell of the table.",
  ["value.go", "set.go", "lookup.go", "value/value.go", "extensions/bind/binder.go", "internal/support/bind_support.go"],
  [("type switches over the supported types", "value.go, value/value.go, extensions/bind")],
  "cross-checking of sibling type switches in SSA (type-case extraction, result types, aliasing)",
  "Decides agreement of all type tables, the dynamic type and freshness of the produced values and the clearing of accumulating types; not the values themselves." + TRUST)

P("C04", "Every phase runs, in order, for every target",
  "A run goes through set-up, parsing, Before, Action and After in that order, and a later phase is entered only when the earlier one succeeded. In each phase the actions declared for it and those deferred to it all run, together with the hooks of the command and of every ancestor; validators come before Before actions, those before implicit values, and those before the check for required values. Every flag, arg, value and sub-command in scope takes part: none is skipped, and a list of actions runs all its members in order unless an earlier one failed.",
  ["inputs", "histories", "configurations"],
  "for every app definition and every command line",
  "Tests run a few definitions, each with one or two targets and hooks; that no target, hook or list member is ever left out, in any phase, quantifies over all definitions.",
  ["context.go", "command.go", "flag.go", "arg.go", "value.go", "action.go", "hook.go", "pipelines.go"],
  [("phases of a run", "context.go, command.go"), ("pipelines of each kind of target", "command.go, flag.go, arg.go, value.go"), ("action pipelines", "action.go")],
  "SSA evaluation of the pipeline tables, path order of phases, every-element-visited loop analysis",
  "Decides which steps each pipeline table holds and their order, that every loop over targets, hooks and actions visits every element on every path, and that phases are entered in order and only after success. It does not decide what user actions do." + TRUST)

P("C06", "An action registered for a timing runs at that timing or is refused",
  "Registering an action for a later phase keeps it and runs it in that phase; registering one for the current phase runs it at once; registering one for a phase that is over is an error, which is ignored only where declared optional. No registration, of an action or of a hook, is accepted for a phase in which it would never run. Each part of a set-up and each action field of a command, flag or arg runs in the phase it is named for.",
  ["histories", "inputs", "configurations"],
  "for every phase an action is registered in and every phase it is registered for",
  "The grid of current phase by registered phase by kind of registration has hundreds of cells; tests visit a handful.",
  ["action.go", "context.go", "hook.go", "timing.go", "command.go", "flag.go", "arg.go"],
  [("Context.act: schedule, run or refuse", "context.go"), ("Setup and the With* registrations", "action.go"), ("hooks", "hook.go, context.go")],
  "SSA case analysis over the timing constants, per-cell path feasibility and value flow",
  "Decides for each ordered pair of phases what scheduling does, that the stored action reaches the list of the phase named, and that each field flows to its own phase." + TRUST)

P("C16", "Looking up a value by name gives that flag's or arg's value at its own type",
  "Reading a value by name gives the value of the flag or arg whose name or alias was given, at the type of the accessor used: each accessor reads that name once, in the scope it was called on, and returns what it read unchanged. A name may be text, a character, a position, or the flag or arg itself; an element is found if and only if its name or one of its aliases is that name, and the first one that matches wins. A name not found in the present scope is looked up in the enclosing one, and a name found there is not.",
  ["inputs", "configurations"],
  "for every name, every accessor and every nesting of scopes",
  "There are some eighty accessors in three families, each a separate function; tests read a few names through a few of them.",
  ["lookup.go", "context.go", "flag.go", "arg.go", "command.go"],
  [("typed accessors of Context, Lookup and LookupFunc", "lookup.go, context.go"), ("lookup of flags, args and commands by name", "flag.go, arg.go, command.go, context.go")],
  "abstract interpretation of the SSA with symbolic names; every accessor and search on all paths",
  "Decides which name is read, how often, from which scope and at which type, and what the name searches compare. Whether the stored value is right is C02 and C03." + TRUST)

P("C17", "A prototype fills in blanks and overwrites nothing",
  "Applying a prototype gives a flag, arg or command each attribute that the prototype defines and the target leaves blank; what the target defines itself is kept, and options, aliases, environment variables and metadata are united. Attributes that the prototype does not define stay as they are, its own set-up is carried out once, and nothing at all changes where set-up has been prevented. No combination of prototype and target panics.",
  ["configurations", "inputs"],
  "for every combination of attributes of the prototype and of the target",
  "Each kind of target copies each attribute in its own statement; tests apply a few prototypes to mostly blank targets.",
  ["action.go", "flag.go", "arg.go", "command.go", "context.go"],
  [("Prototype.Execute", "action.go")],
  "abstract interpretation of the SSA, one prototype attribute and one target attribute at a time, on all paths",
  "Decides for each attribute, each kind of target, and blank or defined, what the target has afterwards. Where a value keeps its attributes itself, that it is told them." + TRUST)

P("C26", "An attribute that is set is the attribute that is read",
  "Setting the category, description, help, usage, manual or default text, completion, options, aliases or metadata of a target sets that attribute and no other, and reading the attribute gives what was set, whatever the target: command, flag, arg or value. The action named after a context operation performs that operation once, with its own arguments in order. Everything an app defines that its root command can have is defined for the root command.",
  ["inputs", "configurations"],
  "for every target, every attribute and every value it is set to",
  "There are over a hundred small setters, getters and actions, each written out separately; tests set a few and read back the one just set.",
  ["action.go", "app.go", "arg.go", "command.go", "context.go", "flag.go"],
  [("setters and getters of the targets", "flag.go, arg.go, command.go, context.go"), ("actions that perform a context operation", "action.go"), ("App.createRoot", "app.go")],
  "abstract interpretation of the SSA: set each attribute to an unknown, read every attribute back",
  "Decides for each pair of attributes of each kind of target that setting one is seen in it and in no other." + TRUST)

P("C05", "The definition changes only during set-up, and by exactly the element named",
  "Adding or removing flags, args, sub-commands or aliases, and setting a transform or optional value, works during set-up only: at any other time it is refused with the timing error and nothing changes. What is added comes last, what is removed is exactly the element that was named (by name, by position or as itself), and all other elements keep their order; naming one that does not exist changes nothing. The lists the definition was made from are left alone, so it can be used again.",
  ["histories", "inputs"],
  "for every operation, every phase and every list of elements",
  "Thirteen operations in seven phases with lists of any length; a test removes one element of one list in one phase, and reuse of a definition is not tested at all.",
  ["context.go"],
  [("Context.Add*, Remove*, SetTransform, SetOptionalValue", "context.go")],
  "abstract interpretation of the SSA at each timing, with lists of symbolic elements and shared arrays",
  "Decides the outcome for lists of up to three elements and each of them; the loops involved treat all elements alike." + TRUST)

P("C27", "Each option has the text and the effect it is named for",
  "The text of an option, of several options, of a timing and of filter modes is read back as the same value, and text that names none of them is an error that changes nothing. A set of options or features applies each one in it exactly once and no other, where a combination registered as one feature stands for its parts; an option that marks its target sets that mark and no other. Applied to a flag, an arg or a command, an option does what it is documented to: it is an error when a file that must exist does not, a working directory is entered when given, the mirror flag turns its flag off, file references are read (and closed again when one fails), flags and commands are sorted by name, and an exiting flag ends the app once its action has succeeded.",
  ["inputs", "configurations"],
  "for every option and every two options together, every file name, text, file system and error",
  "There are over twenty options with pairwise combinations, and file systems and errors that tests only sample.",
  ["option.go", "action.go", "filter.go"],
  [("builtinOptions, FeatureMap, option text", "option.go"), ("file references, doThenExit", "action.go"), ("FilterModes text", "filter.go")],
  "abstract interpretation of the SSA: each option applied to an unknown context, laws over unknown text and errors",
  "Decides text, sets, marks and effects for each option and all pairs of them; the actions an option adds for later are run on a context whose operations are recorded. EachOccurrence's values are left to other checks." + TRUST)

P("C19", "A flag or arg that is not given gets its implied value; one given keeps its own",
  "A flag or arg that was not given on the command line gets the value of the first of its environment variables that is set and not empty, or else the content of its file, read from the context's file system, or else what another implicit value says; the first source that has a value gives it, and with none the default stays. What was given on the command line is never replaced by an implied value, a flag implies the value of another only when it was itself given there, and {} in a variable's name stands for the long name in upper case with underscores. Setting a value replaces the one before it, unless merging was asked for, and leaves a built-in variable as it was when the text is not valid.",
  ["inputs", "configurations", "histories"],
  "for every value of the variables, content of the files, default and order of the sources",
  "Sources, their order, defaults and what was given combine; tests set one source at a time and start from empty variables.",
  ["action.go", "context.go", "value.go"],
  [("FromEnv, FromFilePath, ImplicitValue, Implicitly, Implies", "action.go"), ("Context.SetValue, setup of options", "context.go"), ("setting values", "value.go")],
  "abstract interpretation of the SSA: each combination of sources with unknown values, on flags and args",
  "Decides the value after each combination of up to three sources, given or not, for all texts; names of flags and variables are fixed. The environment and the file system are models that give unknown text." + TRUST)

P("C28", "A filter matches exactly the contexts it describes",
  "A path pattern matches a context if and only if each of its parts, counted from the last, matches the segment of the context's path at the same place: a part is a name, or stands for any command, flag, arg or expression, and a pattern with more parts than the path has matches nothing. A filter mode, and a combination of modes, holds for exactly the kinds and states of targets it names. An action guarded by a filter runs once, in the same context, when the filter matches; otherwise it does not run, and with an assertion that is an error.",
  ["inputs", "configurations"],
  "for every pattern, mode, kind of target and guarded action",
  "Patterns, modes and targets combine; tests try a dozen pairs of a pattern and a path and few combinations of modes.",
  ["filter.go", "context.go", "action.go"],
  [("ContextPath.Match and patterns", "context.go"), ("FilterModes.Matches", "filter.go"), ("IfMatch, Assert, Context.Matches", "action.go, context.go")],
  "abstract interpretation of the filters against the documented meaning, over an exhaustive alphabet of pattern parts",
  "Decides every pattern of up to two parts (and some longer ones) over an alphabet with a representative of each kind of part, for paths of up to four segments; every mode and pair of modes for each kind of target. Combinations of two kinds of targets other than Anything are not decided (the documentation does not say what they mean)." + TRUST)

P("C29", "Values go through the operators of an expression as it was written",
  "Each word of an expression that starts with a dash is the operator of that name or alias, with the words after it as its args; the operators come in the order they were written, each use of one keeps its own args, and a word that is neither is an error. Each value that is evaluated goes through the operators in order, each of which is given exactly what the one before it yields, and the first error ends the evaluation and is its result. An evaluator made of a function calls it once, with its context and value as far as it takes them, and passes the value on if and only if the function says so by what it returns; a bool always or never does.",
  ["inputs", "configurations", "histories"],
  "for every value, word, error and what evaluators answer, over a set of shapes of expressions",
  "Operators, their answers, the values and the place of errors combine; tests evaluate a few fixed pipelines.",
  ["extensions/expr/expr.go", "set.go"],
  [("EvaluatorOf, Predicate, Invariant, Error, EvaluatorFunc", "extensions/expr/expr.go"), ("Expression.Evaluate, Walk, Bindings, Append, Prepend", "extensions/expr/expr.go"), ("the words of an expression and the args of its operators", "extensions/expr/expr.go")],
  "abstract interpretation of the SSA: laws about drivers that use the extension, every path of which must end in true",
  "Decides each documented signature of an evaluator, pipelines of up to four operators that filter, repeat, yield others and fail at the first to third value, and expressions of up to three operators with up to two args each, for all words and values. An operator's Before, After and Uses, and the display of expressions, are not decided." + TRUST)

P("C15", "Synopses and help screens list what is visible, once and in its documented form",
  "The visible flags, args and sub-commands of a command are those that are not hidden, in order; what has a name that starts with an underscore is hidden unless it was made visible or that behavior is disabled for it or what contains it. The synopsis of a command has each visible flag and arg once: in braces those that exit, then short switches grouped and sorted, then other flags, in brackets unless required, then args, with an ellipsis if they take several; a flag's own synopsis is its first short and first long name and what stands for its value. A help screen is about the command that the words before and after the help flag, or those given to the help command, name, whatever else is among them; it lists what is visible there, each category once and sorted by name, and the visible flags of the commands above it.",
  ["inputs", "configurations"],
  "for every combination of up to two kinds of flags and up to three args, and each way of asking for help in a tree of commands",
  "Kinds, names, order and visibility of flags and args multiply; tests compare a few fixed screens.",
  ["command.go", "flag.go", "usage.go", "internal/synopsis/synopsis.go"],
  [("synopses of commands, flags and args", "internal/synopsis/synopsis.go"), ("VisibleFlags, VisibleArgs, VisibleSubcommands, categories", "command.go"), ("DisplayHelpScreen and which command it is about", "usage.go"), ("names that hide", "context.go")],
  "abstract interpretation of the SSA: laws about drivers that make commands and ask for synopses and help, every path of which must end in true",
  "Decides the text of synopses, lists and the data a help screen is rendered from; names are examples, as the code only compares and joins them. The templates that lay the data out, wrapping, colors, placeholders written in a help text, and the synopses of expressions are not decided." + TRUST)

P("C25", "Completion offers what can be typed next",
  "Completing a word that starts with a dash offers the names of the visible flags that start with it, in order, or only the flag when it can be one (with an equal sign and no space if it takes a value), and the values of a flag in whichever form it is typed (--flag=V, --flag V, -fV, -f V) that start with what was typed. Any other word is completed by the next arg that has no value, or for sub-commands by the names and aliases of visible ones; after the name of a sub-command, that one completes the rest. A completion that was given explicitly replaces these and is asked once with what was typed, errors in what was typed so far do not matter, and a completion request from the environment is answered on standard output with an item in four lines each, and the program ends with success.",
  ["inputs", "configurations"],
  "for every position and form of the word that is completed in commands with flags, args and sub-commands of each kind",
  "What was typed before, the form of the word, what is hidden, and where the completion comes from multiply; tests complete a few fixed lines.",
  ["command.go", "completion.go", "completion_zsh.go"],
  [("completions of commands and sub-commands", "command.go"), ("Context.Complete, CompletionValues, standard completions, requests from the environment", "completion.go"), ("what the shell asks and is answered", "completion_zsh.go")],
  "abstract interpretation of the SSA: laws about drivers that make commands and ask them for completions, every path of which must end in true",
  "Decides which items are offered, with their texts, kinds and spacing, from parsing to the formatted answer; names and values are examples, as the code only compares prefixes and joins them. The scripts that shells load, splitting the typed line at quotes, and the completion of expressions are not decided." + TRUST)

P("C09", "What an app, a run or an action does leaves no trace in others",
  "No variable of a package, nor anything such a variable refers to, is changed after initialization: apps and runs in one process cannot affect each other through the library. An action keeps no state from one use or run to the next, and has the same effect on each target it is used for; making a value with a provider changes neither its defaults nor what was given. A list that was given or returned is not changed by a later operation on something else, even if there is room behind its end.",
  ["histories", "configurations"],
  "for every sequence of uses of apps, runs, actions, pipelines and lists of flags, args, commands and aliases in one process",
  "Each test makes one app and runs it once; what was left behind in a variable, a closure or a shared list shows only in a second use after a particular first one.",
  ["action.go", "app.go", "arg.go", "flag.go", "command.go", "templates.go", "extensions/provider/provider.go"],
  [("actions and pipelines", "action.go"), ("templates of an app", "app.go"), ("help screens", "templates.go"), ("providers", "extensions/provider/provider.go")],
  "effect analysis on the SSA: each change is traced back to what it changes; abstract interpretation of drivers that use something twice",
  "Decides that no change reaches a package variable or what a kept function captured, as far as assignments, map updates, appends and the known mutators are traced; for lists and actions, laws with a second use. State that the elements of an app keep from one run to the next, such as the values of its flags, is not covered: running one App several times is outside this property." + TRUST)

P("C24", "An error ends the program with the status and message it stands for",
  "When a run of an app fails, the exit handler is called once with the error's text and its exit code, or 1 if it has none; a run that succeeds calls nothing and ends nothing. Without a custom handler the text goes to standard error, unless it is blank or the status is zero, and the process ends with that status. An error made by Exit has the trailing integer as its code, 2 for an error code, 1 otherwise, and exactly the other operands as its text; an error that has an exit code is handed through, and each error code has a text of its own.",
  ["inputs"],
  "for every error and every list of operands",
  "Ending the process can only be tested with stand-ins, and the shapes of operands and errors multiply.",
  ["app.go", "error.go"],
  [("App.Run, exit and the default exit handler", "app.go"), ("Exit, ExitCoder, ErrorCode", "error.go")],
  "abstract interpretation of the SSA with an unknown error; Exit for each shape of operands",
  "Decides what the handler, the error stream and the process are given on every path, and code and text of the errors Exit makes." + TRUST)

P("C08", "The same input gives the same result each time",
  "Nothing that a caller or user sees depends on the order in which a map happens to be iterated: lists of names, text made of maps, the order of composed options, which of several errors is reported, and which entry a lookup finds. Lists are sorted by comparisons that never place each of two elements before the other, and nothing random is used.",
  ["schedules", "inputs"],
  "for all contents of maps and all orders of iteration",
  "The order of iteration is random in each run; a test sees one of the orders, and with few entries the common one.",
  ["set.go", "filter.go", "option.go", "action.go", "internal/support/support.go", "extensions/provider/provider.go"],
  [("loops over maps", "each range over a map, and each use of maps.Keys, Values and All"), ("comparisons", "each function given to a sort, and each Less method")],
  "dataflow over SSA from the entry of each loop over a map to what leaves the loop; abstract interpretation of comparisons on pairs of unknown elements",
  "Decides lists, text, errors, results and stores which leave a loop over a map in its order. What is called from within such a loop is not followed other than for writes; that a sort is of the whole list is taken from its use on the list." + TRUST)

P("C11", "What is opened or switched on for an operation is undone at its end",
  "Each file the library opens is closed on every path, also after errors, unless it is handed to the caller. What stops a timeout or signal handler is called after the command. The current app, the completion request, the directory of a template generator, the search for an alternate command, and the state of applying implied values are, at the end of the operation that changes them, as before it, whether the operation fails or not.",
  ["fault_sequences", "histories"],
  "for all results of the calls in between, on each path to a return",
  "It takes an error at a particular point, and then a look at what was left behind; tests rarely fail a write, a close or a nested action.",
  ["extensions/template/file.go", "extensions/template/context.go", "extensions/template/dir.go", "file.go", "action.go", "app.go", "context.go", "completion.go", "command.go"],
  [("files", "each call that opens a file or has a helper do it"), ("timeouts and signals", "action.go: Timeout, HandleSignal"), ("states", "app.go: provideCurrentApp; completion.go: complete; command.go: tryFindCommandOrIntercept; action.go: withTimingWrapper; extensions/template/dir.go")],
  "abstract interpretation of SSA: every path from an opening or setting call to a return has the closing or unsetting one",
  "A file that is passed to other code, or kept in something that existed before, counts as handed on. Panics are not followed other than for what is deferred." + TRUST)

P("C12", "File operations reach the file system unchanged",
  "Each operation of a file, a file set or a file system performs the operation of that name on the underlying file system once, with the same arguments in the same places, and returns its result; where the file system does not provide it, nothing is done and an error is returned. The file named dash, and no other, is standard input when opened for reading and standard output when opened for writing. A file opened with a context asks the context before every transfer of data, and a relative name is taken below the directory of its file system.",
  ["inputs", "configurations"],
  "for every operation, file name, set of arguments and kind of file system",
  "Some sixty forwarding methods in four layers have several arguments of one type each; tests exercise a handful through an in-memory file system, and never a cancelled context or a file system lacking an operation.",
  ["file.go"],
  [("File, FileSet", "file.go"), ("defaultFS, fsExtensionWrapper, dirFS, stdFile, contextFile", "file.go")],
  "abstract interpretation of the SSA with unknown arguments; every file system method on all paths",
  "Decides what each operation does with its arguments and result on every path through the layers of the module, and which stream dash stands for. What the operating system does is trusted." + TRUST)

P("C14", "A context stands below its parent and carries on what the parent has",
  "A context made for a flag, arg, sub-command or value has the streams, file system, Go context and completion request of the context it was made from, which is its parent. Asked from any context, its parent, root, app, lineage, path, nearest command, flag and arg, local and inherited flags, and the flag or arg of a name are those that the chain of parents dictates, the nearest first; data, raw values and values not found are looked up in the parent. It behaves as the Go context it wraps, is found in itself, and prints to its own standard output, or to the writer it is given, or to its error stream where that is nil.",
  ["configurations", "inputs"],
  "for every kind of target, every nesting of contexts and every name",
  "What a context answers depends on its whole line of ancestors; tests ask few questions, mostly one level below the root.",
  ["context.go", "lookup.go"],
  [("ContextOf, ValueContextOf", "context.go"), ("Parent, Root, Lineage, Path, Flags, LookupFlag, LookupArg, LookupData, Raw", "context.go"), ("Deadline, Done, Err, Value, SetContext, FromContext", "context.go"), ("Print, Fprint, SetColor", "context.go")],
  "abstract interpretation of the SSA on chains of up to four known contexts of each kind",
  "Decides each question for thirteen chains that cover every kind of target at depths one to four; the loops and recursions treat all levels alike." + TRUST)

P("C23", "A bound function is given exactly what its binders read",
  "A function bound with one, two or three binders is called once, with what each binder gave in its own place; the binders are asked in order, an error from one of them is returned and nothing further is asked or called, and the result of the function (or of the action or evaluator it gives) is the result. A binder for a type reads the value of that type and of its own name: without a name it is the current flag or arg, or elsewhere the arg in the binder's own position. Exact values, context values and functions are given as they are; indirection reads and sets the flag or arg that it names, and the flag or arg bound gets a value of the binder's type.",
  ["configurations", "inputs"],
  "for every function, binder, name and error",
  "The binders are some thirty look-alike functions, doubled by a table by type and generic in one to three types; tests instantiate a few of them, and rarely let one fail.",
  ["extensions/bind/binder.go", "extensions/bind/func.go"],
  [("Call, Action, Evaluator with one to three binders; Indirect, Redirect", "extensions/bind/func.go"), ("binders by type, For, Value, Exact, FromContext, ContextValue", "extensions/bind/binder.go")],
  "abstract interpretation of the SSA of instances of the generic functions, which a driver package added in memory asks for",
  "Decides call order, arguments, errors and names for unknown binders and functions; each instance for distinct types." + TRUST)

P("C21", "Control codes are written exactly when color is on",
  "A writer writes the control codes of each style and color it is asked for, and the reset that ends styled text, exactly if its color is on. Color is on by default exactly for terminals that are not dumb unless NO_COLOR is set, switching it on, off, or to auto detection (by an action, a mode, or the context) has effect on output and error output alike, and buffers and template functions have the setting of the output at the time. Each style and color has a template function of its name that applies it to its text and ends it.",
  ["inputs", "configurations"],
  "for all texts and settings, each style, color, writer and template function",
  "The tests look at a few styles with color on; combinations of styles, of settings that change in the course of a program, and of environments with terminals are not tested.",
  ["usage.go", "context.go", "extensions/color/*"],
  [("writers and detection", "usage.go: NewWriter, NewBuffer, stringHelper, colorEnabled"), ("switching", "usage.go: SetColor, AutodetectColor; context.go; extensions/color/color.go: SetMode"), ("templates", "extensions/color/color_templates.go")],
  "abstract interpretation of SSA on unknown text and settings, with a model of the terminal writer in which each control code is a mark; scan of all text constants",
  "Decides that the text written is, on each path, the given text with exactly the marks of what was asked for. That the marks are the right sequences is up to the package ansiterm; the color of the help screen is not included." + TRUST)

P("C22", "Built-in templates fit the data they are given",
  "Every template that is shipped (help screen, expressions, version, license, list of providers, completion script, generated sources, and the ones with which an extension replaces these) is well-formed for what it is executed with: each field, function and nested template that is mentioned in any of its branches exists and accepts what it is given, whatever the type of a description. The data of a command, flag, arg or expression operator has that element's own name, texts, description and metadata. A template with which an extension replaces a built-in one shows the same fields.",
  ["inputs", "configurations"],
  "for every template, every branch of it, and every app definition",
  "A template is only checked where it is executed: a branch for a category without help text, or for a description that is not a string, fails at run time and only for apps that have one.",
  ["templates.go", "usage.go", "app.go", "completion_zsh.go", "extensions/expr/templates.go", "extensions/table/table.go", "extensions/color/color_templates.go", "extensions/provider/provider.go", "internal/joe/tpl/*", "internal/joe/new.go"],
  [("template texts and the data types", "templates.go, extensions/*/"), ("where templates are executed", "usage.go, completion.go, extensions/expr/expr.go"), ("functions for templates", "app.go, templates.go, extensions/color, extensions/table")],
  "type checking of the template texts against the data types that flow to each execution (value-origin analysis over SSA)",
  "Decides the types in every branch for all data types found to flow to each execution; nil pointers in the data and the wording of the output are not decided." + TRUST)

P("C13", "Generating from a template does to each file what was declared",
  "Every operation on a file applies to that file, in the directory it was declared in, and the directory is made first. The file gets exactly the contents given, template variables have the names and values given, and the report says of each file whether it was created, overwritten or left identical. A dry run reports without changing anything on disk or running a command, and the first failing generator ends the generation with its error.",
  ["inputs", "fault_sequences", "configurations"],
  "for every nesting of generators, contents, file system and failure",
  "The tests generate a few files, one at a time and successfully; that names, order, reports and the dry run are right for each generator in each place, and with failures, is a matter of all combinations.",
  ["extensions/template/*"],
  [("files and directories", "extensions/template/file.go, dir.go"), ("working directory, variables and report", "extensions/template/context.go"), ("sequence and options", "extensions/template/template.go"), ("go get", "extensions/template/go_get.go")],
  "abstract interpretation of SSA with a symbolic file system, for each generator and nesting, real and dry",
  "Decides, on every path, which operations are performed on which path in which order, with what data, what is reported and returned. File names are interpreted as themselves (no placeholders); at most three levels and three generators; the Overwrite option has no effect in the code and none is claimed." + TRUST)

P("C07", "Each word of the command line goes to one flag or arg, in order",
  "The words are read in the documented forms (long, short, run-in, clusters, with an equal sign, optional and several values, flags between args, the end of flags), whatever the values are: every occurrence of a flag or arg has exactly its own words, in order, and nothing else gets any. Arg counters take the number of words they are documented to, and names and aliases lead to the flag or arg they were defined for, the nearest command first. Words that do not fit are an error with the documented code, and each occurrence is applied in order up to the first error.",
  ["inputs", "configurations"],
  "for all values, in each form of the command line",
  "Forms interact: optional and counted values, clusters, ends of flags, values that are empty or look like flags. Tests try chosen words in chosen forms.",
  ["set.go", "arg.go", "flag.go", "value.go", "error.go"],
  [("parsing", "set.go: RawParse, argList, argBinding"), ("names", "set.go: NewBinding, bindingImpl"), ("counters", "arg.go: ArgCount and the counters"), ("applying", "set.go: BindingMap.ApplyTo; arg.go, flag.go: SetOccurrence")],
  "abstract interpretation of SSA: parsing of each form of the command line with unknown text for the values",
  "Decides what each flag and arg is given (and the error otherwise) for some 150 forms of up to eight words, for all values in them; flag names are fixed. Right-to-left parsing is not included; bool and optional flags are given the counters that initialization gives them." + TRUST)
