RT = "TLA+ model (TLC) + replay of TLC-generated behaviours on an xgo-instrumented program"
RTNOTE = ("Exhaustive TLC exploration of the runtime model within the bounds recorded in the evidence; the code is bound to the "
          "model by executing TLC-generated behaviours (quick: ~1300 of 40-80 steps) on a program built with xgo from the working "
          "tree and comparing each observation. Trusts the driver; deviations seen with the quickly built toolchain are confirmed "
          "with the fully rebuilt one before being reported.")
RTF = ["runtime/internal/trap/trap.go", "runtime/internal/trap/stack_data.go", "runtime/internal/trap/init.go"]

prop("C01", "Handlers belong to one goroutine and are inherited at creation",
     "A mock, recorder or interceptor installed on a function or variable affects only the goroutine that installed it and goroutines created by it (transitively) while it was installed. "
     "A new goroutine starts with exactly the handlers in force in its creator, per-instance bindings included, and from then on installing or cancelling in one of them never changes the other. "
     "When a goroutine ends, its handlers end with it, and this holds when goroutines truly run in parallel.",
     "schedules histories", "every tree of goroutines, every interleaving of installs, cancels, calls, creations and exits, including truly parallel execution",
     "The tests install one mock and spawn one goroutine; which of many goroutines sees which of many handlers after arbitrary interleavings is a property of all histories.",
     RTF + ["runtime/internal/stack/stack.go", "runtime/internal/runtime/xgo_trap_template.go", "patches/go1.27/src/runtime/proc.go.xgo.patch"],
     [("inheritance on goroutine creation", "runtime/internal/trap/init.go inerhitStack"), ("per-goroutine storage", "runtime/internal/stack/g.go")],
     [("interceptors", "mocks, recorders and interceptors of a goroutine", "runtime/internal/trap/stack_data.go StackData")],
     ["results of calls and variable reads in each goroutine"], technique=RT, note=RTNOTE)

prop("C02", "The most recent applicable mock decides a call, and cancelling restores",
     "When mocks are installed on a function or method, a call runs the most recently installed one that applies to its receiver, with the call's arguments, and its results become the call's results; with none left, the original runs. "
     "Cancelling removes exactly the mock it was returned for, in any order of cancellation, even while a mock is executing. "
     "A mock bound to one instance never affects, hides or disables mocks of other instances, whichever API variant (function value, by name, interceptor) installed it.",
     "histories inputs", "every sequence of installs through every API, cancels in any order, nested and recursive calls on functions and on methods of several instances",
     "Tests install and cancel one or two mocks in stack order; selection among many overlapping ones under arbitrary cancellation order is not sampled.",
     ["runtime/internal/trap/mock.go", "runtime/internal/trap/build.go", "runtime/internal/trap/inspect.go", "runtime/mock/mock.go", "runtime/mock/patch.go"] + RTF,
     [("selection of the last applicable mock", "runtime/internal/trap/stack_data.go getLastMock"), ("cancel functions", "runtime/internal/trap/mock.go pushMockHandler")],
     [("mock", "mocks per function, in order of installation", "runtime/internal/trap/stack_data.go interceptors")],
     ["what runs on each call, its arguments and results"], technique=RT, note=RTNOTE)

prop("C03", "Handlers installed by init() apply in every goroutine, for good",
     "Mocks, recorders and interceptors installed while packages initialise are in force in every goroutine for the life of the process: a goroutine's own applicable mock takes precedence over them, and recorders and interceptors of both kinds all run. "
     "They cannot be cancelled once main has started; attempting to is refused and changes nothing.",
     "histories schedules", "every set of init-time handlers crossed with every later history of goroutines, installs, cancels and calls",
     "Tests cover a single global mock; its interplay with goroutine-local handlers across histories is not exercised.",
     RTF + ["runtime/internal/trap/mock.go", "runtime/internal/trap/record.go", "runtime/internal/trap/interceptor.go"],
     [("global holder", "runtime/internal/trap/stack_data.go globalInterceptorHolder"), ("end of initialisation", "patches/go1.27/src/runtime/proc.go.xgo.patch")],
     [], ["what runs on each call in each goroutine"], technique=RT, note=RTNOTE)

prop("C04", "Recorders and interceptors run once each, in order, and can take over",
     "On every call each applicable pre handler runs exactly once in order of installation - those targeting the function before the general interceptors - and sees the arguments as left by the previous ones; then the mock or body runs; then the post handler of every handler whose pre ran runs exactly once in reverse order, receiving the data its own pre returned and the results as left so far. "
     "A pre handler that reports the call as mocked stops the remaining pre handlers and the body, and the call returns the results it set. "
     "Cancelling a handler, even during a call it takes part in, does not disturb that call.",
     "histories inputs", "every set and order of recorders and interceptors, argument and result rewriting, abort position, nesting and cancellation point",
     "Tests use one interceptor or recorder at a time; chains with aborts, rewriting, nesting and cancellation mid-call are not sampled.",
     ["runtime/internal/trap/record.go", "runtime/internal/trap/interceptor.go", "runtime/trace/record.go", "runtime/trap/interceptor.go"] + RTF,
     [("handler chain", "runtime/internal/trap/trap.go trap")], [], ["the sequence of handler activations with the values they see"], technique=RT, note=RTNOTE)

prop("C05", "Panics and Goexit leave no residue; handlers never intercept themselves",
     "However a call ends - return, panic in the body, in a mock or in a handler, or runtime.Goexit - the post handlers due still run as specified, the panic value reaches the caller that recovers unchanged, and afterwards the goroutine behaves as if the call had returned: the same handlers apply, and interception, mocking and tracing are neither stuck on nor off. "
     "General interceptors are not applied to code running inside a mock or handler, while mocks and recorders bound to functions are.",
     "fault_sequences histories", "every place a panic or Goexit can strike (body, mock, pre, post, deferred part, nested), followed by any continuation",
     "Tests panic once inside a traced function; the state left behind after panics at other places, followed by further use, is never checked.",
     RTF, [("trapping depth", "runtime/internal/trap/trap.go IncTrappingDepth/DecTrappingDepth"), ("post handlers via defer", "instrument/instrument_func/instrument_func.go")],
     [("trappingDepth", "whether handler code is running on the goroutine", "runtime/internal/runtime/xgo_trap_template.go __xgo_g")],
     ["recovered values, handler activations and results after the panic"], technique=RT, note=RTNOTE)

prop("C06", "Variable mocks change what reads see, never the variable",
     "While a package variable is mocked, every read of it in instrumented code of that goroutine yields the mock's value, taking its address yields the variable's own address unless the address itself is mocked, and the most recently installed mock of each kind wins. "
     "Writes always reach the real variable; after cancelling, reads see exactly the last value written. "
     "Recorders and interceptors are told about each read exactly once.",
     "histories inputs", "every sequence of reads, address-takings, writes, value and pointer mocks by every API, recorders and cancels, across goroutines",
     "Tests mock a variable once and read it once, in a handful of the syntactic positions in which a variable can be read.",
     ["runtime/internal/trap/var.go", "runtime/internal/trap/mock.go", "runtime/internal/trap/record.go", "instrument/instrument_var/", "instrument/resolve/"],
     [("variable traps", "runtime/internal/trap/var.go trapVar, trapVarPtr")], [], ["values read directly and through pointers"], technique=RT + "; positions of reads: specs/source",
     note=RTNOTE + " Positions of reads: 400 generated programs (specs/source with mocks); map keys equal to a variable's name, elements assigned to, and fields of non-pointer variables whose address is taken are outside the claim.")

prop("C07", "A trace is exactly the tree of calls that happened",
     "The trace delivered when trace.Trace ends contains one entry per instrumented call made meanwhile outside of handlers and mocks - except those the filter leaves out, whose callees take their place - nested as the calls were nested and in order, with the arguments as passed on, the results returned, and a panic marked on exactly the calls it propagated through. "
     "Goroutines started meanwhile appear under the call that started them. "
     "A trace is delivered exactly once, when the outermost Trace call ends, however it ends; afterwards nothing is traced until the next one.",
     "histories schedules", "every nesting of calls, mocks, recorders, panics, Goexit, goroutine creations and nested traces",
     "Tests compare a few recorded traces; they cannot cover the interplay with mocks, aborting interceptors, panics, filters and goroutines.",
     ["runtime/trace/trace.go", "runtime/internal/stack/stack.go", "runtime/internal/stack/export.go"] + RTF,
     [("entry stack", "runtime/internal/stack/stack.go PushNew/Finish"), ("export", "runtime/internal/stack/export.go")],
     [("Top", "innermost open entry of a goroutine", "runtime/internal/stack/stack.go Stack")],
     ["the trace given to OnFinish or written to OutputFile"], technique=RT, note=RTNOTE)

prop("C08", "Goroutine-local values stay local; inheritable ones are copied once",
     "A value set under a goroutine-local key is what the same goroutine gets back until it sets another, and no other goroutine's Set changes it. "
     "A goroutine starts without a value under an ordinary key and with its creator's current value under an inheritable one; later changes on either side are not seen by the other, and a goroutine that reuses resources of an ended one never sees its values.",
     "schedules histories", "every tree of goroutines and interleaving of sets and gets, including goroutine reuse and truly parallel execution",
     "Tests set one key in one goroutine and read it in a child.",
     ["runtime/tls/tls.go", "runtime/tls/hook.go", "runtime/internal/runtime/g.go", "runtime/internal/runtime/xgo_trap_template.go"],
     [("values on the g", "runtime/internal/runtime/xgo_trap_template.go __xgo_g.gls"), ("copy on creation", "runtime/tls/hook.go")],
     [], ["values returned by Get/GetOK"], technique=RT, note=RTNOTE)

prop("C09", "A program built with xgo means what its source means",
     "A program built with xgo and installing no handler behaves as the same program built with go: every identifier refers to the declaration Go's scoping rules give it, however package variables, functions, imports, parameters, results, labels, fields and local declarations of any kind shadow each other; every package variable keeps its type and value whatever its initializer; reads, writes, address-taking and method calls in every syntactic position have their usual effect; and reported source positions are those of the source. "
     "In particular xgo builds whatever go builds.",
     "inputs", "every Go program: every nesting of scopes, kind of declaration, expression position and initializer",
     "Tests build some fifty hand-written programs; whether the rewriting of variable accesses respects scoping and typing in all positions is a statement about all programs.",
     ["instrument/resolve/", "instrument/instrument_var/", "instrument/instrument_func/", "instrument/edit/", "instrument/load/", "cmd/xgo/instrument.go"],
     [("which identifiers are package variables", "instrument/resolve/scope.go, traverse.go"), ("type of a variable", "instrument/resolve/type_info.go"),
      ("rewriting accesses", "instrument/resolve/record.go"), ("getters of variables", "instrument/instrument_var/")],
     [], ["output of the program", "success of the build"],
     technique="TLA+ specification of scoping, accesses and initializer typing (specs/source, TLC); generated behaviours rendered as Go programs, built with xgo from the working tree and with go, and run",
     note="Exhaustive within the enumerated initializers (14k, quick samples 4000) and the model-checked scopes; 460 generated programs of 40-60 steps per quick run. Plain go must agree with the specification on each program, otherwise the check itself is at fault (exit 2).")

prop("C10", "Any declared function can be named, mocked and inspected as declared",
     "Whatever its declaration looks like - a function or method of any receiver type, value or pointer, generic or not, exported or not, variadic, with named, grouped, blank or unnamed receiver, parameters and results of any types, in the main module or in another module that is trapped or referred to - an instrumented function is reached through every API that can name it: as a value, as a bound method, as a method expression and, unless generic, by package and name. "
     "Handlers get exactly the receiver, arguments, results, context and error of the call with their declared names, what they write takes effect, a handler bound to a receiver applies to that receiver only, and without applicable handlers the call is what was written. "
     "The function table tells each function's package, name, receiver, parameter and result names, kind, file and line as declared, the same through every lookup.",
     "inputs histories", "every declaration, crossed with every history of installs, calls and cancels and every way of calling it",
     "Tests declare a few dozen functions by hand; names, receivers, generics and signatures combine without end.",
     ["instrument/instrument_func/", "instrument/instrument_reg/", "patch/", "runtime/functab/functab.go", "runtime/core/func.go", "runtime/internal/trap/inspect.go", "runtime/internal/trap/mock.go", "runtime/trace/record.go", "instrument/resolve/record.go"],
     [("function table", "runtime/functab/functab.go"), ("resolving what a value names", "runtime/internal/trap/inspect.go"), ("registration in place", "instrument/instrument_reg/"), ("registration by the compiler", "patch/syntax/syntax.go")],
     [("d", "the declaration", "instrument/instrument_func/trap.go"), ("h", "what is installed", "runtime/internal/trap/stack_data.go")],
     ["what handlers observe", "results of calls", "core.FuncInfo from functab"],
     technique="TLA+ specification of declarations and of the operations on them (specs/funcs, TLC); generated behaviours rendered as Go programs, built with the full xgo from the working tree, run and compared",
     note="Exhaustive histories of length 2 on 80 declarations; 380 random declarations (quick) with histories of 7 operations, 6000 with 9 (thorough). Functions referred to in other modules: at most 90 per package, and receivers resolvable from the reference (DESIGN.md).")

prop("C11", "xgo build, test, run and exec mean what the go command means",
     "Given a command line that go accepts, with flags of xgo's own added anywhere among the flags, in any spelling and order, in XGO_FLAGS or on the command line, xgo runs go exactly once, in the project's directory, with a command line that means the same to go once xgo's flags are left out: the same flags with the same values, the same packages or files, and the same arguments for the program or test binary, in the same order and unaltered. "
     "Standard input reaches go, its output is xgo's output, its exit status is xgo's.",
     "inputs", "every command line of go build, test, run and of xgo exec, every placement of xgo's flags, every input, output and status",
     "Tests try a few flags each; which word is a flag, a value, a package or an argument depends on all the words before it.",
     ["cmd/xgo/option.go", "cmd/xgo/main.go", "cmd/xgo/exec_tool/", "support/flag/flag.go"],
     [("reading the command line", "cmd/xgo/option.go parseOptions"), ("building that of go", "cmd/xgo/main.go handleBuild")],
     [], ["argv, input and directory of the go command that is run", "output and exit status"],
     technique="TLA+ specification of how go reads a command line and of xgo's reordering of it (specs/cli, TLC); generated command lines run by the real xgo with a recorder in place of go; TLC checks the recorded command lines against the specification",
     note="Exhaustive for command lines of up to 4 (thorough 5) words over a small alphabet; about 290 (thorough 4000) random command lines of up to 7 words per run. Flags: those of go 1.23-1.27 build, run, test.")

prop("C12", "What can be mocked follows from present sources and flags alone",
     "After any history of edits and builds, what a built program can mock is decided by the sources, mock references and flags of that build alone, never by what was built before. "
     "Everything in the main module (and modules included as such) can be mocked, in whatever file build tags, test mode or edits select; in other packages what a mock, recorder or interceptor refers to, wherever and however the reference is written, and what --trap, --trap-stdlib and --trap-all ask for; without such a reference or flag nothing else is changed. "
     "Asking for more never takes away, values are those of the present sources, and the function table gives the present file and line of each function.",
     "histories inputs", "every sequence of edits (adding, moving, removing, changing declarations and references) and of builds with any flags, sharing one build cache",
     "Tests build each project once from a clean state; stale results of an earlier build, and the interplay of references, flags and packages, need histories.",
     ["cmd/xgo/instrument.go", "instrument/load/load.go", "instrument/resolve/", "instrument/instrument_func/trap.go", "instrument/config/", "instrument/compiler_extra/", "patch/syntax/"],
     [("which packages and functions", "cmd/xgo/instrument.go instrumentUserCode"), ("references", "instrument/resolve/traverse.go"), ("what the compiler traps", "patch/syntax/syntax.go"), ("cache key", "cmd/xgo/instrument.go md5sumTraps")],
     [("cache", "the build cache, keyed by contents and the sum of traps", "cmd/xgo/exec_tool")],
     ["for each declaration: whether it can be mocked, its value, its file and line"],
     technique="TLA+ specification of a project with its build cache (specs/project, TLC: Fresh, Promised, Frugal, Monotone); TLC-generated histories of edits and builds executed with the real xgo, each program probing every declaration",
     note="Exhaustive for 5 declarations and 5 (thorough 7) steps; 40 (thorough 400) histories of up to 6 builds over 65 declarations in 10 packages, 8 APIs, 45 syntactic positions. Not covered: cgo, vendoring, files over 1 MB, receivers known by declared type only.")

prop("C13", "A finished set-up leaves exactly its own instrumented GOROOT, whatever the past",
     "After any history of set-ups (xgo setup, or the implicit one of build, run, test and exec), resets and deletions by any revisions of xgo, each possibly killed or failing at any write, "
     "the next set-up that reports success has left, for its original GOROOT, exactly the tree that its revision makes from scratch, and a build cache without outputs of other revisions; no earlier history makes it fail. "
     "An operation that could not do its work reports failure. The original GOROOT, and GOROOTs instrumented for other originals, are never changed, nothing is written outside of xgo's directories, and a finished deletion leaves nothing behind.",
     "histories crash", "every sequence of set-ups, resets and deletions by several revisions over several original GOROOTs, each cut off, torn or failing at any write to the file system",
     "Tests set up once, from nothing, and are never interrupted; what an interrupted upgrade leaves for the next set-up depends on the very write it was cut off at.",
     ["cmd/xgo/main.go", "cmd/xgo/patch.go", "instrument/patch/apply.go", "instrument/patch/apply_engine.go", "support/filecopy/filecopy.go", "instrument/instrument_compiler/mkbuiltin.go", "cmd/xgo/pathsum/path.go"],
     [("when to set up", "cmd/xgo/main.go handleBuild"), ("invalidating the revision", "cmd/xgo/patch.go invalidateRevision"), ("copying", "cmd/xgo/patch.go syncGoroot"), ("patching", "instrument/patch/apply.go ApplyPatches")],
     [("revision", "xgo-revision.txt: the revision the GOROOT is complete for", "cmd/xgo/main.go"), ("GOROOT", "sources, go, compiler of the copy", "cmd/xgo/patch.go")],
     ["the instrumented tree file by file, the exit status, the original GOROOT's contents and times, the build cache"],
     technique="TLA+ specification of the set-up protocol with kills after every write (specs/goroot, TLC: Finished, Honest, NotStuck, Untouched); TLC-generated histories run with two revisions of the real xgo over a package os that numbers, refuses and interrupts writes, checked by TLC",
     note="GOROOTs have the files xgo touches and a stand-in go command (its builds write functions of the sources); concurrent set-ups are not covered, nor GOROOTs patched in place. Exhaustive for 3 (thorough 4) operations with kills anywhere; 150 (700) generated histories and every 13th (4th) write of four kinds of set-up.")

prop("C14", "Coverage measured by xgo test is that measured by go test",
     "For every program, its tests run with xgo and any of go's coverage flags, however they are spelled and wherever they are given (command line, GOFLAGS, go build -cover, a test binary run later), report exactly what go reports: "
     "the profile lists exactly the requested packages with the source's own blocks - positions, number of statements, mode - each statement's count is the number of times it was executed, whatever loops, panics, recoveries and deferred calls lead to it, and the percentage follows from them. "
     "xgo's own flags, and code that xgo inserts for traps, do not add to it; a statement of a mocked function that did not run is not counted as run.",
     "inputs", "every program and every selection of its tests, with every form of go's coverage flags and xgo's flags",
     "Tests compare one or two profiles of fixed programs; block boundaries move with every insertion by xgo, so agreement is a statement about all control flow.",
     ["patches/go1.27/src/cmd/cover/", "patches/go1.27/__config__.json", "instrument/instrument_go/", "cmd/xgo/main.go", "cmd/xgo/patch.go", "cmd/xgo/instrument.go", "instrument/instrument_func/trap.go"],
     [("ignoring inserted code", "patches/go1.27/src/cmd/cover/"), ("rebuilding the cover tool", "cmd/xgo/patch.go"), ("noticing coverage", "cmd/xgo/main.go hasCoverFlag")],
     [], ["coverage profile, percentage, exit status of the tests"],
     technique="TLA+ specification of how often every statement of a program runs and of go's coverage blocks (specs/cover, TLC: Sound, Exact, MockedNotRun, Ends); generated programs run by the fully set-up xgo test with 19 forms of flags, every statement's count compared with the specification, and three profiles with those of the plain go command",
     note="Exhaustive for programs of up to 6 (7) tokens; 60 (5 x 260) generated programs of up to 20 (32) statements. No select, goto or labels; cover tool of Go 1.27 only; the count of the entry block of a mocked function is left open.")

prop("C15", "Merging and compacting coverage profiles adds up",
     "For every set of coverage profiles, xgo tool coverage merge yields one profile in which every block of the inputs appears once with the sum of its counts, whatever the order of the files and of their lines, duplicates, and blocks missing in some; merging step by step, in any grouping, gives the same as merging at once. "
     "Compacting changes neither a block nor a count and can be repeated; excluding packages removes their blocks and no others. Inputs stay as they were, an unreadable input is reported and no output takes its place.",
     "inputs histories", "every history of merges, compactions and exclusions over every set of profiles",
     "Tests merge two or three small files; sums, order, duplicates and repeated application are statements about all sequences.",
     ["cmd/xgo/coverage/", "support/coverage/"],
     [("merging", "support/coverage/merge.go"), ("command", "cmd/xgo/coverage/")],
     [], ["profiles that are written, exit status"],
     technique="TLA+ specification of profiles and of the operations on them (specs/cover/XgoProfiles.tla, TLC); TLC-generated histories of files and operations replayed with the real xgo tool coverage, every file compared after every operation",
     note="Exhaustive for small histories; 400 (4000) generated histories. Profiles put one after the other (mode lines in the middle) and CRLF line ends included. Exclusion prefixes that end inside of a path element are not generated.")
