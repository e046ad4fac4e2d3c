----------------------------- MODULE XgoProject -----------------------------
(* Which functions and variables of a project can be mocked: a function of    *)
(* the present sources, references and flags, whatever was built before.      *)
(* Packages have an import path (a sequence of elements) and belong to the    *)
(* main module, to another module, or to the standard library. Sources are    *)
(* edited and flags changed between builds; packages outside of the main      *)
(* module are compiled through a build cache, whose key has to tell apart     *)
(* whatever leads to different code.                                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Pool,        \* functions, methods and variables that may be declared: [pkg, kind, recv, name, exported, nosplit, white], a sequence
  Path,        \* package -> import path, a sequence of elements
  Std,         \* packages of the standard library
  MainModule,  \* its path
  Files,       \* package -> the files a declaration can be in
  Froms,       \* where references can be: [pkg, file]
  Patterns,    \* what --trap can be given: [path, dots]
  Modules,     \* what can be included as main module: paths
  StdSet,      \* packages --trap-stdlib traps
  Quota,       \* how many functions per file --trap-all covers at least
  Cmds,
  Sep          \* what separates the names in the sum of a package, see Sum

VARIABLES
  home,   \* index of Pool -> file it is in, or "none"
  ver,    \* index of Pool -> version of its body
  refs,   \* references given to the functions that set up mocks: [target, from, api, form, pos]
  ints,   \* where interceptors for all functions are set up
  flags,  \* [trap, all, stdlib, inc, tags, cmd]
  cache,  \* what was compiled: key -> the functions with traps
  last    \* package -> the functions with traps in the last build
vars == <<home, ver, refs, ints, flags, cache, last>>

Idx == 1..Len(Pool)
Pkgs == DOMAIN Path
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Within(p, m) == p \notin Std /\ Prefix(m, Path[p])

(* ---------------------------------------------------------- what is trapped *)
\* as the main module: what is in it, and in modules included with it
MainLike(p) == Within(p, MainModule) \/ \E m \in flags.inc : Within(p, m)
StdTrapped == flags.stdlib = "true" \/ (flags.stdlib = "default" /\ flags.cmd = "test")
\* named by --trap, or by --trap-stdlib
Named(p) == \/ \E t \in flags.trap : IF t.dots THEN Prefix(t.path, Path[p]) ELSE t.path = Path[p]
            \/ StdTrapped /\ p \in StdSet
IsTest(file) == file \in {"x_test.go", "ext_test.go"}
\* is a file compiled
Compiled(file) ==
  CASE file = "tag.go" -> flags.tags
    [] file = "notag.go" -> ~flags.tags
    [] IsTest(file) -> flags.cmd = "test"
    [] OTHER -> TRUE
Present(i) == home[i] # "none" /\ Compiled(home[i])
Eligible(i) == Present(i) /\ ~Pool[i].nosplit /\ home[i] # "big.go"
\* references count if they are in the main module, in a file that takes part in the build
Counts(from) == MainLike(from.pkg) /\ Compiled(from.file)
Referenced(i) == \E r \in refs : r.target = i /\ Counts(r.from)
TrapAll == flags.all = "true" \/ (flags.all = "default" /\ \E f \in ints : Counts(f))
\* --trap-all is for exported functions, and for many of them per file
Rivals(i) == {j \in Idx : Eligible(j) /\ Pool[j].pkg = Pool[i].pkg /\ home[j] = home[i] /\ Pool[j].exported /\ Pool[j].kind # "var"}
InQuota(i) == Cardinality(Rivals(i)) <= Quota
\* a method with the name of a function referred to may be trapped as well
NameSake(i) == Pool[i].kind = "method" /\ \E j \in Idx : Pool[j].kind = "func" /\ Pool[j].pkg = Pool[i].pkg /\ Pool[j].name = Pool[i].name /\ Referenced(j)

Trapped(i) ==
  /\ Eligible(i)
  /\ LET p == Pool[i].pkg IN
     \/ MainLike(p)
     \/ Referenced(i)
     \/ /\ Pool[i].kind # "var"
        /\ \/ Named(p)
           \/ p \in Std /\ Pool[i].white
           \/ p \notin Std /\ TrapAll /\ Pool[i].exported /\ InQuota(i)
\* what the specification leaves open
Open(i) == Eligible(i) /\ ~Trapped(i) /\ (NameSake(i) \/ (Pool[i].pkg \notin Std /\ Pool[i].kind # "var" /\ TrapAll /\ Pool[i].exported))
Expect(i) == IF ~Present(i) THEN "absent" ELSE IF Trapped(i) THEN "yes" ELSE IF Open(i) THEN "open" ELSE "no"

(* ------------------------------------------------------------------- builds *)
TrapsOf(p) == SelectSeq([i \in Idx |-> i], LAMBDA i : Pool[i].pkg = p /\ Trapped(i))
Content(p) == {<<i, home[i], ver[i]>> : i \in {j \in Idx : Pool[j].pkg = p /\ Present(j)}}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN "" ELSE Pool[s[1]].recv \o Pool[s[1]].name \o Sep \o Sum(Tail(s))
Key(p) == <<p, Content(p), Sum(TrapsOf(p))>>
Build ==
  /\ last' = [p \in Pkgs |-> IF Key(p) \in DOMAIN cache THEN cache[Key(p)] ELSE TrapsOf(p)]
  /\ cache' = [k \in DOMAIN cache \cup {Key(p) : p \in Pkgs} |-> IF k \in DOMAIN cache THEN cache[k] ELSE TrapsOf(k[1])]
  /\ UNCHANGED <<home, ver, refs, ints, flags>>

(* -------------------------------------------------------------------- edits *)
Put(i, f) == /\ f \in Files[Pool[i].pkg] /\ home[i] # f
             /\ home' = [home EXCEPT ![i] = f]
             /\ UNCHANGED <<ver, refs, ints, flags, cache, last>>
\* what is referred to has to stay
Drop(i) == /\ home[i] # "none" /\ Pool[i].pkg \notin Std /\ ~\E r \in refs : r.target = i
           /\ home' = [home EXCEPT ![i] = "none"]
           /\ UNCHANGED <<ver, refs, ints, flags, cache, last>>
Edit(i) == /\ home[i] # "none" /\ Pool[i].pkg \notin Std
           /\ ver' = [ver EXCEPT ![i] = @ + 1]
           /\ UNCHANGED <<home, refs, ints, flags, cache, last>>
Refer(r) == /\ r \notin refs /\ home[r.target] \notin {"none", "tag.go", "notag.go"}
            /\ ~Within(Pool[r.target].pkg, MainModule) /\ Pool[r.target].exported /\ Pool[r.target].pkg # r.from.pkg
            /\ refs' = refs \cup {r}
            /\ UNCHANGED <<home, ver, ints, flags, cache, last>>
Unrefer(r) == /\ refs' = refs \ {r} /\ UNCHANGED <<home, ver, ints, flags, cache, last>>
Intercept(f) == /\ ints' = IF f \in ints THEN ints \ {f} ELSE ints \cup {f}
                /\ UNCHANGED <<home, ver, refs, flags, cache, last>>
SetFlags(fl) == /\ fl # flags /\ flags' = fl /\ UNCHANGED <<home, ver, refs, ints, cache, last>>

NoFlags == [trap |-> {}, all |-> "default", stdlib |-> "default", inc |-> {}, tags |-> FALSE, cmd |-> "build"]
Init == /\ home = [i \in Idx |-> "x.go"] /\ ver = [i \in Idx |-> 0] /\ refs = {} /\ ints = {} /\ flags = NoFlags
        /\ cache = <<>> /\ last = [p \in Pkgs |-> <<>>]

(* --------------------------------------------------------------- properties *)
Range(s) == {s[i] : i \in 1..Len(s)}
\* right after a build, what was compiled is what the present state asks for
Fresh == [][Build => \A p \in Pkgs : last'[p] = TrapsOf(p)]_vars
\* everything of the main module, and whatever is referred to
Promised == \A i \in Idx : Eligible(i) /\ (Within(Pool[i].pkg, MainModule) \/ Referenced(i)) => Trapped(i)
\* without flags and references nothing else is touched, except for the listed functions of the standard library
Frugal == (refs = {} /\ ints = {} /\ flags.trap = {} /\ flags.all # "true" /\ flags.inc = {} /\ ~StdTrapped)
          => \A i \in Idx : Trapped(i) => Within(Pool[i].pkg, MainModule) \/ Pool[i].white
\* asking for more never takes away
Monotone == [][\A i \in Idx : (home' = home /\ refs \subseteq refs' /\ ints \subseteq ints' /\ flags.trap \subseteq flags'.trap /\ flags.inc \subseteq flags'.inc
                               /\ flags.tags = flags'.tags /\ flags.cmd = flags'.cmd /\ flags.stdlib = flags'.stdlib
                               /\ (flags.all = flags'.all \/ flags'.all = "true")) => (Trapped(i) => Trapped(i)')]_vars
=============================================================================
