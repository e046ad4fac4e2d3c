------------------------------- MODULE XgoCli -------------------------------
(* The command line of xgo, as a drop-in replacement of that of go.           *)
(*                                                                            *)
(* A command line is a sequence of words. Lexically a word is                 *)
(*   [raw |-> the word, dash |-> 0 (not a flag) | 1 | 2, name, eq, val]       *)
(* where -name=val gives eq = TRUE. What a command line means to go is given  *)
(* by GoParse, after cmd/go/internal/{cmdflag,test/testflag.go} and package   *)
(* flag: flags that were set, packages (or files) and arguments, and what is  *)
(* left to the program or the test binary.                                    *)
(* xgo understands some more flags. What a command line of xgo means   *)
(* is what go would understand if it knew these flags too, without them.      *)
(* The property: the command line xgo gives to go means that.                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  GoBool, GoVal,     \* command -> names of the flags without and with a value
  XgoBool, XgoVal,   \* the flags only xgo knows (written with two dashes)
  Cumulative,        \* flags of which every occurrence counts
  Managed,           \* flags xgo may add or change: overlay, mod, modfile
  Known              \* flags xgo keeps by name, in the order it gives them to go (design of Forward)

Range(s) == {s[i] : i \in 1..Len(s)}
Flag(t) == t.dash > 0 /\ t.name # ""
Term(t) == t.dash = 2 /\ t.name = ""
\* test flags may be written -test.v
Canon(cmd, n) == IF cmd = "test" /\ Len(n) > 5 /\ SubSeq(n, 1, 5) = "test." THEN SubSeq(n, 6, Len(n)) ELSE n

(* ------------------------------------------------------ how go reads words *)
\* xs: also the flags of xgo
IsBool(cmd, t, xs) == Canon(cmd, t.name) \in GoBool[cmd] \/ (xs /\ t.dash = 2 /\ t.name \in XgoBool)
IsVal(cmd, t, xs) == Canon(cmd, t.name) \in GoVal[cmd] \/ (xs /\ t.dash = 2 /\ t.name \in XgoVal)
IsXgo(t) == t.dash = 2 /\ (t.name \in XgoBool \/ t.name \in XgoVal)
Put(r, n, v) == [r EXCEPT !.flags = Append(@, <<n, v>>)]
Fail == [ok |-> FALSE, flags |-> <<>>, pkgs |-> <<>>, args |-> <<>>]

\* st.mode: "start" | "pkgs" (inside the package list) | "after" (the list is complete); st.loose: the last word was an unknown flag without a value
RECURSIVE Scan(_, _, _, _, _)
Scan(cmd, ws, xs, r, st) ==
  IF ws = <<>> THEN r
  ELSE LET t == ws[1] rest == Tail(ws) IN
    IF Flag(t) THEN
      \* go test: a flag ends the list of packages; the flags of xgo are as if they were not there
      LET st2 == IF xs /\ IsXgo(t) THEN st ELSE [mode |-> IF st.mode = "pkgs" THEN "after" ELSE st.mode, loose |-> FALSE] IN
      IF IsBool(cmd, t, xs) THEN
           Scan(cmd, rest, xs, IF IsXgo(t) /\ xs THEN r ELSE Put(r, Canon(cmd, t.name), IF t.eq THEN t.val ELSE "true"), st2)
      ELSE IF IsVal(cmd, t, xs) THEN
           IF t.eq THEN Scan(cmd, rest, xs, IF IsXgo(t) /\ xs THEN r ELSE Put(r, Canon(cmd, t.name), t.val), st2)
           ELSE IF rest = <<>> THEN Fail
           ELSE Scan(cmd, Tail(rest), xs, IF IsXgo(t) /\ xs THEN r ELSE Put(r, Canon(cmd, t.name), rest[1].raw), st2)
      ELSE IF cmd # "test" THEN Fail
      ELSE IF t.name = "args" /\ ~t.eq THEN [r EXCEPT !.args = @ \o [i \in 1..Len(rest) |-> rest[i].raw]]
      ELSE Scan(cmd, rest, xs, [r EXCEPT !.args = Append(@, t.raw)], [mode |-> "after", loose |-> ~t.eq])
    ELSE IF cmd # "test" THEN
      \* the first other word ends the flags; "--" does too and is dropped
      [r EXCEPT !.pkgs = [i \in 1..Len(IF Term(t) THEN rest ELSE ws) |-> (IF Term(t) THEN rest ELSE ws)[i].raw]]
    ELSE IF Term(t) THEN [r EXCEPT !.args = @ \o [i \in 1..Len(ws) |-> ws[i].raw]]
    ELSE IF st.mode = "after" THEN
      IF st.loose THEN Scan(cmd, rest, xs, [r EXCEPT !.args = Append(@, t.raw)], [st EXCEPT !.loose = FALSE])
      ELSE [r EXCEPT !.args = @ \o [i \in 1..Len(ws) |-> ws[i].raw]]
    ELSE Scan(cmd, rest, xs, [r EXCEPT !.pkgs = Append(@, t.raw)], [mode |-> "pkgs", loose |-> FALSE])

Empty == [ok |-> TRUE, flags |-> <<>>, pkgs |-> <<>>, args |-> <<>>]
GoParse(cmd, ws) == Scan(cmd, ws, FALSE, Empty, [mode |-> "start", loose |-> FALSE])
Meaning(cmd, ws) == Scan(cmd, ws, TRUE, Empty, [mode |-> "start", loose |-> FALSE])

\* two command lines mean the same: the last value of each flag (all of them for some), the packages and the arguments
Names(r) == {r.flags[i][1] : i \in 1..Len(r.flags)}
Only(r, n) == SelectSeq(r.flags, LAMBDA f : f[1] = n)
Value(r, n) == IF n \in Cumulative THEN Only(r, n) ELSE IF Only(r, n) = <<>> THEN <<>> ELSE <<Only(r, n)[Len(Only(r, n))]>>
\* the values go starts with
Neutral(n, v) == v = <<>> \/ (n \notin Cumulative /\ v[1][2] \in {"", "false"})
Same(a, b) ==
  /\ a.ok /\ b.ok /\ a.pkgs = b.pkgs /\ a.args = b.args
  /\ \A n \in (Names(a) \cup Names(b)) \ Managed :
        Value(a, n) = Value(b, n) \/ (Neutral(n, Value(a, n)) /\ Neutral(n, Value(b, n)))
  \* what xgo manages, it may not drop
  /\ \A n \in (Names(b) \cap Managed) : n \in Names(a)

(* ---------------------------------------------------------- how xgo reads it *)
(* The design of xgo: flags it knows by name are taken out and given first,   *)
(* in an order of its own, everything else follows in the order it was given; *)
(* arguments of the test binary come last, after -args.                       *)
RECURSIVE Sort(_, _, _)
Sort(cmd, ws, r) ==
  IF ws = <<>> THEN r
  ELSE LET t == ws[1] rest == Tail(ws) IN
    IF Flag(t) THEN
      LET n == Canon(cmd, t.name)
          keep == [mode |-> IF r.st.mode = "pkgs" THEN "after" ELSE r.st.mode, loose |-> FALSE] IN
      IF IsXgo(t) THEN Sort(cmd, IF t.name \in XgoVal /\ ~t.eq THEN (IF rest = <<>> THEN <<>> ELSE Tail(rest)) ELSE rest, r)
      ELSE IF t.name \in Range(Known) /\ t.name \in GoBool[cmd] /\ ~t.eq THEN Sort(cmd, rest, [r EXCEPT !.known[t.name] = Append(@, <<t>>), !.st = keep])
      ELSE IF t.name \in Range(Known) /\ t.name \in GoVal[cmd] THEN
           IF t.eq \/ rest = <<>> THEN Sort(cmd, rest, [r EXCEPT !.known[t.name] = Append(@, <<t>>), !.st = keep])
           ELSE Sort(cmd, Tail(rest), [r EXCEPT !.known[t.name] = Append(@, <<t, rest[1]>>), !.st = keep])
      ELSE IF cmd = "test" /\ t.name = "args" /\ ~t.eq THEN [r EXCEPT !.test = rest, !.sep = TRUE]
      ELSE IF n \in GoBool[cmd] \/ t.eq THEN
           Sort(cmd, rest, [r EXCEPT !.other = Append(@, t),
                                     !.st = IF n \in GoBool[cmd] \cup GoVal[cmd] THEN keep ELSE [mode |-> "after", loose |-> FALSE]])
      ELSE IF n \in GoVal[cmd] THEN Sort(cmd, IF rest = <<>> THEN <<>> ELSE Tail(rest),
                                         [r EXCEPT !.other = @ \o (IF rest = <<>> THEN <<t>> ELSE <<t, rest[1]>>), !.st = keep])
      ELSE Sort(cmd, rest, [r EXCEPT !.other = Append(@, t), !.st = [mode |-> "after", loose |-> TRUE]])
    ELSE IF Term(t) /\ cmd = "test" THEN [r EXCEPT !.test = ws, !.sep = TRUE]
    ELSE IF Term(t) \/ cmd = "run" THEN [r EXCEPT !.other = @ \o ws]
    ELSE IF cmd = "test" /\ r.st.mode = "after" /\ ~r.st.loose THEN [r EXCEPT !.test = ws, !.sep = TRUE]
    ELSE Sort(cmd, rest, [r EXCEPT !.other = Append(@, t),
                                   !.st = IF r.st.mode = "after" THEN [@ EXCEPT !.loose = FALSE] ELSE [mode |-> "pkgs", loose |-> FALSE]])

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
ArgsWord == [raw |-> "-args", dash |-> 1, name |-> "args", eq |-> FALSE, val |-> ""]
Forward(cmd, ws) ==
  LET r == Sort(cmd, ws, [known |-> [n \in Range(Known) |-> <<>>], other |-> <<>>, test |-> <<>>, sep |-> FALSE, st |-> [mode |-> "start", loose |-> FALSE]]) IN
  Cat([i \in 1..Len(Known) |-> Cat(r.known[Known[i]])]) \o r.other \o (IF r.sep /\ r.test # <<>> THEN <<ArgsWord>> \o r.test ELSE <<>>)

(* -------------------------------------------------------------- transitions *)
VARIABLES cmd, ws, around
vars == <<cmd, ws, around>>
\* around: what surrounds the command: the input given to it; what the command of go prints and its status;
\* how the project is told (working directory, --project-dir, -C); how many leading words come from XGO_FLAGS.
\* Whatever these are, the input reaches go, its output and status are those of xgo, and go works in the project.
Init == cmd \in DOMAIN GoBool /\ ws = <<>> /\ around = [stdin |-> "", out |-> "", err |-> "", status |-> 0, dir |-> "cwd", split |-> 0, sep |-> " "]
\* go accepts the command line
Accepted == Meaning(cmd, ws).ok
\* build takes no flags after packages; xgo is more lenient there
Plain == cmd # "build" \/ \A i \in 1..Len(Meaning(cmd, ws).pkgs) : ~(Len(Meaning(cmd, ws).pkgs[i]) > 0 /\ SubSeq(Meaning(cmd, ws).pkgs[i], 1, 1) = "-")
Transparent == Accepted /\ Plain => Same(GoParse(cmd, Forward(cmd, ws)), Meaning(cmd, ws))
=============================================================================
