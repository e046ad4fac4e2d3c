------------------------------- MODULE GenCli -------------------------------
(* Random command lines go accepts, with what surrounds the command.          *)
EXTENDS XgoCli, Json, CSV, TLC
CONSTANTS OutFile, MaxWords,
  BoolWords, BoolEq,     \* command -> words: flags without a value, plain and with =true or the like
  ValNames, ValWords,    \* command -> names of flags with a value; name -> the words that may be their values
  XgoWords, XgoValNames, XgoValues,
  Pkgs, Args, Custom,    \* packages; arguments; flags of test binaries
  Stdins, Outs, Statuses,
  Own, Seps              \* command -> names of flags with a value that xgo looks at itself; what may be between the flags in XGO_FLAGS
VARIABLES roll, left
gvars == <<cmd, ws, around, roll, left>>

Eq(dash, n, w) == [raw |-> (IF dash = 1 THEN "-" ELSE "--") \o n \o "=" \o w.raw, dash |-> dash, name |-> n, eq |-> TRUE, val |-> w.raw]
Sep(dash, n) == [raw |-> (IF dash = 1 THEN "-" ELSE "--") \o n, dash |-> dash, name |-> n, eq |-> FALSE, val |-> ""]
ArgsW == Sep(1, "args")
TermW == Sep(2, "")
PkgsSeen == IF cmd = "test" THEN \E i \in 1..Len(ws) : ws[i] \in Pkgs[cmd]
            ELSE Meaning(cmd, ws).pkgs # <<>> /\ \E w \in Pkgs[cmd] : w.raw = Meaning(cmd, ws).pkgs[1]
Ended == \E i \in 1..Len(ws) : ws[i] = TermW \/ ws[i] = ArgsW
Once == {"a", "v", "x", "c"}

GenInit == Init /\ roll = "" /\ left \in 1..MaxWords
Roll == /\ roll = "" /\ left > 0
        /\ roll' \in {"bool", "booleq", "val", "val2", "own", "own2", "xgo", "xgoval", "pkg", "arg", "custom", "end", "surround"}
        /\ UNCHANGED <<cmd, ws, around, left>>
Step(new) == /\ ws' = ws \o new
             /\ cmd' = cmd
             /\ Accepted' /\ Plain'
             /\ UNCHANGED around
Fill ==
  /\ roll # ""
  /\ roll' = ""
  /\ \/ /\ \/ roll = "bool" /\ \E w \in BoolWords[cmd] : (w.name \in Once => ~\E i \in 1..Len(ws) : ws[i].name = w.name) /\ Step(<<w>>)
           \/ roll = "booleq" /\ \E w \in BoolEq[cmd] : (w.name \in Once => ~\E i \in 1..Len(ws) : ws[i].name = w.name) /\ Step(<<w>>)
           \/ roll \in {"val", "val2"} /\ \E n \in ValNames[cmd] : \E dd \in {1, 2}, v \in ValWords[n] : Step(IF roll = "val" THEN <<Eq(dd, n, v)>> ELSE <<Sep(dd, n), v>>)
           \/ roll \in {"own", "own2"} /\ \E n \in Own[cmd] : \E dd \in {1, 2}, v \in ValWords[n] : Step(IF roll = "own" THEN <<Eq(dd, n, v)>> ELSE <<Sep(dd, n), v>>)
           \/ roll = "xgo" /\ \E w \in XgoWords : Step(<<w>>)
           \/ roll = "xgoval" /\ \E n \in XgoValNames, eq \in BOOLEAN : \E v \in XgoValues[n] : Step(IF eq THEN <<Eq(2, n, v)>> ELSE <<Sep(2, n), v>>)
           \/ roll = "pkg" /\ \E w \in Pkgs[cmd] : Step(<<w>>)
           \/ roll = "arg" /\ cmd # "build" /\ PkgsSeen = TRUE /\ \E w \in Args : Step(<<w>>)
           \/ roll = "custom" /\ cmd = "test" /\ \E w \in Custom : Step(<<w>>)
           \/ roll = "end" /\ ~Ended /\ (\/ cmd = "test" /\ Step(<<ArgsW>>)
                                         \/ cmd # "build" /\ PkgsSeen = TRUE /\ Step(<<TermW>>)
                                         \/ cmd # "test" /\ ~PkgsSeen /\ \E w \in Pkgs[cmd] : Step(<<TermW, w>>))
        /\ left' = left - 1
     \/ /\ roll = "surround"
        /\ \E i \in Stdins, o \in Outs, e \in Outs, s \in Statuses, dd \in {"cwd", "rel", "abs", "chdir"}, k \in 0..4, sp \in Seps : around' = [stdin |-> i, out |-> o, err |-> e, status |-> s, dir |-> IF cmd = "exec" /\ dd = "chdir" THEN "cwd" ELSE dd, split |-> IF cmd = "exec" \/ dd = "chdir" THEN 0 ELSE k, sep |-> sp]
        /\ UNCHANGED <<cmd, ws, left>>
     \/ UNCHANGED <<cmd, ws, around, left>>
Done == /\ roll = "" /\ left = 0
        /\ (cmd \in {"run", "exec"} => PkgsSeen) = TRUE
        /\ CSVWrite("%1$s", <<ToJson([cmd |-> cmd, ws |-> ws, around |-> around, means |-> Meaning(cmd, ws)])>>, OutFile)
        /\ left' = -1 /\ UNCHANGED <<cmd, ws, around, roll>>
GenNext == Roll \/ Fill \/ Done
=============================================================================
