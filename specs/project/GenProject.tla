----------------------------- MODULE GenProject -----------------------------
(* Random histories of edits and builds; every build writes the state of the  *)
(* project and what is expected of it.                                        *)
EXTENDS XgoProject, Json, CSV, TLC
CONSTANTS OutFile, MaxBuilds, MaxEdits, Apis, FuncForms, MethodForms, VarForms, Poses, Bulk, Methods, Twins
VARIABLES roll, left, edits, builds
gvars == <<vars, roll, left, edits, builds>>
GenInit == Init /\ roll = "" /\ left \in 2..MaxBuilds /\ edits \in 0..MaxEdits /\ builds = <<>>
Same == UNCHANGED vars
Kinds == {"put", "drop", "edit", "refer", "method", "method2", "unrefer", "bulk", "swap", "twins", "twins2", "cmd2", "tags2", "ints", "trap", "all", "stdlib", "inc", "tags", "cmd"}
Roll == /\ roll = "" /\ edits > 0 /\ left > 0
        /\ roll' \in Kinds
        /\ UNCHANGED <<vars, left, edits, builds>>
Toggle(s, x) == IF x \in s THEN s \ {x} ELSE s \cup {x}
Ref(i, from, api, pos, k) ==
  [target |-> i, from |-> from, pos |-> pos,
   api |-> IF Pool[i].kind = "var" /\ api = "InfoFunc" THEN "InfoVar" ELSE IF Pool[i].kind = "var" /\ api \in {"AddFuncInterceptor", "MarkIntercept"} THEN "Patch" ELSE api,
   form |-> LET fs == IF Pool[i].kind = "var" THEN VarForms ELSE IF Pool[i].kind = "method" THEN MethodForms ELSE FuncForms IN fs[(k % Len(fs)) + 1]]
\* several edits at once, to keep histories short
SwapRefs(r, i) == /\ refs' = (refs \ {r}) \cup {[r EXCEPT !.target = i, !.form = IF Pool[i].kind = Pool[r.target].kind THEN @ ELSE "plain"]} /\ refs' # refs
                  /\ home[i] \notin {"none", "tag.go", "notag.go"} /\ Pool[i].exported /\ Pool[i].pkg = Pool[r.target].pkg /\ Pool[i].kind = Pool[r.target].kind
                  /\ UNCHANGED <<home, ver, ints, flags, cache, last>>
BulkRefer(from) == /\ refs' = refs \cup {[target |-> i, from |-> from, api |-> "Patch", form |-> "plain", pos |-> "stmt"] : i \in {j \in Bulk : home[j] = "x.go"}}
                   /\ UNCHANGED <<home, ver, ints, flags, cache, last>>
\* another selection of functions whose names are made of the same letters
TwinRefer(S, from) == /\ refs' = {r \in refs : r.target \notin Twins} \cup {[target |-> i, from |-> from, api |-> "Patch", form |-> "plain", pos |-> "stmt"] : i \in {j \in S : home[j] \in {"x.go", "y.go"}}}
                      /\ refs' # refs /\ UNCHANGED <<home, ver, ints, flags, cache, last>>
Act ==
  /\ roll # "" /\ roll' = "" /\ edits' = edits - 1 /\ UNCHANGED <<left, builds>>
  /\ \/ roll = "put" /\ \E i \in Idx : Pool[i].pkg \notin Std /\ ~(\E r \in refs : r.target = i) /\ \E f \in Files[Pool[i].pkg] : Put(i, f)
     \/ roll = "drop" /\ \E i \in Idx : Drop(i)
     \/ roll = "edit" /\ \E i \in Idx : Edit(i)
     \/ roll \in {"refer", "method", "method2"} /\ \E i \in IF roll = "refer" THEN Idx \ Bulk ELSE Methods : \E from \in Froms, api \in Apis : Refer(Ref(i, from, api, Poses[((i * 7 + Cardinality(refs) * 5 + Len(builds)) % Len(Poses)) + 1], i + Cardinality(refs)))
     \/ roll = "unrefer" /\ \E r \in refs : Unrefer(r)
     \/ roll = "swap" /\ \E r \in refs, i \in Idx : SwapRefs(r, i)
     \/ roll = "bulk" /\ \E f \in Froms : BulkRefer(f)
     \/ roll \in {"twins", "twins2"} /\ \E S \in SUBSET Twins, f \in Froms : TwinRefer(S, f)
     \/ roll = "ints" /\ \E f \in Froms : Intercept(f)
     \/ roll = "trap" /\ \E t \in Patterns : SetFlags([flags EXCEPT !.trap = Toggle(@, t)])
     \/ roll = "inc" /\ \E m \in Modules : SetFlags([flags EXCEPT !.inc = Toggle(@, m)])
     \/ roll = "all" /\ \E a \in {"default", "true", "false"} : SetFlags([flags EXCEPT !.all = a])
     \/ roll = "stdlib" /\ \E a \in {"default", "true", "false"} : SetFlags([flags EXCEPT !.stdlib = a])
     \/ roll \in {"tags", "tags2"} /\ SetFlags([flags EXCEPT !.tags = ~@])
     \/ roll \in {"cmd", "cmd2"} /\ \E c \in Cmds : SetFlags([flags EXCEPT !.cmd = c])
     \/ Same
DoBuild ==
  /\ roll = "" /\ edits = 0 /\ left > 0
  /\ Build
  /\ builds' = Append(builds, [home |-> home, ver |-> ver, refs |-> refs, ints |-> ints, flags |-> flags, expect |-> [i \in Idx |-> Expect(i)]])
  /\ left' = left - 1
  /\ edits' \in 1..MaxEdits
  /\ UNCHANGED roll
Done == /\ left = 0
        /\ CSVWrite("%1$s", <<ToJson(builds)>>, OutFile)
        /\ left' = -1 /\ UNCHANGED <<vars, roll, edits, builds>>
GenNext == Roll \/ Act \/ DoBuild \/ Done
=============================================================================
