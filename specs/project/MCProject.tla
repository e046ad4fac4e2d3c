----------------------------- MODULE MCProject -----------------------------
(* All histories of a small project.                                          *)
EXTENDS XgoProject
CONSTANTS MaxSteps, MaxRefs
VARIABLES n
mcvars == <<vars, n>>
MCInit == Init /\ n = 0
Ref(i, f) == [target |-> i, from |-> f, api |-> "Patch", form |-> "plain", pos |-> "stmt"]
MCNext ==
  /\ n < MaxSteps /\ n' = n + 1
  /\ \/ Build
     \/ \E i \in Idx : \/ \E f \in Files[Pool[i].pkg] : Put(i, f)
                       \/ Drop(i)
                       \/ ver[i] = 0 /\ Edit(i)
                       \/ \E f \in Froms : Cardinality(refs) < MaxRefs /\ Refer(Ref(i, f))
     \/ \E r \in refs : Unrefer(r)
     \/ \E f \in Froms : Intercept(f)
     \/ \E t \in Patterns : SetFlags([flags EXCEPT !.trap = IF t \in @ THEN @ \ {t} ELSE @ \cup {t}])
     \/ \E m \in Modules : SetFlags([flags EXCEPT !.inc = IF m \in @ THEN @ \ {m} ELSE @ \cup {m}])
     \/ \E a \in {"default", "true", "false"} : SetFlags([flags EXCEPT !.all = a])
     \/ SetFlags([flags EXCEPT !.tags = ~@])
     \/ \E c \in Cmds : SetFlags([flags EXCEPT !.cmd = c])
\* the number of steps matters only as a bound
View == vars
=============================================================================
