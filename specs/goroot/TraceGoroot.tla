---------------------------- MODULE TraceGoroot ----------------------------
(* Checks histories recorded from the real code against what XgoGoroot says   *)
(* of finished operations (Finished, Untouched): a finished set-up has left   *)
(* the tree that the same revision makes from scratch, with the build cache   *)
(* of no other revision; an operation that nothing disturbed is finished.     *)
EXTENDS Naturals, Sequences, Json, CSV, TLC
CONSTANTS InFile, OutFile
Records == ndJsonDeserialize(InFile)
VARIABLE at
Fresh(o, r) == o \o "-" \o r
Finished(x) == IF x.kind = "delete" THEN x.tree = "none" ELSE x.tree = Fresh(x.orig, x.rev) /\ \A i \in DOMAIN x.caches : x.caches[i] = x.rev
Ok(x) == /\ x.untouched /\ x.escapes = 0
         /\ CASE x.outcome = "finished" -> Finished(x)
              [] x.outcome = "killed" -> x.hit \in {"kill", "torn"}
              [] x.outcome = "failed" -> x.hit = "error"
              [] OTHER -> FALSE
Bad(r) == SelectSeq([i \in 1..Len(r.steps) |-> i], LAMBDA i : ~Ok(r.steps[i]))
TInit == at = 0
TNext == /\ at < Len(Records) /\ at' = at + 1
         /\ LET b == Bad(Records[at + 1]) IN
              CSVWrite("%1$s", <<ToJson([i |-> at + 1, bad |-> IF b = <<>> THEN 0 ELSE b[1]])>>, OutFile)
=============================================================================
