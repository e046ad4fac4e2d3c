----------------------------- MODULE GenGoroot -----------------------------
(* Generates histories: operations on the instrumented copies of several      *)
(* original GOROOTs by several revisions of xgo, with the place in each where *)
(* it is to be killed, or an operation on a file is to fail.                  *)
EXTENDS Naturals, Sequences, Json, CSV, TLC
CONSTANTS Revs, Origs, Classes, Hist, OutFile
VARIABLES h, cur, at, left
vars == <<h, cur, at, left>>
Init == h = <<>> /\ at = 0 /\ left \in Hist /\ cur = [kind |-> "setup"]
\* weights are given by repetition
Kinds == <<"setup", "setup", "setup", "exec", "exec", "reset", "reset", "delete", "again", "again">>
Hits == <<"none", "none", "kill", "kill", "kill", "torn", "torn", "torn", "error", "error">>
Pos == <<"first", "second", "mid", "random", "random", "late", "last">>
Pick(f, S) == /\ \E v \in S : cur' = (f :> v) @@ cur
              /\ at' = at + 1 /\ UNCHANGED <<h, left>>
Next == \/ at = 0 /\ (\E i \in DOMAIN Kinds : cur' = [kind |-> Kinds[i]]) /\ at' = 1 /\ UNCHANGED <<h, left>>
        \/ at = 1 /\ Pick("rev", Revs)
        \/ at = 2 /\ Pick("orig", Origs)
        \/ at = 3 /\ (\E i \in DOMAIN Hits : cur' = ("hit" :> Hits[i]) @@ cur) /\ at' = 4 /\ UNCHANGED <<h, left>>
        \/ at = 4 /\ Pick("class", Classes)
        \/ at = 5 /\ (\E i \in DOMAIN Pos : cur' = ("pos" :> Pos[i]) @@ cur) /\ at' = 6 /\ UNCHANGED <<h, left>>
        \/ at = 6 /\ h' = Append(h, cur) /\ at' = (IF left = 1 THEN 7 ELSE 0) /\ left' = left - 1 /\ UNCHANGED cur
        \/ at = 7 /\ CSVWrite("%1$s", <<ToJson(h)>>, OutFile) /\ at' = 8 /\ UNCHANGED <<h, cur, left>>
=============================================================================
