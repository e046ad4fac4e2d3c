----------------------------- MODULE GenProfiles -----------------------------
(* Random histories of profiles and merges, with what the results must say.  *)
(* The choices of a step are made one after the other, to keep the successors *)
(* of a state few.                                                            *)
EXTENDS XgoProfiles, Integers, Json, CSV, TLC
CONSTANTS OutFile, Counts, Len0
VARIABLES roll, mask, pick, left, log
gvars == <<vars, roll, mask, pick, left, log>>
GenInit == Init /\ roll = "" /\ mask = 0 /\ pick = <<>> /\ left \in 4..Len0 /\ log = <<>>
Some == {n \in Names : Exists(n)}
Roll == /\ roll = "" /\ left > 0 /\ UNCHANGED <<vars, mask, pick, left, log>>
        /\ roll' \in IF Some = {} THEN {"record"} ELSE {"record", "record2", "append", "merge", "merge2", "merge3", "compact", "fail"}
Masked == {"record", "record2", "append"}
RollMask == roll \in Masked /\ mask = 0 /\ mask' \in 1..(2 ^ Len(Blocks) - 1) /\ UNCHANGED <<vars, roll, pick, left, log>>
RollPick == /\ roll # "" /\ roll \notin Masked /\ pick = <<>> /\ UNCHANGED <<vars, roll, mask, left, log>>
            /\ IF roll = "compact" THEN \E s \in Some : pick' = <<s>>
               ELSE \E s, t, u \in Some, k \in 2..4 : pick' = IF k = 2 THEN <<s, t>> ELSE IF k = 3 THEN <<s, t, u>> ELSE <<u, s, t, u>>
S == {b \in B : (mask \div (2 ^ (b - 1))) % 2 = 1}
Ex == {{}} \cup {{e} : e \in 1..Len(Excludes)} \cup {1..Len(Excludes)}
Do(e) == log' = Append(log, e) /\ left' = left - 1 /\ roll' = "" /\ mask' = 0 /\ pick' = <<>>
Act ==
  \/ /\ roll \in {"record", "record2"} /\ mask # 0
     /\ \E n \in Names, k \in Counts, j \in 1..3, r \in BOOLEAN :
          LET one == Lines([b \in S |-> (k * (b + j)) % (k * 3 + 1)]) ls == IF r THEN one \o one ELSE one IN Record(n, ls) /\ Do([op |-> "record", out |-> n, lines |-> ls])
  \/ /\ roll = "append" /\ mask # 0
     /\ \E n \in Some : LET ls == files[n] \o Lines([b \in S |-> b]) IN Record(n, ls) /\ Do([op |-> "record", out |-> n, lines |-> ls])
  \/ /\ pick # <<>> /\ roll # "fail"
     /\ \E o \in Names, ex \in Ex : MergeTo(o, pick, ex) /\ Do([op |-> IF roll = "compact" THEN "compact" ELSE "merge", out |-> o, srcs |-> pick, ex |-> ex, want |-> Lines(Merged(pick, ex))])
  \/ /\ pick # <<>> /\ roll = "fail"
     /\ \E o \in Names, i \in 1..4 : LET ss == SubSeq(pick, 1, i - 1) \o <<"missing">> \o SubSeq(pick, i, Len(pick)) IN
          i <= Len(pick) + 1 /\ FailTo(o, ss) /\ Do([op |-> "fail", out |-> o, srcs |-> ss, want |-> files[o]])
Done == left = 0 /\ CSVWrite("%1$s", <<ToJson(log)>>, OutFile) /\ left' = -1 /\ UNCHANGED <<vars, roll, mask, pick, log>>
GenNext == Roll \/ RollMask \/ RollPick \/ Act \/ Done
=============================================================================
