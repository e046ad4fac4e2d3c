------------------------------- MODULE MCCli -------------------------------
(* Every command line of up to MaxLen words over a small vocabulary.          *)
EXTENDS XgoCli
CONSTANTS MaxLen
W(raw, dash, name, eq, val) == [raw |-> raw, dash |-> dash, name |-> name, eq |-> eq, val |-> val]
Words == {W("-v", 1, "v", FALSE, ""), W("-race", 1, "race", FALSE, ""), W("-run", 1, "run", FALSE, ""), W("-count", 1, "count", FALSE, ""),
          W("-count=1", 1, "count", TRUE, "1"), W("--trap", 2, "trap", FALSE, ""), W("--trap-all", 2, "trap-all", FALSE, ""),
          W("-custom", 1, "custom", FALSE, ""), W("-custom=1", 1, "custom", TRUE, "1"), W("-args", 1, "args", FALSE, ""),
          W("--", 2, "", FALSE, ""), W("./a", 0, "", FALSE, ""), W("x", 0, "", FALSE, "")}
Grow == /\ Len(ws) < MaxLen /\ \E w \in Words : ws' = Append(ws, w)
        /\ UNCHANGED <<cmd, around>>
=============================================================================
