------------------------------- MODULE GenSig -------------------------------
(* Random behaviours of XgoSig, written out once they are long enough.        *)
EXTENDS XgoSig, Json, CSV, TLC
CONSTANTS OutFile
VARIABLE written
GenInit == Init /\ written = FALSE
Emit == /\ phase = "ops" /\ Len(ops) = MaxOps /\ ~written
        /\ CSVWrite("%1$s", <<ToJson([d |-> d, ops |-> ops])>>, OutFile)
        /\ written' = TRUE /\ UNCHANGED vars
GenNext == (Next /\ UNCHANGED written) \/ Emit
=============================================================================
