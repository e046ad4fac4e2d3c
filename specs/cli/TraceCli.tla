------------------------------ MODULE TraceCli ------------------------------
(* Checks command lines recorded from the real code: for each record the      *)
(* command line xgo was given (ws) and the one it gave to go (got).           *)
EXTENDS XgoCli, Json, CSV, TLC
CONSTANTS InFile, OutFile
Records == ndJsonDeserialize(InFile)
VARIABLE at
\* outputs are files: names are taken relative to the directory they are given in
Resolve(m, abs) == [m EXCEPT !.flags = [i \in DOMAIN @ |-> IF @[i][1] = "o" /\ @[i][2] \in DOMAIN abs THEN <<"o", abs[@[i][2]]>> ELSE @[i]]]
TInit == Init /\ at = 0
TNext == /\ at < Len(Records) /\ at' = at + 1
         /\ LET r == Records[at + 1]
                want == Resolve(Meaning(r.cmd, r.ws), r.wabs)
                got == Resolve(GoParse(r.cmd, r.got), r.gabs) IN
              CSVWrite("%1$s", <<ToJson([i |-> at + 1, same |-> Same(got, want), got |-> got, want |-> want])>>, OutFile)
         /\ UNCHANGED vars
=============================================================================
