----------------------------- MODULE MCProfiles -----------------------------
EXTENDS XgoProfiles
CONSTANTS MaxLines, MaxCount
LinesOver(k) == [1..k -> [b : B, n : 0..MaxCount]]
Small == \A n \in Names : \A i \in 1..Len(files[n]) : files[n][i].n <= MaxCount * 2
Next == \/ \E n \in Names, k \in 1..MaxLines : ~Exists(n) /\ \E ls \in LinesOver(k) : Record(n, ls)
        \/ \E o \in Names, s, t \in Names, ex \in SUBSET (1..Len(Excludes)) : MergeTo(o, <<s, t>>, ex)
        \/ \E o, s \in Names, ex \in SUBSET (1..Len(Excludes)) : Compact(o, s, ex)
=============================================================================
