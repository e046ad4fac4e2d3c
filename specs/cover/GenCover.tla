------------------------------ MODULE GenCover ------------------------------
(* Random programs and tests, with the profiles expected of their runs.      *)
EXTENDS CoverPrograms, Json, CSV, TLC
CONSTANTS OutFile, Kinds, Rolls, Sels, MaxSteps
VARIABLES roll, steps
gvars == <<pvars, roll, steps>>
GenInit == PInit /\ roll = "" /\ steps = 0
Pkg(i) == Pkgs[i]
Mockable(f) == fns[f].kind \in {"plain", "named", "variadic"}
\* the length a function is meant to have
Full == Len(CT) + Depth >= MaxToks - 1
Roll == /\ roll = "" /\ Writing
        /\ IF Cur = 0 \/ (open = <<>> /\ CT # <<>> /\ CT[Len(CT)].k = "ret" /\ CT[Len(CT)].d = 0)
           THEN roll' = IF Cur < NF THEN "newfn" ELSE IF Len(tests) < 3 THEN "test" ELSE "begin"
           ELSE IF Full THEN roll' = IF open # <<>> THEN "close" ELSE "endfn"
           ELSE IF InSwitchHead THEN roll' \in {"case", "default", "case2"}
           ELSE roll' \in {r \in Rolls : /\ r \in {"close", "close2", "close3", "br", "br2"} => open # <<>>
                                         /\ r \in {"if", "if2", "for", "sw", "lit", "def"} => Depth < MaxDepth /\ Len(CT) + Depth + 2 < MaxToks
                                         /\ r \in {"lit", "def"} => ~InClosure({"lit", "def"})
                                         /\ r = "rcv" => Innermost = "def"
                                         /\ r \in {"call", "call2", "panic"} => ~InClosure({"def"})
                                         /\ r \in {"call", "call2"} => Cur > 1
                                         /\ r \in {"brk"} => Target(Depth, {"for", "sw"}) # 0
                                         /\ r \in {"cont"} => Target(Depth, {"for"}) # 0
                                         /\ r \in {"ret", "panic"} => Depth > 0
                                         /\ r = "endfn" => open = <<>>
                                         /\ r \in {"br", "br2"} => Innermost \in {"if", "sw"} /\ ~HasDefault(open[Depth])}
        /\ UNCHANGED <<pvars, steps>>
Vs == 0..11
Gaps == {TRUE, FALSE, FALSE}
Act ==
  /\ roll # "" /\ roll' = "" /\ UNCHANGED steps
  /\ \/ roll = "newfn" /\ \E p \in 1..Len(Pkgs), k \in Kinds : (Cur > 0 => p <= Len(Pkgs)) /\ NewFn(Pkg(p), k)
     \/ roll = "endfn" /\ \E v \in Vs, g \in Gaps : EndFn(v, g)
     \/ roll \in {"op", "op2", "op3"} /\ \E v \in Vs, g \in Gaps : WritePlain("op", 0, "", v, g)
     \/ roll \in {"inc", "dec", "brk", "cont", "rcv", "ret", "panic"} /\ \E v \in Vs, g \in Gaps : WritePlain(roll, 0, "", v, g)
     \/ roll \in {"call", "call2"} /\ \E a \in 1..(Cur - 1), x \in {"n", "m", "0", "3"}, v \in Vs, g \in Gaps : WritePlain("call", a, x, v, g)
     \/ roll \in {"if", "if2"} /\ \E a \in -1..2, v \in Vs, g \in Gaps : WriteOpen("if", a, v, g)
     \/ roll = "for" /\ \E a \in 0..2, v \in Vs, g \in Gaps : WriteOpen("for", a, v, g)
     \/ roll \in {"sw", "lit", "def"} /\ \E v \in Vs, g \in Gaps : WriteOpen(roll, 0, v, g)
     \/ roll \in {"br", "br2"} /\ Innermost = "if" /\ \E k \in {"else", "elif"}, a \in -1..2, v \in Vs : WriteBranch(k, a, v)
     \/ roll \in {"br", "br2", "case", "case2", "default"} /\ Innermost = "sw" /\ \E k \in {"case", "default"}, a \in -1..3, v \in Vs : WriteBranch(k, IF k = "default" THEN 9 ELSE a, v)
     \/ roll \in {"close", "close2", "close3"} /\ Close
     \/ roll = "test" /\ \E n \in -1..4, m \in -1..4, f \in 1..NF, M \in SUBSET (1..NF) :
          /\ M = IF Len(tests) = 2 THEN M ELSE {}
          /\ Len(tests) = 2 => M # {} /\ \A g \in M : Mockable(g)
          /\ AddTest([mocks |-> M, calls |-> IF Len(tests) = 0 THEN <<[f |-> NF, n |-> n]>> ELSE <<[f |-> NF, n |-> n], [f |-> f, n |-> m]>>])
     \* nothing to mock
     \/ roll = "test" /\ Len(tests) = 2 /\ (\A g \in 1..NF : ~Mockable(g)) /\ AddTest([mocks |-> {}, calls |-> <<[f |-> NF, n |-> 1]>>])
     \/ roll = "begin" /\ Begin
     \* what was rolled is not possible here
     \/ roll \in {"call", "call2"} /\ (~(\E a \in 1..(Cur - 1) : \E i, j \in 1..Len(Pkgs) : i <= j /\ Pkgs[i] = fns[Cur].pkg /\ Pkgs[j] = fns[a].pkg)) /\ UNCHANGED pvars
     \/ roll \notin {"newfn", "endfn", "test", "begin", "close"} /\ Full /\ UNCHANGED pvars
Exe == /\ ~Writing /\ ~Finished /\ steps < MaxSteps /\ Exec /\ steps' = steps + 1 /\ UNCHANGED <<open, roll>>
Drop == /\ ~Writing /\ ~Finished /\ steps = MaxSteps /\ steps' = MaxSteps + 1 /\ UNCHANGED <<pvars, roll>>
Done == /\ Finished /\ steps <= MaxSteps
        /\ CSVWrite("%1$s", <<ToJson([fns |-> fns, tests |-> [t \in Tests |-> [mocks |-> tests[t].mocks, calls |-> tests[t].calls]],
                                      profiles |-> [i \in 1..Len(Sels) |-> Profile(Sels[i])], mocks |-> [i \in 1..Len(Sels) |-> Mocks(Sels[i])],
                                      merged |-> Merge(Profile(Sels[1]), Profile(Sels[2])), steps |-> steps])>>, OutFile)
        /\ steps' = MaxSteps + 1 /\ UNCHANGED <<pvars, roll>>
GenNext == Roll \/ Act \/ Exe \/ Drop \/ Done
=============================================================================
