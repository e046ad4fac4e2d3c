------------------------------ MODULE MCCover ------------------------------
(* Every small program over a small alphabet, every test of it.              *)
EXTENDS CoverPrograms
CONSTANTS Alphabet, Args
Mentioned == Alphabet
Next ==
  \/ \E p \in {Pkgs[1]} : NewFn(p, "plain")
  \/ \E k \in Alphabet \cap Plain, g \in {FALSE} :
       \/ k # "call" /\ WritePlain(k, 0, "", 0, g)
       \/ k = "call" /\ \E a \in 1..(NF - 1) : WritePlain(k, a, "m", 0, g)
  \/ "gap" \in Alphabet /\ WritePlain("op", 0, "", 0, TRUE)
  \/ \E k \in Alphabet \cap Openers : WriteOpen(k, IF k = "for" THEN 2 ELSE 0, 0, FALSE)
  \/ \E k \in Alphabet \cap Branches : WriteBranch(k, IF k = "elif" THEN -1 ELSE 1, 0)
  \/ Close
  \/ EndFn(0, FALSE)
  \/ tests = <<>> /\ \E n \in Args : AddTest([mocks |-> {}, calls |-> <<[f |-> NF, n |-> n]>>])
  \/ Len(tests) = 1 /\ NF > 1 /\ AddTest([mocks |-> {1}, calls |-> <<[f |-> NF, n |-> 1], [f |-> 1, n |-> 1]>>])
  \/ Begin
  \/ Run
MCSpec == PInit /\ [][Next]_pvars /\ WF_pvars(Run)
Ends == (at = <<1, 0>>) ~> Finished
=============================================================================
