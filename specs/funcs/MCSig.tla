------------------------------- MODULE MCSig -------------------------------
(* Exhaustive exploration of histories on a small family of declarations.     *)
EXTENDS XgoSig
P(ty) == [nm |-> "a", ty |-> ty]
Decls ==
  {[d0 EXCEPT !.base = b, !.method = b # None, !.ptr = p, !.tps = t, !.params = ps, !.results = rs, !.variadic = v] :
     d0 \in {[place |-> pl, method |-> FALSE, base |-> None, ptr |-> FALSE, rname |-> None, tps |-> 0, inst |-> "int",
              exported |-> TRUE, pnamed |-> TRUE, rnamed |-> TRUE, params |-> <<>>, results |-> <<>>, variadic |-> FALSE, pgroup |-> TRUE] : pl \in Places},
     b \in Bases \cup {None}, p \in BOOLEAN, t \in 0..1,
     ps \in {<<>>, <<P("int")>>, <<P("ctx"), P("int")>>, <<P("ctx")>>}, rs \in {<<>>, <<P("int")>>, <<P("int"), P("error")>>}, v \in BOOLEAN}
MCInit ==
  /\ d \in {x \in Decls : /\ (x.base = None => ~x.ptr) /\ (x.tps > 0 => x.base = None)
                          /\ (x.params = <<>> => ~x.variadic)}
  /\ phase = "ops" /\ roll = None /\ ops = <<>> /\ h = [mock |-> NoH, rec |-> NoH]
\* the way a call is written makes no difference
View == <<d, phase, roll, h, [i \in 1..Len(ops) |-> IF ops[i].op = "call" THEN [ops[i] EXCEPT !.cf = "any"] ELSE ops[i]]>>
=============================================================================
