------------------------------ MODULE XgoTypes ------------------------------
(* The type a package variable gets from its initializer: Go's rules for       *)
(* constants, untyped operands and shifts. A behaviour builds one initializer, *)
(* operand by operand; its text is declared, and what the program then sees of *)
(* the variable must have the type the specification gives it.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS MaxLen, OutFile, Emitting

VARIABLES stack, len, done
vars == <<stack, len, done>>

\* u: "const" untyped constant of kind t; "shift": untyped constant shifted by a
\* variable, adapting like a constant; "no": of type t.  c: is a constant
Op(e, t, u, c) == [e |-> e, t |-> t, u |-> u, c |-> c, a |-> TRUE]

Leaves == {
    Op("3", "int", "const", TRUE), Op("0x10", "int", "const", TRUE), Op("2.5", "float64", "const", TRUE), Op("1e2", "float64", "const", TRUE),
    Op("'a'", "rune", "const", TRUE), Op("\"s\"", "string", "const", TRUE), Op("`r`", "string", "const", TRUE), Op("true", "bool", "const", TRUE),
    Op("CI", "int", "const", TRUE), Op("CF", "float64", "const", TRUE), Op("CR", "rune", "const", TRUE), Op("CS", "string", "const", TRUE),
    Op("CB", "bool", "const", TRUE), Op("CE", "float64", "const", TRUE), Op("CG", "int", "const", TRUE), Op("sub.C", "int", "const", TRUE), Op("sub.CF", "float64", "const", TRUE),
    Op("KN", "main.Num", "no", TRUE), Op("KL", "int64", "no", TRUE), Op("sub.K", "sub.Num", "no", TRUE), Op("KS", "main.Str", "no", TRUE),
    Op("VI", "int", "no", FALSE), Op("VF", "float64", "no", FALSE), Op("VN", "main.Num", "no", FALSE), Op("VS", "string", "no", FALSE),
    Op("VB", "bool", "no", FALSE), Op("VL", "int64", "no", FALSE), Op("sub.V", "sub.Num", "no", FALSE), Op("VR", "rune", "no", FALSE), Op("VQ", "main.Str", "no", FALSE),
    Op("VT.A", "int", "no", FALSE), Op("VT.N", "main.Num", "no", FALSE), Op("VP.F", "float64", "no", FALSE), Op("VA.x", "int64", "no", FALSE),
    Op("fi()", "int", "no", FALSE), Op("fn()", "main.Num", "no", FALSE), Op("sub.F()", "sub.Num", "no", FALSE), Op("VG()", "float64", "no", FALSE),
    Op("VN.Get()", "int", "no", FALSE), Op("VL2[0]", "int", "no", FALSE), Op("*VPI", "int", "no", FALSE), Op("len(VS)", "int", "no", FALSE),
    Op("time.Second", "time.Duration", "no", TRUE), Op("gid(VF)", "float64", "no", FALSE), Op("VE", "int", "no", FALSE) }

Ints == {"int", "int64", "rune", "main.Num", "sub.Num", "time.Duration"}
Floats == {"float64"}
Strs == {"string", "main.Str"}
Rank(t) == CASE t = "int" -> 1 [] t = "rune" -> 2 [] t = "float64" -> 3 [] OTHER -> 0
Untyped(x) == x.u # "no"

\* may an untyped x become a t? (the constants used are all representable)
Fits(x, t) == CASE x.t \in {"int", "rune"} -> IF x.u = "shift" THEN t \in Ints ELSE t \in Ints \cup Floats
                [] x.t = "float64" -> t \in Floats
                [] x.t = "string"  -> t \in Strs
                [] x.t = "bool"    -> t = "bool"

\* the operand type of a binary operation; "" if there is none
Joint(x, y) ==
    CASE Untyped(x) /\ Untyped(y) ->
            IF Rank(x.t) > 0 /\ Rank(y.t) > 0
            THEN LET t == IF Rank(x.t) >= Rank(y.t) THEN x.t ELSE y.t IN
                 IF "shift" \in {x.u, y.u} /\ t = "float64" THEN "" ELSE t
            ELSE IF x.t = y.t THEN x.t ELSE ""
      [] Untyped(x) -> IF Fits(x, y.t) THEN y.t ELSE ""
      [] Untyped(y) -> IF Fits(y, x.t) THEN x.t ELSE ""
      [] OTHER      -> IF x.t = y.t THEN x.t ELSE ""

Par(x) == IF x.a THEN x.e ELSE "(" \o x.e \o ")"
Allowed(op, t) == CASE op \in {"+"} -> t \in Ints \cup Floats \cup Strs
                    [] op \in {"*"} -> t \in (Ints \cup Floats)
                    [] op \in {"|", "^", "&", "&^"} -> t \in Ints
                    [] op \in {"&&", "||"} -> t = "bool"
                    [] op \in {"==", "!="} -> t # ""
                    [] op \in {"<", ">="}  -> t \in Ints \cup Floats \cup Strs
Compare == {"==", "!=", "<", ">="}

Joined(op, x, y) ==
    LET t == Joint(x, y) c == x.c /\ y.c IN
    [e |-> Par(x) \o " " \o op \o " " \o Par(y), a |-> FALSE, c |-> c,
     t |-> IF op \in Compare THEN "bool" ELSE t,
     u |-> IF op \in Compare THEN (IF c THEN "const" ELSE "no")
           ELSE IF ~Untyped(x) \/ ~Untyped(y) THEN "no"
           ELSE IF "shift" \in {x.u, y.u} THEN "shift" ELSE IF c THEN "const" ELSE "no"]

Top == stack[Len(stack)]
Under == stack[Len(stack) - 1]
Rest(k) == SubSeq(stack, 1, Len(stack) - k)

Init == stack = <<>> /\ len = 0 /\ done = FALSE

Push == \E l \in Leaves : stack' = Append(stack, l)

Binary == /\ Len(stack) >= 2
          /\ \E op \in {"+", "*", "|", "&", "^", "&^", "&&", "||"} \cup Compare :
              /\ Allowed(op, Joint(Under, Top))
              \* an untyped result of a comparison stands for a bool of its own
              /\ op \in Compare => Under.u # "shift" /\ Top.u # "shift"
              /\ stack' = Append(Rest(2), Joined(op, Under, Top))

Unary == /\ Len(stack) >= 1
         /\ \/ /\ Top.t \in (Ints \cup Floats) /\ Top.u # "shift"
               /\ stack' = Append(Rest(1), [Top EXCEPT !.e = "-" \o Par(Top), !.a = FALSE])
            \/ /\ Top.t \in Ints /\ Top.u # "shift"
               /\ stack' = Append(Rest(1), [Top EXCEPT !.e = "^" \o Par(Top), !.a = FALSE])
            \/ /\ Top.t = "bool" /\ stack' = Append(Rest(1), [Top EXCEPT !.e = "!" \o Par(Top), !.a = FALSE])
            \/ stack' = Append(Rest(1), [Top EXCEPT !.e = "(" \o Top.e \o ")", !.a = TRUE])

\* shifting by a constant keeps a constant constant
Shift == /\ Len(stack) >= 1 /\ Top.t \in Ints
         /\ \/ stack' = Append(Rest(1), [Top EXCEPT !.e = Par(Top) \o " << 1", !.a = FALSE])
            \/ /\ Top.u # "const" \/ Top.t = "int"
               /\ stack' = Append(Rest(1), [e |-> Par(Top) \o " >> VU", a |-> FALSE, c |-> FALSE, t |-> Top.t,
                                            u |-> IF Untyped(Top) THEN "shift" ELSE "no"])

Convert == /\ Len(stack) >= 1 /\ Top.u # "shift"
           /\ \E t \in {"main.Num", "float64", "int64", "sub.Num", "rune", "main.Str", "string"} :
               /\ \/ t \in Ints \cup Floats /\ (IF Top.c THEN Top.t \in Ints ELSE Top.t \in Ints \cup Floats)
                  \/ t \in Strs /\ Top.t \in Strs
               /\ stack' = Append(Rest(1), [e |-> (CASE t = "main.Num" -> "Num" [] t = "main.Str" -> "Str" [] OTHER -> t) \o "(" \o Top.e \o ")",
                                            a |-> TRUE, c |-> Top.c, t |-> t, u |-> "no"])

\* composite initializers of a value
Wrap == /\ Len(stack) = 1 /\ Top.u # "shift"
        /\ \E w \in {"gid", "slice", "map", "ptr", "struct", "func", "append", "idx", "fld", "lit", "new", "array"} :
            stack' = <<CASE w = "gid"    -> [Top EXCEPT !.e = "gid(" \o Top.e \o ")", !.a = TRUE, !.u = "no", !.c = FALSE]
                         [] w = "slice"  -> [e |-> "[]interface{}{" \o Top.e \o "}", t |-> "[]interface {}", a |-> TRUE, u |-> "wrap", c |-> FALSE]
                         [] w = "map"    -> [e |-> "map[string]interface{}{\"k\": " \o Top.e \o "}", t |-> "map[string]interface {}", a |-> TRUE, u |-> "wrap", c |-> FALSE]
                         [] w = "ptr"    -> [e |-> "&Box[interface{}]{" \o Top.e \o "}", t |-> "*main.Box[interface {}]", a |-> TRUE, u |-> "wrap", c |-> FALSE]
                         [] w = "struct" -> [e |-> "sub.Any{" \o Top.e \o "}", t |-> "sub.Any", a |-> TRUE, u |-> "wrap", c |-> FALSE]
                         [] w = "func"   -> [e |-> "func() interface{} { return " \o Top.e \o " }", t |-> "func() interface {}", a |-> TRUE, u |-> "wrap", c |-> FALSE]
                         [] w = "append" -> [e |-> "append([]interface{}{}, " \o Top.e \o ")", t |-> "[]interface {}", a |-> TRUE, u |-> "wrap", c |-> FALSE]
                         [] w = "array"  -> [e |-> "[...]interface{}{1, " \o Top.e \o "}", t |-> "[2]interface {}", a |-> TRUE, u |-> "wrap", c |-> FALSE]
                         [] w = "idx"    -> [e |-> "[]interface{}{" \o Top.e \o "}[0]", t |-> Top.t, a |-> TRUE, u |-> "wrap", c |-> FALSE]
                         [] w = "fld"    -> [e |-> "(&sub.Any{" \o Top.e \o "}).V", t |-> Top.t, a |-> TRUE, u |-> "wrap", c |-> FALSE]
                         [] w = "lit"    -> [e |-> "struct{ v interface{} }{" \o Top.e \o "}", t |-> "struct { v interface {} }", a |-> TRUE, u |-> "wrap", c |-> FALSE]
                         [] w = "new"    -> [e |-> "sub.New(" \o Top.e \o ")", t |-> "*sub.Any", a |-> TRUE, u |-> "wrap", c |-> FALSE]>>

Build == /\ ~done /\ len < MaxLen /\ (IF Len(stack) >= 1 THEN Top.u # "wrap" ELSE TRUE)
         /\ Push \/ Binary \/ Unary \/ Shift \/ Convert \/ Wrap
         /\ len' = len + 1 /\ done' = FALSE

Finish == /\ ~done /\ Len(stack) = 1
          /\ done' = TRUE /\ UNCHANGED <<stack, len>>
          /\ Emitting => CSVWrite("%1$s", <<ToJson([e |-> Top.e, t |-> IF Top.t = "rune" THEN "int32" ELSE Top.t, c |-> Top.c])>>, OutFile)

Next == Build \/ Finish

\* ----------------------------------------------------------------- checked
TypeOK == \A i \in 1..Len(stack) : stack[i].u \in {"const", "shift", "no", "wrap"}
\* only constants stay untyped constants; what is typed never loses its type to an untyped operand
ConstsAreConst == \A i \in 1..Len(stack) : stack[i].u = "const" => stack[i].c
TypedWins == \A x, y \in Leaves : ~Untyped(x) /\ Untyped(y) /\ Joint(x, y) # "" => Joint(x, y) = x.t /\ Joint(y, x) = x.t
Symmetric == \A x, y \in Leaves : Joint(x, y) = Joint(y, x)
=============================================================================
