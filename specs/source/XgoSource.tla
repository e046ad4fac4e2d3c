----------------------------- MODULE XgoSource ------------------------------
(* What the source of an instrumented program means: which variable a name    *)
(* denotes at each point (Go's lexical scoping), what reading it there yields  *)
(* - the mock's value while the package variable it denotes is mocked in this  *)
(* goroutine, else its own - what taking its address yields (always the        *)
(* variable itself) and what assigning to it changes (always the variable      *)
(* itself). A behaviour is one execution of a program; the commands along it   *)
(* spell the program's text, which the harness renders, builds with xgo (and   *)
(* with go, when nothing is mocked) and runs.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Names,      \* names programs use; "sub" is the name of an import
    Shape,      \* what kind of package variable a name denotes
    Quals,      \* names of variables of the imported package, written sub.x
    Kinds,      \* constructs that open a scope
    ReadCtx, AddrCtx, WriteCtx,  \* syntactic positions, by shape of variable
    RmwCtx,     \* assignments that read the variable as well
    OwnCtx,     \* positions where the name is not the variable's (fields, labels...)
    DeclForms,  \* ways of declaring a name as an int variable
    MaxOpen, MaxVal, MaxMocks, Feat

VARIABLES
    val,     \* package variable -> its value
    mocks,   \* package variable -> values of the mocks in force, latest last
    frames,  \* open scopes, innermost last
    cmd, obs

vars == <<val, mocks, frames, cmd, obs>>

None == [t |-> "no", v |-> 0]
Bind(t, v) == [t |-> t, v |-> v]
NoBinds == [n \in Names |-> None]
Vals == 0..MaxVal

\* where a construct declares its name: in a scope around its body, in the scope
\* of the body, or nowhere
Around == {"ifinit", "ifelse", "elseif", "forinit", "rangekey", "rangeval", "rangekv", "rangeint", "switchinit", "switchtag"}
InBody == {"typeswitch", "typeswitchinit", "select", "funcparam", "funcresult", "deferparam", "goparam", "topparam", "topresult", "toprecv", "topgeneric", "methodvalue",
           "funclater", "funcfirst", "funcreslater", "funcvariadic", "toplater", "topreslater"}
Plain  == {"block", "if", "else", "for", "case", "comm", "labeled", "func", "go"}
Goroutines == {"goparam", "go"}
TopLevel == {"topparam", "topresult", "toprecv", "topgeneric", "toplater", "topreslater"}

ASSUME Kinds \subseteq (Around \cup InBody \cup Plain)

Ident(n) == IF n \in Quals THEN "sub" ELSE n

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Base == Max({1} \cup {i \in 1..Len(frames) : frames[i].top})
\* the scope that n denotes a name of; 0: the package, or the file's imports
Index(n) == LET S == {i \in Base..Len(frames) : frames[i].b[Ident(n)].t # "no"} IN IF S = {} THEN 0 ELSE Max(S)
Binding(n) == IF Index(n) = 0 THEN None ELSE frames[Index(n)].b[Ident(n)]
IsPkg(n) == Index(n) = 0 /\ n # "sub"

Mocked(n) == mocks[n] # <<>>
ReadPkg(n) == IF Mocked(n) THEN mocks[n][Len(mocks[n])] ELSE val[n]

Opens == Cardinality({i \in 1..Len(frames) : frames[i].k # "body"})

Frame(k, n, bd, top, saved) == [k |-> k, b |-> [NoBinds EXCEPT ![n] = bd], top |-> top, saved |-> saved]

Init == /\ val = [n \in Names |-> 1] /\ mocks = [n \in Names |-> <<>>]
        /\ frames = <<Frame("prog", CHOOSE n \in Names : TRUE, None, TRUE, <<>>)>>
        /\ cmd = [op |-> "init", k |-> "", n |-> "", v |-> 0, s |-> ""] /\ obs = <<>>

Cmd(op, k, n, v) == [op |-> op, k |-> k, n |-> n, v |-> v, s |-> IF n \in Names THEN Binding(n).t ELSE ""]

----------------------------------------------------------------------------
(* Scopes                                                                   *)
OpenWith(k, n, bd) ==
    LET f == Frame(k, n, bd, k \in TopLevel, IF k \in Goroutines THEN <<mocks>> ELSE <<>>) IN
    frames' = IF k \in Around THEN frames \o <<f, Frame("body", n, None, FALSE, <<>>)>> ELSE Append(frames, f)

Open(k, n, v) ==
    /\ Opens < MaxOpen
    /\ n \in Names \ Quals
    /\ \/ k \in Plain /\ v = 0 /\ n = CHOOSE x \in Names \ Quals : TRUE
       \/ k \notin Plain /\ v \in Vals /\ n # "sub" /\ (k \in {"rangekey", "rangeint"} => v = 0)
    /\ OpenWith(k, n, IF k \in Plain THEN None ELSE Bind(IF k = "toprecv" THEN "recv" ELSE "var", v))
    /\ cmd' = Cmd("open", k, n, v) /\ obs' = <<>> /\ UNCHANGED <<val, mocks>>

\* ending a scope uncovers what its names covered; mocks end with their goroutine
Close ==
    /\ Len(frames) > 1
    /\ LET last == frames[Len(frames)]
           h == IF last.k = "body" THEN Len(frames) - 1 ELSE Len(frames) IN
        /\ frames' = SubSeq(frames, 1, h - 1)
        /\ mocks' = IF frames[h].saved # <<>> THEN frames[h].saved[1] ELSE mocks
        /\ cmd' = Cmd("close", frames[h].k, "", 0)
    /\ obs' = <<>> /\ UNCHANGED val

----------------------------------------------------------------------------
(* Declarations                                                             *)
Here(n) == frames[Len(frames)].b[n]
Declare(n, bd) == frames' = [frames EXCEPT ![Len(frames)].b[n] = bd]

\* the value of n as an int expression, where it has one
IntVal(n) == IF Index(n) # 0 THEN Binding(n).v ELSE ReadPkg(n)
IsInt(n) == \/ Binding(n).t \in {"var", "const"} /\ n # "sub"
            \/ IsPkg(n) /\ Shape[n] = "int"

\* the declarations whose value is that of the name they cover, plus one
Selfs == {"selfdefine", "selfvar", "selftyped", "selfpair", "selfplain", "selfvarplain", "selflast", "selfvarlast", "selfgroup"}
Decl(f, n, v) ==
    /\ n \in Names \ Quals
    /\ Here(n).t = "no"
    /\ n = "sub" => f \in {"define", "var"}
    /\ f \in Selfs => IsInt(n) /\ IntVal(n) < MaxVal /\ v = 0
    /\ f = "zero" => v = 0
    /\ Declare(n, CASE f \in Selfs -> Bind("var", IntVal(n) + 1)
                    [] f \in {"const", "constgroup", "const2"} -> Bind("const", v)
                    [] f \in {"type", "typegroup", "typealias"} -> Bind("type", 0)
                    [] f = "func"  -> Bind("func", v)
                    [] OTHER       -> Bind("var", v))
    /\ cmd' = Cmd("decl", f, n, v) /\ obs' = <<>> /\ UNCHANGED <<val, mocks>>

----------------------------------------------------------------------------
(* Uses                                                                     *)
Use(c, n) ==
    /\ \/ /\ IsPkg(n) /\ c \in ReadCtx[Shape[n]]  /\ obs' = <<"val", ReadPkg(n)>>
       \/ /\ IsPkg(n) /\ c \in AddrCtx[Shape[n]]  /\ obs' = <<"val", val[n]>>
       \/ /\ Binding(n).t \in {"var", "const"} /\ n \notin Quals /\ c \in ReadCtx[IF n = "sub" THEN "localsub" ELSE "int"]
          /\ obs' = <<"val", Binding(n).v>>
       \/ /\ Binding(n).t = "var" /\ n \notin Quals /\ n # "sub" /\ c \in AddrCtx["int"] /\ obs' = <<"val", Binding(n).v>>
       \/ /\ Binding(n).t \in {"type", "func", "recv"} /\ n \notin Quals /\ n # "sub" /\ c \in ReadCtx["local" \o Binding(n).t]
          /\ obs' = <<"val", IF Binding(n).t = "type" THEN 7 ELSE Binding(n).v>>
       \/ /\ n \notin Quals /\ n # "sub" /\ c \in OwnCtx /\ obs' = <<"val", 7>>
    /\ cmd' = Cmd("use", c, n, obs'[2]) /\ UNCHANGED <<val, mocks, frames>>

Write(c, n, v) ==
    \* +v for the forms that add
    LET old == IF IsPkg(n) THEN val[n] ELSE Binding(n).v
        new == IF c \in RmwCtx["int"] THEN old + v ELSE v IN
    /\ new <= MaxVal
    /\ \/ /\ IsPkg(n) /\ c \in WriteCtx[Shape[n]] /\ (c \in RmwCtx[Shape[n]] => ~Mocked(n))
          /\ val' = [val EXCEPT ![n] = new] /\ UNCHANGED frames
       \/ /\ Binding(n).t = "var" /\ n \notin Quals /\ n # "sub" /\ c \in WriteCtx["int"]
          /\ frames' = [frames EXCEPT ![Index(n)].b[n].v = new] /\ UNCHANGED val
    /\ cmd' = Cmd("write", c, n, v) /\ obs' = <<>> /\ UNCHANGED mocks

----------------------------------------------------------------------------
(* Mocks                                                                    *)
Mock(n, v) ==
    /\ "mock" \in Feat /\ IsPkg(n) /\ Len(mocks[n]) < MaxMocks
    /\ mocks' = [mocks EXCEPT ![n] = Append(@, v)]
    /\ cmd' = Cmd("mock", Shape[n], n, v) /\ obs' = <<>> /\ UNCHANGED <<val, frames>>

\* mocks of an outer goroutine cannot be cancelled here
Outer(n) == LET S == {i \in 1..Len(frames) : frames[i].saved # <<>>} IN
            IF S = {} THEN 0 ELSE Len(frames[Max(S)].saved[1][n])
Cancel(n) ==
    /\ "mock" \in Feat /\ Len(mocks[n]) > Outer(n)
    /\ mocks' = [mocks EXCEPT ![n] = SubSeq(@, 1, Len(@) - 1)]
    /\ cmd' = [op |-> "cancel", k |-> "", n |-> n, v |-> 0, s |-> ""] /\ obs' = <<>> /\ UNCHANGED <<val, frames>>

Next == \/ \E k \in Kinds, n \in Names, v \in Vals : Open(k, n, v)
        \/ Close
        \/ \E f \in DeclForms, n \in Names, v \in Vals : Decl(f, n, v)
        \/ \E n \in Names : \E c \in UNION {ReadCtx[s] \cup AddrCtx[s] : s \in DOMAIN ReadCtx} \cup OwnCtx : Use(c, n)
        \/ \E n \in Names, v \in Vals : \E c \in UNION {WriteCtx[s] : s \in DOMAIN WriteCtx} : Write(c, n, v)
        \/ \E n \in Names, v \in Vals : Mock(n, v)
        \/ \E n \in Names : Cancel(n)

----------------------------------------------------------------------------
TypeOK == /\ val \in [Names -> Vals]
          /\ \A n \in Names : mocks[n] \in Seq(Vals)
          /\ \A i \in 1..Len(frames) : \A n \in Names : frames[i].b[n].v \in Vals

\* a package variable changes by assignments to it only, a local one likewise
OnlyWrites == [][\A n \in Names : val'[n] # val[n] => cmd'.op = "write" /\ cmd'.n = n /\ IsPkg(n)]_vars
\* reading and mocking changes nothing
ReadsChangeNothing == [][cmd'.op = "use" => val' = val /\ frames' = frames /\ mocks' = mocks]_vars
MocksLeaveVariables == [][cmd'.op \in {"mock", "cancel"} => val' = val /\ frames' = frames]_vars
\* leaving a scope, every name means what it meant when it was entered
Uncovered == [][cmd'.op = "close" => \A n \in Names : Index(n)' <= Len(frames')]_vars
\* what is not the package's is never intercepted, nor is what has its address taken
LocalsUnmocked == [][cmd'.op = "use" /\ cmd'.n \in Names /\ ~IsPkg(cmd'.n) /\ cmd'.k \in ReadCtx["int"] /\ cmd'.n \notin Quals /\ cmd'.n # "sub"
                      => obs'[2] = Binding(cmd'.n).v]_vars
AddrIsOwn == [][cmd'.op = "use" /\ IsPkg(cmd'.n) /\ cmd'.k \in AddrCtx[Shape[cmd'.n]] => obs'[2] = val[cmd'.n]]_vars
ReadIsMock == [][cmd'.op = "use" /\ IsPkg(cmd'.n) /\ cmd'.k \in ReadCtx[Shape[cmd'.n]] /\ Mocked(cmd'.n)
                  => obs'[2] = mocks[cmd'.n][Len(mocks[cmd'.n])]]_vars
=============================================================================
