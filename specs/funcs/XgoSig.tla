------------------------------- MODULE XgoSig -------------------------------
(* One declared function or method, addressed through the APIs of xgo.        *)
(*                                                                            *)
(* A behaviour first writes a declaration: where it stands, its receiver, its *)
(* type parameters, parameters and results (phases "head" .. "results"), then *)
(* runs a history of operations on it: inspect what the function table says   *)
(* about it, install a handler through one of the APIs, call it, cancel.      *)
(* Values of every type are numbered; 0 is the zero value of the type.        *)
(* Each operation records what must be observed:                              *)
(*   <<"pre", recv, args>>  a recorder or interceptor before the call         *)
(*   <<"mock", recv, args>> a replacer or mock interceptor instead of the body*)
(*   <<"body", recv, args>> the body                                          *)
(*   <<"post", recv, args, results>>   a recorder or interceptor after it     *)
(*   <<"ret", results>> | <<"panic", e>>     what the caller gets             *)
(* recv is -1 where the handler does not get the receiver.                    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Places,      \* "main" | "sub" (another package of the main module) | "dep", "ref" (other modules)
  Bases,       \* base types of receivers
  GenBases,    \* those that have type parameters
  Types,       \* types of parameters and results that do not depend on type parameters
  Insts, UInsts, \* what the first type parameter is instantiated with; those that are not comparable
  GTypes,      \* those that mention the first type parameter of the function or receiver
  MaxParams, MaxResults, MaxV, MaxOps,
  Names        \* names of parameters and results

Blank == "_"
None == ""
Range(s) == {s[i] : i \in 1..Len(s)}
Dom(ty) == IF ty = "bool" THEN 0..1 ELSE 0..MaxV
Max(a, b) == IF a > b THEN a ELSE b

VARIABLES d,      \* the declaration
          phase,
          roll,   \* what is to be added next (so that random generation is not dominated by large sets of successors)
          h,      \* what is installed: [mock |-> ..., rec |-> ...]
          ops     \* the history
vars == <<d, phase, roll, h, ops>>

NoH == [api |-> None, form |-> None, inst |-> -1, ptrs |-> FALSE]
Init ==
  /\ d = [place |-> None, method |-> FALSE, base |-> None, ptr |-> FALSE, rname |-> None, tps |-> 0, inst |-> None,
          exported |-> TRUE, pnamed |-> TRUE, rnamed |-> TRUE, params |-> <<>>, results |-> <<>>, variadic |-> FALSE, pgroup |-> TRUE]
  /\ phase = "head" /\ roll = None /\ ops = <<>> /\ h = [mock |-> NoH, rec |-> NoH]

Generic(x) == x.tps > 0 \/ x.base \in GenBases
\* a method's type parameters are those of its receiver
Kind ==
  /\ phase = "head" /\ roll = None
  /\ \E k \in {"func", "method", "generic", "genmethod"} : roll' = k
  /\ UNCHANGED <<d, phase, h, ops>>

KindFill ==
  /\ phase = "head" /\ roll # None
  /\ \E pl \in Places, ex \in BOOLEAN, b \in Bases \cup {None}, p \in BOOLEAN, rn \in {"r", Blank, None}, tp \in 0..2, in \in Insts :
       /\ (roll \in {"method", "genmethod"}) = (b # None)
       /\ (roll = "genmethod") = (b \in GenBases)
       /\ (roll = "generic") = (tp > 0)
       /\ b = None => p = FALSE /\ rn = None
       \* a reference has to be resolved from the source of the main module alone: a type made of type parameters is not
       /\ pl = "ref" => ex /\ b \notin {"gsl", "gmap"} /\ (in = "err" => b = None)
       /\ (roll \in {"func", "method"}) => in = "int"
       /\ b = "gen2" => in \notin UInsts
       /\ d' = [d EXCEPT !.place = pl, !.exported = ex, !.method = b # None, !.base = b, !.ptr = p, !.rname = rn, !.tps = tp, !.inst = in]
  /\ phase' = "params" /\ roll' = None
  /\ UNCHANGED <<h, ops>>

Used(x) == {x.params[i].nm : i \in 1..Len(x.params)} \cup {x.results[i].nm : i \in 1..Len(x.results)} \cup {x.rname}

Special == IF phase = "params" THEN {"ctx", "cctx"} ELSE {"error", "eptr"}
\* adds a parameter or a result, or goes on to the next phase
RollField ==
  /\ phase \in {"params", "results"} /\ roll = None
  /\ \/ /\ Len(IF phase = "params" THEN d.params ELSE d.results) < (IF phase = "params" THEN MaxParams ELSE MaxResults)
        /\ roll' \in {"plain", "generic", "same", "special"}
        \* a context as the first parameter and errors as results mean something to handlers
        /\ roll' = "special" => (phase = "params" => d.params = <<>>) /\ Special \cap Types # {}
        /\ roll' = "generic" => Generic(d)
        /\ roll' = "same" => Len(IF phase = "params" THEN d.params ELSE d.results) > 0
     \/ roll' = "done"
  /\ UNCHANGED <<d, phase, h, ops>>

Field ==
  /\ phase \in {"params", "results"} /\ roll \in {"plain", "generic", "same", "special"}
  /\ LET key == IF phase = "params" THEN "params" ELSE "results"
         named == IF phase = "params" THEN d.pnamed ELSE d.rnamed
         fs == d[key] IN
     \E ty \in (IF roll = "plain" THEN Types ELSE IF roll = "special" THEN Special \cap Types ELSE IF roll = "generic" THEN GTypes ELSE {fs[Len(fs)].ty}),
        nm \in (Names \ Used(d)) \cup {Blank}, nd \in (IF fs = <<>> THEN BOOLEAN ELSE {named}) :
       \* Go: either all the fields of a list are named or none of them
       /\ ~nd => nm = Blank
       /\ d' = [d EXCEPT ![key] = Append(fs, [nm |-> IF nd THEN nm ELSE None, ty |-> ty]),
                         ![IF phase = "params" THEN "pnamed" ELSE "rnamed"] = nd]
  /\ roll' = None
  /\ UNCHANGED <<phase, h, ops>>

Next1 ==
  /\ phase \in {"params", "results"} /\ roll = "done"
  /\ \/ /\ phase = "params"
        /\ \E v \in (IF d.params = <<>> THEN {FALSE} ELSE BOOLEAN), g \in BOOLEAN :
              d' = [d EXCEPT !.variadic = v, !.pgroup = g]
        /\ phase' = "results"
     \/ phase = "results" /\ phase' = "ops" /\ d' = d
  /\ roll' = None
  /\ UNCHANGED <<h, ops>>

(* -------------------------------------------------------------- operations *)
NP == Len(d.params)
NR == Len(d.results)
Ptype(i) == d.params[i].ty
Rtype(i) == d.results[i].ty
\* a result of a type that implements error is not an error result, a parameter of a type that implements context.Context is a context
LastErr == NR > 0 /\ (Rtype(NR) = "error" \/ (Rtype(NR) = "T" /\ d.inst = "err"))
FirstCtx == NP > 0 /\ Ptype(1) \in {"ctx", "cctx"} /\ ~(d.variadic /\ NP = 1)

\* how the function may be named in an API that takes it as a value; functions
\* that are not exported can be named in this way in their own package only
Forms == IF d.method THEN {"bound", "expr"} ELSE {"func"}
\* by name: not for generic functions, which have no single instance
ByName == ~Generic(d)

Apis == {"patch", "mock"} \cup (IF ByName THEN {"patchName", "mockName"} ELSE {})
        \cup (IF ByName /\ d.method THEN {"patchMethod", "mockMethod"} ELSE {})
RecApis == {"call", "result", "record", "intercept"}

\* is the handler bound to one receiver?
Bound(api, form) == form = "bound" \/ api \in {"patchMethod", "mockMethod"}
FormsOf(api) == IF api \in {"patchName", "mockName", "patchMethod", "mockMethod"} THEN {None} ELSE Forms
\* a function of another module is instrumented because it is referred to by value
\* in the main module ("ref") or because its package is trapped by flag ("dep")
RefOnly == d.place = "ref"

Install(slot) ==
  /\ phase = "ops" /\ roll = slot /\ h[slot] = NoH
  /\ \E api \in (IF slot = "mock" THEN Apis ELSE RecApis) : \E form \in FormsOf(api) :
       /\ RefOnly => form # None
       /\ \E inst \in (IF Bound(api, form) THEN 1..2 ELSE {-1}), ptrs \in (IF api \in {"call", "result", "record"} THEN BOOLEAN ELSE {FALSE}) :
            /\ h' = [h EXCEPT ![slot] = [api |-> api, form |-> form, inst |-> inst, ptrs |-> ptrs]]
            /\ ops' = Append(ops, [op |-> "install", slot |-> slot, api |-> api, form |-> form, inst |-> inst, ptrs |-> ptrs])
  /\ roll' = None /\ UNCHANGED <<d, phase>>

Cancel(slot) ==
  /\ phase = "ops" /\ roll = slot /\ h[slot] # NoH
  /\ h' = [h EXCEPT ![slot] = NoH]
  /\ ops' = Append(ops, [op |-> "cancel", slot |-> slot])
  /\ roll' = None /\ UNCHANGED <<d, phase>>

Applies(x, inst) == x.api # None /\ (x.inst = -1 \/ x.inst = inst)
IsInterceptor(api) == api \in {"mock", "mockName", "mockMethod", "intercept"}

Fit(ty, v) == IF ty = "bool" THEN v % 2 ELSE v

\* The values of one call are derived from two numbers, which keeps the number
\* of successors small: argument i is (a + i) and result i is (b + i), modulo
\* the number of values of the type.
Args(a) == [i \in 1..NP |-> Fit(Ptype(i), (a + i) % (MaxV + 1))]
Rets(b) == [i \in 1..NR |-> Fit(Rtype(i), (b + 2 * i) % (MaxV + 1))]

\* What a recorder does, besides looking: nothing, or overwriting argument `seti`
\* (before) or result `seti` (after); an interceptor may also stop the call.
SetAt(s, i, f(_), v) == IF i \in 1..Len(s) THEN [s EXCEPT ![i] = Fit(f(i), v)] ELSE s

CallForms == IF d.method THEN {"direct", "value", "expr", "iface", "defer", "go"} ELSE {"direct", "value", "defer", "go"}

Call ==
  /\ phase = "ops" /\ roll = "call"
  /\ \E a \in 0..MaxV, b \in 0..MaxV, cf \in CallForms, inst \in (IF d.method THEN 1..2 ELSE {-1}),
        e \in {0, 2}, seti \in 0..2, stop \in BOOLEAN :
       LET rec == Applies(h.rec, inst)
           mk  == Applies(h.mock, inst)
           pre == rec /\ h.rec.api \in {"call", "record", "intercept"}
           post == rec /\ h.rec.api \in {"result", "record", "intercept"}
           stopped == rec /\ h.rec.api = "intercept" /\ stop
           args0 == Args(a)
           setter == rec /\ (h.rec.api = "intercept" \/ h.rec.ptrs) /\ seti > 0
           args1 == IF setter /\ pre THEN SetAt(args0, seti, Ptype, a) ELSE args0
           \* a bound handler does not get the receiver
           rv(x) == IF x.inst = -1 /\ d.method THEN inst ELSE -1
           zero == [i \in 1..NR |-> 0]
           err == mk /\ ~stopped /\ IsInterceptor(h.mock.api) /\ e > 0
           r0 == Rets(b)
           r1 == IF stopped THEN zero
                 ELSE IF err /\ LastErr THEN [r0 EXCEPT ![NR] = e] ELSE r0
           panics == err /\ ~LastErr
           r2 == IF setter /\ post /\ ~stopped THEN SetAt(r1, seti, Rtype, b) ELSE r1
           \* the context an interceptor is given: that of the call if there is one
           ctx == IF FirstCtx THEN args1[1] ELSE 0
           ctx0 == IF FirstCtx THEN args0[1] ELSE 0
           evs == (IF pre THEN << [ev |-> "pre", recv |-> rv(h.rec), args |-> args0, res |-> zero, ctx |-> IF h.rec.api = "intercept" THEN ctx0 ELSE -1] >> ELSE <<>>)
                  \o (IF stopped THEN <<>>
                      ELSE IF mk THEN << [ev |-> "mock", recv |-> rv(h.mock), args |-> args1, res |-> zero, ctx |-> IF IsInterceptor(h.mock.api) THEN ctx ELSE -1] >>
                      ELSE << [ev |-> "body", recv |-> inst, args |-> args1, res |-> <<>>, ctx |-> -1] >>)
                  \o (IF post /\ ~stopped /\ ~panics THEN << [ev |-> "post", recv |-> rv(h.rec), args |-> args1, res |-> r1, ctx |-> IF h.rec.api = "intercept" THEN ctx ELSE -1] >> ELSE <<>>)
                  \o (IF panics THEN << [ev |-> "panic", recv |-> -1, args |-> <<>>, res |-> <<e>>, ctx |-> -1] >>
                      ELSE << [ev |-> "ret", recv |-> -1, args |-> <<>>, res |-> r2, ctx |-> -1] >>) IN
       \* what a handler that is not there would do is nobody's choice
       /\ (~(mk /\ IsInterceptor(h.mock.api) /\ ~stopped)) => e = 0
       /\ (~(rec /\ (h.rec.api = "intercept" \/ h.rec.ptrs))) => seti = 0
       /\ (~(rec /\ h.rec.api = "intercept")) => stop = FALSE
       /\ ops' = Append(ops, [op |-> "call", cf |-> cf, inst |-> inst, args |-> args0, ret |-> r0, e |-> e,
                              seti |-> seti, setarg |-> IF seti \in 1..NP THEN args1[seti] ELSE -1,
                              setres |-> IF seti \in 1..NR THEN r2[seti] ELSE -1, stop |-> stop, evs |-> evs])
  /\ roll' = None /\ UNCHANGED <<d, phase, h>>

\* what the function table says about the function
Info ==
  /\ phase = "ops" /\ roll = "info"
  /\ ops' = Append(ops, [op |-> "info", generic |-> Generic(d), ptr |-> d.ptr, ctx |-> FirstCtx, err |-> LastErr,
                         args |-> [i \in 1..NP |-> d.params[i].nm], res |-> [i \in 1..NR |-> d.results[i].nm], recv |-> d.rname])
  /\ roll' = None /\ UNCHANGED <<d, phase, h>>

RollOp ==
  /\ phase = "ops" /\ roll = None /\ Len(ops) < MaxOps
  /\ roll' \in {"call", "mock", "rec", "info"}
  \* the table does not change: it is looked at once
  /\ roll' = "info" => ~RefOnly /\ \A i \in 1..Len(ops) : ops[i].op # "info"
  /\ UNCHANGED <<d, phase, h, ops>>

Next == Kind \/ KindFill \/ RollField \/ Field \/ Next1 \/ RollOp \/ Call \/ Info \/ \E s \in {"mock", "rec"} : Install(s) \/ Cancel(s)
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- properties *)
Calls == {i \in 1..Len(ops) : ops[i].op = "call"}
Evs(i, k) == {j \in 1..Len(ops[i].evs) : ops[i].evs[j].ev = k}

WellFormed ==
  \A i \in Calls : LET e == ops[i].evs IN
    \* every call ends exactly once, and either the body or one mock or a stop decides its results
    /\ Cardinality(Evs(i, "ret") \cup Evs(i, "panic")) = 1
    /\ Cardinality(Evs(i, "body") \cup Evs(i, "mock")) = (IF ops[i].stop THEN 0 ELSE 1)
\* without a handler that applies, the function is what was written
Transparent ==
  \A i \in Calls : (Evs(i, "mock") = {} /\ ops[i].seti = 0 /\ ~ops[i].stop) =>
    /\ \A j \in Evs(i, "ret") : ops[i].evs[j].res = ops[i].ret
    /\ \A j \in Evs(i, "body") : ops[i].evs[j].args = ops[i].args /\ ops[i].evs[j].recv = ops[i].inst
\* a handler that is bound to a receiver sees no call on another one
BoundOnly ==
  \A i \in Calls : Evs(i, "mock") # {} =>
    LET js == {j \in 1..(i - 1) : ops[j].op = "install" /\ ops[j].slot = "mock"}
        last == CHOOSE j \in js : \A k \in js : k <= j IN
    ops[last].inst \in {-1, ops[i].inst}
\* what the caller passes is what the first to look sees
Passed ==
  \A i \in Calls : ops[i].evs[1].ev \in {"pre", "mock", "body"} => ops[i].evs[1].args = ops[i].args
=============================================================================
