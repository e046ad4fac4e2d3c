----------------------------- MODULE XgoRuntime -----------------------------
(***************************************************************************)
(* Operational model of the xgo runtime: what every instrumented call,     *)
(* variable read, goroutine creation and exit does to the mocks,           *)
(* recorders, interceptors and goroutine-local values of a process.        *)
(*                                                                         *)
(* One action = one command executed by one goroutine of the real program  *)
(* (see drivers/rt).  A goroutine's control stack is explicit: each frame  *)
(* is a place where user code runs - a function body, a mock, a pre or     *)
(* post handler - and may itself install mocks, call functions, panic,     *)
(* spawn goroutines...  Every action has exactly one observable effect,    *)
(* `obs': the frame the program is in next, with the argument or result    *)
(* it sees there.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
    NG,          \* goroutines are 1..NG; 1 exists initially, a dead one is never reused
    MaxId,       \* handlers (mocks, recorders, interceptors) ever installed
    MaxFrames,   \* bound on nesting
    Funcs,       \* functions and methods of the program under test
    Vars,        \* package variables
    Feat,        \* enabled groups of commands, see Next; "free" leaves out the
                 \* commands by which one goroutine affects another
    Globs        \* possible sets of handlers installed by init()

VARIABLES
    gs,      \* goroutine -> record, see NewG
    vars,    \* package variable -> current value
    handles, \* sequence of [id, g, kind, f, live]: the cancel functions handed out
    glob,    \* handlers installed during package initialisation
    ents,    \* trace entries, in the order they were opened
    obs,     \* what the last command observed
    cmd,     \* the last command
    n        \* values are made distinguishable by numbering them

sv == <<gs, vars, handles, glob, ents>>
allv == <<gs, vars, handles, glob, ents, obs, cmd, n>>

Methods  == {"TM", "PN"}
Insts(f) == IF f \in Methods THEN {"a", "b"} ELSE {"-"}
\* what a handler can be bound to: one instance, or the function itself
Binds(f) == Insts(f) \cup {"-"}
\* functions with a deferred part
Deferring == {"D0"}
TlsKeys  == {"K", "KI", "KJ"}
Inherited == {"KI", "KJ"}     \* the keys declared inheritable
None     == 0

NoHandlers == [mocks   |-> [f \in Funcs |-> <<>>],
               recs    |-> [f \in Funcs |-> <<>>],
               ints    |-> <<>>,
               vmocks  |-> [v \in Vars |-> <<>>],
               vpmocks |-> [v \in Vars |-> <<>>],
               vrecs   |-> [v \in Vars |-> <<>>],
               vprecs  |-> [v \in Vars |-> <<>>]]

RootFrame == [k |-> "root"]
NewG(st, par, h, tls, tr) == [st |-> st, par |-> par, h |-> h, tls |-> tls, tr |-> tr,
                          frames |-> IF st = "run" THEN <<RootFrame>> ELSE <<>>]

Running(g) == gs[g].st = "run"
Alive == {g \in 1..NG : gs[g].st = "run"}
Top(g) == gs[g].frames[Len(gs[g].frames)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
Range(s) == {s[i] : i \in 1..Len(s)}
Without(s, id) == SelectSeq(s, LAMBDA e : e.id # id)

(***************************************************************************)
(* Which handlers apply                                                    *)
(***************************************************************************)
Matches(bind, inst) == bind = "-" \/ bind = inst

\* the most recently installed mock that applies to this receiver;
\* the goroutine's own mocks take precedence over init-time ones
RECURSIVE LastMatch(_, _)
LastMatch(s, inst) ==
    IF s = <<>> THEN None
    ELSE IF Matches(Last(s).bind, inst) THEN Last(s).id
    ELSE LastMatch(Front(s), inst)

MockFor(g, f, inst) ==
    LET l == LastMatch(gs[g].h.mocks[f], inst)
    IN IF l # None THEN l ELSE LastMatch(glob.mocks[f], inst)

\* the code that runs inside a handler or a mock is not itself subject to
\* general interceptors
Trapping(frames) == \E i \in 1..Len(frames) : frames[i].k \in {"pre", "post", "mock"}

HandlersFor(g, f, inst) ==
    LET app(s) == SelectSeq(s, LAMBDA h : Matches(h.bind, inst))
        recs == app(gs[g].h.recs[f] \o glob.recs[f])
        ints == IF Trapping(gs[g].frames) THEN <<>> ELSE gs[g].h.ints \o glob.ints
    IN recs \o ints

(***************************************************************************)
(* Tracing.  While a goroutine traces, every call it makes outside of       *)
(* handlers and mocks becomes an entry below the innermost one still open.  *)
(* A goroutine created meanwhile is part of the trace too.                  *)
(***************************************************************************)
NoTrace == [on |-> FALSE, sid |-> 0, top |-> 0, filt |-> FALSE]
\* trace.Config.FilterTrace of the program under test leaves out this function
FilteredOut(tr, f) == tr.filt /\ f = "F1"

RECURSIVE Render(_, _), RenderAll(_, _)
Render(E, i) ==
    LET e == E[i] IN
    IF e.k = "go"
    THEN "go{" \o RenderAll(E, {j \in 1..Len(E) : E[j].par = 0 /\ E[j].s = e.arg}) \o "}"
    ELSE e.name \o "(" \o ToString(e.arg) \o ")=" \o ToString(e.res) \o e.st
         \o "{" \o RenderAll(E, {j \in 1..Len(E) : E[j].par = i}) \o "}"
RenderAll(E, is) ==
    IF is = {} THEN ""
    ELSE LET i == CHOOSE x \in is : \A y \in is : x <= y
         IN Render(E, i) \o ";" \o RenderAll(E, is \ {i})

\* the local state a call evolves: frames, the goroutine's tracing state, all
\* trace entries, traces completed in this step
S(fr, T, E, out) == [fr |-> fr, T |-> T, E |-> E, out |-> out]
Local(g) == S(gs[g].frames, gs[g].tr, ents, "")
WithFr(s, fr) == [s EXCEPT !.fr = fr]

Entry(k, s, par, name, arg) == [k |-> k, s |-> s, par |-> par, name |-> name, arg |-> arg, res |-> 0, st |-> "~"]

OpenEntry(s, c) == [s EXCEPT !.E = Append(@, Entry("call", s.T.sid, s.T.top, c.f, c.arg)),
                             !.T.top = Len(s.E) + 1]

\* pan: "" for a normal return, "goexit", or a panic value
CloseEntry(s, c, pan) ==
    IF c.e = 0 THEN s
    ELSE LET E1 == [s.E EXCEPT ![c.e].res = IF c.f = "Trace" THEN 0 ELSE c.res, ![c.e].st = IF pan \in {"", "goexit"} THEN "" ELSE "!" \o pan]
         IN IF c.start
            THEN [s EXCEPT !.E = E1, !.T = NoTrace, !.out = Render(E1, c.e)]
            ELSE [s EXCEPT !.E = E1, !.T.top = s.E[c.e].par]

(***************************************************************************)
(* The life of a call: pre handlers in order, then the mock or the body,   *)
(* then the post handlers of those whose pre ran, in reverse.              *)
(* Each operator yields [s |-> local state, o |-> observation, dead |-> ]. *)
(***************************************************************************)
R(s, o) == [s |-> s, o |-> o, dead |-> FALSE]

RECURSIVE Advance(_, _), Enter(_, _), Finish(_, _, _), Posts(_, _, _), AfterCall(_, _, _), Unwind(_, _)

Advance(c, s) ==
    IF c.todo # <<>>
    THEN LET h == Head(c.todo) IN
         IF h.pre
         THEN R(WithFr(s, Append(s.fr, [k |-> "pre", id |-> h.id, c |-> [c EXCEPT !.todo = Tail(@)], h |-> h])),
                <<"pre", h.id, c.f, c.arg>>)
         ELSE Advance([c EXCEPT !.todo = Tail(@), !.posts = IF h.post THEN Append(@, h) ELSE @], s)
    ELSE IF c.rectrace THEN Enter([c EXCEPT !.e = Len(s.E) + 1], OpenEntry(s, c))
    ELSE Enter(c, s)

Enter(c, s) ==
    IF c.mock # None
    THEN R(WithFr(s, Append(s.fr, [k |-> "mock", id |-> c.mock, c |-> c])), <<"mock", c.mock, c.f, c.arg>>)
    ELSE R(WithFr(s, Append(s.fr, [k |-> "body", id |-> 0, c |-> c])), <<"body", c.inst, c.f, c.arg>>)

\* the body is over; a function with a deferred part runs it now
Finish(c, s, pan) ==
    IF c.f \in Deferring /\ ~c.deferred /\ c.mock = None
    THEN R(WithFr(s, Append(s.fr, [k |-> "defer", id |-> 0, c |-> [c EXCEPT !.deferred = TRUE], pan |-> pan])), <<"defer", c.f>>)
    ELSE Posts(c, s, pan)

Posts(c, s, pan) ==
    IF c.posts # <<>>
    THEN LET h == Last(c.posts) IN
         R(WithFr(s, Append(s.fr, [k |-> "post", id |-> h.id, c |-> [c EXCEPT !.posts = Front(@)], pan |-> pan])),
           <<"post", h.id, c.f, c.res>>)
    ELSE AfterCall(c, s, pan)

AfterCall(c, s0, pan) ==
    LET s == CloseEntry(s0, c, pan) IN
    IF pan = "" THEN R(s, IF c.f = "Trace" THEN <<"traced">> ELSE <<"ret", c.f, c.res>>)
    ELSE IF pan # "goexit" /\ c.rec THEN R(s, <<"recovered", pan>>)
    ELSE Unwind(s, pan)

\* a panic or Goexit leaves frame after frame: bodies run the post handlers
\* of their call, handlers and mocks are simply abandoned
Unwind(s0, pan) ==
    LET t == Last(s0.fr) s == WithFr(s0, Front(s0.fr)) IN
    CASE t.k = "root" -> [s |-> s, o |-> <<"exit">>, dead |-> TRUE]
      [] t.k = "body" -> Finish(t.c, s, pan)
      [] t.k = "defer" -> Posts(t.c, s, pan)
      [] OTHER        -> AfterCall(t.c, s, pan)

\* is there a caller that recovers, before any call that is being torn down by
\* Goexit (recovering there would not stop the Goexit)
RECURSIVE Recoverable(_)
Recoverable(fr) ==
    LET t == Last(fr) IN
    CASE t.k = "root" -> FALSE
      [] t.k \in {"post", "defer"} /\ t.pan = "goexit" -> FALSE
      [] t.c.rec -> TRUE
      [] OTHER -> Recoverable(Front(fr))

(***************************************************************************)
(* Commands                                                                *)
(***************************************************************************)
\* op, goroutine, function/variable, instance/binding, value, id, options
Cmd(op, g, f, b, x, id, o) == [op |-> op, g |-> g, f |-> f, b |-> b, x |-> x, id |-> id, o |-> o]

\* finished traces are reported along with whatever is observed next
Step(g, r) ==
    /\ gs' = [gs EXCEPT ![g].frames = r.s.fr, ![g].tr = r.s.T, ![g].st = IF r.dead THEN "dead" ELSE @]
    /\ ents' = r.s.E
    /\ obs' = IF r.s.out = "" THEN r.o ELSE r.o \o <<"trace", r.s.out>>

NewCall(g, f, inst, rec) ==
    [f |-> f, inst |-> inst, arg |-> n, res |-> 0, rec |-> rec, deferred |-> FALSE,
     todo |-> HandlersFor(g, f, inst), posts |-> <<>>, mock |-> MockFor(g, f, inst),
     rectrace |-> gs[g].tr.on /\ ~Trapping(gs[g].frames) /\ ~FilteredOut(gs[g].tr, f),
     start |-> FALSE, e |-> 0]

Call(g) ==
    /\ Running(g)
    /\ "call" \in Feat
    /\ Len(gs[g].frames) < MaxFrames
    /\ \E f \in Funcs : \E inst \in Insts(f) : \E rec \in BOOLEAN :
        /\ Top(g).k = "root" => rec
        /\ Step(g, Advance(NewCall(g, f, inst, rec), Local(g)))
        /\ cmd' = Cmd("call", g, f, inst, n, 0, IF rec THEN "recover" ELSE "")
    /\ n' = n + 1 /\ UNCHANGED <<vars, handles, glob>>

\* leave a pre handler: plainly, after changing the argument, or by taking
\* over the call (only handlers that can report "mocked")
ReturnPre(g) ==
    /\ Running(g)
    /\ Top(g).k = "pre"
    /\ LET t == Top(g) s == WithFr(Local(g), Front(gs[g].frames))
           c1 == [t.c EXCEPT !.posts = IF t.h.post THEN Append(@, t.h) ELSE @]
           c2 == [t.c EXCEPT !.res = n, !.deferred = TRUE]
       IN \E o \in {"", "setarg"} \cup (IF t.h.stop THEN {"stop"} ELSE {}) :
          /\ Step(g, CASE o = "" -> Advance(c1, s)
                       [] o = "setarg" -> Advance([c1 EXCEPT !.arg = n], s)
                       [] OTHER -> IF t.c.rectrace
                                   THEN Finish([c2 EXCEPT !.e = Len(s.E) + 1], OpenEntry(s, c2), "")
                                   ELSE Finish(c2, s, ""))
          /\ cmd' = Cmd("return", g, "", "", n, 0, o)
    /\ n' = n + 1 /\ UNCHANGED <<vars, handles, glob>>

ReturnBody(g) ==
    /\ Running(g)
    /\ Top(g).k \in {"body", "mock"}
    /\ Step(g, Finish([Top(g).c EXCEPT !.res = n], WithFr(Local(g), Front(gs[g].frames)), ""))
    /\ cmd' = Cmd("return", g, "", "", n, 0, "")
    /\ n' = n + 1 /\ UNCHANGED <<vars, handles, glob>>

ReturnDefer(g) ==
    /\ Running(g)
    /\ Top(g).k = "defer"
    /\ Step(g, Posts(Top(g).c, WithFr(Local(g), Front(gs[g].frames)), Top(g).pan))
    /\ cmd' = Cmd("return", g, "", "", n, 0, "")
    /\ n' = n + 1 /\ UNCHANGED <<vars, handles, glob>>

ReturnPost(g) ==
    /\ Running(g)
    /\ Top(g).k = "post"
    /\ LET t == Top(g) IN
       \E o \in {"", "setres"} :
          /\ Step(g, Posts(IF o = "setres" THEN [t.c EXCEPT !.res = n] ELSE t.c,
                           WithFr(Local(g), Front(gs[g].frames)), t.pan))
          /\ cmd' = Cmd("return", g, "", "", n, 0, o)
    /\ n' = n + 1 /\ UNCHANGED <<vars, handles, glob>>

\* trace.Trace(config, nil, body): starts a trace unless one is under way. A
\* config that asks for no output ("empty") starts nothing.
Trace(g) ==
    /\ Running(g)
    /\ "trace" \in Feat
    /\ Len(gs[g].frames) < MaxFrames
    /\ \E o \in {"", "filter", "file", "empty"} : \E rec \in BOOLEAN :
        /\ Top(g).k = "root" => rec
        /\ LET tr == gs[g].tr
               starts == ~tr.on /\ ~Trapping(gs[g].frames) /\ o # "empty"
               c == [f |-> "Trace", inst |-> "-", arg |-> 0, res |-> 0, rec |-> rec, deferred |-> FALSE,
                     todo |-> <<>>, posts |-> <<>>, mock |-> None,
                     rectrace |-> starts \/ (tr.on /\ ~Trapping(gs[g].frames)), start |-> starts, e |-> 0]
               s == IF starts
                    THEN [Local(g) EXCEPT !.T = [on |-> TRUE, sid |-> 1000 * g + Len(ents), top |-> 0, filt |-> o = "filter"]]
                    ELSE Local(g)
           IN Step(g, Advance(c, s))
        /\ cmd' = Cmd("trace", g, o, "", 0, 0, IF rec THEN "recover" ELSE "")
    /\ n' = n /\ UNCHANGED <<vars, handles, glob>>

Exit(g) ==
    /\ Running(g)
    /\ "exit" \in Feat
    /\ Top(g).k = "root" /\ Cardinality(Alive) > 1
    /\ gs' = [gs EXCEPT ![g].st = "dead", ![g].frames = <<>>]
    /\ obs' = <<"exit">> /\ cmd' = Cmd("return", g, "", "", n, 0, "")
    /\ n' = n + 1 /\ UNCHANGED <<vars, handles, glob, ents>>

DoPanic(g) ==
    /\ Running(g)
    /\ "panic" \in Feat
    /\ Recoverable(gs[g].frames)
    /\ Step(g, Unwind(Local(g), ToString(n)))
    /\ cmd' = Cmd("panic", g, "", "", n, 0, "")
    /\ n' = n + 1 /\ UNCHANGED <<vars, handles, glob>>

Goexit(g) ==
    /\ Running(g)
    /\ "panic" \in Feat /\ Cardinality(Alive) > 1
    /\ Step(g, Unwind(Local(g), "goexit"))
    /\ cmd' = Cmd("goexit", g, "", "", n, 0, "")
    /\ n' = n + 1 /\ UNCHANGED <<vars, handles, glob>>

(***************************************************************************)
(* Installing and cancelling                                               *)
(***************************************************************************)
NextId == Len(handles) + 1
NewHandle(g, kind, f) == handles' = Append(handles, [id |-> NextId, g |-> g, kind |-> kind, f |-> f, live |-> TRUE])
CanInstall == NextId <= MaxId

Mock(g) ==
    /\ Running(g)
    /\ "mock" \in Feat /\ CanInstall
    /\ \E f \in Funcs : \E b \in Binds(f) : \E api \in {"patch", "mock", "patchname", "mockname"} :
        /\ gs' = [gs EXCEPT ![g].h.mocks[f] = Append(@, [id |-> NextId, bind |-> b])]
        /\ NewHandle(g, "mock", f)
        /\ cmd' = Cmd("mock", g, f, b, 0, NextId, api)
    /\ obs' = <<"ok">> /\ n' = n /\ UNCHANGED <<vars, glob, ents>>

\* "record": trace.Record(pre, post); "call"/"result": RecordCall/RecordResult;
\* "intercept": trap.AddFuncInterceptor, whose pre handler may take over the call
RecKinds == {"record", "call", "result", "intercept"}
HandlerOf(id, kind, b) ==
    [id |-> id, bind |-> b, pre |-> kind # "result", post |-> kind # "call", stop |-> kind = "intercept"]

Record(g) ==
    /\ Running(g)
    /\ "rec" \in Feat /\ CanInstall
    /\ \E f \in Funcs : \E b \in Binds(f) : \E kind \in RecKinds :
        /\ gs' = [gs EXCEPT ![g].h.recs[f] = Append(@, HandlerOf(NextId, kind, b))]
        /\ NewHandle(g, "rec", f)
        /\ cmd' = Cmd("record", g, f, b, 0, NextId, kind)
    /\ obs' = <<"ok">> /\ n' = n /\ UNCHANGED <<vars, glob, ents>>

Intercept(g) ==
    /\ Running(g)
    /\ "int" \in Feat /\ CanInstall
    /\ gs' = [gs EXCEPT ![g].h.ints = Append(@, HandlerOf(NextId, "intercept", "-"))]
    /\ NewHandle(g, "int", "")
    /\ cmd' = Cmd("intercept", g, "", "", 0, NextId, "")
    /\ obs' = <<"ok">> /\ n' = n /\ UNCHANGED <<vars, glob, ents>>

Drop(h, hd) ==
    CASE hd.kind = "mock"   -> [h EXCEPT !.mocks[hd.f] = Without(@, hd.id)]
      [] hd.kind = "rec"    -> [h EXCEPT !.recs[hd.f] = Without(@, hd.id)]
      [] hd.kind = "int"    -> [h EXCEPT !.ints = Without(@, hd.id)]
      [] hd.kind = "vmock"  -> [h EXCEPT !.vmocks[hd.f] = Without(@, hd.id)]
      [] hd.kind = "vpmock" -> [h EXCEPT !.vpmocks[hd.f] = Without(@, hd.id)]
      [] hd.kind = "vprec"  -> [h EXCEPT !.vprecs[hd.f] = Without(@, hd.id)]
      [] OTHER              -> [h EXCEPT !.vrecs[hd.f] = Without(@, hd.id)]

\* any goroutine may invoke any cancel function: it takes the handler off the
\* goroutine that installed it (and nobody else)
Cancel(g) ==
    /\ Running(g)
    /\ "cancel" \in Feat
    /\ \E i \in 1..Len(handles) :
        /\ handles[i].live
        /\ gs[handles[i].g].st = "run"
        /\ "free" \in Feat => handles[i].g = g
        /\ handles' = [handles EXCEPT ![i].live = FALSE]
        /\ gs' = [gs EXCEPT ![handles[i].g].h = Drop(@, handles[i])]
        /\ cmd' = Cmd("cancel", g, "", "", 0, handles[i].id, "")
    /\ obs' = <<"ok">> /\ n' = n /\ UNCHANGED <<vars, glob, ents>>

\* handlers installed by init() cannot be cancelled once main has started
CancelGlobal(g) ==
    /\ Running(g)
    /\ "glob" \in Feat
    /\ \E i \in 1..Len(glob.ids) :
        cmd' = Cmd("cancelglobal", g, "", "", 0, glob.ids[i], "")
    /\ obs' = <<"refused">> /\ n' = n /\ UNCHANGED sv

(***************************************************************************)
(* Goroutines and goroutine-local values                                   *)
(***************************************************************************)
Spawn(g) ==
    /\ Running(g)
    /\ "go" \in Feat
    /\ "free" \in Feat => ~gs[g].tr.on
    /\ \E c \in 1..NG :
        /\ gs[c].st = "none" /\ (\A d \in 1..(c - 1) : gs[d].st # "none")
        /\ gs' = [gs EXCEPT ![c] = NewG("run", g, gs[g].h,
                     [k \in TlsKeys |-> IF k \in Inherited THEN gs[g].tls[k] ELSE None],
                     IF gs[g].tr.on THEN [on |-> TRUE, sid |-> 1000 * c + Len(ents), top |-> 0, filt |-> gs[g].tr.filt]
                     ELSE NoTrace)]
        /\ ents' = IF gs[g].tr.on /\ gs[g].tr.top # 0
                   THEN Append(ents, Entry("go", gs[g].tr.sid, gs[g].tr.top, "go", 1000 * c + Len(ents)))
                   ELSE ents
        /\ cmd' = Cmd("go", g, "", "", c, 0, "")
    /\ obs' = <<"ok">> /\ n' = n /\ UNCHANGED <<vars, handles, glob>>

TlsSet(g) ==
    /\ Running(g)
    /\ "tls" \in Feat
    /\ \E k \in TlsKeys :
        /\ gs' = [gs EXCEPT ![g].tls[k] = n]
        /\ cmd' = Cmd("tlsset", g, k, "", n, 0, "")
    /\ obs' = <<"ok">> /\ n' = n + 1 /\ UNCHANGED <<vars, handles, glob, ents>>

TlsGet(g) ==
    /\ Running(g)
    /\ "tls" \in Feat
    /\ \E k \in TlsKeys :
        /\ obs' = <<"val", gs[g].tls[k]>>
        /\ cmd' = Cmd("tlsget", g, k, "", 0, 0, "")
    /\ n' = n /\ UNCHANGED sv

(***************************************************************************)
(* Package variables                                                       *)
(***************************************************************************)
LastId(s) == IF s = <<>> THEN None ELSE Last(s).id
VMock(g, v)  == LET l == LastId(gs[g].h.vmocks[v])  IN IF l # None THEN l ELSE LastId(glob.vmocks[v])
VPMock(g, v) == LET l == LastId(gs[g].h.vpmocks[v]) IN IF l # None THEN l ELSE LastId(glob.vpmocks[v])
VarHandlers(g, v, recs) ==
    {h.id : h \in Range(recs)} \cup
    (IF Trapping(gs[g].frames) THEN {} ELSE {h.id : h \in Range(gs[g].h.ints \o glob.ints)})

\* a mock of a variable yields 1000000 + its id; the set of handlers told
\* about the read is observed too
MockVal(id) == 1000000 + id

\* while tracing, a read of a variable is an entry of its own
VarEntry(g, v, val) ==
    IF gs[g].tr.on /\ ~Trapping(gs[g].frames)
    THEN Append(ents, [Entry("var", gs[g].tr.sid, gs[g].tr.top, v, 0) EXCEPT !.res = val, !.st = ""])
    ELSE ents

ReadVar(g) ==
    /\ Running(g)
    /\ "var" \in Feat
    /\ \E v \in Vars :
        /\ obs' = <<"val", IF VMock(g, v) # None THEN MockVal(VMock(g, v)) ELSE vars[v],
                    VarHandlers(g, v, gs[g].h.vrecs[v] \o glob.vrecs[v])>>
        /\ ents' = VarEntry(g, v, obs'[2])
        /\ cmd' = Cmd("readvar", g, v, "", 0, 0, "")
    /\ n' = n /\ UNCHANGED <<gs, vars, handles, glob>>

\* taking the address: a value mock never stands in for the variable itself
ReadPtr(g) ==
    /\ Running(g)
    /\ "var" \in Feat
    /\ \E v \in Vars :
        /\ obs' = <<"val", IF VPMock(g, v) # None THEN MockVal(VPMock(g, v)) ELSE vars[v],
                    VarHandlers(g, v, gs[g].h.vprecs[v] \o glob.vprecs[v])>>
        /\ ents' = VarEntry(g, v, obs'[2])
        /\ cmd' = Cmd("readptr", g, v, "", 0, 0, "")
    /\ n' = n /\ UNCHANGED <<gs, vars, handles, glob>>

\* writes always reach the real variable, directly and through its address
WriteVar(g) ==
    /\ Running(g)
    /\ "var" \in Feat /\ "free" \notin Feat
    /\ \E v \in Vars :
        /\ vars' = [vars EXCEPT ![v] = n]
        /\ cmd' = Cmd("writevar", g, v, "", n, 0, "")
    /\ obs' = <<"ok">> /\ n' = n + 1 /\ UNCHANGED <<gs, handles, glob, ents>>

MockVar(g) ==
    /\ Running(g)
    /\ "var" \in Feat /\ "mock" \in Feat /\ CanInstall
    /\ \E v \in Vars : \E api \in {"patch", "mock", "patchname", "mockname"} :
        /\ gs' = [gs EXCEPT ![g].h.vmocks[v] = Append(@, [id |-> NextId])]
        /\ NewHandle(g, "vmock", v)
        /\ cmd' = Cmd("mockvar", g, v, "", 0, NextId, api)
    /\ obs' = <<"ok">> /\ n' = n /\ UNCHANGED <<vars, glob, ents>>

MockVarPtr(g) ==
    /\ Running(g)
    /\ "var" \in Feat /\ "mock" \in Feat /\ CanInstall
    /\ \E v \in Vars : \E api \in {"patch", "patchname", "mockname"} :
        /\ gs' = [gs EXCEPT ![g].h.vpmocks[v] = Append(@, [id |-> NextId])]
        /\ NewHandle(g, "vpmock", v)
        /\ cmd' = Cmd("mockvarptr", g, v, "", 0, NextId, api)
    /\ obs' = <<"ok">> /\ n' = n /\ UNCHANGED <<vars, glob, ents>>

VarRecKinds == {"record", "call", "result", "callptr", "resultptr"}
RecordVar(g) ==
    /\ Running(g)
    /\ "var" \in Feat /\ "rec" \in Feat /\ CanInstall
    /\ \E v \in Vars : \E kind \in VarRecKinds :
        LET p == kind \in {"callptr", "resultptr"} IN
        /\ gs' = IF p THEN [gs EXCEPT ![g].h.vprecs[v] = Append(@, [id |-> NextId])]
                      ELSE [gs EXCEPT ![g].h.vrecs[v] = Append(@, [id |-> NextId])]
        /\ NewHandle(g, IF p THEN "vprec" ELSE "vrec", v)
        /\ cmd' = Cmd("recordvar", g, v, "", 0, NextId, kind)
    /\ obs' = <<"ok">> /\ n' = n /\ UNCHANGED <<vars, glob, ents>>

-----------------------------------------------------------------------------
Init ==
    /\ glob \in Globs
    /\ gs = [g \in 1..NG |-> NewG(IF g = 1 THEN "run" ELSE "none", 0, NoHandlers, [k \in TlsKeys |-> None], NoTrace)]
    /\ ents = <<>>
    /\ vars = [v \in Vars |-> 7]
    /\ handles = <<>>
    /\ obs = <<"start">> /\ cmd = Cmd("start", 1, "", "", 0, 0, "") /\ n = 1

Act(g) ==
    \/ Call(g) \/ ReturnPre(g) \/ ReturnBody(g) \/ ReturnDefer(g) \/ ReturnPost(g) \/ Trace(g) \/ Exit(g)
    \/ DoPanic(g) \/ Goexit(g)
    \/ Mock(g) \/ Record(g) \/ Intercept(g) \/ Cancel(g) \/ CancelGlobal(g)
    \/ Spawn(g) \/ TlsSet(g) \/ TlsGet(g)
    \/ ReadVar(g) \/ ReadPtr(g) \/ WriteVar(g) \/ MockVar(g) \/ MockVarPtr(g) \/ RecordVar(g)

Next == \E g \in 1..NG : Act(g)

Spec == Init /\ [][Next]_allv
=============================================================================
