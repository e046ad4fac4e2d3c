----------------------------- MODULE MCRuntime -----------------------------
(* Exhaustive checking of XgoRuntime in small configurations. *)
EXTENDS XgoRuntime

CONSTANTS MaxSteps, MaxEnts

\* no init-time handlers / a mock, a recorder and an interceptor on F0
GNone == {[ids |-> <<>>] @@ NoHandlers}
GSome == {[ids |-> <<901, 902, 903>>] @@
          [NoHandlers EXCEPT !.mocks["F0"] = <<[id |-> 901, bind |-> "-"]>>,
                             !.recs["F0"] = <<HandlerOf(902, "record", "-")>>,
                             !.ints = <<HandlerOf(903, "intercept", "-")>>]}

Bounded == TLCGet("level") <= MaxSteps /\ Len(ents) <= MaxEnts

\* values only serve to tell observations apart: drop them (and the last
\* command and observation) from the state identity
PanClass(p) == IF p \in {"", "goexit"} THEN p ELSE "panic"
Strip(c) == [f |-> c.f, inst |-> c.inst, rec |-> c.rec, todo |-> c.todo, posts |-> c.posts, mock |-> c.mock,
             deferred |-> c.deferred, rectrace |-> c.rectrace, start |-> c.start, e |-> c.e]
StripE(e) == [k |-> e.k, s |-> e.s, par |-> e.par, name |-> e.name,
              st |-> IF e.st \in {"", "~"} THEN e.st ELSE "!",
              child |-> IF e.k = "go" THEN e.arg ELSE 0]
View == <<[g \in 1..NG |-> [st |-> gs[g].st, par |-> gs[g].par, h |-> gs[g].h, tr |-> gs[g].tr,
             tls |-> [k \in TlsKeys |-> <<gs[g].tls[k] = None, {d \in 1..NG : gs[d].tls[k] = gs[g].tls[k]}>>],
             fr |-> [i \in 1..Len(gs[g].frames) |->
                       LET t == gs[g].frames[i] IN
                       IF t.k = "root" THEN <<"root">>
                       ELSE <<t.k, t.id, Strip(t.c), IF t.k \in {"post", "defer"} THEN PanClass(t.pan) ELSE "">>]]],
          [i \in 1..Len(ents) |-> StripE(ents[i])],
          handles, glob>>

-----------------------------------------------------------------------------
Lists(h) == UNION {{h.mocks[f], h.recs[f]} : f \in Funcs} \cup {h.ints}
            \cup UNION {{h.vmocks[v], h.vpmocks[v], h.vrecs[v], h.vprecs[v]} : v \in Vars}
IdsOf(h) == {e.id : e \in UNION {Range(l) : l \in Lists(h)}}

RECURSIVE Ancestors(_)
Ancestors(g) == {g} \cup (IF gs[g].par = 0 THEN {} ELSE Ancestors(gs[g].par))

TypeOK ==
    /\ \A g \in 1..NG : gs[g].st \in {"none", "run", "dead"}
    /\ \A g \in 1..NG : (gs[g].st = "run") <=> (gs[g].frames # <<>>)
    /\ \A g \in Alive : gs[g].frames[1].k = "root"

\* a goroutine is only ever subject to handlers installed by itself or, before
\* it was created, by one of its ancestors
OnlyAncestors == \A g \in Alive : \A id \in IdsOf(gs[g].h) : handles[id].g \in Ancestors(g)

\* once cancelled, a handler no longer applies to the goroutine that installed it
CancelledIsGone == \A i \in 1..Len(handles) :
    (~handles[i].live /\ gs[handles[i].g].st = "run") => i \notin IdsOf(gs[handles[i].g].h)
LiveIsThere == \A i \in 1..Len(handles) :
    (handles[i].live /\ gs[handles[i].g].st = "run") => i \in IdsOf(gs[handles[i].g].h)

\* handlers are kept in the order they were installed
Ordered == \A g \in Alive : \A l \in Lists(gs[g].h) : \A i, j \in 1..Len(l) : i < j => l[i].id < l[j].id

\* posts pending on a call are those of handlers that were not vetoed, in order
PostsOfPres == \A g \in Alive : \A i \in 2..Len(gs[g].frames) :
    LET c == gs[g].frames[i].c IN \A h \in Range(c.posts) : h.post /\ Matches(h.bind, c.inst)

\* mock frames run a mock that was applicable
MockApplicable == \A g \in Alive : \A i \in 2..Len(gs[g].frames) :
    gs[g].frames[i].k = "mock" =>
       /\ gs[g].frames[i].id = gs[g].frames[i].c.mock
       /\ (gs[g].frames[i].id < 900) =>
            /\ handles[gs[g].frames[i].id].f = gs[g].frames[i].c.f
            /\ handles[gs[g].frames[i].id].g \in Ancestors(g)

\* a step of one goroutine leaves every other goroutine's handlers, values and
\* control alone; only cancel reaches out, to the installing goroutine
Isolation == [][\A g \in 1..NG :
    (g # cmd'.g /\ gs[g].st = "run") =>
        /\ gs'[g].frames = gs[g].frames /\ gs'[g].tls = gs[g].tls /\ gs'[g].st = "run"
        /\ (gs'[g].h # gs[g].h => cmd'.op = "cancel" /\ handles[cmd'.id].g = g
                                  /\ IdsOf(gs'[g].h) = IdsOf(gs[g].h) \ {cmd'.id})]_allv

\* a new goroutine starts with exactly the handlers its creator has
Inherit == [][\A g \in 1..NG : (gs[g].st = "none" /\ gs'[g].st = "run") =>
    gs'[g].h = gs[gs'[g].par].h
    /\ \A k \in TlsKeys : gs'[g].tls[k] = IF k \in Inherited THEN gs[gs'[g].par].tls[k] ELSE None]_allv

\* calling, returning, panicking and exiting never change what is installed
CallsDoNotInstall == [][cmd'.op \in {"call", "return", "panic", "goexit", "readvar", "readptr", "writevar", "tlsget", "tlsset"} =>
    \A g \in 1..NG : gs'[g].h = gs[g].h]_allv

\* init-time handlers are never lost
GlobStays == [][glob' = glob]_allv

-----------------------------------------------------------------------------
(* Tracing *)
RECURSIVE Chain(_)
Chain(i) == IF i = 0 THEN <<>> ELSE Append(Chain(ents[i].par), i)

\* the entries still open are those of the calls in progress, nested likewise
TraceNesting == \A g \in Alive :
    gs[g].tr.on =>
        /\ Chain(gs[g].tr.top) =
              SelectSeq([i \in 1..(Len(gs[g].frames) - 1) |-> gs[g].frames[i + 1].c.e], LAMBDA e : e # 0)
        /\ {i \in 1..Len(ents) : ents[i].s = gs[g].tr.sid /\ ents[i].st = "~" /\ ents[i].k = "call"} = Range(Chain(gs[g].tr.top))

\* a trace lasts exactly as long as the trace.Trace call that started it
TraceEnds == \A g \in Alive :
    (gs[g].tr.on /\ gs[g].par = 0) => \E i \in 2..Len(gs[g].frames) : gs[g].frames[i].c.start
TraceStarts == \A g \in Alive : \A i \in 2..Len(gs[g].frames) : gs[g].frames[i].c.start => gs[g].tr.on

\* a finished trace is reported once, complete, when its call ends
TraceReported == [][\A g \in 1..NG :
    (\E i \in 2..Len(gs[g].frames) : gs[g].frames[i].c.start)
    /\ ~(\E i \in 2..Len(gs'[g].frames) : gs'[g].frames[i].c.start)
    => obs'[Len(obs') - 1] = "trace"]_allv

\* handlers and mocks do not show in the trace: nothing is recorded below them
HandlersUntraced == \A g \in Alive : \A i \in 2..Len(gs[g].frames) :
    gs[g].frames[i].c.e # 0 => \A j \in 2..(i - 1) : gs[g].frames[j].k \in {"body", "defer"}

-----------------------------------------------------------------------------
(* Values and variables *)
TlsOwn == [][\A g \in 1..NG : (gs[g].st = "run" /\ gs'[g].tls # gs[g].tls) => cmd'.op = "tlsset" /\ cmd'.g = g]_allv
VarsOnlyByWrite == [][vars' # vars => cmd'.op = "writevar" /\ \A v \in Vars : vars'[v] # vars[v] => cmd'.f = v]_allv

\* a panic or exit leaves nothing behind: whoever runs next is in the frame
\* that was recovered to, with everything installed as before
Residue == [][cmd'.op \in {"panic", "goexit"} =>
    \A g \in 1..NG : gs'[g].h = gs[g].h /\ gs'[g].tls = gs[g].tls
        /\ (g # cmd'.g => gs'[g] = gs[g])
        /\ (gs'[g].st = "run" =>
              \E k \in 1..Len(gs[g].frames) : SubSeq(gs'[g].frames, 1, k) = SubSeq(gs[g].frames, 1, k)
                 /\ Len(gs'[g].frames) <= k + 1)]_allv
=============================================================================
