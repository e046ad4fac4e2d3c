----------------------------- MODULE GenRuntime -----------------------------
(* Random behaviours of XgoRuntime, written out as scenarios for the driver. *)
EXTENDS XgoRuntime, Json, CSV, IOUtils
CONSTANTS Depth, OutFile, Globals, Weight
VARIABLES hist, pick

\* Globals: sequence of [op, f, b, o] installed by init(), numbered from 901
RECURSIVE Install(_, _)
Install(h, i) ==
    IF i > Len(Globals) THEN h
    ELSE LET e == Globals[i] id == 900 + i IN
         Install(CASE e.op = "mock"       -> [h EXCEPT !.mocks[e.f] = Append(@, [id |-> id, bind |-> e.b])]
                   [] e.op = "record"     -> [h EXCEPT !.recs[e.f] = Append(@, HandlerOf(id, e.o, e.b))]
                   [] e.op = "intercept"  -> [h EXCEPT !.ints = Append(@, HandlerOf(id, "intercept", "-"))]
                   [] e.op = "mockvar"    -> [h EXCEPT !.vmocks[e.f] = Append(@, [id |-> id])]
                   [] e.op = "mockvarptr" -> [h EXCEPT !.vpmocks[e.f] = Append(@, [id |-> id])]
                   [] e.op = "recordvar"  -> [h EXCEPT !.vrecs[e.f] = Append(@, [id |-> id])], i + 1)
GenGlobs == {[ids |-> [i \in 1..Len(Globals) |-> 900 + i]] @@ Install(NoHandlers, 1)}

GenInit == Init /\ hist = <<>> /\ pick = ""

\* TLC picks uniformly among successor states, so commands with many parameters
\* would crowd out the others: first pick the kind of command, then the command
Acts(g) ==
    CASE pick = "call"    -> Call(g)
      [] pick = "return"  -> ReturnPre(g) \/ ReturnBody(g) \/ ReturnDefer(g) \/ ReturnPost(g) \/ Exit(g)
      [] pick = "panic"   -> DoPanic(g) \/ Goexit(g)
      [] pick = "trace"   -> Trace(g)
      [] pick = "mock"    -> Mock(g)
      [] pick = "rec"     -> Record(g)
      [] pick = "int"     -> Intercept(g)
      [] pick = "cancel"  -> Cancel(g) \/ CancelGlobal(g)
      [] pick = "go"      -> Spawn(g)
      [] pick = "tls"     -> TlsSet(g) \/ TlsGet(g)
      [] pick = "var"     -> ReadVar(g) \/ ReadPtr(g) \/ WriteVar(g)
      [] pick = "varmock" -> MockVar(g) \/ MockVarPtr(g)
      [] pick = "varrec"  -> RecordVar(g)
      [] OTHER            -> FALSE

Roll == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(Weight) : pick' = Weight[i]
        /\ UNCHANGED <<gs, vars, handles, glob, ents, obs, cmd, n, hist>>

GenStep(g) == /\ Len(hist) < Depth
              /\ Acts(g)
              /\ hist' = Append(hist, [cmd |-> cmd', obs |-> obs'])
              /\ pick' = ""

\* write the behaviour once, when it is long enough
Emit == /\ Len(hist) = Depth
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
        /\ hist' = Append(hist, [cmd |-> cmd, obs |-> obs]) /\ UNCHANGED <<gs, vars, handles, glob, ents, obs, cmd, n, pick>>

GenNext == Emit \/ Roll \/ \E g \in 1..NG : GenStep(g)
=============================================================================
