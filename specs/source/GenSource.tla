------------------------------ MODULE GenSource -----------------------------
(* Random behaviours of XgoSource, written out for the harness to render.    *)
EXTENDS XgoSource, Json, CSV, IOUtils
CONSTANTS Depth, OutFile, Weight, NameWeight
VARIABLES hist, pick, on, form

GenInit == Init /\ hist = <<>> /\ pick = "" /\ on = "" /\ form = ""

Acts ==
    CASE pick = "open"   -> \E k \in {form} \cap Kinds, v \in Vals : Open(k, IF k \in Plain THEN CHOOSE x \in Names \ Quals : TRUE ELSE on, v)
      [] pick = "close"  -> Close
      [] pick = "decl"   -> \E f \in {form} \cap DeclForms, v \in Vals : Decl(f, on, v)
      [] pick = "use"    -> \E c \in UNION {ReadCtx[s] \cup AddrCtx[s] : s \in {Shape[on], "int", "localtype", "localfunc", "localrecv", "localsub"}} : Use(c, on)
      [] pick = "own"    -> \E c \in OwnCtx : Use(c, on)
      [] pick = "write"  -> \E v \in Vals, c \in WriteCtx[Shape[on]] \cup WriteCtx["int"] : Write(c, on, v)
      [] pick = "mock"   -> \E v \in Vals : Mock(on, v)
      [] pick = "cancel" -> Cancel(on)
      [] OTHER           -> FALSE

Roll == /\ Len(hist) < Depth
        /\ \E i \in 1..Len(Weight), j \in 1..Len(NameWeight) : pick' = Weight[i] /\ on' = NameWeight[j]
        /\ form' = "" /\ UNCHANGED <<val, mocks, frames, obs, cmd, hist>>

\* the kind of construct first, then its value: each kind is as likely as any
Form == /\ form = ""
        /\ \/ (pick = "open" /\ form' \in Kinds)
           \/ (pick = "decl" /\ form' \in DeclForms)
        /\ UNCHANGED <<val, mocks, frames, obs, cmd, hist, pick, on>>

GenStep == /\ Len(hist) < Depth /\ Acts
           /\ hist' = Append(hist, [cmd |-> cmd', obs |-> obs']) /\ pick' = "" /\ on' = "" /\ form' = ""

Emit == /\ Len(hist) = Depth
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, OutFile)
        /\ hist' = Append(hist, [cmd |-> cmd, obs |-> obs]) /\ UNCHANGED <<val, mocks, frames, obs, cmd, pick, on, form>>

GenNext == Emit \/ Roll \/ Form \/ GenStep
=============================================================================
