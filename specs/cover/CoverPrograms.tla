---------------------------- MODULE CoverPrograms ----------------------------
(* Writing programs for XgoCover, token by token.                             *)
EXTENDS XgoCover
CONSTANTS NF,        \* functions of a program
          MaxToks,   \* tokens of a function
          MaxDepth,
          Pkgs       \* Seq of packages; a function calls functions of its package and of the later ones
VARIABLES open       \* the openers not closed yet in the function being written

pvars == <<vars, open>>
Cur == Len(fns)
CT == fns[Cur].toks
Writing == at = <<0, 0>>
Depth == Len(open)
OpKind(i) == CT[open[i]].k
Innermost == IF open = <<>> THEN "fn" ELSE OpKind(Depth)
InClosure(kinds) == \E i \in 1..Depth : OpKind(i) \in kinds
\* position in open of the innermost loop or switch reachable by break (kinds for, sw) or continue (for)
RECURSIVE Target(_, _)
Target(i, kinds) == IF i = 0 \/ OpKind(i) \in {"lit", "def"} THEN 0 ELSE IF OpKind(i) \in kinds THEN open[i] ELSE Target(i - 1, kinds)
Tok(k, a, x, v, gap, d, o) == [k |-> k, a |-> a, x |-> x, v |-> v, gap |-> gap, d |-> d, o |-> o]
Emit(t) == fns' = [fns EXCEPT ![Cur].toks = Append(@, t)]
Keep == UNCHANGED <<tests, at, fr, cnt, ex, clean>>
\* after switch there is a case first
InSwitchHead == CT # <<>> /\ CT[Len(CT)].k = "sw"
HasDefault(pc) == \E j \in (pc + 1)..Len(CT) : CT[j].d = CT[pc].d /\ CT[j].k \in {"default", "else"}

NewFn(pkg, kind) ==
  /\ Writing /\ open = <<>> /\ Cur < NF /\ (Cur # 0 => CT # <<>> /\ CT[Len(CT)].k = "ret")
  /\ fns' = Append(fns, [pkg |-> pkg, kind |-> kind, toks |-> <<>>])
  /\ UNCHANGED open /\ Keep
CanWrite == Writing /\ Cur > 0 /\ ~(CT # <<>> /\ CT[Len(CT)].k = "ret" /\ CT[Len(CT)].d = 0)
WritePlain(k, a, x, v, gap) ==
  /\ CanWrite /\ ~InSwitchHead /\ Len(CT) + Depth < MaxToks
  /\ k = "rcv" => Innermost = "def"
  /\ k \in {"panic", "call"} => ~InClosure({"def"})
  /\ k = "call" => a < Cur /\ \E i, j \in 1..Len(Pkgs) : i <= j /\ Pkgs[i] = fns[Cur].pkg /\ Pkgs[j] = fns[a].pkg
  /\ k = "brk" => Target(Depth, {"for", "sw"}) # 0
  /\ k = "cont" => Target(Depth, {"for"}) # 0
  /\ k = "ret" => Depth > 0
  /\ Emit(Tok(k, a, x, v, gap, Depth, IF k = "brk" THEN Target(Depth, {"for", "sw"}) ELSE IF k = "cont" THEN Target(Depth, {"for"}) ELSE 0))
  /\ UNCHANGED open /\ Keep
WriteOpen(k, a, v, gap) ==
  /\ CanWrite /\ ~InSwitchHead /\ Depth < MaxDepth /\ Len(CT) + Depth + 2 < MaxToks
  /\ k \in {"lit", "def"} => ~InClosure({"lit", "def"})
  /\ Emit(Tok(k, a, "", v, gap, Depth, 0))
  /\ open' = Append(open, Len(CT) + 1) /\ Keep
WriteBranch(k, a, v) ==
  /\ CanWrite /\ open # <<>>
  /\ k \in {"else", "elif"} => Innermost = "if"
  /\ k \in {"case", "default"} => Innermost = "sw"
  /\ ~HasDefault(open[Depth])
  /\ k = "case" => \A j \in (open[Depth] + 1)..Len(CT) : CT[j].d = Depth - 1 => CT[j].a # a
  /\ Len(CT) + Depth < MaxToks
  /\ Emit(Tok(k, a, "", v, FALSE, Depth - 1, open[Depth])) /\ UNCHANGED open /\ Keep
Close ==
  /\ CanWrite /\ open # <<>>
  /\ Emit(Tok("end", 0, "", 0, FALSE, Depth - 1, open[Depth])) /\ open' = SubSeq(open, 1, Depth - 1) /\ Keep
\* every function ends with a return
EndFn(v, gap) ==
  /\ CanWrite /\ open = <<>>
  /\ Emit(Tok("ret", 0, "n", v, gap, 0, 0)) /\ UNCHANGED open /\ Keep
Written == Writing /\ Cur = NF /\ open = <<>> /\ CT # <<>> /\ CT[Len(CT)].k = "ret"
AddTest(t) ==
  /\ Written /\ tests' = Append(tests, t) /\ UNCHANGED <<fns, at, fr, cnt, ex, clean, open>>
Begin ==
  /\ Written /\ tests # <<>> /\ at' = <<1, 0>>
  /\ cnt' = ZeroAll(Len(tests)) /\ ex' = ZeroAll(Len(tests)) /\ clean' = [t \in 1..Len(tests) |-> TRUE]
  /\ UNCHANGED <<fns, tests, fr, open>>
PInit == fns = <<>> /\ tests = <<>> /\ at = <<0, 0>> /\ fr = <<>> /\ cnt = <<>> /\ ex = <<>> /\ clean = <<>> /\ open = <<>>
Run == Exec /\ UNCHANGED open
=============================================================================
