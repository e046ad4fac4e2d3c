------------------------------ MODULE XgoCover ------------------------------
(* Statement coverage of instrumented programs.                              *)
(*                                                                            *)
(* A program is a list of functions, each a flat list of tokens: plain        *)
(* statements, openers (if, for, switch, function literals, deferred          *)
(* closures), branches and ends. The interpreter below executes the calls of  *)
(* its tests token by token, with frames, deferred closures, panics and       *)
(* recovery, and counts, for every basic block that the cover tool of go      *)
(* defines, how often it was entered. What xgo inserts into the program has   *)
(* no statements of its own and changes none of it; a mocked function is not  *)
(* entered. Profiles of runs are merged by adding up their counts.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES fns,    \* Seq of [pkg, kind, toks]
          tests,  \* Seq of [mocks, calls : Seq of [f, n]]
          at,     \* <<test, call>> being executed; <<0, 0>> while the program is being written
          fr,     \* frames, the innermost last
          cnt,    \* cnt[t][f][pc]: executions of the token in test t that enter a block
          ex,     \* ex[t][f][pc]: executions of the token
          clean   \* clean[t]: nothing was cut short by a panic in test t

vars == <<fns, tests, at, fr, cnt, ex, clean>>

Openers == {"if", "for", "sw", "lit", "def"}
Branches == {"else", "elif", "case", "default"}
Plain == {"op", "inc", "dec", "call", "ret", "panic", "brk", "cont", "rcv"}
Counted == Plain \cup Openers \cup {"elif"}

\* ------------------------------------------------------ static structure
Toks(f) == fns[f].toks
\* the next branch or end that belongs to the construct of token pc
Sib(f, pc) == LET T == Toks(f) IN
  CHOOSE j \in (pc + 1)..Len(T) : /\ T[j].d = T[pc].d /\ T[j].k \in Branches \cup {"end"}
                                  /\ \A i \in (pc + 1)..(j - 1) : ~(T[i].d = T[pc].d /\ T[i].k \in Branches \cup {"end"})
EndOf(f, pc) == LET T == Toks(f) IN
  CHOOSE j \in (pc + 1)..Len(T) : /\ T[j].d = T[pc].d /\ T[j].k = "end"
                                  /\ \A i \in (pc + 1)..(j - 1) : ~(T[i].d = T[pc].d /\ T[i].k = "end")
\* does the token start a block of the cover tool
Starts(T, pc) ==
  /\ T[pc].k \in Counted
  /\ \/ pc = 1
     \/ T[pc].gap      \* a comment or an empty line before it
     \/ T[pc].k = "elif"
     \/ T[pc - 1].k \in Openers \cup Branches \cup {"end", "panic", "brk", "cont"}
\* the token that starts the block of a statement
BlockOf(T, pc) == CHOOSE j \in 1..pc : Starts(T, j) /\ \A i \in (j + 1)..pc : ~Starts(T, i)

\* -------------------------------------------------------------- execution
Frame(f, kind, pc, n) == [f |-> f, kind |-> kind, pc |-> pc, n |-> n, loops |-> <<>>, defs |-> <<>>, mode |-> "run", arr |-> FALSE]
Top == fr[Len(fr)]
Below == SubSeq(fr, 1, Len(fr) - 1)
SetTop(x) == fr' = Append(Below, x)
\* n of the function whose closure is running: closures capture it
EnvIx == IF Top.kind = "fn" THEN Len(fr) ELSE Len(fr) - 1
N == fr[EnvIx].n
Count(pc) ==
  /\ ex' = [ex EXCEPT ![at[1]][Top.f][pc] = @ + 1]
  /\ cnt' = IF Starts(Toks(Top.f), pc) THEN [cnt EXCEPT ![at[1]][Top.f][pc] = @ + 1] ELSE cnt
Uncounted == UNCHANGED <<ex, cnt>>
Arg(x) == IF x = "n" THEN N ELSE IF x = "m" THEN N - 1 ELSE IF x = "0" THEN 0 ELSE 3
Mocked(f) == f \in tests[at[1]].mocks

\* start of the next call of the test
StartCall ==
  /\ at[1] # 0 /\ at[1] <= Len(tests) /\ fr = <<>>
  /\ LET t == tests[at[1]] IN
     IF at[2] = Len(t.calls) THEN
       /\ at' = IF at[1] = Len(tests) THEN <<Len(tests) + 1, 0>> ELSE <<at[1] + 1, 0>>
       /\ UNCHANGED <<fns, tests, fr, cnt, ex, clean>>
     ELSE
       /\ at' = <<at[1], at[2] + 1>>
       /\ fr' = IF Mocked(t.calls[at[2] + 1].f) THEN <<>> ELSE <<Frame(t.calls[at[2] + 1].f, "fn", 1, t.calls[at[2] + 1].n)>>
       /\ UNCHANGED <<fns, tests, cnt, ex, clean>>

Go(pc) == SetTop([Top EXCEPT !.pc = pc, !.arr = FALSE])
\* leaving a branch that was not taken
Arrive(pc) == SetTop([Top EXCEPT !.pc = pc, !.arr = TRUE])

Step ==
  /\ at[1] # 0 /\ fr # <<>> /\ Top.mode = "run"
  /\ LET T == Toks(Top.f) pc == Top.pc tk == T[pc] IN
     \/ /\ tk.k = "op" /\ Count(pc) /\ Go(pc + 1) /\ UNCHANGED clean
     \/ /\ tk.k \in {"inc", "dec"} /\ Count(pc) /\ UNCHANGED clean
        /\ LET d == IF tk.k = "inc" THEN 1 ELSE -1 IN
           fr' = IF Top.kind = "fn" THEN [fr EXCEPT ![Len(fr)].n = @ + d, ![Len(fr)].pc = pc + 1, ![Len(fr)].arr = FALSE]
                 ELSE [fr EXCEPT ![Len(fr) - 1].n = @ + d, ![Len(fr)].pc = pc + 1, ![Len(fr)].arr = FALSE]
     \/ /\ tk.k = "call" /\ Count(pc) /\ UNCHANGED clean
        /\ LET cont == Append(Below, [Top EXCEPT !.pc = pc + 1, !.arr = FALSE]) IN
           fr' = IF Mocked(tk.a) THEN cont ELSE Append(cont, Frame(tk.a, "fn", 1, Arg(tk.x)))
     \/ /\ tk.k = "ret" /\ Count(pc) /\ SetTop([Top EXCEPT !.mode = "ret"]) /\ UNCHANGED clean
     \/ /\ tk.k = "panic" /\ Count(pc) /\ SetTop([Top EXCEPT !.mode = "panic"]) /\ clean' = [clean EXCEPT ![at[1]] = FALSE]
     \/ /\ tk.k = "rcv" /\ Count(pc) /\ UNCHANGED clean
        \* the function that deferred this closure stops panicking
        /\ fr' = [fr EXCEPT ![Len(fr)].pc = pc + 1, ![Len(fr)].arr = FALSE,
                            ![Len(fr) - 1].mode = IF @ = "panic" THEN "ret" ELSE @]
     \/ /\ tk.k = "brk" /\ Count(pc) /\ UNCHANGED clean
        /\ LET e == EndOf(Top.f, tk.o) IN
           SetTop([Top EXCEPT !.pc = e + 1, !.arr = FALSE, !.loops = IF T[tk.o].k = "for" THEN SubSeq(@, 1, Len(@) - 1) ELSE @])
     \/ /\ tk.k = "cont" /\ Count(pc) /\ Go(EndOf(Top.f, tk.o)) /\ UNCHANGED clean
     \/ /\ tk.k = "if" /\ Count(pc) /\ UNCHANGED clean
        /\ IF N > tk.a THEN Go(pc + 1) ELSE Arrive(Sib(Top.f, pc))
     \/ /\ tk.k = "elif" /\ UNCHANGED clean
        /\ IF Top.arr THEN Count(pc) /\ (IF N > tk.a THEN Go(pc + 1) ELSE Arrive(Sib(Top.f, pc)))
           ELSE Uncounted /\ Go(EndOf(Top.f, pc))
     \/ /\ tk.k \in {"else", "default"} /\ Uncounted /\ UNCHANGED clean
        /\ IF Top.arr THEN Go(pc + 1) ELSE Go(EndOf(Top.f, pc))
     \/ /\ tk.k = "case" /\ Uncounted /\ UNCHANGED clean
        /\ IF ~Top.arr THEN Go(EndOf(Top.f, pc)) ELSE IF N = tk.a THEN Go(pc + 1) ELSE Arrive(Sib(Top.f, pc))
     \/ /\ tk.k = "sw" /\ Count(pc) /\ Arrive(Sib(Top.f, pc)) /\ UNCHANGED clean
     \/ /\ tk.k = "for" /\ Count(pc) /\ UNCHANGED clean
        /\ IF tk.a = 0 THEN Go(EndOf(Top.f, pc) + 1)
           ELSE SetTop([Top EXCEPT !.pc = pc + 1, !.arr = FALSE, !.loops = Append(@, 0)])
     \/ /\ tk.k = "lit" /\ Count(pc) /\ UNCHANGED clean
        /\ fr' = Append(Append(Below, [Top EXCEPT !.pc = EndOf(Top.f, pc) + 1, !.arr = FALSE]), Frame(Top.f, "lit", pc + 1, 0))
     \/ /\ tk.k = "def" /\ Count(pc) /\ UNCHANGED clean
        /\ SetTop([Top EXCEPT !.pc = EndOf(Top.f, pc) + 1, !.arr = FALSE, !.defs = Append(@, pc)])
     \/ /\ tk.k = "end" /\ Uncounted /\ UNCHANGED clean
        /\ LET o == T[tk.o] IN
           IF o.k = "for" THEN
             LET i == Top.loops[Len(Top.loops)] + 1 IN
             IF i < o.a THEN SetTop([Top EXCEPT !.pc = tk.o + 1, !.arr = FALSE, !.loops = [@ EXCEPT ![Len(@)] = i]])
             ELSE SetTop([Top EXCEPT !.pc = pc + 1, !.arr = FALSE, !.loops = SubSeq(@, 1, Len(@) - 1)])
           ELSE IF o.k \in {"lit", "def"} THEN fr' = Below
           ELSE Go(pc + 1)
  /\ UNCHANGED <<fns, tests, at>>

\* leaving a frame: deferred closures first, the last one first
Leave ==
  /\ at[1] # 0 /\ fr # <<>> /\ Top.mode # "run"
  /\ IF Top.defs # <<>> THEN
       fr' = Append(Append(Below, [Top EXCEPT !.defs = SubSeq(@, 1, Len(@) - 1)]), Frame(Top.f, "def", Top.defs[Len(Top.defs)] + 1, 0))
     ELSE IF Top.mode = "ret" \/ Len(fr) = 1 THEN fr' = Below
     ELSE fr' = [Below EXCEPT ![Len(Below)].mode = "panic"]
  /\ UNCHANGED <<fns, tests, at, cnt, ex, clean>>

Exec == StartCall \/ Step \/ Leave
Finished == at[1] = Len(tests) + 1 /\ at[1] > 1

\* --------------------------------------------------------------- profiles
Zero == [f \in 1..Len(fns) |-> [pc \in 1..Len(Toks(f)) |-> 0]]
ZeroAll(m) == [t \in 1..m |-> Zero]
RECURSIVE SumOver(_, _, _)
SumOver(S, f, pc) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN cnt[t][f][pc] + SumOver(S \ {t}, f, pc)
\* the profile of a run of the tests sel: the count of every statement, which is that of its block
Profile(sel) == [f \in 1..Len(fns) |-> [pc \in 1..Len(Toks(f)) |-> IF Toks(f)[pc].k \in Counted THEN SumOver(sel, f, BlockOf(Toks(f), pc)) ELSE 0]]
\* functions mocked in some of the tests: their entry may or may not be counted
Mocks(sel) == UNION {tests[t].mocks : t \in sel}
\* merging profiles of runs
Merge(a, b) == [f \in DOMAIN a |-> [pc \in DOMAIN a[f] |-> a[f][pc] + b[f][pc]]]

\* ------------------------------------------------------------- properties
Tests == 1..Len(tests)
\* what was executed is reported as covered
Sound == at[1] # 0 => \A t \in Tests, f \in 1..Len(fns) : \A pc \in 1..Len(Toks(f)) :
           Toks(f)[pc].k \in Counted => cnt[t][f][BlockOf(Toks(f), pc)] >= ex[t][f][pc]
\* and nothing else is, unless a panic or a return cut a block short
Cut(f) == \E pc \in 1..(Len(Toks(f)) - 1) : Toks(f)[pc].k = "ret"
Exact == Finished => \A t \in Tests : clean[t] => \A f \in 1..Len(fns) : ~Cut(f) => \A pc \in 1..Len(Toks(f)) :
           Toks(f)[pc].k \in Counted => cnt[t][f][BlockOf(Toks(f), pc)] = ex[t][f][pc]
\* a mocked function is not executed
MockedNotRun == at[1] # 0 => \A t \in Tests, f \in 1..Len(fns) : f \in tests[t].mocks => \A pc \in 1..Len(Toks(f)) : ex[t][f][pc] = 0
\* merging the runs of two sets of tests gives the profile of running them together
MergeAdds == Finished => \A A, B \in SUBSET Tests : A \cap B = {} => Merge(Profile(A), Profile(B)) = Profile(A \cup B)
\* every call ends
Terminates == <>Finished
=============================================================================
