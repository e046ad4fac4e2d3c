----------------------------- MODULE XgoProfiles -----------------------------
(* Coverage profiles in files, and xgo tool coverage on them. A profile is a  *)
(* sequence of lines [b, n]: block b was entered n times; blocks may be       *)
(* listed several times (go appends the profiles of several test binaries).   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Names,     \* files
          Blocks,    \* Seq of blocks: [path, ...]
          Excludes   \* Seq of sets of blocks: what an exclude option takes out
VARIABLES files      \* files[name]: lines, or <<>> when it does not exist
vars == <<files>>
B == 1..Len(Blocks)
RECURSIVE SumLines(_, _)
SumLines(ls, b) == IF ls = <<>> THEN 0 ELSE (IF Head(ls).b = b THEN Head(ls).n ELSE 0) + SumLines(Tail(ls), b)
Listed(ls) == {ls[i].b : i \in 1..Len(ls)}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE files[Head(ss)] \o Cat(Tail(ss))
\* what a profile says
Says(ls) == [b \in Listed(ls) |-> SumLines(ls, b)]
Out(ex) == UNION {Excludes[e] : e \in ex}
\* the merge of the files, without the excluded blocks: a function from blocks to counts
Merged(ss, ex) == LET a == Says(Cat(ss)) IN [b \in DOMAIN a \ Out(ex) |-> a[b]]
\* as lines, one of each block
RECURSIVE Lines(_)
Lines(f) == IF DOMAIN f = {} THEN <<>> ELSE LET b == CHOOSE x \in DOMAIN f : \A y \in DOMAIN f : x <= y IN <<[b |-> b, n |-> f[b]]>> \o Lines([x \in DOMAIN f \ {b} |-> f[x]])
Init == files = [n \in Names |-> <<>>]
Exists(n) == files[n] # <<>>
\* go writes a profile
Record(n, ls) == files' = [files EXCEPT ![n] = ls]
\* xgo tool coverage merge -o out srcs..., also with out among the sources
MergeTo(out, ss, ex) ==
  /\ ss # <<>> /\ \A i \in 1..Len(ss) : Exists(ss[i])
  /\ files' = [files EXCEPT ![out] = Lines(Merged(ss, ex))]
Compact(out, s, ex) == MergeTo(out, <<s>>, ex)
\* a source that cannot be read: nothing is written
FailTo(out, ss) == ss # <<>> /\ (\E i \in 1..Len(ss) : ss[i] \notin Names) /\ UNCHANGED files

\* ------------------------------------------------------------- properties
Perm2 == \A a, b \in Names : Exists(a) /\ Exists(b) => Merged(<<a, b>>, {}) = Merged(<<b, a>>, {})
\* nothing is lost or counted twice
Total(f) == f
Adds == \A a, b \in Names : Exists(a) /\ Exists(b) =>
          \A x \in DOMAIN Merged(<<a, b>>, {}) : Merged(<<a, b>>, {})[x] = SumLines(files[a], x) + SumLines(files[b], x)
\* a merged profile says what merging says: merging merges in any grouping gives the same
Says1 == \A a, b \in Names : Exists(a) /\ Exists(b) => Says(Lines(Merged(<<a, b>>, {}))) = Merged(<<a, b>>, {})
=============================================================================
