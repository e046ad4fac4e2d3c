----------------------------- MODULE XgoGoroot -----------------------------
(* The instrumented GOROOT of xgo: how a set-up turns the directory that any  *)
(* earlier set-ups, finished or killed, have left into exactly the copy of    *)
(* the original GOROOT instrumented by this revision of xgo.                  *)
(*                                                                            *)
(* The disk: the revision file, the record of a full copy, and the parts of   *)
(* the copy: the sources, the programs copied from the original (bin), the    *)
(* compiler (tool). A part is                                                 *)
(*   "none"   absent            "torn"   partly written or partly removed     *)
(*   "orig"   as the original   r        as a set-up by revision r leaves it  *)
(*   "mix"    patched by some revision on top of something else               *)
(* A set-up does one write at a time; it may be killed, or fail, after each.  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Revs, MaxOps

VARIABLES rev,    \* "none", "void" or a revision
          sync,   \* a full copy was finished at some time
          src, bin, tool,
          cache,  \* the revision whose outputs the build cache has, or "none"
          orig,   \* the original, a constant: "orig" as long as it is untouched
          pc, op, full, ops,
          done    \* the last operation that was finished, or "none"
vars == <<rev, sync, src, bin, tool, cache, orig, pc, op, full, ops, done>>

Idle == [kind |-> "none", rev |-> "none", reset |-> FALSE]
Init == /\ rev = "none" /\ sync = FALSE /\ src = "none" /\ bin = "none" /\ tool = "none" /\ cache = "none" /\ orig = "orig"
        /\ pc = "idle" /\ op = Idle /\ full = TRUE /\ ops = 0 /\ done = Idle

Exists == src # "none" \/ bin # "none" \/ tool # "none"
Start == /\ pc = "idle" /\ ops < MaxOps
         /\ \E k \in {"setup", "delete"}, r \in Revs, z \in BOOLEAN :
              /\ k = "delete" => ~z
              /\ op' = [kind |-> k, rev |-> r, reset |-> z]
         /\ ops' = ops + 1 /\ done' = Idle /\ pc' = "look"
         /\ UNCHANGED <<rev, sync, src, bin, tool, cache, orig, full>>

\* nothing to do: the directory is complete
Look == /\ pc = "look"
        /\ pc' = IF op.kind = "delete" THEN "drop" ELSE IF rev = op.rev /\ ~op.reset /\ Exists THEN "end" ELSE "void"
        /\ UNCHANGED <<rev, sync, src, bin, tool, cache, orig, op, full, ops, done>>

\* the directory counts as incomplete from here on. Whether the last set-up
\* was finished decides if the programs in it can be relied on
Void == /\ pc = "void"
        /\ full' = (rev \in {"none", "void"} \/ ~sync \/ bin = "none" \/ op.reset)
        /\ rev' = "void" /\ pc' = IF op.reset THEN "reset" ELSE "cache"
        /\ UNCHANGED <<sync, src, bin, tool, cache, orig, op, ops, done>>

Less(p) == IF p = "none" THEN {"none"} ELSE {"torn", "none"}
\* removing a tree, in any order
Remove(p) == /\ src' \in {src} \union Less(src) /\ bin' \in {bin} \union Less(bin) /\ tool' \in {tool} \union Less(tool)
             /\ sync' \in {sync, FALSE}
Reset == /\ pc = "reset"
         /\ \/ Remove(TRUE) /\ rev' \in {rev, "none"} /\ UNCHANGED pc
            \/ src' = "none" /\ bin' = "none" /\ tool' = "none" /\ sync' = FALSE /\ rev' = "none" /\ pc' = "cache"
         /\ UNCHANGED <<cache, orig, op, full, ops, done>>
Cache == /\ pc = "cache" /\ cache' = "none" /\ pc' = IF full THEN "wipe" ELSE "src"
         /\ UNCHANGED <<rev, sync, src, bin, tool, orig, op, full, ops, done>>
Wipe == /\ pc = "wipe"
        /\ \/ Remove(TRUE) /\ UNCHANGED pc
           \/ src' = "none" /\ bin' = "none" /\ tool' = "none" /\ sync' = FALSE /\ pc' = "copy"
        /\ UNCHANGED <<rev, cache, orig, op, full, ops, done>>
Copy == /\ pc = "copy"
        /\ \/ bin = "none" /\ bin' = "torn" /\ UNCHANGED <<src, tool, sync, pc>>
           \/ bin = "torn" /\ bin' = "orig" /\ UNCHANGED <<src, tool, sync, pc>>
           \/ bin = "orig" /\ tool = "none" /\ tool' = "torn" /\ UNCHANGED <<src, bin, sync, pc>>
           \/ tool = "torn" /\ tool' = "orig" /\ UNCHANGED <<src, bin, sync, pc>>
           \/ tool = "orig" /\ src = "none" /\ src' = "torn" /\ UNCHANGED <<bin, tool, sync, pc>>
           \/ src = "torn" /\ src' = "orig" /\ sync' = TRUE /\ pc' = "patch" /\ UNCHANGED <<bin, tool>>
        /\ UNCHANGED <<rev, cache, orig, op, full, ops, done>>
\* only the sources are copied again
Src == /\ pc = "src"
       /\ \/ src # "torn" /\ src' = "torn" /\ UNCHANGED pc
          \/ src = "torn" /\ src' = "orig" /\ pc' = "patch"
       /\ UNCHANGED <<rev, sync, bin, tool, cache, orig, op, full, ops, done>>
Patch == /\ pc = "patch"
         /\ \/ src = "orig" /\ src' = "mix" /\ UNCHANGED pc
            \/ src = "mix" /\ src' = op.rev /\ pc' = "tool"
         /\ UNCHANGED <<rev, sync, bin, tool, cache, orig, op, full, ops, done>>
\* programs are built by programs that work
Works(p) == p # "none" /\ p # "torn"
Tool == /\ pc = "tool" /\ Works(bin)
        /\ \/ Works(tool) /\ tool' = "torn" /\ UNCHANGED pc
           \/ tool = "torn" /\ tool' = src /\ pc' = "bin"
        /\ UNCHANGED <<rev, sync, src, bin, cache, orig, op, full, ops, done>>
Bin == /\ pc = "bin" /\ Works(tool)
       /\ \/ Works(bin) /\ bin' = "torn" /\ UNCHANGED pc
          \/ bin = "torn" /\ bin' = src /\ pc' = "rev"
       /\ UNCHANGED <<rev, sync, src, tool, cache, orig, op, full, ops, done>>
Rev == /\ pc = "rev" /\ rev' = op.rev /\ pc' = "end"
       /\ UNCHANGED <<sync, src, bin, tool, cache, orig, op, full, ops, done>>
End == /\ pc = "end" /\ pc' = "idle" /\ done' = op /\ op' = Idle
       \* the GOROOT is used to build
       /\ cache' = IF op.kind = "setup" THEN op.rev ELSE cache
       /\ UNCHANGED <<rev, sync, src, bin, tool, orig, full, ops>>
Drop == /\ pc = "drop"
        /\ \/ rev \notin {"none", "void"} /\ rev' = "void" /\ UNCHANGED <<src, bin, tool, sync, cache, pc>>
           \/ rev \in {"none", "void"} /\ Remove(TRUE) /\ rev' \in {rev, "none"} /\ UNCHANGED <<cache, pc>>
           \/ /\ rev \in {"none", "void"} /\ src' = "none" /\ bin' = "none" /\ tool' = "none" /\ sync' = FALSE
              /\ rev' = "none" /\ cache' = "none" /\ pc' = "end"
        /\ UNCHANGED <<orig, op, full, ops, done>>
\* killed or failed: what is on the disk stays
Killed == /\ pc \notin {"idle"} /\ pc' = "idle" /\ op' = Idle /\ UNCHANGED <<rev, sync, src, bin, tool, cache, orig, full, ops, done>>
Steps == Look \/ Void \/ Reset \/ Cache \/ Wipe \/ Copy \/ Src \/ Patch \/ Tool \/ Bin \/ Rev \/ End \/ Drop
Next == Start \/ Steps \/ Killed
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps)

----------------------------------------------------------------------------
\* what an operation that is finished leaves
Fresh(r) == src = r /\ bin = r /\ tool = r
Finished == /\ done.kind = "setup" => Fresh(done.rev) /\ rev = done.rev /\ cache = done.rev
            /\ done.kind = "delete" => ~Exists /\ rev = "none"
Untouched == orig = "orig"
\* the revision file never names a revision the directory does not have
Honest == rev \in Revs => Fresh(rev)
\* no set-up gets stuck on what an earlier one has left
NotStuck == pc \in {"tool", "bin"} => ENABLED (Tool \/ Bin)
=============================================================================
