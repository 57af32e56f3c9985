----------------------------- MODULE ShimCache -----------------------------
(* The on-disk cache of the compiled tabulation shim (qugar.dolfinx._shim).

   Hosts are operating-system processes sharing one cache directory; every
   host runs some threads that ask for the library.  A compile job is a child
   process of its host and survives a kill of the host.  Source versions are
   natural numbers (an edit makes a new one); the library remembers the
   version it was built from (ver) and the version its time stamp stands for
   (stamp).

   Publish = "atomic": a job writes a private file that is moved over the
   library when complete.  "direct": it writes the library file in place.
   Stamp = "sampled": the library carries the time of the sources the job
   started from.  "finish": the time at which the job ended.
   Redo = "changed": a job whose sources changed while it ran is discarded and
   done again under the same lock; "never": it is not; "may": either.
   The constants exist so that the defective designs can be shown to
   break the invariants (sanity configurations).                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Hosts, Threads, MaxEdits, MaxKills, MaxFails, MaxCalls,
          Publish, Stamp, Redo, NoActor

Actors == Hosts \X Threads

VARIABLES src,      \* current source version
          lib,      \* [kind |-> "none"|"partial"|"full", ver, stamp]
          pc,       \* per actor: idle, check, wait, locked, compiling, done, failed
          began,    \* per actor: source version when its current call began
          lock,     \* holder of the cache lock
          jobs,     \* running compile jobs: set of [id, by, ver, orphan]
          nextid, edits, kills, fails, calls,
          built     \* builds started per source version
vars == <<src, lib, pc, began, lock, jobs, nextid, edits, kills, fails, calls, built>>

NoLib == [kind |-> "none", ver |-> 0, stamp |-> 0]
Versions == 1..(MaxEdits + 1)

Init == /\ src = 1 /\ lib = NoLib /\ lock = NoActor /\ jobs = {}
        /\ pc = [a \in Actors |-> "idle"] /\ began = [a \in Actors |-> 0]
        /\ nextid = 1 /\ edits = 0 /\ kills = 0 /\ fails = 0 /\ calls = 0
        /\ built = [v \in Versions |-> 0]

Busy(a) == pc[a] \in {"check", "wait", "locked", "compiling", "done", "failed"}
FreshFor(a) == lib.kind # "none" /\ lib.stamp >= began[a]
FreshNow == lib.kind # "none" /\ lib.stamp >= src

Call(a) == /\ pc[a] = "idle" /\ calls < MaxCalls
           /\ pc' = [pc EXCEPT ![a] = "check"]
           /\ began' = [began EXCEPT ![a] = src]
           /\ calls' = calls + 1
           /\ UNCHANGED <<src, lib, lock, jobs, nextid, edits, kills, fails, built>>

\* the lock-free look at the cache
FastHit(a) == /\ pc[a] = "check" /\ FreshFor(a)
              /\ pc' = [pc EXCEPT ![a] = "done"]
              /\ UNCHANGED <<src, lib, began, lock, jobs, nextid, edits, kills, fails, calls, built>>
FastMiss(a) == /\ pc[a] = "check"
               /\ pc' = [pc EXCEPT ![a] = "wait"]
               /\ UNCHANGED <<src, lib, began, lock, jobs, nextid, edits, kills, fails, calls, built>>
Acquire(a) == /\ pc[a] = "wait" /\ lock = NoActor
              /\ lock' = a /\ pc' = [pc EXCEPT ![a] = "locked"]
              /\ UNCHANGED <<src, lib, began, jobs, nextid, edits, kills, fails, calls, built>>
\* second look, under the lock
Recheck(a) == /\ pc[a] = "locked" /\ FreshFor(a)
              /\ pc' = [pc EXCEPT ![a] = "done"] /\ lock' = NoActor
              /\ UNCHANGED <<src, lib, began, jobs, nextid, edits, kills, fails, calls, built>>
CompileStart(a) ==
    /\ pc[a] = "locked" /\ ~FreshNow
    /\ jobs' = jobs \cup {[id |-> nextid, by |-> a, ver |-> src, orphan |-> FALSE]}
    /\ nextid' = nextid + 1
    /\ built' = [built EXCEPT ![src] = @ + 1]
    /\ lib' = IF Publish = "direct" THEN [kind |-> "partial", ver |-> src, stamp |-> src] ELSE lib
    /\ pc' = [pc EXCEPT ![a] = "compiling"]
    /\ UNCHANGED <<src, began, lock, edits, kills, fails, calls>>
Written(j) == [kind |-> "full", ver |-> j.ver,
               stamp |-> IF Stamp = "sampled" THEN j.ver ELSE src]
CompileDone(j) ==
    /\ j \in jobs /\ ~j.orphan
    /\ Redo = "changed" => j.ver = src
    /\ lib' = Written(j) /\ jobs' = jobs \ {j}
    /\ pc' = [pc EXCEPT ![j.by] = "done"] /\ lock' = NoActor
    /\ UNCHANGED <<src, began, nextid, edits, kills, fails, calls, built>>
CompileRedo(j) ==
    /\ j \in jobs /\ ~j.orphan
    /\ Redo # "never" /\ j.ver < src
    /\ jobs' = jobs \ {j}
    /\ pc' = [pc EXCEPT ![j.by] = "locked"]
    /\ UNCHANGED <<src, lib, began, lock, nextid, edits, kills, fails, calls, built>>
CompileFail(j) ==
    /\ j \in jobs /\ ~j.orphan /\ fails < MaxFails
    /\ jobs' = jobs \ {j} /\ fails' = fails + 1
    /\ pc' = [pc EXCEPT ![j.by] = "failed"] /\ lock' = NoActor
    /\ UNCHANGED <<src, lib, began, nextid, edits, kills, calls, built>>
\* a job whose host was killed: its private file is never published
OrphanDone(j) ==
    /\ j \in jobs /\ j.orphan
    /\ jobs' = jobs \ {j}
    /\ lib' = IF Publish = "direct" THEN Written(j) ELSE lib
    /\ UNCHANGED <<src, pc, began, lock, nextid, edits, kills, fails, calls, built>>
Kill(h) ==
    /\ kills < MaxKills /\ \E t \in Threads : Busy(<<h, t>>)
    /\ kills' = kills + 1
    /\ pc' = [a \in Actors |-> IF a[1] = h THEN "idle" ELSE pc[a]]
    /\ lock' = IF lock # NoActor /\ lock[1] = h THEN NoActor ELSE lock
    /\ jobs' = {IF j.by[1] = h THEN [j EXCEPT !.orphan = TRUE] ELSE j : j \in jobs}
    /\ UNCHANGED <<src, lib, began, nextid, edits, fails, calls, built>>
Edit == /\ edits < MaxEdits
        /\ edits' = edits + 1 /\ src' = src + 1
        /\ UNCHANGED <<lib, pc, began, lock, jobs, nextid, kills, fails, calls, built>>
Return(a) == /\ pc[a] = "done" /\ pc' = [pc EXCEPT ![a] = "idle"]
             /\ UNCHANGED <<src, lib, began, lock, jobs, nextid, edits, kills, fails, calls, built>>
Raise(a) == /\ pc[a] = "failed" /\ pc' = [pc EXCEPT ![a] = "idle"]
            /\ UNCHANGED <<src, lib, began, lock, jobs, nextid, edits, kills, fails, calls, built>>

Internal(a) == FastHit(a) \/ (FastMiss(a) /\ ~FreshFor(a)) \/ Acquire(a) \/ Recheck(a)
               \/ (CompileStart(a) /\ ~FreshFor(a))
               \/ Return(a) \/ Raise(a)
External == \/ \E a \in Actors : Call(a)
            \/ \E j \in jobs : CompileDone(j) \/ CompileRedo(j) \/ CompileFail(j) \/ OrphanDone(j)
            \/ \E h \in Hosts : Kill(h)
            \/ Edit
Next == External \/ \E a \in Actors : Internal(a)
Spec == Init /\ [][Next]_vars
        /\ \A a \in Actors : WF_vars(FastHit(a)) /\ WF_vars(FastMiss(a)) /\ SF_vars(Acquire(a))
              /\ WF_vars(Recheck(a)) /\ WF_vars(CompileStart(a)) /\ WF_vars(Return(a)) /\ WF_vars(Raise(a))
        /\ WF_vars(\E j \in jobs : CompileDone(j) \/ CompileRedo(j) \/ OrphanDone(j))

-----------------------------------------------------------------------------
TypeOK == /\ lib.kind \in {"none", "partial", "full"} /\ lock \in Actors \cup {NoActor}
          /\ src \in Versions /\ \A j \in jobs : j.by \in Actors
\* C01: whoever is handed the library finds it complete, at that moment and later
Complete == \A a \in Actors : pc[a] = "done" => lib.kind = "full"
StaysComplete == [][lib.kind = "full" => lib'.kind = "full"]_vars
\* C02: and it is not older than the sources were when the call began
NotStale == \A a \in Actors : pc[a] = "done" => lib.ver >= began[a]
OneBuilder == Cardinality({j \in jobs : ~j.orphan}) <= 1
BuiltOnce == \A v \in Versions : built[v] <= 1 + fails + kills
LockHeld == \A a \in Actors : pc[a] \in {"locked", "compiling"} => lock = a
\* every call comes to an end (if its host lives)
Ends == \A a \in Actors : (pc[a] = "check") ~> (pc[a] = "idle")
=============================================================================
