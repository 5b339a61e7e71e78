-------------------------------- MODULE Lock ---------------------------------
(* Sessions of one index over its lock, step by step as they are in the code:
   open the lock file, take the lock (shared or exclusive), look at the index,
   fail or proceed, work, release.  The lock is an advisory file lock: the system
   grants a request when no conflicting one is held, in any order.

   The switches are parts of the design; with any of them off something below
   is violated:
     CfgUnderLock   the configuration is read after the lock was granted
     AppendExcl     appending takes the exclusive lock
     FailReleases   a failed attempt releases the lock
     CloseReleases  closing releases the lock
     RemoveHolds    the lock is held while the index directory is deleted     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Sessions, MaxGen, MaxData, CfgUnderLock, AppendExcl, FailReleases, CloseReleases, RemoveHolds
Kinds == {"create", "append", "read"}
NoIdx == [gen |-> 0, data |-> 0, ok |-> FALSE]     \* gen 0: nothing there

VARIABLES idx,     \* what is at the index's path: generation (stands for the configuration), documents committed, usable
          gens,    \* generations so far
          pc,      \* idle | ask | inside | open | leaving
          kind, held, \* session -> mode held: no | sh | ex
          cfg,     \* generation whose configuration the session works with
          seen,    \* data it found
          wrote    \* documents it has added
vars == <<idx, gens, pc, kind, held, cfg, seen, wrote>>

Mode(k) == IF k = "read" \/ (k = "append" /\ ~AppendExcl) THEN "sh" ELSE "ex"
Compatible(s, m) == \A t \in Sessions \ {s} : held[t] = "no" \/ (held[t] = "sh" /\ m = "sh")

(* session s is idle: nothing is left of it                                   *)
Cleared(s) == /\ pc' = [pc EXCEPT ![s] = "idle"] /\ kind' = [kind EXCEPT ![s] = "read"]
              /\ cfg' = [cfg EXCEPT ![s] = 0] /\ seen' = [seen EXCEPT ![s] = 0] /\ wrote' = [wrote EXCEPT ![s] = 0]

Init == /\ idx = NoIdx /\ gens = 0
        /\ pc = [s \in Sessions |-> "idle"] /\ kind = [s \in Sessions |-> "read"]
        /\ held = [s \in Sessions |-> "no"] /\ cfg = [s \in Sessions |-> 0]
        /\ seen = [s \in Sessions |-> 0] /\ wrote = [s \in Sessions |-> 0]

Ask(s, k) == /\ pc[s] = "idle" /\ held[s] = "no"
             /\ k = "append" => idx.ok              \* otherwise it fails at once
             /\ kind' = [kind EXCEPT ![s] = k]
             /\ pc' = [pc EXCEPT ![s] = "ask"]
             /\ cfg' = [cfg EXCEPT ![s] = IF k = "append" /\ ~CfgUnderLock THEN idx.gen ELSE 0]
             /\ UNCHANGED <<idx, gens, held, seen, wrote>>
Grant(s) == /\ pc[s] = "ask" /\ Compatible(s, Mode(kind[s]))
            /\ held' = [held EXCEPT ![s] = Mode(kind[s])]
            /\ pc' = [pc EXCEPT ![s] = "inside"]
            /\ UNCHANGED <<idx, gens, kind, cfg, seen, wrote>>
Fail(s) == /\ Cleared(s)
           /\ held' = [held EXCEPT ![s] = IF FailReleases THEN "no" ELSE @]
           /\ UNCHANGED <<idx, gens>>
Enter(s) == /\ pc[s] = "inside"
            /\ IF kind[s] = "create"
               THEN IF idx.gen # 0 \/ gens = MaxGen THEN Fail(s)
                    ELSE /\ idx' = [gen |-> gens + 1, data |-> 0, ok |-> FALSE] /\ gens' = gens + 1
                         /\ cfg' = [cfg EXCEPT ![s] = gens + 1] /\ seen' = [seen EXCEPT ![s] = 0]
                         /\ wrote' = [wrote EXCEPT ![s] = 0]
                         /\ pc' = [pc EXCEPT ![s] = "open"] /\ UNCHANGED <<kind, held>>
               ELSE IF ~idx.ok THEN Fail(s)
                    ELSE /\ cfg' = [cfg EXCEPT ![s] = IF CfgUnderLock \/ kind[s] = "read" THEN idx.gen ELSE @]
                         /\ seen' = [seen EXCEPT ![s] = idx.data] /\ wrote' = [wrote EXCEPT ![s] = 0]
                         /\ pc' = [pc EXCEPT ![s] = "open"] /\ UNCHANGED <<idx, gens, kind, held>>
Add(s) == /\ pc[s] = "open" /\ kind[s] # "read" /\ seen[s] + wrote[s] < MaxData
          /\ wrote' = [wrote EXCEPT ![s] = @ + 1]
          /\ UNCHANGED <<idx, gens, pc, kind, held, cfg, seen>>
Commit(s) == IF kind[s] = "read" \/ idx.gen = 0 THEN idx
             ELSE [gen |-> cfg[s], data |-> seen[s] + wrote[s], ok |-> TRUE]
Close(s) == /\ pc[s] = "open"
            /\ idx' = Commit(s)
            /\ held' = [held EXCEPT ![s] = IF CloseReleases THEN "no" ELSE @]
            /\ Cleared(s)
            /\ UNCHANGED gens
(* removal: delete and release, in this order if RemoveHolds                   *)
Remove1(s) == /\ pc[s] = "open"
              /\ pc' = [pc EXCEPT ![s] = "leaving"]
              /\ IF RemoveHolds THEN idx' = NoIdx /\ UNCHANGED held
                 ELSE held' = [held EXCEPT ![s] = "no"] /\ UNCHANGED idx
              /\ UNCHANGED <<gens, kind, cfg, seen, wrote>>
Remove2(s) == /\ pc[s] = "leaving" /\ Cleared(s)
              /\ IF RemoveHolds THEN held' = [held EXCEPT ![s] = "no"] /\ UNCHANGED idx
                 ELSE idx' = NoIdx /\ UNCHANGED held
              /\ UNCHANGED gens
(* the process dies; the system drops its locks                                *)
Die(s) == /\ pc[s] \in {"ask", "inside", "open", "leaving"}
          /\ Cleared(s) /\ held' = [held EXCEPT ![s] = "no"]
          /\ UNCHANGED <<idx, gens>>

Session(s) == Grant(s) \/ Enter(s) \/ Close(s) \/ Remove2(s)
Next == \E s \in Sessions : (\E k \in Kinds : Ask(s, k)) \/ Session(s) \/ Add(s) \/ Remove1(s) \/ Die(s)
Spec == Init /\ [][Next]_vars /\ \A s \in Sessions : WF_vars(Grant(s)) /\ WF_vars(Enter(s)) /\ WF_vars(Close(s)) /\ WF_vars(Remove2(s))

Sym == Permutations(Sessions)

(* P08 *)
Writing(s) == pc[s] \in {"open", "leaving"} /\ kind[s] # "read"
Excludes == \A s, t \in Sessions : (s # t /\ Writing(s)) => pc[t] \notin {"open", "leaving"}
(* a writing session has its index to itself: what it works with stays there   *)
Undisturbed == \A s \in Sessions : (pc[s] = "open" /\ kind[s] # "read") => (idx.gen = cfg[s] /\ idx.data = seen[s])
(* a session that was granted found what was committed                         *)
ReadsCommitted == [][\A s \in Sessions : (pc[s] = "inside" /\ pc'[s] = "open" /\ kind[s] # "create") =>
                        (cfg'[s] = idx.gen /\ seen'[s] = idx.data)]_vars
(* P09 *)
NoLeak == \A s \in Sessions : held[s] # "no" => pc[s] \in {"inside", "open", "leaving"}
FailChangesNothing == [][\A s \in Sessions : (pc[s] = "inside" /\ pc'[s] = "idle") => idx' = idx]_vars
(* nothing is lost: documents of a generation only grow                        *)
Grows == [][(idx.gen # 0 /\ idx'.gen = idx.gen) => idx'.data >= idx.data]_vars
(* a waiting session proceeds once those in its way are gone                   *)
Waits(s) == pc[s] = "ask" /\ Compatible(s, Mode(kind[s]))
Proceeds == \A s \in Sessions : Waits(s) ~> (pc[s] # "ask" \/ ~Compatible(s, Mode(kind[s])))
(* and with everybody closing, somebody always gets in                         *)
NeverStuck == \A s \in Sessions : pc[s] = "ask" ~> (pc[s] # "ask" \/ \E t \in Sessions : pc[t] = "inside")
=============================================================================
