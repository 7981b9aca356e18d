------------------------------ MODULE ParseCache ------------------------------
(***************************************************************************)
(* Parsing with a shared cache.  Threads look a text up under a lock; on a *)
(* miss they release it, parse, and store the result under the lock again. *)
(* Failures are never stored.  Whatever the interleaving and the history,  *)
(* a call returns what parsing the text alone returns.  (The code keeps     *)
(* the lock while it parses; those interleavings are among these.)         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Texts, Bad, MaxCalls     \* Bad: the texts that do not parse
VARIABLES cache, pc, arg, lock, got, calls

vars == <<cache, pc, arg, lock, got, calls>>
None == "none"
Result(t) == IF t \in Bad THEN "error" ELSE "sheet of " \o t

Init == /\ cache = [t \in {} |-> 0]
        /\ pc = [p \in Threads |-> "idle"]
        /\ arg = [p \in Threads |-> None]
        /\ lock = None
        /\ got = [p \in Threads |-> << >>]
        /\ calls = 0

Call(p, t) == /\ pc[p] = "idle" /\ calls < MaxCalls
              /\ pc' = [pc EXCEPT ![p] = "lookup"] /\ arg' = [arg EXCEPT ![p] = t]
              /\ calls' = calls + 1
              /\ UNCHANGED <<cache, lock, got>>
Acquire(p, from, to) == /\ pc[p] = from /\ lock = None
                        /\ lock' = p /\ pc' = [pc EXCEPT ![p] = to]
                        /\ UNCHANGED <<cache, arg, got, calls>>
Return(p, r) == /\ got' = [got EXCEPT ![p] = Append(@, <<arg[p], r>>)]
                /\ pc' = [pc EXCEPT ![p] = "idle"] /\ arg' = [arg EXCEPT ![p] = None]
Lookup(p) == /\ pc[p] = "locked" /\ lock = p /\ lock' = None
             /\ IF arg[p] \in DOMAIN cache
                THEN Return(p, cache[arg[p]])
                ELSE pc' = [pc EXCEPT ![p] = "parse"] /\ UNCHANGED <<got, arg>>
             /\ UNCHANGED <<cache, calls>>
DoParse(p) == /\ pc[p] = "parse"
              /\ IF arg[p] \in Bad
                 THEN Return(p, "error")
                 ELSE pc' = [pc EXCEPT ![p] = "store"] /\ UNCHANGED <<got, arg>>
              /\ UNCHANGED <<cache, lock, calls>>
Store(p) == /\ pc[p] = "storing" /\ lock = p /\ lock' = None
            /\ cache' = (arg[p] :> Result(arg[p])) @@ cache
            /\ Return(p, Result(arg[p]))
            /\ UNCHANGED calls

Next == \E p \in Threads :
          \/ \E t \in Texts : Call(p, t)
          \/ Acquire(p, "lookup", "locked") \/ Acquire(p, "store", "storing")
          \/ Lookup(p) \/ DoParse(p) \/ Store(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Pure == \A p \in Threads : \A i \in 1..Len(got[p]) : got[p][i][2] = Result(got[p][i][1])
CacheSound == \A t \in DOMAIN cache : t \notin Bad /\ cache[t] = Result(t)
LockHeld == lock # None => pc[lock] \in {"locked", "storing"}
NoLostCall == calls >= Cardinality({p \in Threads : pc[p] # "idle"})
=============================================================================
