------------------------------ MODULE JudgeIds ------------------------------
(* Ids given out to free-running threads of one process: ids |-> per thread,  *)
(* the ids in order.  What IdsUnique of the registry model says, for runs too *)
(* long to replay event by event (all styles are created fresh).              *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES n, verdict
Cases == ndJsonDeserialize(IOEnv.CASES)

RECURSIVE Total(_, _)
Total(ids, i) == IF i = 0 THEN 0 ELSE Len(ids[i]) + Total(ids, i - 1)
All(ids) == UNION {{ids[i][j] : j \in 1..Len(ids[i])} : i \in 1..Len(ids)}
Verdict(k) ==
  LET c == Cases[k] IN
  IF \E i \in 1..Len(c.ids) : Len(c.ids[i]) # c.n THEN "a thread did not finish"
  ELSE IF Cardinality(All(c.ids)) # Total(c.ids, Len(c.ids)) THEN "an id was given twice"
  ELSE "ok"

Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ n' = n
        /\ verdict' = Verdict(n)
        /\ (verdict' = "ok" \/ PrintT(<<"REJECTED", n, verdict'>>))
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
=============================================================================
