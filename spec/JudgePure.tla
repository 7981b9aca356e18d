----------------------------- MODULE JudgePure -----------------------------
(* What ParseCache says of a call - it answers Parse(text), whatever was      *)
(* asked before and by whom - for texts too long for the grammar: the answer  *)
(* of a process that is asked this text only (alone) is the answer of every   *)
(* call in every history (seen, without repetitions), and there was one.      *)
(* want: what the text is by construction, a sheet or none.                   *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
VARIABLES n, verdict
Cases == ndJsonDeserialize(IOEnv.CASES)

Verdict(k) ==
  LET c == Cases[k] IN
  IF Len(c.seen) = 0 THEN "never answered"
  ELSE IF \E i \in 1..Len(c.seen) : c.seen[i].res # c.alone.res THEN "a text is accepted in one history and not in another"
  ELSE IF \E i \in 1..Len(c.seen) : c.seen[i] # c.alone THEN "a text has another tree in a history than alone"
  ELSE IF c.alone.res # c.want THEN "accepted or rejected wrongly"
  ELSE "ok"

Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ n' = n
        /\ verdict' = Verdict(n)
        /\ (verdict' = "ok" \/ PrintT(<<"REJECTED", n, verdict'>>))
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
=============================================================================
