----------------------------- MODULE JudgeParse -----------------------------
(* Every recorded parse (text, outcome, tree) must be what Grammar says.     *)
EXTENDS Grammar, Json, IOUtils
VARIABLES n, verdict

Cases == ndJsonDeserialize(IOEnv.CASES)
\* case: [chars, res, ast, want (optional intended outcome: "ok"/"err"/"?"), wast]

Expected(c) == Parse(c.chars)
Verdict(k) ==
  LET c == Cases[k]
      e == Expected(c)
  IN IF c.res # e.res THEN "outcome"
     ELSE IF c.ast # e.ast THEN "tree"
     ELSE IF c.res = "ok" /\ ~LexicallyClosed(c.chars) THEN "unclosed-accepted"
     ELSE IF c.want = "ok" /\ (c.res # "ok" \/ c.wast # c.ast) THEN "intended-tree"
     ELSE IF c.want = "err" /\ c.res # "err" THEN "intended-error"
     ELSE "ok"

Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ n' = n
        /\ verdict' = Verdict(n)
        /\ (verdict' = "ok" \/ PrintT(<<"REJECTED", n, verdict', ToJson(Expected(Cases[n]))>>))
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
=============================================================================
