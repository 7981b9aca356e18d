---------------------------- MODULE JudgeClosure -----------------------------
(* A text, the styles created from it (scoped and global, through the debug  *)
(* re-parse) and what parsing their CSS again gives.                         *)
EXTENDS Grammar, Json, IOUtils
VARIABLES n, verdict

Cases == ndJsonDeserialize(IOEnv.CASES)
\* case: [chars, parse |-> [res, ast], scoped |-> S, global |-> S]
\* S: [res, css, id, again |-> [res, ast, css]]

Created(c, s, class) ==
  IF s.res # c.parse.res THEN "creation"
  ELSE IF s.res # "ok" THEN "ok"
  ELSE IF s.css # Render(c.parse.ast, class) THEN "rendering"
  ELSE IF s.again.res # "ok" THEN "not-accepted-again"
  ELSE IF s.again.css # s.css THEN "not-reproduced"
  ELSE IF DeclsOf(Flat(s.again.ast, "")) # DeclsOf(Flat(c.parse.ast, class)) THEN "not-equivalent"
  ELSE "ok"

Verdict(k) ==
  LET c == Cases[k]
      p == Parse(c.chars)
  IN IF c.parse.res # p.res THEN "outcome"
     ELSE IF c.parse.ast # p.ast THEN "tree"
     ELSE LET a == Created(c, c.scoped, c.scoped.id)
              b == Created(c, c.global, "")
          IN IF a # "ok" THEN "scoped-" \o a ELSE IF b # "ok" THEN "global-" \o b ELSE "ok"

Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ n' = n
        /\ verdict' = Verdict(n)
        /\ (verdict' = "ok" \/ PrintT(<<"REJECTED", n, verdict'>>))
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
=============================================================================
