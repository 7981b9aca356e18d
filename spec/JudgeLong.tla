----------------------------- MODULE JudgeLong -----------------------------
(* JudgeClosure for texts too long for the grammar: pre, n copies of unit,   *)
(* post. The grammar and the rendering are applied to 1 to 4 copies; they    *)
(* must give a, as many copies of u, z; and the same of n copies is what the *)
(* implementation has to render, accept again and reproduce.                 *)
EXTENDS Grammar, Json, IOUtils
VARIABLES n, verdict

Cases == ndJsonDeserialize(IOEnv.CASES)
\* case: [pre, unit, post, n, parse, scoped |-> S, global |-> S]
\* S: [res, css, id, again |-> [res, css], a, u, z]

RECURSIVE Times(_, _)
Times(s, k) ==
  IF k = 0 THEN ""
  ELSE LET h == Times(s, k \div 2) IN IF k % 2 = 0 THEN h \o h ELSE h \o h \o s
RECURSIVE Copies(_, _)
Copies(q, k) == IF k = 0 THEN << >> ELSE q \o Copies(q, k - 1)

Split(s, k) == s.a \o Times(s.u, k) \o s.z
Small(c, k) == Parse(c.pre \o Copies(c.unit, k) \o c.post)

Created(c, s, class) ==
  IF s.res # "ok" THEN "not created"
  ELSE IF \E k \in 1..4 : Render(Small(c, k).ast, class) # Split(s, k) THEN "rendering of few"
  ELSE IF s.css # Split(s, c.n) THEN "rendering"
  ELSE IF s.again.res # "ok" THEN "not accepted again"
  ELSE IF s.again.css # s.css THEN "not reproduced"
  ELSE "ok"

Verdict(k) ==
  LET c == Cases[k] IN
  IF \E i \in 1..4 : Small(c, i).res # "ok" THEN "not accepted by the grammar"
  ELSE IF c.parse # "ok" THEN "not accepted"
  ELSE LET a == Created(c, c.scoped, c.scoped.id)
           b == Created(c, c.global, "")
       IN IF a # "ok" THEN "scoped: " \o a ELSE IF b # "ok" THEN "global: " \o b ELSE "ok"

Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ n' = n
        /\ verdict' = Verdict(n)
        /\ (verdict' = "ok" \/ PrintT(<<"REJECTED", n, verdict'>>))
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
=============================================================================
