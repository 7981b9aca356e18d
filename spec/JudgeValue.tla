----------------------------- MODULE JudgeValue ------------------------------
(* Pairs of trees a, b: equality, hashing, serialisation, cloning.           *)
EXTENDS Css, Json, IOUtils
VARIABLES n, verdict

Cases == ndJsonDeserialize(IOEnv.CASES)
\* case: [a, b, cut (are both cut into fragments alike?), o]
\* o: [res, eq, qe, hasheq, json |-> V, bin |-> V, clone |-> V], V: [eq, hash, ast, css]

Copy(c, x) == x.eq /\ x.hash /\ x.ast = c.a /\ x.css = Render(c.a, "k")
Verdict(k) ==
  LET c == Cases[k] IN
  IF c.o.res # "ok" THEN "panic"
  ELSE IF c.o.eq # c.o.qe THEN "asymmetric"
  ELSE IF c.o.eq /\ ~c.o.hasheq THEN "equal-but-different-hash"
  ELSE IF c.cut /\ (c.o.eq # (c.a = c.b)) THEN "equality"
  ELSE IF c.cut /\ c.a = c.b /\ ~c.o.hasheq THEN "hash"
  ELSE IF c.o.eq /\ c.a # c.b THEN "equality"
  ELSE IF ~Copy(c, c.o.json) THEN "json"
  ELSE IF ~Copy(c, c.o.bin) THEN "bincode"
  ELSE IF ~Copy(c, c.o.clone) THEN "clone"
  ELSE "ok"

Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ n' = n
        /\ verdict' = Verdict(n)
        /\ (verdict' = "ok" \/ PrintT(<<"REJECTED", n, verdict'>>))
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
=============================================================================
