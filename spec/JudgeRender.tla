----------------------------- MODULE JudgeRender -----------------------------
(* Every recorded rendering (tree, class, CSS) must be the specified text    *)
(* and must mean what the tree means.                                        *)
EXTENDS Css, Json, IOUtils
VARIABLES n, verdict

Cases == ndJsonDeserialize(IOEnv.CASES)
\* case: [ast, class, res, css, same, simple]
\* simple: all names, values, selectors and conditions are free of line breaks and
\* of the reader's own punctuation, so that the CSS text can be read back.

Verdict(k) ==
  LET c == Cases[k] IN
  IF c.res # "ok" THEN "panic"
  ELSE IF ~c.same THEN "unstable"
  ELSE IF c.simple /\ ~MeansDecls(c.css, c.ast, c.class) THEN "meaning"
  ELSE IF c.simple /\ ~NoEmptyBlocks(c.css) THEN "empty-block"
  ELSE IF c.simple /\ ~KeyframesPresent(c.css, c.ast, c.class) THEN "keyframes"
  ELSE IF c.css # Render(c.ast, c.class) THEN "text"
  ELSE "ok"

Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ n' = n
        /\ verdict' = Verdict(n)
        /\ (verdict' = "ok" \/ PrintT(<<"REJECTED", n, verdict', Render(Cases[n].ast, Cases[n].class)>>))
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
=============================================================================
