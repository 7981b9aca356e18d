------------------------------ MODULE JudgeMacro -------------------------------
(***************************************************************************)
(* Recorded macro invocations.  case:                                      *)
(*  form "inline": toks;  form "lit": chars and args, each [n, vs, cnt]    *)
(*  (n = "" for an argument without a name)                                *)
(*  res: "ok" or "err" (compile error); runs[n]: [res, ast, id, css, g]    *)
(*  res "tree": a stylesheet was observed; "css": only CSS text and id     *)
(*  same: all runs gave equal stylesheets                                  *)
(*  want: "ok" / "err" / "?"   the outcome intended by the generator       *)
(***************************************************************************)
EXTENDS Inline, Json, IOUtils
VARIABLES n, verdict
G == INSTANCE Grammar

Cases == ndJsonDeserialize(IOEnv.CASES)

(*************************** literal invocations ***************************)
NameChar == G!Alpha \cup G!Digit \cup {"_"}
\* [ok, t (the text), used (names in order)] of s from i on.
RECURSIVE Expand(_, _, _, _)
Expand(s, i, args, run) ==
  IF i > Len(s) THEN [ok |-> TRUE, t |-> << >>, used |-> << >>]
  ELSE IF StartsAt(s, "$${", i)
  THEN LET r == Expand(s, i + 3, args, run) IN [r EXCEPT !.t = <<"${">> \o @]
  ELSE IF StartsAt(s, "${", i)
  THEN LET q == Chars(s)
           a == G!While(q, i + 2, G!Space)
           b == IF a <= Len(s) /\ q[a] \in G!Alpha THEN G!While(q, a, NameChar) ELSE a
           e == G!While(q, b, G!Space)
           name == SubSeq(s, a, b - 1)
           hit == {k \in 1..Len(args) : args[k].n = name}
       IN IF b = a \/ e > Len(s) \/ q[e] # "}" \/ hit = {} THEN [ok |-> FALSE, t |-> << >>, used |-> << >>]
          ELSE LET r == Expand(s, e + 1, args, run)
               IN [r EXCEPT !.t = <<args[CHOOSE k \in hit : TRUE].vs[run]>> \o @, !.used = <<name>> \o @]
  ELSE LET k == FindFrom(s, "$", i + 1)
           to == IF k = 0 THEN Len(s) ELSE k - 1
           r == Expand(s, to + 1, args, run)
       IN [r EXCEPT !.t = <<SubSeq(s, i, to)>> \o @]
Ex(s, args, run) == Expand(s, 1, args, run)

\* Names stay as they are; values, selectors and conditions are expanded.
RECURSIVE Subs(_, _, _)
Subs(q, args, run) ==    \* [ok, ast, used]
  IF q = << >> THEN [ok |-> TRUE, ast |-> << >>, used |-> << >>]
  ELSE LET x == Head(q)
           texts == IF x.t = "a" THEN <<x.v>> ELSE x.s
           es == [k \in 1..Len(texts) |-> Ex(texts[k], args, run)]
           inner == Subs(x.c, args, run)
           rest == Subs(Tail(q), args, run)
           y == IF x.t = "a" THEN [x EXCEPT !.v = Cat(es[1].t)]
                ELSE [x EXCEPT !.s = [k \in 1..Len(es) |-> Cat(es[k].t)], !.c = inner.ast]
           RECURSIVE uses(_)
           uses(k) == IF k > Len(es) THEN << >> ELSE es[k].used \o uses(k + 1)
       IN [ok |-> (\A k \in 1..Len(es) : es[k].ok) /\ inner.ok /\ rest.ok,
           ast |-> <<y>> \o rest.ast,
           used |-> uses(1) \o inner.used \o rest.used]

Literal(chars, args, run) ==   \* [res, ast, used]
  LET p == G!Parse(chars)
      s == Subs(p.ast, args, run)
      names == {args[k].n : k \in 1..Len(args)}
      used == {s.used[k] : k \in 1..Len(s.used)}
  IN IF p.res = "ok" /\ s.ok /\ "" \notin names /\ Cardinality(names) = Len(args) /\ names = used
     THEN [res |-> "ok", ast |-> s.ast, used |-> s.used]
     ELSE [res |-> "err", ast |-> << >>, used |-> << >>]

(******************************** verdicts *********************************)
Expected(c, run) == IF c.form = "inline" THEN Invocation(c.toks, run) ELSE Literal(c.chars, c.args, run)

RunOk(c, k) ==
  LET e == Expected(c, k)
      o == c.runs[k]
  IN CASE o.res = "tree" -> o.ast = e.ast
       [] o.res = "css" -> o.css = Render(e.ast, IF o.g THEN "" ELSE o.id)
       [] OTHER -> FALSE

\* Every counted expression was evaluated once per occurrence and run.
RECURSIVE CountsOk(_, _)
CountsOk(t, runs) == \A k \in 1..Len(t) :
  CASE t[k].k = "e" -> t[k].cnt \in {0 - 1, runs}
    [] t[k].k = "g" -> CountsOk(t[k].c, runs)
    [] OTHER -> TRUE
Occurs(name, used) == Cardinality({k \in 1..Len(used) : used[k] = name})

Verdict(i) ==
  LET c == Cases[i]
      e == Expected(c, 1)
  IN IF c.want # "?" /\ c.want # e.res THEN "generator and specification disagree"
     ELSE IF c.form = "inline" /\ Gray(c.toks, 1) THEN
             (IF c.res = "err" \/ \A k \in 1..Len(c.runs) : c.runs[k].res = "tree" => GrayOk(c.runs[k].ast, c.toks, k) THEN "ok" ELSE "lost")
     ELSE IF c.res # e.res THEN (IF c.res = "ok" THEN "accepted, but it is misuse" ELSE "rejected, but it is well-formed")
     ELSE IF c.res = "err" THEN "ok"
     ELSE IF \E k \in 1..Len(c.runs) : ~RunOk(c, k) THEN "stylesheet"
     ELSE IF c.form = "inline" /\ ~NothingLost(c.toks, 1) THEN "lost"
     ELSE IF c.form = "inline" /\ ~CountsOk(c.toks, Len(c.runs)) THEN "evaluations"
     ELSE IF c.form = "lit" /\ \E k \in 1..Len(c.args) :
               c.args[k].cnt \notin {0 - 1, Len(c.runs) * Occurs(c.args[k].n, e.used)} THEN "evaluations"
     ELSE IF c.same # "?" /\ (c.same = "T") # (\A k \in 1..Len(c.runs) : Expected(c, k).ast = e.ast) THEN "equality of runs"
     ELSE "ok"

Init == n \in 1..Len(Cases) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ n' = n
        /\ verdict' = Verdict(n)
        /\ (verdict' = "ok" \/ PrintT(<<"REJECTED", n, verdict', ToJson(Expected(Cases[n], 1))>>))
Spec == Init /\ [][Next]_<<n, verdict>>
Accepted == verdict \in {"todo", "ok"}
=============================================================================
