-------------------------------- MODULE Css ---------------------------------
(***************************************************************************)
(* The stylesheet tree and its rendering.                                  *)
(*                                                                         *)
(* A sheet is a sequence of nodes.  A node is a record [t, s, v, c]:       *)
(*   t = "a"  declaration  s = <<name>>       v = value   c = << >>        *)
(*   t = "b"  block        s = selectors      v = ""      c = content      *)
(*   t = "r"  at-rule      s = <<condition>>  v = ""      c = content      *)
(* A block with s = << >> is a "dangling" block: declarations that apply   *)
(* to the generated class itself.                                          *)
(*                                                                         *)
(* Two descriptions are given and shown equivalent:                        *)
(*  - Render: the machine that writes CSS text, keeping a stack of         *)
(*    contexts, each of which may be open (its braces printed) or not;     *)
(*  - Flat: what the stylesheet means - the sequence of declarations, each *)
(*    with the exact list of conditions it is subject to.                  *)
(***************************************************************************)
EXTENDS Text

Decl(k, v) == [t |-> "a", s |-> <<k>>, v |-> v, c |-> << >>]
Block(sels, c) == [t |-> "b", s |-> sels, v |-> "", c |-> c]
Rule(cond, c) == [t |-> "r", s |-> <<cond>>, v |-> "", c |-> c]

(*************************** selector scoping ******************************)
\* class = "" stands for a global stylesheet.
\* Substitute p1 and p2 by `to` outside quoted strings and comments, skipping escaped characters.
\* q is the quote character of the string the scan is inside of ("" if none, "*" in a comment).
Matching(s, i, p1, p2) ==
  IF StartsAt(s, p1, i) THEN Len(p1) ELSE IF p2 # "" /\ StartsAt(s, p2, i) THEN Len(p2) ELSE 0
RECURSIVE Subst(_, _, _, _, _, _)
Subst(s, i, q, p1, p2, to) ==
  IF i > Len(s) THEN [hit |-> FALSE, t |-> << >>]
  ELSE LET m == IF q = "" THEN Matching(s, i, p1, p2) ELSE 0
           c == At(s, i)
       IN IF m # 0
          THEN LET r == Subst(s, i + m, q, p1, p2, to) IN [hit |-> TRUE, t |-> <<to>> \o r.t]
          ELSE LET open == q = "" /\ StartsAt(s, "/*", i)
                   close == q = "*" /\ StartsAt(s, "*/", i)
                   w == IF open \/ close \/ (q # "*" /\ c = "\\" /\ i < Len(s)) THEN 2 ELSE 1
                   q2 == IF open THEN "*" ELSE IF close THEN "" ELSE IF q = "*" THEN q
                         ELSE IF c \notin {"\"", "'"} THEN q
                         ELSE IF q = "" THEN c ELSE IF q = c THEN "" ELSE q
                   r == Subst(s, i + w, q2, p1, p2, to)
               IN [r EXCEPT !.t = <<SubSeq(s, i, i + w - 1)>> \o @]

ScopeSelector(sel, class) ==
  IF class # "" THEN
    LET cls == "." \o class
        r == Subst(sel, 1, "", "&", ":root", cls)
    IN IF r.hit THEN Cat(r.t)
       ELSE IF StartsWith(sel, ":") THEN cls \o sel
       ELSE cls \o " " \o sel
  ELSE LET r == Subst(sel, 1, "", "&", "", ":root") IN IF r.hit THEN Cat(r.t) ELSE sel

\* Outside of any block there is no selector (an empty selector is something else).
NoSel == "<no selector>"

BlockSelector(sels, class, inherited) ==
  IF sels # << >> THEN JoinWith([i \in 1..Len(sels) |-> ScopeSelector(sels[i], class)], ", ")
  ELSE IF inherited # NoSel THEN inherited
  ELSE IF class # "" THEN "." \o class
  ELSE ":root"

IsKeyframes(cond) == StartsWith(cond, "@keyframes")

(***************************** the renderer ********************************)
\* ctx: [rules, sel, open]; a stack is a sequence of contexts, root first.
Conds(x) == IF x.sel = NoSel THEN x.rules ELSE x.rules \o <<x.sel>>

\* Index of the innermost open context strictly below i on the stack, 0 if none.
OpenParent(st, i) ==
  LET S == {j \in 1..(i - 1) : st[j].open} IN IF S = {} THEN 0 ELSE Max(S)

ParentConds(st, i) ==
  LET p == OpenParent(st, i) IN IF p = 0 THEN << >> ELSE Conds(st[p])

RECURSIVE CommonLen(_, _)
CommonLen(a, b) ==
  IF a = << >> \/ b = << >> \/ a[1] # b[1] THEN 0
  ELSE 1 + CommonLen(Tail(a), Tail(b))

\* A rendering state: [out : sequence of lines, st : stack].
Line(depth, text) == Repeat("    ", depth) \o text \o "\n"

Finish(R, i) ==
  IF ~R.st[i].open THEN R
  ELSE LET own == Conds(R.st[i])
           com == CommonLen(ParentConds(R.st, i), own)
       IN [out |-> R.out \o [k \in 1..(Len(own) - com) |-> Line(Len(own) - k, "}")],
           st |-> [R.st EXCEPT ![i].open = FALSE]]

\* Close open parents that are under conditions the context i is not under.
RECURSIVE CloseDiffering(_, _)
CloseDiffering(R, i) ==
  LET p == OpenParent(R.st, i) IN
  IF p = 0 THEN R
  ELSE IF CommonLen(Conds(R.st[p]), Conds(R.st[i])) = Len(Conds(R.st[p])) THEN R
  ELSE CloseDiffering(Finish(R, p), i)

Start(R, i) ==
  IF R.st[i].open THEN R
  ELSE LET C == CloseDiffering(R, i)
           own == Conds(C.st[i])
           com == CommonLen(ParentConds(C.st, i), own)
       IN [out |-> C.out \o [k \in 1..(Len(own) - com) |-> Line(com + k - 1, own[com + k] \o " {")],
           st |-> [C.st EXCEPT ![i].open = TRUE]]

Push(R, x) == [R EXCEPT !.st = Append(@, x)]
Pop(R) == [R EXCEPT !.st = Front1(@)]

RECURSIVE RNodes(_, _, _), RNode(_, _, _)
RNodes(R, q, class) ==
  IF q = << >> THEN R ELSE RNodes(RNode(R, q[1], class), Tail(q), class)
RNode(R, n, class) ==
  LET d == Len(R.st)
      top == R.st[d]
  IN
  CASE n.t = "a" ->
         LET S == Start(R, d)
         IN [S EXCEPT !.out = Append(@, Line(Len(Conds(top)), n.s[1] \o ": " \o n.v \o ";"))]
    [] n.t = "b" ->
         LET P == Push(R, [rules |-> top.rules, sel |-> BlockSelector(n.s, class, top.sel), open |-> FALSE])
         IN Pop(Finish(RNodes(P, n.c, class), d + 1))
    [] OTHER ->
         LET P == Push(R, [rules |-> Append(top.rules, n.s[1]), sel |-> top.sel, open |-> FALSE])
             Q == IF IsKeyframes(n.s[1]) THEN Start(P, d + 1) ELSE P
         IN Pop(Finish(RNodes(Q, n.c, class), d + 1))

RenderLines(sheet, class) ==
  RNodes([out |-> << >>, st |-> <<[rules |-> << >>, sel |-> NoSel, open |-> FALSE]>>], sheet, class).out
Render(sheet, class) == Cat(RenderLines(sheet, class))

(******************************* the meaning *******************************)
\* Flat: sequence of [p, k, v]: declaration k: v under the conditions p (outermost first);
\* a @keyframes rule contributes [p, "@", ""] when it begins.
RECURSIVE FNodes(_, _, _, _), FNode(_, _, _, _)
FNodes(q, rules, sel, class) ==
  IF q = << >> THEN << >>
  ELSE FNode(q[1], rules, sel, class) \o FNodes(Tail(q), rules, sel, class)
FNode(n, rules, sel, class) ==
  LET p == IF sel = NoSel THEN rules ELSE Append(rules, sel) IN
  CASE n.t = "a" -> <<[p |-> p, k |-> n.s[1], v |-> n.v]>>
    [] n.t = "b" -> FNodes(n.c, rules, BlockSelector(n.s, class, sel), class)
    [] OTHER ->
         LET r2 == Append(rules, n.s[1])
             p2 == IF sel = NoSel THEN r2 ELSE Append(r2, sel)
         IN (IF IsKeyframes(n.s[1]) THEN <<[p |-> p2, k |-> "@", v |-> ""]>> ELSE << >>)
            \o FNodes(n.c, r2, sel, class)
Flat(sheet, class) == FNodes(sheet, << >>, NoSel, class)

(************************ reading CSS text back ****************************)
\* A reader for line-structured CSS: "cond {", "}", "name: value;".
\* Result [ok, ev]: ev as in Flat, with a [p, "{", ""] event at every opening brace.
RECURSIVE ReadLines(_, _, _)
ReadLines(ls, stack, ev) ==
  IF ls = << >> THEN [ok |-> stack = << >>, ev |-> ev]
  ELSE LET l == LStrip(ls[1]) IN
       IF EndsWith(l, " {")
       THEN LET s2 == Append(stack, SubSeq(l, 1, Len(l) - 2))
            IN ReadLines(Tail(ls), s2, Append(ev, [p |-> s2, k |-> "{", v |-> ""]))
       ELSE IF l = "}"
       THEN IF stack = << >> THEN [ok |-> FALSE, ev |-> ev]
            ELSE ReadLines(Tail(ls), Front1(stack), Append(ev, [p |-> stack, k |-> "}", v |-> ""]))
       ELSE LET c == FindFrom(l, ": ", 1) IN
            IF c = 0 \/ ~EndsWith(l, ";") THEN [ok |-> FALSE, ev |-> ev]
            ELSE ReadLines(Tail(ls), stack,
                   Append(ev, [p |-> stack, k |-> SubSeq(l, 1, c - 1), v |-> SubSeq(l, c + 2, Len(l) - 1)]))
Read(css) == ReadLines(Lines(css), << >>, << >>)

IsDeclEv(e) == e.k \notin {"{", "}", "@"}
IsPrefix1(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* The @keyframes openings among the read events, as Flat would report them.
KeyframesOf(e) == e.k = "{" /\ IsKeyframes(Last1(e.p))

\* css (text) means exactly what the sheet means under class.
DeclsOf(ev) == SelectSeq(ev, IsDeclEv)
MeansDecls(css, sheet, class) ==
  LET r == Read(css) IN r.ok /\ DeclsOf(r.ev) = DeclsOf(Flat(sheet, class))

\* Every brace pair encloses a declaration, except those of (and around) @keyframes.
NoEmptyBlocks(css) ==
  LET ev == Read(css).ev IN
  \A i \in 1..(Len(ev) - 1) :
    (ev[i].k = "{" /\ ev[i + 1].k = "}") => \E j \in 1..Len(ev[i].p) : IsKeyframes(ev[i].p[j])

\* Every @keyframes rule of the sheet is present, in order, whatever it contains.
KeyframesPresent(css, sheet, class) ==
  LET want == SelectSeq(Flat(sheet, class), LAMBDA e : e.k = "@")
      name(e) == e.p[CHOOSE j \in 1..Len(e.p) : IsKeyframes(e.p[j])]
      got == SelectSeq(Read(css).ev,
               LAMBDA e : e.k = "{" /\ IsKeyframes(Last1(e.p)))
  IN [i \in 1..Len(want) |-> name(want[i])] = [i \in 1..Len(got) |-> Last1(got[i].p)]
=============================================================================
