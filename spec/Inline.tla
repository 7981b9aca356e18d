-------------------------------- MODULE Inline --------------------------------
(***************************************************************************)
(* The inline macro syntax: from the Rust tokens of an invocation to a     *)
(* stylesheet tree (module Css), or to a compile error.                    *)
(*                                                                         *)
(* A token is a record [k, s, j, c, vs]:                                   *)
(*   k = "id"   identifier s                                               *)
(*   k = "p"    punctuation character s; j: directly followed by another   *)
(*   k = "lit"  literal, s is its source text                              *)
(*   k = "g"    group, s its opening delimiter, c its tokens               *)
(*   k = "e"    ${ expression }; vs[n] is the value displayed in run n     *)
(* A component value is an identifier (with its dashes), punctuation,      *)
(* literal, expression, block or function.                                 *)
(***************************************************************************)
EXTENDS Css

No == [ok |-> FALSE, i |-> 0, v |-> << >>]
Yes(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

In(t, i) == i <= Len(t)
IsId(t, i) == In(t, i) /\ t[i].k = "id"
IsP(t, i, c) == In(t, i) /\ t[i].k = "p" /\ t[i].s = c
IsG(t, i, d) == In(t, i) /\ t[i].k = "g" /\ t[i].s = d
IsDash(t, i) == IsP(t, i, "-")

(***************************** identifiers *********************************)
\* A single dash is not an identifier.
IdentHere(t, i) == IsId(t, i) \/ (IsDash(t, i) /\ (IsDash(t, i + 1) \/ IsId(t, i + 1)))
\* Dashes join identifiers; a dash joins a dash only if nothing stands between them.
RECURSIVE IdentStop(_, _)
IdentStop(t, i) ==       \* i: the part just taken
  IF IsDash(t, i + 1) /\ (t[i].k = "id" \/ t[i].j) THEN IdentStop(t, i + 1)
  ELSE IF IsId(t, i + 1) /\ t[i].k = "p" THEN IdentStop(t, i + 1)
  ELSE i + 1
IdentText(t, i, j) == Cat([n \in 1..(j - i) |-> t[i + n - 1].s])

(*************************** component values ******************************)
Cv(k, s, c, vs) == [k |-> k, s |-> s, c |-> c, vs |-> vs]
Closing(d) == CASE d = "(" -> ")" [] d = "[" -> "]" [] OTHER -> "}"

RECURSIVE CvAt(_, _), CvAll(_, _, _)
CvAt(t, i) ==            \* requires In(t, i)
  LET x == t[i] IN
  IF x.k = "g"
  THEN Yes(i + 1, Cv("blk", x.s, CvAll(x.c, 1, << >>), << >>))
  ELSE IF x.k = "e" THEN Yes(i + 1, Cv("e", "", << >>, x.vs))
  ELSE IF IdentHere(t, i)
  THEN LET j == IdentStop(t, i)
           name == IdentText(t, i, j)
       IN IF IsG(t, j, "(") THEN Yes(j + 1, Cv("fn", name, CvAll(t[j].c, 1, << >>), << >>))
          ELSE Yes(j, Cv("id", name, << >>, << >>))
  ELSE Yes(i + 1, Cv(x.k, x.s, << >>, << >>))
CvAll(t, i, acc) ==
  IF ~In(t, i) THEN acc ELSE LET r == CvAt(t, i) IN CvAll(t, r.i, Append(acc, r.v))

RECURSIVE HasBrace(_)
HasBrace(v) == (v.k = "blk" /\ v.s = "{") \/ \E n \in 1..Len(v.c) : HasBrace(v.c[n])

(****************************** validation *********************************)
RECURSIVE ValueOk(_), SelectorOk(_)
ValueOk(v) ==
  CASE v.k \in {"e", "id", "lit"} -> TRUE
    [] v.k = "fn" -> \A n \in 1..Len(v.c) : ValueOk(v.c[n])
    [] v.k = "p" -> v.s \in {"-", "/", "%", ":", ",", "#"}
    [] OTHER -> FALSE
SelectorOk(v) ==
  CASE v.k \in {"e", "id"} -> TRUE
    [] v.k = "fn" -> ~HasBrace(v)
    [] v.k = "blk" -> v.s = "[" /\ \A n \in 1..Len(v.c) : SelectorOk(v.c[n])
    [] v.k = "lit" -> At(v.s, 1) = "\""
    [] OTHER -> v.s \in {"&", ">", "+", "~", "|", "$", "*", "=", "^", "#", ".", ":", ","}

(******************************* spacing ***********************************)
\* Pieces of output: [k: "id", "lit", "p", "open", "close", "x"; s].
Piece(k, s) == [k |-> k, s |-> s]
RECURSIVE Pieces(_, _)
PiecesAll(q, run) ==
  LET RECURSIVE all(_)
      all(n) == IF n > Len(q) THEN << >> ELSE Pieces(q[n], run) \o all(n + 1)
  IN all(1)
Pieces(v, run) ==
  CASE v.k = "e" -> <<Piece("x", v.vs[run])>>
    [] v.k = "fn" -> <<Piece("id", v.s), Piece("open", "(")>> \o PiecesAll(v.c, run) \o <<Piece("close", ")")>>
    [] v.k = "blk" -> <<Piece("open", v.s)>> \o PiecesAll(v.c, run) \o <<Piece("close", Closing(v.s))>>
    [] OTHER -> <<Piece(v.k, v.s)>>

\* A space stands between l and r exactly if ...
Spaced(l, r) ==
  /\ l.k \in {"close", "id", "lit"} \/ (l.k = "p" /\ l.s \in {"&", "*"})
  /\ r.k \in {"id", "lit"} \/ (r.k = "p" /\ r.s \in {"*", "#"})
Keywords == {a \o b \o c : a \in {"a", "A"}, b \in {"n", "N"}, c \in {"d", "D"}}
       \cup {a \o b \o c : a \in {"n", "N"}, b \in {"o", "O"}, c \in {"t", "T"}}
       \cup {a \o b : a \in {"o", "O"}, b \in {"r", "R"}}
Keyword(s) == s \in Keywords
Text(q, cond) ==
  LET gap(n) ==
        IF n = 1 THEN ""
        ELSE IF Spaced(q[n - 1], q[n]) THEN " "
        ELSE IF /\ cond /\ q[n - 1].k = "id" /\ Keyword(q[n - 1].s) /\ q[n].k = "open" /\ q[n].s = "("
                /\ ~(n > 2 /\ q[n - 2].k = "p" /\ q[n - 2].s = ":") THEN " "
        ELSE ""
  IN Cat([n \in 1..Len(q) |-> gap(n) \o q[n].s])

(****************************** statements *********************************)
\* Component values from i up to (not including) the first position where stop holds;
\* stop is "brace", "semi" or "either".
RECURSIVE Take(_, _, _, _)
Take(t, i, stop, acc) ==
  IF ~In(t, i) THEN No
  ELSE IF (stop # "brace" /\ IsP(t, i, ";")) \/ (stop # "semi" /\ IsG(t, i, "{")) THEN Yes(i, acc)
  ELSE LET r == CvAt(t, i) IN Take(t, r.i, stop, Append(acc, r.v))

RECURSIVE SplitComma(_, _)
SplitComma(q, cur) ==
  IF q = << >> THEN (IF cur = << >> THEN << >> ELSE <<cur>>)
  ELSE IF Head(q).k = "p" /\ Head(q).s = "," THEN <<cur>> \o SplitComma(Tail(q), << >>)
  ELSE SplitComma(Tail(q), Append(cur, Head(q)))

AtNames == {"media", "supports"}

\* Group runs of declarations at the top of a sheet or at-rule into dangling blocks.
RECURSIVE Grouped(_, _)
Grouped(items, decls) ==
  IF items = << >> THEN (IF decls = << >> THEN << >> ELSE <<Block(<< >>, decls)>>)
  ELSE IF Head(items).t = "a" THEN Grouped(Tail(items), Append(decls, Head(items)))
  ELSE (IF decls = << >> THEN << >> ELSE <<Block(<< >>, decls)>>) \o <<Head(items)>> \o Grouped(Tail(items), << >>)

\* The statements of t from i on.  inblock: inside the braces of a qualified block.
RECURSIVE Statements(_, _, _, _, _)
AttrName(v, run) == IF v.k = "e" THEN v.vs[run] ELSE v.s
Declares(t, i) ==        \* an identifier or expression, followed by a colon
  LET r == CvAt(t, i) IN r.v.k \in {"id", "e"} /\ In(t, r.i) /\ IsP(t, r.i, ":")

Statements(t, i, inblock, run, acc) ==
  IF ~In(t, i) THEN Yes(i, IF inblock THEN acc ELSE Grouped(acc, << >>))
  ELSE IF IsP(t, i, "@")
  THEN IF ~(In(t, i + 1) /\ IdentHere(t, i + 1)) THEN No
       ELSE LET j == IdentStop(t, i + 1)
                name == IdentText(t, i + 1, j)
                p == Take(t, j, "either", << >>)
            IN IF name \notin AtNames \/ ~p.ok THEN No
               ELSE IF ~IsG(t, p.i, "{") \/ \E n \in 1..Len(p.v) : HasBrace(p.v[n]) THEN No
               ELSE LET b == Statements(t[p.i].c, 1, inblock, run, << >>) IN
                    IF ~b.ok THEN No
                    ELSE Statements(t, p.i + 1, inblock, run,
                                    Append(acc, Rule("@" \o name \o " " \o Text(PiecesAll(p.v, run), TRUE), b.v)))
  ELSE IF Declares(t, i)
  THEN LET r == CvAt(t, i)
           p == Take(t, r.i + 1, "semi", << >>)
       IN IF ~p.ok THEN No
          ELSE IF \E n \in 1..Len(p.v) : ~ValueOk(p.v[n]) THEN No
          ELSE Statements(t, p.i + 1, inblock, run,
                          Append(acc, Decl(AttrName(r.v, run), Text(PiecesAll(p.v, run), FALSE))))
  ELSE LET p == Take(t, i, "brace", << >>) IN
       IF ~p.ok \/ inblock THEN No
       ELSE IF \E n \in 1..Len(p.v) : ~SelectorOk(p.v[n]) THEN No
       ELSE LET b == Statements(t[p.i].c, 1, TRUE, run, << >>)
                q == SplitComma(p.v, << >>)
            IN IF ~b.ok THEN No
               ELSE Statements(t, p.i + 1, inblock, run,
                               Append(acc, Block([n \in 1..Len(q) |-> Text(PiecesAll(q[n], run), FALSE)], b.v)))

Invocation(t, run) ==
  LET r == Statements(t, 1, FALSE, run, << >>) IN
  IF r.ok THEN [res |-> "ok", ast |-> r.v] ELSE [res |-> "err", ast |-> << >>]

(************************** nothing gets lost ******************************)
\* All token text of an invocation, without structural punctuation ...
RECURSIVE Squeeze(_)
Squeeze(s) == IF s = "" THEN "" ELSE (IF At(s, 1) = " " THEN "" ELSE At(s, 1)) \o Squeeze(SubSeq(s, 2, Len(s)))
RECURSIVE TokText(_, _)
TokText(t, run) ==
  Cat([n \in 1..Len(t) |->
        CASE t[n].k = "g" -> t[n].s \o TokText(t[n].c, run) \o Closing(t[n].s)
          [] t[n].k = "e" -> t[n].vs[run]
          [] OTHER -> t[n].s])
\* ... is the text of the tree written back.
RECURSIVE AstText(_)
AstText(q) ==
  Cat([n \in 1..Len(q) |->
        CASE q[n].t = "a" -> q[n].s[1] \o ":" \o q[n].v \o ";"
          [] q[n].t = "b" /\ q[n].s = << >> -> AstText(q[n].c)
          [] OTHER -> JoinWith(q[n].s, ",") \o "{" \o AstText(q[n].c) \o "}"])
Same(ast, t, run) == Squeeze(AstText(ast)) = Squeeze(TokText(t, run))
NothingLost(t, run) == LET r == Invocation(t, run) IN r.res = "ok" => Same(r.ast, t, run)

\* Inputs about which nothing is documented: empty values, selectors and conditions.  A macro may
\* reject them; if it accepts them, it may drop no more than commas and braces.
RECURSIVE Loose(_), Bones(_)
Loose(q) == \E n \in 1..Len(q) :
  CASE q[n].t = "a" -> q[n].v = ""
    [] q[n].t = "r" -> q[n].s[1] \in {"@media ", "@supports "} \/ Loose(q[n].c)
    [] OTHER -> (\E k \in 1..Len(q[n].s) : q[n].s[k] = "") \/ Loose(q[n].c)
Bones(s) == IF s = "" THEN "" ELSE (IF At(s, 1) \in {" ", ",", "{", "}"} THEN "" ELSE At(s, 1)) \o Bones(SubSeq(s, 2, Len(s)))
RECURSIVE Bare(_), CommaEnds(_)
\* A block without selector, or a selector list with an empty last item.
Bare(t) == \E n \in 1..Len(t) : t[n].k = "g" /\ ((t[n].s = "{" /\ (n = 1 \/ IsP(t, n - 1, ";") \/ IsG(t, n - 1, "{"))) \/ Bare(t[n].c))
CommaEnds(t) == \E n \in 1..Len(t) : t[n].k = "g" /\ ((t[n].s = "{" /\ n > 1 /\ IsP(t, n - 1, ",")) \/ CommaEnds(t[n].c))
Gray(t, run) ==
  LET r == Invocation(t, run) IN r.res = "ok" /\ (Loose(r.ast) \/ Bare(t) \/ CommaEnds(t))
GrayOk(ast, t, run) == Bones(AstText(ast)) = Bones(TokText(t, run))
=============================================================================
