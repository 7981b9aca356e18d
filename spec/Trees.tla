-------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* Small-scope enumeration of stylesheet trees, as the grammar and the     *)
(* macros can produce them.  Declarations are numbered in document order,  *)
(* so that a lost, repeated or moved one is visible.                       *)
(***************************************************************************)
EXTENDS Css

CONSTANT Big      \* 0, 1, 2: size of the scope

D == [t |-> "a", s |-> <<"x">>, v |-> "", c |-> << >>]
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Conds2 == {"@media m", "@supports n"}
Sels2 == {<<".s">>, <<"&:h", "t">>, <<":root.b">>}

C0 == SeqsUpTo({D}, 2)
E1 == {D} \cup {Rule(k, x) : k \in Conds2, x \in C0}
C1 == SeqsUpTo(E1, 2)
E2 == {D} \cup {Rule(k, x) : k \in Conds2, x \in C1}
C2 == SeqsUpTo(E2, 2)

Dangling0 == {Block(<< >>, x) : x \in C0 \ {<< >>}}
Kf == {Rule("@keyframes k", x) : x \in SeqsUpTo({Rule("from", << >>), Rule("50%, to", <<D>>)}, 2)}
KfSmall == {Rule("@keyframes k", << >>), Rule("@keyframes k", <<Rule("from", <<D>>)>>)}

T0small == {Block(<<".s">>, x) : x \in C0} \cup {Block(<< >>, <<D>>)} \cup KfSmall
AtRules == {Rule(k, x) : k \in Conds2, x \in SeqsUpTo(T0small, 2)}
\* at-rules inside at-rules
AtRules2 == {Rule("@media m", <<a>>) : a \in AtRules} \cup {Rule("@media m", <<a, b>>) : a \in AtRules, b \in T0small}
              \cup {Rule("@media m", <<b, a>>) : a \in AtRules, b \in T0small}

\* blocks inside blocks and at-rules of blocks: those without selectors inherit
Inner == {D, Block(<< >>, <<D>>), Block(<<"t">>, <<D>>), Rule("@media m", <<Block(<< >>, <<D>>)>>), Rule("@media m", <<Block(<<"t">>, <<D>>)>>)}
NestedBlocks == {Block(s, x) : s \in {<<".s">>, << >>}, x \in SeqsUpTo(Inner, 2)}

\* Top-level nodes, in three families.
DeepBlocks == {Block(s, x) : s \in {<<".s">>}, x \in C2}
Blocks == {Block(s, x) : s \in Sels2, x \in C1}
Tops == Blocks \cup NestedBlocks \cup Dangling0 \cup Kf \cup AtRules
Few == {Block(<<".u">>, <<D>>), Block(<< >>, <<D>>), Rule("@media m", <<Block(<<".s">>, <<D>>)>>),
        Rule("@keyframes k", << >>)}

Singles == {<<a>> : a \in Tops}
Pairs == {<<a, b>> : a \in Tops, b \in Few} \cup {<<b, a>> : a \in Tops, b \in Few}
Structures ==
  CASE Big = 0 -> Singles \cup {<<a>> : a \in AtRules2}
    [] Big = 1 -> Singles \cup Pairs \cup {<<a>> : a \in AtRules2}
    [] OTHER -> Singles \cup Pairs \cup {<<a>> : a \in AtRules2} \cup {<<a>> : a \in DeepBlocks}
                  \cup {<<a, b>> : a \in AtRules, b \in AtRules}

\* Number the declarations.
RECURSIVE LabelQ(_, _), LabelN(_, _)
LabelQ(q, k) ==
  IF q = << >> THEN [c |-> << >>, k |-> k]
  ELSE LET h == LabelN(q[1], k)
           r == LabelQ(Tail(q), h.k)
       IN [c |-> <<h.n>> \o r.c, k |-> r.k]
LabelN(n, k) ==
  IF n.t = "a" THEN [n |-> [n EXCEPT !.v = ToString(k)], k |-> k + 1]
  ELSE LET r == LabelQ(n.c, k) IN [n |-> [n EXCEPT !.c = r.c], k |-> r.k]
Label(q) == LabelQ(q, 1).c
=============================================================================
