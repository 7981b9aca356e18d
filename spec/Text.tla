-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Strings.  TLC strings support Len, SubSeq, \o and =; everything else    *)
(* needed here is defined from those.  "Char sequences" are sequences of   *)
(* one-character strings.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

At(s, i) == SubSeq(s, i, i)
StartsAt(s, p, i) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
StartsWith(s, p) == StartsAt(s, p, 1)
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
  ELSE FindFrom(s, p, i + 1)

Contains(s, p) == FindFrom(s, p, 1) # 0

RECURSIVE Replace(_, _, _)
Replace(s, p, r) ==
  LET k == FindFrom(s, p, 1)
  IN IF k = 0 THEN s
     ELSE SubSeq(s, 1, k - 1) \o r \o Replace(SubSeq(s, k + Len(p), Len(s)), p, r)

\* Concatenation of a sequence of strings; halving keeps the recursion shallow.
RECURSIVE Cat(_)
Cat(q) ==
  CASE Len(q) = 0 -> ""
    [] Len(q) = 1 -> q[1]
    [] OTHER -> LET m == Len(q) \div 2
                IN Cat(SubSeq(q, 1, m)) \o Cat(SubSeq(q, m + 1, Len(q)))

RECURSIVE JoinWith(_, _)
JoinWith(q, sep) ==
  CASE Len(q) = 0 -> ""
    [] Len(q) = 1 -> q[1]
    [] OTHER -> q[1] \o sep \o JoinWith(Tail(q), sep)

Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN "" ELSE s \o Repeat(s, n - 1)

\* Lines of s, each of which must end in a newline (a rest without one is the last line).
RECURSIVE Lines(_)
Lines(s) ==
  IF s = "" THEN << >>
  ELSE LET k == FindFrom(s, "\n", 1)
       IN IF k = 0 THEN <<s>>
          ELSE <<SubSeq(s, 1, k - 1)>> \o Lines(SubSeq(s, k + 1, Len(s)))

RECURSIVE LStrip(_)
LStrip(s) == IF s # "" /\ At(s, 1) = " " THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s

Last1(q) == q[Len(q)]
Front1(q) == SubSeq(q, 1, Len(q) - 1)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
=============================================================================
