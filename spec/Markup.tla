-------------------------------- MODULE Markup --------------------------------
(* Static markup: one style element per recorded style.                      *)
EXTENDS Text

LowerOf == [x \in {"S","T","Y","L","E"} |->
              CASE x = "S" -> "s" [] x = "T" -> "t" [] x = "Y" -> "y" [] x = "L" -> "l" [] OTHER -> "e"]
Lower(c) == IF c \in DOMAIN LowerOf THEN LowerOf[c] ELSE c
LowerText(s) == Cat([i \in 1..Len(s) |-> Lower(At(s, i))])

\* Positions (ascending) at which an HTML reader sees the end tag of a style
\* element: "</style" in any letter case, then white space, "/" or ">".
RECURSIVE Ends(_, _)
Ends(s, i) ==
  LET k == FindFrom(s, "</", i) IN
  IF k = 0 THEN << >>
  ELSE IF k + 7 <= Len(s) /\ LowerText(SubSeq(s, k + 2, k + 6)) = "style"
          /\ At(s, k + 7) \in {" ", "\t", "\n", "\f", "\r", "/", ">"}
       THEN <<k>> \o Ends(s, k + 2)
  ELSE Ends(s, k + 2)

(* How an HTML reader sees the markup: a sequence of [id, css], and whether  *)
(* it is nothing but well-formed style elements.                             *)
RECURSIVE ReadElements(_, _)
ReadElements(s, got) ==
  LET bad == [ok |-> FALSE, els |-> got] IN
  IF s = "" THEN [ok |-> TRUE, els |-> got]
  ELSE IF ~StartsWith(s, "<style data-style=\"") THEN bad
  ELSE LET q == FindFrom(s, "\">", 20) IN
       IF q = 0 THEN bad
       ELSE LET rest == SubSeq(s, q + 2, Len(s))
                e == Ends(rest, 1)
            IN IF e = << >> THEN bad
               ELSE IF ~StartsAt(rest, "</style>", e[1]) THEN bad
               ELSE ReadElements(SubSeq(rest, e[1] + 8, Len(rest)),
                                 Append(got, [id |-> SubSeq(s, 20, q - 1), css |-> SubSeq(rest, 1, e[1] - 1)]))

\* Within a style element a backslash may separate "<" from "/" or "!"; a CSS
\* string means the same with and without it.
RECURSIVE Unescape(_, _)
Unescape(s, from) ==
  LET k == FindFrom(s, "<\\", from) IN
  IF k = 0 THEN SubSeq(s, from, Len(s))
  ELSE IF k + 2 <= Len(s) /\ At(s, k + 2) \in {"/", "!"} THEN SubSeq(s, from, k) \o Unescape(s, k + 2)
  ELSE SubSeq(s, from, k + 1) \o Unescape(s, k + 2)

\* css, as found inside the markup, carries the CSS text want.
Carries(css, want) ==
  IF FindFrom(want, "</", 1) = 0 /\ FindFrom(want, "<!", 1) = 0 THEN css = want
  ELSE Unescape(css, 1) = Unescape(want, 1)
=============================================================================
