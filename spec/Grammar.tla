------------------------------ MODULE Grammar -------------------------------
(***************************************************************************)
(* The stylesheet grammar accepted at run time and in string-literal       *)
(* macros, as an ordered-choice (PEG) recogniser over a sequence of        *)
(* characters, producing the tree of module Css.                           *)
(*                                                                         *)
(* Every recogniser takes the input s (sequence of 1-character strings)    *)
(* and a position i (1-based, next unread character) and returns           *)
(* [ok, i, v]: success flag, next position, value.                         *)
(***************************************************************************)
EXTENDS Css, Json

Fail == [ok |-> FALSE, i |-> 0, v |-> << >>]
Ok(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

Alpha == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
          "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Space == {" ", "\t", "\r", "\n", "\f"}            \* what may separate tokens
Punct == {"!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",":",";","<","=",">","?","@",
          "[","\\","]","^","_","`","{","|","}","~"}
\* TLA+ strings cannot name control characters.
Control == LET c == JsonDeserialize("chars.json")[1].control IN {c[k] : k \in 1..Len(c)}
Ascii == Alpha \cup Digit \cup Space \cup Punct \cup Control
NonAscii(c) == c \notin Ascii
IdentStart(c) == c \in Alpha \cup {"-", "_"} \/ NonAscii(c)
IdentChar(c) == c \in Alpha \cup Digit \cup {"-", "_"} \/ NonAscii(c)
\* Characters trimmed off values, selectors and conditions; no other character is a blank in CSS.
Blank == Space

Quotes == {"\"", "'"}

Has(s, i) == i <= Len(s)
Is(s, i, c) == i <= Len(s) /\ s[i] = c
In(s, i, S) == i <= Len(s) /\ s[i] \in S

\* First position >= i whose character is in S (Len(s) + 1 if none).
RECURSIVE Until(_, _, _)
Until(s, i, S) == IF i > Len(s) \/ s[i] \in S THEN i ELSE Until(s, i + 1, S)
RECURSIVE While(_, _, _)
While(s, i, S) == IF i > Len(s) \/ s[i] \notin S THEN i ELSE While(s, i + 1, S)

RECURSIVE Tag(_, _, _)    \* does the character sequence t stand at i?
Tag(s, i, t) == t = << >> \/ (Has(s, i) /\ s[i] = t[1] /\ Tag(s, i + 1, Tail(t)))

\* Text of s[i..j-1] without leading and trailing blanks.
TrimText(s, i, j) ==
  LET a == While(SubSeq(s, 1, j - 1), i, Blank)
      RECURSIVE back(_)
      back(k) == IF k > a /\ s[k - 1] \in Blank THEN back(k - 1) ELSE k
  IN Cat(SubSeq(s, a, back(j) - 1))

(********************* white space and comments ****************************)
RECURSIVE CommentEnd(_, _)   \* position after the closing */, 0 if unclosed
CommentEnd(s, i) ==
  IF ~Has(s, i + 1) THEN 0
  ELSE IF s[i] = "*" /\ s[i + 1] = "/" THEN i + 2
  ELSE CommentEnd(s, i + 1)

RECURSIVE Sp(_, _)
Sp(s, i) ==
  IF In(s, i, Space) THEN Sp(s, While(s, i, Space))
  ELSE IF Is(s, i, "/") /\ Is(s, i + 1, "*")
  THEN LET e == CommentEnd(s, i + 2) IN IF e = 0 THEN i ELSE Sp(s, e)
  ELSE i

After(s, r) == IF r.ok THEN [r EXCEPT !.i = Sp(s, r.i)] ELSE r   \* drop what follows

(***************************** lexical parts *******************************)
RECURSIVE IdentEnd(_, _)
IdentEnd(s, i) == IF Has(s, i) /\ IdentChar(s[i]) THEN IdentEnd(s, i + 1) ELSE i
IdentAt(s, i) == IF Has(s, i) /\ IdentStart(s[i]) THEN IdentEnd(s, i + 1) ELSE 0

\* "..." or '...' with backslash escapes, surrounding space dropped; 0 if none.
RECURSIVE StrBody(_, _, _)
StrBody(s, i, q) ==
  IF ~Has(s, i) THEN 0
  ELSE IF s[i] = q THEN i + 1
  ELSE IF s[i] = "\\" THEN (IF Has(s, i + 1) THEN StrBody(s, i + 2, q) ELSE 0)
  ELSE StrBody(s, i + 1, q)
StringAt(s, i) ==
  LET j == Sp(s, i) IN
  IF ~In(s, j, Quotes) THEN 0
  ELSE LET e == StrBody(s, j + 1, s[j]) IN IF e = 0 THEN 0 ELSE Sp(s, e)

\* ${ name }, surrounding space dropped; 0 if none.
InterpAt(s, i) ==
  LET j == Sp(s, i) IN
  IF ~(Is(s, j, "$") /\ Is(s, j + 1, "{")) THEN 0
  ELSE LET k == Sp(s, j + 2) IN
       IF ~In(s, k, Alpha) THEN 0
       ELSE LET e == Sp(s, While(s, k, Alpha \cup Digit \cup {"_"}))
            IN IF Is(s, e, "}") THEN Sp(s, e + 1) ELSE 0

(***************************** declarations ********************************)
RECURSIVE ValueEnd(_, _)
ValueEnd(s, i) ==
  LET plain == Until(s, i, {"$", "{", ";", "}", "/"} \cup Quotes) IN
  IF plain > i THEN ValueEnd(s, plain)
  ELSE LET p == InterpAt(s, i) IN
       IF p # 0 THEN ValueEnd(s, p)
       ELSE LET q == StringAt(s, i) IN
            IF q # 0 THEN ValueEnd(s, q)
            ELSE IF Is(s, i, "/") /\ ~Is(s, i + 1, "*")
            THEN ValueEnd(s, i + 1)
            ELSE i

Attribute(s, i0) ==
  LET i == Sp(s, i0)
      e == IdentAt(s, i)
  IN IF e = 0 THEN Fail
     ELSE LET k == Sp(s, e) IN
          IF ~Is(s, k, ":") THEN Fail
          ELSE LET v0 == Sp(s, k + 1)
                   v1 == ValueEnd(s, v0)
               IN IF v1 = v0 THEN Fail
                  ELSE Ok(Sp(s, v1), Decl(Cat(SubSeq(s, i, e - 1)), TrimText(s, v0, v1)))

\* Declarations separated by ";" (inside a block; the last ";" is optional).
RECURSIVE AttrTail(_, _, _)
AttrTail(s, i, acc) ==
  IF Is(s, i, ";")
  THEN LET r == Attribute(s, i + 1) IN
       IF r.ok THEN AttrTail(s, r.i, Append(acc, r.v)) ELSE Ok(i, acc)
  ELSE Ok(i, acc)

Attributes(s, i) ==
  LET r == Attribute(s, i) IN
  IF ~r.ok THEN Fail
  ELSE LET l == AttrTail(s, r.i, <<r.v>>)
       IN IF Is(s, l.i, ";") THEN Ok(Sp(s, l.i + 1), l.v) ELSE Ok(l.i, l.v)

\* Declarations each ended by ";" (outside any block): without one it is a selector.
RECURSIVE Ended(_, _, _)
Ended(s, i, acc) ==
  LET r == Attribute(s, i) IN
  IF r.ok /\ Is(s, r.i, ";") THEN Ended(s, r.i + 1, Append(acc, r.v))
  ELSE IF acc = << >> THEN Fail ELSE Ok(Sp(s, i), acc)

(******************************* selectors *********************************)
CommentAt(s, i) == IF Is(s, i, "/") /\ Is(s, i + 1, "*") THEN CommentEnd(s, i + 2) ELSE 0

\* Longest run of pieces, none containing a character of `stop` outside parentheses,
\* comments, strings and interpolations, and none starting with one of `first`.
RECURSIVE Run(_, _, _, _), ParensAt(_, _)
Run(s, i, stop, first) ==
  LET special == {"$", "(", ")", "{", "}", "/"} \cup Quotes
      c == CommentAt(s, i)
      q == StringAt(s, i)
      p == InterpAt(s, i)
      g == ParensAt(s, i)
  IN IF ~Has(s, i) THEN i
     ELSE IF c # 0 THEN Run(s, c, stop, first)
     ELSE IF s[i] \notin (stop \cup first \cup special)
     THEN Run(s, Until(s, i + 1, stop \cup special), stop, first)
     ELSE IF s[i] = "/" /\ ~Is(s, i + 1, "*") THEN Run(s, i + 1, stop, first)
     ELSE IF s[i] = "$" /\ ~Is(s, i + 1, "{") /\ "$" \notin stop THEN Run(s, i + 1, stop, first)
     ELSE IF g # 0 THEN Run(s, g, stop, first)
     ELSE IF q # 0 THEN Run(s, q, stop, first)
     ELSE IF p # 0 THEN Run(s, p, stop, first)
     ELSE i
ParensAt(s, i) ==
  IF ~Is(s, i, "(") THEN 0
  ELSE LET e == Run(s, i + 1, {}, {}) IN IF Is(s, e, ")") THEN e + 1 ELSE 0

SelectorEnd(s, i) == Run(s, i, {",", ";"}, {"@"})

SelectorP(s, i0) ==
  LET i == Sp(s, i0)
      e == SelectorEnd(s, i)
  IN IF e = i THEN Fail ELSE Ok(Sp(s, e), TrimText(s, i, e))

RECURSIVE SelList(_, _, _)
SelList(s, i, acc) ==
  LET r == SelectorP(s, i) IN
  IF ~r.ok THEN (IF acc = << >> THEN Fail ELSE Ok(i, acc))
  ELSE SelList(s, IF Is(s, r.i, ",") THEN r.i + 1 ELSE r.i, Append(acc, r.v))
Condition(s, i) == After(s, SelList(s, Sp(s, i), << >>))

(******************************** at-rules *********************************)
CondEnd(s, i) == Run(s, i, {";", "$"}, {})

AtNames == {"@container", "@media", "@supports"}
KfNames == {"@keyframes"}

AtCondition(s, i0, names) ==
  LET i == Sp(s, i0)
      m == {n \in names : Tag(s, i, Chars(n)) /\ In(s, i + Len(n), Space \cup {"("})}
  IN IF m = {} THEN Fail
     ELSE LET n == CHOOSE x \in m : TRUE
              k == i + Len(n)                       \* where the keyword ends
              b == IF Is(s, k, "(") THEN k ELSE k + 1
              e == CondEnd(s, b)
          IN IF e = b THEN Fail
             ELSE Ok(Sp(s, e), n \o " " \o TrimText(s, b, e))

\* Content of a block: declarations and at-rules, in any order.
RECURSIVE Contents(_, _, _), RuleBlock(_, _, _)
Contents(s, i, acc) ==
  LET a == Attributes(s, i) IN
  IF a.ok THEN Contents(s, a.i, acc \o a.v)
  ELSE LET r == RuleBlock(s, i, "at") IN
       IF r.ok THEN Contents(s, r.i, Append(acc, r.v)) ELSE Ok(i, acc)

RuleBlock(s, i0, kind) ==
  LET i == Sp(s, i0)
      c == IF kind = "at" THEN AtCondition(s, i, AtNames)
           ELSE LET k == Condition(s, i) IN IF k.ok THEN Ok(k.i, TrimText(s, i, k.i)) ELSE Fail
  IN IF ~(c.ok /\ Is(s, c.i, "{")) THEN Fail
     ELSE LET b == Contents(s, Sp(s, c.i + 1), << >>) IN
          LET e == Sp(s, b.i) IN
          IF Is(s, e, "}") THEN Ok(Sp(s, e + 1), Rule(c.v, b.v)) ELSE Fail

BlockP(s, i0) ==
  LET c == Condition(s, Sp(s, i0)) IN
  IF ~(c.ok /\ Is(s, c.i, "{")) THEN Fail
  ELSE LET b == Contents(s, Sp(s, c.i + 1), << >>) IN
       LET e == Sp(s, b.i) IN
       IF Is(s, e, "}") THEN Ok(Sp(s, e + 1), Block(c.v, b.v)) ELSE Fail

RECURSIVE Steps(_, _, _)
Steps(s, i, acc) ==
  LET r == RuleBlock(s, i, "kf") IN
  IF r.ok THEN Steps(s, r.i, Append(acc, r.v)) ELSE Ok(i, acc)

Keyframes(s, i0) ==
  LET c == AtCondition(s, Sp(s, i0), KfNames) IN
  IF ~(c.ok /\ Is(s, c.i, "{")) THEN Fail
  ELSE LET b == Steps(s, Sp(s, c.i + 1), << >>) IN
       LET e == Sp(s, b.i) IN
       IF Is(s, e, "}") THEN Ok(Sp(s, e + 1), Rule(c.v, b.v)) ELSE Fail

(********************************* sheets **********************************)
Dangling(s, i0) ==
  LET a == Ended(s, i0, << >>) IN
  IF a.ok THEN Ok(a.i, Block(<< >>, a.v)) ELSE Fail

RECURSIVE Scopes(_, _, _), AtRule(_, _)
Scopes(s, i, acc) ==
  LET d == Dangling(s, i) IN
  IF d.ok THEN Scopes(s, d.i, Append(acc, d.v))
  ELSE LET b == BlockP(s, i) IN
       IF b.ok THEN Scopes(s, b.i, Append(acc, b.v))
       ELSE LET r == AtRule(s, i) IN
            IF r.ok THEN Scopes(s, r.i, Append(acc, r.v))
            ELSE LET k == Keyframes(s, i) IN
                 IF k.ok THEN Scopes(s, k.i, Append(acc, k.v)) ELSE Ok(i, acc)

AtRule(s, i0) ==
  LET c == AtCondition(s, Sp(s, i0), AtNames) IN
  IF ~(c.ok /\ Is(s, c.i, "{")) THEN Fail
  ELSE LET b == Scopes(s, Sp(s, c.i + 1), << >>) IN
       LET e == Sp(s, b.i) IN
       IF Is(s, e, "}") /\ Has(s, Sp(s, c.i + 1)) THEN Ok(Sp(s, e + 1), Rule(c.v, b.v)) ELSE Fail

(************************ necessary well-formedness ************************)
\* Independent of the recogniser: strings and comments are closed, braces are balanced.
RECURSIVE LexScan(_, _, _)
LexScan(s, i, depth) ==
  IF i > Len(s) THEN depth = 0
  ELSE CASE s[i] \in Quotes -> LET e == StrBody(s, i + 1, s[i]) IN e # 0 /\ LexScan(s, e, depth)
         [] s[i] = "/" /\ Is(s, i + 1, "*") -> LET e == CommentEnd(s, i + 2) IN e # 0 /\ LexScan(s, e, depth)
         [] s[i] = "{" -> LexScan(s, i + 1, depth + 1)
         [] s[i] = "}" -> depth > 0 /\ LexScan(s, i + 1, depth - 1)
         [] OTHER -> LexScan(s, i + 1, depth)
LexicallyClosed(s) == LexScan(s, 1, 0)

\* The whole text must be consumed.
Parse(s) ==
  LET r == Scopes(s, Sp(s, 1), << >>) IN
  IF Sp(s, r.i) > Len(s) THEN [res |-> "ok", ast |-> r.v] ELSE [res |-> "err", ast |-> << >>]
=============================================================================
