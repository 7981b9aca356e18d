------------------------------- MODULE MCInline --------------------------------
(***************************************************************************)
(* All short token strings: whatever the inline syntax accepts loses no    *)
(* part of it, in particular never by cutting the string short.            *)
(* With EXPORT set, accepted strings are printed for replay.               *)
(***************************************************************************)
EXTENDS Inline, Json, IOUtils
CONSTANTS MaxLen
VARIABLE t

T(k, s) == [k |-> k, s |-> s, j |-> k = "p", c |-> << >>, vs |-> IF k = "e" THEN <<"v">> ELSE << >>]
Grp(d, c) == [k |-> "g", s |-> d, j |-> FALSE, c |-> c, vs |-> << >>]
Decl1 == <<T("id", "b"), T("p", ":"), T("lit", "1px"), T("p", ";")>>
Units == <<
  <<T("id", "a")>>, <<T("p", "-")>>, <<T("p", ":")>>, <<T("p", ";")>>, <<T("p", ",")>>, <<T("p", "&")>>, <<T("p", "!")>>,
  <<T("p", "@"), T("id", "media")>>, <<T("p", "@"), T("id", "page")>>, <<T("lit", "2px")>>, <<T("lit", "\"s\"")>>, <<T("e", "")>>,
  <<Grp("(", <<T("id", "a"), T("p", ":"), T("id", "b")>>)>>, <<Grp("[", <<T("id", "a")>>)>>, <<Grp("{", << >>)>>, <<Grp("{", Decl1)>>,
  <<Grp("{", <<T("p", "&"), Grp("{", Decl1)>>)>> >>
RECURSIVE Spelled(_)
Spelled(q) == IF q = << >> THEN << >> ELSE Units[Head(q)] \o Spelled(Tail(q))

Init == t = << >>
Next == Len(t) < MaxLen /\ \E u \in 1..Len(Units) : t' = Append(t, u)
Spec == Init /\ [][Next]_t

Toks == Spelled(t)
Kept == LET r == Invocation(Toks, 1) IN
  /\ r.res = "ok" => (IF Gray(Toks, 1) THEN GrayOk(r.ast, Toks, 1) ELSE Same(r.ast, Toks, 1))
  /\ ("EXPORT" \in DOMAIN IOEnv /\ t # << >> /\ (r.res = "ok" \/ Len(t) <= 2)) => PrintT(<<"EXPORT", ToJson([u |-> t, toks |-> Toks])>>)
\* Statements end: what is accepted ends in a block or a semicolon, and stays acceptable
\* when a declaration is put before it.
Composable == Invocation(Toks, 1).res = "ok" =>
  /\ Toks = << >> \/ Toks[Len(Toks)].s \in {";", "{"}
  /\ Invocation(Decl1 \o Toks, 1).res = "ok"
  /\ Invocation(Toks \o Decl1, 1).res = "ok"
\* A rule may hold whatever stands at the top.
Nestable == Invocation(Toks, 1).res = Invocation(<<T("p", "@"), T("id", "media"), T("id", "m"), Grp("{", Toks)>>, 1).res
=============================================================================
