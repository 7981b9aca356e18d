------------------------------- MODULE TraceApp --------------------------------
(***************************************************************************)
(* Recorded runs of real applications in an (in-memory) browser.           *)
(*  mgrs[m] : [prefix, box, rec]      (manager 1: the default manager)     *)
(*  texts   : stylesheets as characters                                    *)
(*  server  : for every manager what the server recorded, [g, ast, id]     *)
(*  ev      : events [op, rush, nodes, els, boxes, panic, errors]; nodes   *)
(*            are the components then mounted [n, kind, parent, mgr, t],   *)
(*            parents (positions) first.                                   *)
(* The state knows the id of every scoped style used so far, by manager.   *)
(* After a "rush" event nothing settles before the next one: which styles  *)
(* are used in between is not determined, so any of the run's may be.      *)
(***************************************************************************)
EXTENDS Css, Yew, TLC, Json, IOUtils
VARIABLES tr, at, asts, known, rushed, verdict
G == INSTANCE Grammar
Traces == ndJsonDeserialize(IOEnv.CASES)
Evs == Traces[tr].ev
C18 == IOEnv.PROP \in {"C18", "C19"}
C23 == IOEnv.PROP \in {"C23", "C19"}

Tree(e) == [k \in 1..Len(e.nodes) |-> [kind |-> e.nodes[k].kind, parent |-> e.nodes[k].parent, mgr |-> e.nodes[k].mgr, key |-> e.nodes[k].t]]
Ast(t) == asts[t]

\* Contents of the container of manager m.
Items(e, c, m) == e.boxes[c.mgrs[m].box]
Styles(q) == {i \in 1..Len(q) : q[i].k = "style"}
Others(q) == SelectSeq(q, LAMBDA x : x.k # "style")
Global(c, m, x) == StartsWith(x.n, c.mgrs[m].prefix \o "-global-")

Uses(e, near) ==
  {[m |-> near[k], ast |-> Ast(e.nodes[k].t), id |-> e.els[CHOOSE i \in 1..Len(e.els) : e.els[i].n = e.nodes[k].n].id] :
     k \in {x \in 1..Len(e.nodes) : e.nodes[x].kind = "scoped"}}

Elements(e, n) == {i \in 1..Len(e.els) : e.els[i].n = n}

ScopedVerdict(e, c, T, near, K) ==
  LET N == 1..Len(T)
      M == 1..Len(c.mgrs)
      one(k, m) == {i \in Styles(Items(e, c, m)) : Items(e, c, m)[i].n = k.id}
  IN
  IF \E k \in K : ~StartsWith(k.id, c.mgrs[k.m].prefix \o "-") THEN "class is not of the nearest manager (prefix)"
  ELSE IF \E a, b \in K : (a.id = b.id) # (a = b) \/ (a.m = b.m /\ a.ast = b.ast /\ a # b) THEN "sharing of classes"
  ELSE IF \E k \in K : Cardinality(one(k, k.m)) # 1 THEN "a style is not in its manager's container, once"
  ELSE IF \E k \in K : \E i \in one(k, k.m) : Items(e, c, k.m)[i].css # Render(k.ast, k.id) THEN "css"
  ELSE IF \E m \in M : \E i \in Styles(Items(e, c, m)) :
            ~Global(c, m, Items(e, c, m)[i]) /\ ~\E k \in K : k.m = m /\ k.id = Items(e, c, m)[i].n
       THEN "a style that no component has used"
  ELSE "ok"

GlobalVerdict(e, c, T, near) ==
  LET N == 1..Len(T)
      M == 1..Len(c.mgrs)
      Gl == {k \in N : T[k].kind = "global"}
      els(m, ast) == {i \in Styles(Items(e, c, m)) : Global(c, m, Items(e, c, m)[i]) /\ Items(e, c, m)[i].css = Render(ast, "")}
      users(m, ast) == {k \in Gl : near[k] = m /\ Ast(T[k].key) = ast}
  IN
  IF \E k \in Gl : els(near[k], Ast(T[k].key)) = {} THEN "the global style of a component is missing"
  ELSE IF \E k \in Gl : Cardinality(els(near[k], Ast(T[k].key))) > Cardinality(users(near[k], Ast(T[k].key))) THEN "a global style too often"
  ELSE IF \E m \in M : \E i \in Styles(Items(e, c, m)) :
            Global(c, m, Items(e, c, m)[i]) /\ ~\E k \in Gl : near[k] = m /\ Items(e, c, m)[i].css = Render(Ast(T[k].key), "")
       THEN "a global style stays although no component uses it"
  ELSE "ok"

\* Styles that may have been used unseen.
Unseen(e, c, K) ==
  IF ~rushed THEN {}
  ELSE UNION {LET q == Items(e, c, m)
                  hit(i) == {t \in 1..Len(asts) : q[i].css = Render(asts[t], q[i].n)}
                  new == {i \in Styles(q) : ~Global(c, m, q[i]) /\ ~(\E k \in K : k.m = m /\ k.id = q[i].n) /\ hit(i) # {}}
              IN {[m |-> m, ast |-> asts[CHOOSE t \in hit(i) : TRUE], id |-> q[i].n] : i \in new} : m \in 1..Len(c.mgrs)}

\* [why, known]
Verdict(e, c) ==
  IF e.panic # "" \/ Len(e.errors) > 0 THEN [why |-> "panicked", known |-> known]
  ELSE IF e.rush THEN [why |-> "ok", known |-> known]
  ELSE
  LET T == Tree(e)
      N == 1..Len(T)
      near == [k \in N |-> Nearest(T, k)]
  IN IF \E k \in N : T[k].kind = "scoped" /\ Cardinality(Elements(e, e.nodes[k].n)) # 1 THEN [why |-> "an element has no class, or several", known |-> known]
     ELSE LET U == known \cup Uses(e, near)
              K == U \cup Unseen(e, c, U)
              a == IF C18 THEN ScopedVerdict(e, c, T, near, K) ELSE "ok"
              b == IF a = "ok" /\ C23 THEN GlobalVerdict(e, c, T, near) ELSE a
              o == IF b = "ok" /\ \E x \in DOMAIN e.boxes : Others(e.boxes[x]) # Others(c.ev[1].boxes[x]) THEN "other nodes of the page" ELSE b
          IN [why |-> o, known |-> K]

\* What hydrated providers know: the scoped styles that their managers recorded.
FromServer(c) ==
  UNION {{[m |-> m, ast |-> c.server[m][i].ast, id |-> c.server[m][i].id] : i \in {i \in 1..Len(c.server[m]) : ~c.server[m][i].g}} :
           m \in {m \in 1..Len(c.server) : \E k \in 1..Len(c.ev[1].nodes) : c.ev[1].nodes[k].kind = "prov" /\ c.ev[1].nodes[k].mgr = m}}

Init == /\ tr \in 1..Len(Traces) /\ at = 1 /\ verdict = "running"
        /\ asts = [t \in 1..Len(Traces[tr].texts) |-> G!Parse(Traces[tr].texts[t]).ast]
        /\ known = FromServer(Traces[tr]) /\ rushed = FALSE
Next ==
  /\ verdict = "running"
  /\ UNCHANGED <<tr, asts>>
  /\ IF at > Len(Evs)
     THEN verdict' = "accepted" /\ UNCHANGED <<at, known, rushed>>
     ELSE LET w == Verdict(Evs[at], Traces[tr])
          IN /\ known' = w.known /\ at' = at + 1 /\ rushed' = Evs[at].rush
             /\ IF w.why = "ok" THEN verdict' = "running"
                ELSE verdict' = "rejected" /\ PrintT(<<"REJECTED", tr, at, w.why, ToJson([op |-> Evs[at].op])>>)
View == <<tr, at, verdict>>
vars == <<tr, at, asts, known, rushed, verdict>>
Spec == Init /\ [][Next]_vars
Accepted == verdict \in {"running", "accepted", "rejected"}
================================================================================
