------------------------------- MODULE TraceDom -------------------------------
(***************************************************************************)
(* Histories recorded from the real library in an (in-memory) browser:     *)
(* results as in TraceRegistry, and after every event the content of every *)
(* container must be what the model has there.                             *)
(***************************************************************************)
EXTENDS Dom, Grammar, Json, IOUtils
VARIABLES tr, at, w, verdict

Traces == ndJsonDeserialize(IOEnv.CASES)     \* each [start |-> containers, ev |-> events]
Evs == Traces[tr].ev

CssUnder(q, g, id) == Render(q, IF g THEN "" ELSE id)
IdForm(key, id) == LET p == key.prefix \o (IF key.g THEN "-global-" ELSE "-") IN StartsWith(id, p) /\ Len(id) > Len(p)

Good(x) == [ok |-> TRUE, why |-> "", w |-> x]
Bad(why, x) == [ok |-> FALSE, why |-> why, w |-> x]
If(c, why, x) == IF c THEN Good(x) ELSE Bad(why, x)
SeenAs(e, c) == e.res = "ok" /\ e.id = c.id /\ e.css = c.css /\ e.class = c.id

\* The default manager, made when first needed.
Defaulted(x) == [x EXCEPT !.st = WithDefault(x.st, 0)]

CreateStep(x0, e) ==
  LET p == Parse(e.chars)
      x == IF e.m = "" THEN Defaulted(x0) ELSE x0
      s == x.st
      k == IF e.m = "" THEN s.dflt[0] ELSE s.vars[e.m]
      key == [g |-> e.g, prefix |-> IF e.prefix = Unset \/ e.g THEN s.inst[k].prefix ELSE e.prefix, ast |-> p.ast]
  IN IF p.res # "ok" THEN If(e.res = "err" /\ ~e.web, "malformed text accepted", x0)
     ELSE IF Registered(s, k, key)
     THEN LET s2 == DoCreate(s, k, key, e.h, "", "") IN
          If(SeenAs(e, s.con[s.reg[k][key]]), "a registered style was not reused", [x EXCEPT !.st = s2])
     ELSE IF e.fired \/ Where(x, k).box \in Refusing
     THEN If(e.res = "err" /\ e.web, "a failed insertion was not reported", x)
     ELSE IF e.res # "ok" THEN Bad("creation failed", x)
     ELSE IF e.id \in Used(s) THEN Bad("the id of another style was given", x)
     ELSE IF ~IdForm(key, e.id) THEN Bad("the id does not have the documented form", x)
     ELSE LET s2 == DoCreate(s, k, key, e.h, e.id, CssUnder(p.ast, e.g, e.id)) IN
          If(SeenAs(e, s2.con[s2.hnd[e.h]]), "class or CSS of a new style", Entered(x, s2, k))

LoadStep(x, e) ==
  LET s == x.st
      k == s.vars[e.m]
      q == [i \in 1..Len(e.data) |->
              LET ast == Parse(e.data[i].chars).ast IN
              [id |-> e.data[i].id, key |-> [g |-> e.data[i].g, prefix |-> e.data[i].prefix, ast |-> ast],
               css |-> CssUnder(ast, e.data[i].g, e.data[i].id)]]
      r == LoadAll(s, k, q)
  IN If(e.res = (IF r.ok THEN "ok" ELSE "panic"), "outcome of loading", Settled(x, r.st))

MgrStep(x, e) ==
  IF e.nohead /\ e.box = ""
  THEN If(e.res = "err", "a manager without container was built", x)
  ELSE LET s2 == DoMgr(x.st, e.m, e.prefix, "", 0)
           b == IF e.box = "" THEN DefaultBox ELSE e.box
           x2 == [x EXCEPT !.st = s2, !.at = Len(s2.inst) :> [box |-> b, append |-> e.append] @@ x.at]
       IN If(e.res = "ok" /\ e.obs = s2.inst[Len(s2.inst)].prefix /\ e.in = b, "prefix or container of a manager", x2)

DefaultStep(x, e) ==
  LET s2 == DoDefault(x.st, e.m, 0) IN If(e.res = "ok" /\ e.obs = DefaultPrefix, "the default manager", [x EXCEPT !.st = s2])

Made(x, h) == h \in DOMAIN x.st.hnd
Absent(e, x) == If(e.res = "absent", "a style exists that was never made", x)

Step(x, e) ==
  LET s == x.st IN
  CASE e.op = "create" -> CreateStep(x, e)
    [] e.op = "clone" -> IF ~Made(x, e.from) THEN Absent(e, x)
                         ELSE If(SeenAs(e, s.con[s.hnd[e.from]]), "a clone differs", [x EXCEPT !.st = DoClone(s, e.h, e.from)])
    [] e.op = "look" -> IF ~Made(x, e.h) THEN Absent(e, x) ELSE If(SeenAs(e, s.con[s.hnd[e.h]]), "a handle changed", x)
    [] e.op = "drop" -> IF ~Made(x, e.h) THEN Absent(e, x) ELSE If(e.res = "ok", "dropping failed", Settled(x, DoDrop(s, e.h)))
    [] e.op = "unreg" -> IF ~Made(x, e.h) THEN Absent(e, x) ELSE If(e.res = "ok", "unregistering failed", Settled(x, DoUnreg(s, e.h)))
    [] e.op = "mgr" -> MgrStep(x, e)
    [] e.op = "mgrdefault" -> DefaultStep(x, e)
    [] e.op = "mgrclone" -> If(e.res = "ok", "cloning a manager", [x EXCEPT !.st = DoMgrClone(s, e.m, e.from)])
    [] e.op = "mgrdrop" -> If(e.res = "ok", "dropping a manager failed", Settled(x, DoMgrDrop(s, e.m)))
    [] e.op = "mgreq" -> If(e.obs = (IF s.vars[e.m] = s.vars[e.m2] THEN "T" ELSE "F"), "manager equality", x)
    [] e.op = "put" -> Good(DoPut(x, e.box, e.at, IF e.x.k = "style" THEN [k |-> "style", n |-> e.x.id, css |-> e.x.css, c |-> 0]
                                                                  ELSE [k |-> "other", n |-> e.x.n, css |-> "", c |-> 0]))
    [] e.op = "take" -> Good(DoTake(x, e.box, e.at))
    [] e.op = "load" -> LoadStep(x, e)
    [] OTHER -> Bad("unknown event", x)

\* The containers as the real page has them.
Shown(q) == [i \in 1..Len(q) |-> [k |-> q[i].k, n |-> q[i].n, css |-> q[i].css]]
Wrong(x, e) == {b \in DOMAIN x.boxes : e.boxes[b] # Shown(x.boxes[b])}

Judged(x, e) ==
  LET r == Step(x, e) IN
  IF ~r.ok THEN r
  ELSE IF Wrong(r.w, e) # {} THEN Bad("content of container " \o (CHOOSE b \in Wrong(r.w, e) : TRUE), r.w)
  ELSE r

Init == tr \in 1..Len(Traces) /\ at = 1 /\ w = World(Traces[tr].start) /\ verdict = "running"
Next ==
  /\ verdict = "running"
  /\ UNCHANGED tr
  /\ IF at > Len(Evs)
     THEN verdict' = "accepted" /\ UNCHANGED <<at, w>>
     ELSE LET r == Judged(w, Evs[at]) IN
          /\ w' = r.w
          /\ at' = at + 1
          /\ IF r.ok THEN verdict' = "running"
             ELSE /\ verdict' = "rejected"
                  /\ PrintT(<<"REJECTED", tr, at, r.why, ToJson([Evs[at] EXCEPT !.boxes = 0])>>)
View == <<tr, at, verdict>>
vars == <<tr, at, w, verdict>>
Spec == Init /\ [][Next]_vars

RegistrySound == RegistrySoundIn(w.st)
=============================================================================
