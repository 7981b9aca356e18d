----------------------------- MODULE TraceRegistry -----------------------------
(***************************************************************************)
(* Recorded histories of the real library, replayed on the registry model: *)
(* each observed result must be the one the model allows in the state      *)
(* reached so far, and every state must satisfy the invariants.            *)
(***************************************************************************)
EXTENDS Registry, Grammar, Markup, Json, IOUtils
VARIABLES tr, at, st, verdict

Traces == ndJsonDeserialize(IOEnv.CASES)     \* each [ev |-> sequence of events]
Counter == "COUNTER" \in DOMAIN IOEnv        \* ids are counter based (feature `random` off)

Evs == Traces[tr].ev
\* With debug assertions and `debug_parser`, CSS with interpolated values is read again.
Checked == ~("lean" \in DOMAIN Traces[tr] /\ Traces[tr].lean)

\* Key and CSS of a style created from the stylesheet q.
CssUnder(q, g, id) == Render(q, IF g THEN "" ELSE id)
IdForm(key, id) ==
  LET p == key.prefix \o (IF key.g THEN "-global-" ELSE "-") IN
  /\ StartsWith(id, p) /\ Len(id) > Len(p)
  /\ Counter => LET u == SubSeq(id, Len(p) + 1, Len(id)) IN
                /\ StartsWith(u, "style-") /\ Len(u) > 6
                /\ \A i \in 7..Len(u) : At(u, i) \in {"0","1","2","3","4","5","6","7","8","9"}
\* The part of an id that no other style of the process may have.
RECURSIVE LastDash(_, _)
LastDash(s, i) == IF At(s, i) = "-" THEN i ELSE LastDash(s, i - 1)
Unique(id) == SubSeq(id, LastDash(id, Len(id)) + 1, Len(id))

\* Creating takes exactly the next value; finding a registered style takes none (one thread at a time).
InOrder == "COUNTER_IN_ORDER" \in DOMAIN IOEnv
DigitVal(c) == CHOOSE n \in 0..9 : ToString(n) = c
RECURSIVE Num(_, _)
Num(s, acc) == IF s = "" THEN acc ELSE Num(SubSeq(s, 2, Len(s)), 10 * acc + DigitVal(At(s, 1)))
NotNext(s, id) ==
  LET made == {i \in 1..Len(s.con) : ~s.con[i].loaded} IN
  /\ made # {}
  /\ Num(Unique(id), 0) # Num(Unique(s.con[CHOOSE i \in made : \A j \in made : j <= i].id), 0) + 1

Good(s) == [ok |-> TRUE, why |-> "", st |-> s]
Bad(why, s) == [ok |-> FALSE, why |-> why, st |-> s]
If(c, why, s) == IF c THEN Good(s) ELSE Bad(why, s)

SeenAs(e, c) == e.res = "ok" /\ e.id = c.id /\ e.css = c.css /\ e.class = c.id

Tree(e) == e.via = "tree"            \* built by a macro, with values the grammar has not seen
\* Does the CSS read as a stylesheet?  (The random part of the id cannot matter.)
Readable(q, g, prefix) == Parse(Chars(CssUnder(q, g, prefix \o "-0"))).res = "ok"

CreateStep(s0, e) ==
  LET p == IF Tree(e) THEN [res |-> "ok", ast |-> e.ast] ELSE Parse(e.chars)
      s == IF e.m = "" THEN WithDefault(s0, e.th) ELSE s0
      k == IF e.m = "" THEN s.dflt[e.th] ELSE s.vars[e.m]
      key == [g |-> e.g, prefix |-> IF e.prefix = Unset \/ e.g THEN s.inst[k].prefix ELSE e.prefix, ast |-> p.ast]
  IN IF p.res # "ok" THEN If(e.res = "err", "malformed text accepted", s0)
     ELSE IF Checked /\ Tree(e) /\ ~Registered(s, k, key) /\ ~Readable(p.ast, e.g, key.prefix)
     THEN If(e.res = "panic", "corrupted CSS went unnoticed", s)
     ELSE IF e.res # "ok" THEN Bad("creation failed", s)
     ELSE IF Registered(s, k, key)
     THEN LET s2 == DoCreate(s, k, key, e.h, "", "") IN
          If(SeenAs(e, s.con[s.reg[k][key]]), "a registered style was not reused", s2)
     ELSE IF e.id \in Used(s) THEN Bad("the id of another style was given", s)
     ELSE IF ~IdForm(key, e.id) THEN Bad("the id does not have the documented form", s)
     ELSE IF Counter /\ \E i \in 1..Len(s.con) : Unique(s.con[i].id) = Unique(e.id) THEN Bad("counter value given twice", s)
     ELSE IF InOrder /\ NotNext(s, e.id) THEN Bad("a name was wasted", s)
     ELSE LET css == CssUnder(p.ast, e.g, e.id)
              s2 == DoCreate(s, k, key, e.h, e.id, css)
          IN If(SeenAs(e, s2.con[s2.hnd[e.h]]), "class or CSS of a new style", s2)

LoadStep(s, e) ==
  LET k == s.vars[e.m]
      q == [i \in 1..Len(s.dat[e.d]) |->
              [s.dat[e.d][i] EXCEPT !.css = CssUnder(s.dat[e.d][i].key.ast, s.dat[e.d][i].key.g, s.dat[e.d][i].id)]]
      r == LoadAll(s, k, q)
  IN If(e.res = (IF r.ok THEN "ok" ELSE "panic"), "outcome of loading", r.st)

MarkupStep(s, e) ==
  LET want == s.dat[e.d]
      r == ReadElements(e.obs, << >>)
      seen == r.els
  IN IF e.res # "ok" THEN Bad("static markup", s)
     ELSE IF ~r.ok \/ Len(seen) # Len(want) THEN Bad("static markup does not read as one element per style", s)
     ELSE IF \E i \in 1..Len(want) : seen[i].id # want[i].id THEN Bad("ids of the static markup", s)
     ELSE IF \E i \in 1..Len(want) : ~Carries(seen[i].css, want[i].css) THEN Bad("CSS of the static markup", s)
     \* writers with little room: they get a beginning of the markup, and the call succeeds exactly if that is all of it
     ELSE If(\A i \in 1..Len(e.short) :
               LET q == e.short[i] IN
               /\ q.ok = q.enough
               /\ IF q.enough THEN q.text = e.obs ELSE Len(q.text) < Len(e.obs) /\ q.text = SubSeq(e.obs, 1, Len(q.text)),
             "a writer that fails", s)

PrefixSeen(s, e, m) == If(e.obs = s.inst[s.vars[m]].prefix, "manager prefix", s)

NeedsHandle(e) == IF e.op = "clone" THEN e.from ELSE IF e.op \in {"drop", "unreg", "look"} THEN e.h ELSE ""

Step(s, e) ==
  CASE NeedsHandle(e) # "" /\ NeedsHandle(e) \notin DOMAIN s.hnd -> If(e.res = "nohandle", "a handle from nowhere", s)
    [] e.op = "create" -> CreateStep(s, e)
    [] e.op = "clone" -> LET s2 == DoClone(s, e.h, e.from) IN If(SeenAs(e, s.con[s.hnd[e.from]]), "a clone differs", s2)
    [] e.op = "look" -> If(SeenAs(e, s.con[s.hnd[e.h]]), "a handle changed", s)
    [] e.op = "drop" -> If(e.res = "ok", "dropping failed", DoDrop(s, e.h))
    [] e.op = "unreg" -> If(e.res = "ok", "unregistering failed", DoUnreg(s, e.h))
    [] e.op = "mgr" -> PrefixSeen(DoMgr(s, e.m, e.prefix, e.w, e.th), e, e.m)
    [] e.op = "mgrdefault" -> PrefixSeen(DoDefault(s, e.m, e.th), e, e.m)
    [] e.op = "mgrclone" -> PrefixSeen(DoMgrClone(s, e.m, e.from), e, e.m)
    [] e.op = "mgrdrop" -> If(e.res = "ok", "dropping a manager failed", DoMgrDrop(s, e.m))
    [] e.op = "mgreq" -> If(e.obs = (IF s.vars[e.m] = s.vars[e.m2] THEN "T" ELSE "F"), "manager equality", s)
    [] e.op = "read" -> If(e.res = "ok", "reading failed", DoRead(s, e.w, e.d))
    [] e.op = "dclone" -> If(e.res = "ok", "cloning data failed", DoDClone(s, e.d, e.from))
    [] e.op = "dser" -> If(e.res = "ok", "serialising failed", DoDSer(s, e.d, e.from))
    [] e.op = "markup" -> MarkupStep(s, e)
    [] e.op = "load" -> LoadStep(s, e)
    [] OTHER -> Bad("unknown event", s)

Init == tr \in 1..Len(Traces) /\ at = 1 /\ st = Empty /\ verdict = "running"
Next ==
  /\ verdict = "running"
  /\ UNCHANGED tr
  /\ IF at > Len(Evs)
     THEN verdict' = "accepted" /\ UNCHANGED <<at, st>>
     ELSE LET r == Step(st, Evs[at]) IN
          /\ st' = r.st
          /\ at' = at + 1
          /\ IF r.ok THEN verdict' = "running"
             ELSE /\ verdict' = "rejected"
                  /\ PrintT(<<"REJECTED", tr, at, r.why, ToJson(Evs[at])>>)
View == <<tr, at, verdict>>      \* a trace determines its states
vars == <<tr, at, st, verdict>>
Spec == Init /\ [][Next]_vars

Accepted == verdict # "rejected"
IdsUnique == IdsUniqueIn(st)
RegistrySound == RegistrySoundIn(st)
LogExact == LogExactIn(st)
=============================================================================
