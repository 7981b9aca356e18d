------------------------------ MODULE MCRegistry ------------------------------
(***************************************************************************)
(* All behaviours of the registry model over small sets of managers,       *)
(* stylesheets and handles.  hist is the history so far, in the form the   *)
(* harness executes; with Record = TRUE every history of length MaxLen is  *)
(* written out, to be replayed by the real code.                           *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils
CONSTANTS MaxLen, Lanes, Sheets, Kinds, Prefixes, Record, WithData, Handles
VARIABLES st, hist

\* Optionally the shape of the histories: for each position the kinds of events allowed there.
Script == IF "SCRIPT" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.SCRIPT) ELSE << >>
Allowed(op) == IF Script = << >> THEN TRUE
               ELSE \E i \in 1..Len(Script[Len(hist) + 1].ops) : Script[Len(hist) + 1].ops[i] = op

Ev(op, r) == [op |-> op] @@ r
\* CSS and ids are abstract here: ids are numbered.
CssOf(key, id) == <<key.g, key.ast, IF key.g THEN "" ELSE id>>
FreshId(s) == "id" \o ToString(Len(s.con) + 1)

MgrNames == {"m1", "m2"}
Lane(m, s) == s.inst[s.vars[m]].lane

Do(s, e) == st' = s /\ hist' = Append(hist, e)

Writers == {w \in {"", "w" \o ToString(Len(hist))} : IF w = "" THEN Allowed("mgr") ELSE (IF WithData THEN Allowed("mgrw") ELSE FALSE)}
MNew == \E m \in MgrNames \ DOMAIN st.vars, l \in Lanes, w \in Writers, p \in Prefixes :
          Do(DoMgr(st, m, p, w, l), Ev("mgr", [m |-> m, prefix |-> p, w |-> w, th |-> l]))
MClone == Allowed("mgrclone") /\ \E from \in DOMAIN st.vars, m \in MgrNames \ DOMAIN st.vars :
          Do(DoMgrClone(st, m, from), Ev("mgrclone", [m |-> m, from |-> from, th |-> Lane(from, st)]))
MDrop == Allowed("mgrdrop") /\ \E m \in DOMAIN st.vars : Do(DoMgrDrop(st, m), Ev("mgrdrop", [m |-> m, th |-> Lane(m, st)]))

FirstFree(s) == CHOOSE h \in Handles : h \notin DOMAIN s.hnd
HasFree(s) == \E h \in Handles : h \notin DOMAIN s.hnd

\* A stylesheet whose interpolated values break it: creating it fails and changes nothing else.
Corrupt(a) == SubSeq(a, 1, 1) = "!"
Made(s, k, key, h, id) == IF Corrupt(key.ast) THEN s ELSE DoCreate(s, k, key, h, id, CssOf(key, id))
Via(a) == IF Corrupt(a) THEN "tree" ELSE "str"

Create == /\ HasFree(st) /\ Allowed("create")
          /\ \E a \in Sheets, g \in Kinds, p \in Prefixes :
             \E m \in DOMAIN st.vars :
               LET k == st.vars[m]
                   key == [g |-> g, prefix |-> IF p = Unset \/ g THEN st.inst[k].prefix ELSE p, ast |-> a]
                   h == FirstFree(st)
                   id == FreshId(st)
               IN /\ (g => p = Unset)
                  /\ Do(Made(st, k, key, h, id),
                        Ev("create", [h |-> h, m |-> m, g |-> g, prefix |-> p, text |-> a, th |-> Lane(m, st), via |-> Via(a)]))
CreateDefault == /\ HasFree(st) /\ Allowed("default")
                 /\ \E a \in Sheets, l \in Lanes :
                    LET s2 == WithDefault(st, l)
                        k == s2.dflt[l]
                        key == [g |-> FALSE, prefix |-> DefaultPrefix, ast |-> a]
                        id == FreshId(st)
                        h == FirstFree(st)
                    IN Do(Made(s2, k, key, h, id),
                          Ev("create", [h |-> h, m |-> "", g |-> FALSE, prefix |-> Unset, text |-> a, th |-> l, via |-> Via(a)]))
HLane(h) == st.inst[st.con[st.hnd[h]].inst].lane
Clone == /\ Allowed("clone")
         /\ HasFree(st)
         /\ \E from \in DOMAIN st.hnd :
              LET h == FirstFree(st) IN Do(DoClone(st, h, from), Ev("clone", [h |-> h, from |-> from, th |-> HLane(from)]))
Drop == Allowed("drop") /\ \E h \in DOMAIN st.hnd : Do(DoDrop(st, h), Ev("drop", [h |-> h, th |-> HLane(h)]))
Unreg == Allowed("unreg") /\ \E h \in DOMAIN st.hnd : Do(DoUnreg(st, h), Ev("unreg", [h |-> h, th |-> HLane(h)]))
DName == "d" \o ToString(Len(hist))
Unread == {w \in DOMAIN st.log : \A i \in 1..Len(hist) : ~(hist[i].op = "read" /\ hist[i].w = w)}
ReadD == Allowed("read") /\ \E w \in Unread : Do(DoRead(st, w, DName), Ev("read", [w |-> w, d |-> DName, th |-> 0]))
SerD == Allowed("dser") /\ \E d \in DOMAIN st.dat : Cardinality(DOMAIN st.dat) < 2 /\
          Do(DoDSer(st, DName, d), Ev("dser", [from |-> d, d |-> DName, fmt |-> "json", th |-> 0]))
LoadD == Allowed("load") /\ \E d \in DOMAIN st.dat, m \in DOMAIN st.vars :
           LET q == [i \in 1..Len(st.dat[d]) |-> [st.dat[d][i] EXCEPT !.css = CssOf(st.dat[d][i].key, st.dat[d][i].id)]]
               r == LoadAll(st, st.vars[m], q) IN
           Do(r.st, Ev("load", [m |-> m, d |-> d, th |-> Lane(m, st)]))

Init == st = Empty /\ hist = << >>
Next == /\ Len(hist) < MaxLen
        /\ \/ MNew \/ MClone \/ MDrop \/ Create \/ CreateDefault \/ Clone \/ Drop \/ Unreg
           \/ (WithData /\ (ReadD \/ SerD \/ LoadD))
vars == <<st, hist>>
Spec == Init /\ [][Next]_vars

\* Equal states reached by different histories need not be told apart unless recording.
View == IF Record THEN <<hist, st>> ELSE <<st, Len(hist)>>
Export == ~(Record /\ Len(hist) = MaxLen) \/ PrintT(<<"HIST", ToJson(hist)>>)

IdsUnique == IdsUniqueIn(st)
RegistrySound == RegistrySoundIn(st)
LogExact == LogExactIn(st)
StableAlways == [][Stable(st, st')]_vars
Isolation == [][OneRegistry(st, st')]_vars
\* The next creation after an unregistration is a fresh style.
Forgets == [][\A h \in DOMAIN st.hnd :
                (hist' # hist /\ hist'[Len(hist')].op = "unreg" /\ hist'[Len(hist')].h = h)
                  => LET c == st'.con[st'.hnd[h]] IN
                     ~(c.key \in DOMAIN st'.reg[c.inst] /\ st'.reg[c.inst][c.key] = st'.hnd[h]) \/ ~Alive(st', c.inst)]_vars
=============================================================================
