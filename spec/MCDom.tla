-------------------------------- MODULE MCDom ---------------------------------
(***************************************************************************)
(* All behaviours of a small page: managers with different containers that *)
(* append or prepend, styles made (also unsuccessfully), held, forgotten,  *)
(* loaded from a server's data; other code that adds and removes nodes.    *)
(* With Record = TRUE the histories are written out for the real code.     *)
(***************************************************************************)
EXTENDS Dom, Json, IOUtils
CONSTANTS MaxLen, Boxes, Appends, Sheets, Record, Handles, Faults, MaxOther
VARIABLES w, hist, taken

Script == IF "SCRIPT" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.SCRIPT) ELSE << >>
Allowed(op) == IF Script = << >> THEN TRUE
               ELSE \E i \in 1..Len(Script[Len(hist) + 1].ops) : Script[Len(hist) + 1].ops[i] = op

Ev(op, r) == [op |-> op] @@ r
CssOf(key, id) == <<key.g, key.ast, IF key.g THEN "" ELSE id>>
FreshId(s) == "id" \o ToString(Len(s.con) + 1)
Page == [b \in Boxes |-> IF b \in Refusing THEN << >>
                         ELSE <<[k |-> "other", n |-> "t" \o b, css |-> ""],
                                [k |-> "style", n |-> "S" \o b, css |-> "server"]>>]
ServerKey(b) == [g |-> FALSE, prefix |-> DefaultPrefix, ast |-> "c:d;"]

Do(x, t, e) == w' = x /\ taken' = t /\ hist' = Append(hist, e)
MgrNames == {"m1", "m2"}
st == w.st

MNew == Allowed("mgr") /\ \E m \in MgrNames \ DOMAIN st.vars, b \in Boxes, ap \in Appends :
          LET s2 == DoMgr(st, m, Unset, "", 0) IN
          Do([w EXCEPT !.st = s2, !.at = Len(s2.inst) :> [box |-> b, append |-> ap] @@ w.at], taken,
             Ev("mgr", [m |-> m, box |-> b, append |-> ap]))
MClone == Allowed("mgrclone") /\ \E from \in DOMAIN st.vars, m \in MgrNames \ DOMAIN st.vars :
          Do([w EXCEPT !.st = DoMgrClone(st, m, from)], taken, Ev("mgrclone", [m |-> m, from |-> from]))
MDrop == Allowed("mgrdrop") /\ \E m \in DOMAIN st.vars : Do(Settled(w, DoMgrDrop(st, m)), taken, Ev("mgrdrop", [m |-> m]))

FirstFree(s) == CHOOSE h \in Handles : h \notin DOMAIN s.hnd
HasFree(s) == \E h \in Handles : h \notin DOMAIN s.hnd

\* n: the DOM operation of this creation that fails (0: none)
Create == /\ HasFree(st) /\ Allowed("create")
          /\ \E a \in Sheets, n \in Faults, m \in DOMAIN st.vars :
               LET k == st.vars[m]
                   key == [g |-> FALSE, prefix |-> st.inst[k].prefix, ast |-> a]
                   h == FirstFree(st)
                   id == FreshId(st)
                   s2 == DoCreate(st, k, key, h, id, CssOf(key, id))
                   new == ~Registered(st, k, key)
                   fails == new /\ (n # 0 \/ Where(w, k).box \in Refusing)
               IN Do(IF fails THEN w ELSE Entered(w, s2, k), taken,
                     Ev("create", [h |-> h, m |-> m, text |-> a, n |-> n]))
Clone == /\ Allowed("clone") /\ HasFree(st)
         /\ \E from \in DOMAIN st.hnd :
              LET h == FirstFree(st) IN Do([w EXCEPT !.st = DoClone(st, h, from)], taken, Ev("clone", [h |-> h, from |-> from]))
Drop == Allowed("drop") /\ \E h \in DOMAIN st.hnd : Do(Settled(w, DoDrop(st, h)), taken, Ev("drop", [h |-> h]))
Unreg == Allowed("unreg") /\ \E h \in DOMAIN st.hnd : Do(Settled(w, DoUnreg(st, h)), taken, Ev("unreg", [h |-> h]))
Loaded == {st.con[i].id : i \in {i \in 1..Len(st.con) : st.con[i].loaded}}
Load == Allowed("load") /\ \E m \in DOMAIN st.vars :
          LET k == st.vars[m]
              b == Where(w, k).box
              id == "S" \o b
              key == ServerKey(b)
              r == LoadAll(st, k, <<[id |-> id, key |-> key, css |-> CssOf(key, id)]>>)
          IN /\ b \notin Refusing /\ id \notin Loaded /\ r.ok
             /\ Do([w EXCEPT !.st = r.st], taken, Ev("load", [m |-> m, box |-> b, id |-> id]))
OtherCode == Cardinality({i \in 1..Len(hist) : hist[i].op = "put" \/ hist[i].op = "take"}) < MaxOther
PutN == Allowed("put") /\ OtherCode /\ \E b \in Boxes \ Refusing : \E i \in 0..Len(w.boxes[b]) :
          LET n == "n" \o ToString(Len(hist)) IN
          Do(DoPut(w, b, i, [k |-> "other", n |-> n, css |-> "", c |-> 0]), taken, Ev("put", [box |-> b, at |-> i, n |-> n]))
TakeN == Allowed("take") /\ OtherCode /\ \E b \in Boxes \ Refusing : \E i \in 0..(Len(w.boxes[b]) - 1) :
          Do(DoTake(w, b, i), taken \cup {w.boxes[b][i + 1].c}, Ev("take", [box |-> b, at |-> i]))

Init == w = World(Page) /\ hist = << >> /\ taken = {}
Next == /\ Len(hist) < MaxLen
        /\ MNew \/ MClone \/ MDrop \/ Create \/ Clone \/ Drop \/ Unreg \/ Load \/ PutN \/ TakeN
vars == <<w, hist, taken>>
Spec == Init /\ [][Next]_vars

Others2 == Cardinality({i \in 1..Len(hist) : hist[i].op = "put" \/ hist[i].op = "take"})
View == IF Record THEN <<hist, w>> ELSE <<w, Len(hist), taken, Others2>>
Export == ~(Record /\ Len(hist) = MaxLen) \/ PrintT(<<"HIST", ToJson(hist)>>)

RegistrySound == RegistrySoundIn(st)
InDocument == ElementWhileInUse(w, taken)
\* A server's element stays until its style is loaded and then no longer in use.
ServerElements ==
  \A c \in 1..Len(st.con) : st.con[c].loaded /\ ~InUse(st, c) => \A p \in AllItems(w) : w.boxes[p[1]][p[2]].n # st.con[c].id
\* Only other code touches other code's nodes.
LeavesOthers == [][hist'[Len(hist')].op \in {"put", "take"} \/ OthersKept(w, w')]_vars
\* New elements go to the end or to the start; nothing else in the container moves.
EntersAtEdge == [][\A c \in (Len(w.st.con) + 1)..Len(w'.st.con) :
                     ~w'.st.con[c].loaded =>
                       LET p == Where(w', w'.st.con[c].inst)
                           q == w'.boxes[p.box]
                       IN IF p.append THEN q[Len(q)].c = c /\ SubSeq(q, 1, Len(q) - 1) = w.boxes[p.box]
                          ELSE q[1].c = c /\ Tail(q) = w.boxes[p.box]]_vars
\* A failed creation changes nothing.
FailsCleanly == [][hist'[Len(hist')].op = "create" /\ hist'[Len(hist')].h \notin DOMAIN w'.st.hnd => w' = w]_vars
=============================================================================
