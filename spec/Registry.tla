------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* Style managers, their registries, style handles, static recording       *)
(* (server-side rendering) and loading of recorded data (hydration).       *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   vars : manager variable -> instance number                            *)
(*   dflt : lane (thread) -> instance number of its default manager        *)
(*   inst : sequence of [prefix, writer, lane]                             *)
(*   reg  : sequence (by instance) of functions key -> content number      *)
(*   con  : sequence of [id, key, css, inst, loaded]   (append only)       *)
(*   hnd  : handle -> content number                                       *)
(*   log  : writer -> sequence of content numbers                          *)
(*   dat  : style data -> sequence of [id, key, css]                       *)
(* A key is [g, prefix, ast]: global?, prefix, stylesheet.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
Empty == [vars |-> NoFun, dflt |-> NoFun, inst |-> << >>, reg |-> << >>, con |-> << >>,
          hnd |-> NoFun, log |-> NoFun, dat |-> NoFun]

Put(f, k, x) == (k :> x) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
DefaultPrefix == "stylist"
Unset == "(unset)"          \* no prefix given; the empty prefix is a prefix like any other

(*************************** managers **************************************)
NewInstance(st, prefix, w, lane) ==
  [st EXCEPT !.inst = Append(@, [prefix |-> IF prefix = Unset THEN DefaultPrefix ELSE prefix, writer |-> w, lane |-> lane]),
             !.reg = Append(@, NoFun),
             !.log = IF w = "" THEN @ ELSE Put(@, w, << >>)]
Last0(st) == Len(st.inst)

DoMgr(st, m, prefix, w, lane) ==
  LET s2 == NewInstance(st, prefix, w, lane) IN [s2 EXCEPT !.vars = Put(@, m, Len(s2.inst))]

WithDefault(st, lane) ==
  IF lane \in DOMAIN st.dflt THEN st
  ELSE LET s2 == NewInstance(st, Unset, "", lane) IN [s2 EXCEPT !.dflt = Put(@, lane, Len(s2.inst))]
DoDefault(st, m, lane) ==
  LET s2 == WithDefault(st, lane) IN [s2 EXCEPT !.vars = Put(@, m, s2.dflt[lane])]

DoMgrClone(st, m, from) == [st EXCEPT !.vars = Put(@, m, st.vars[from])]
DoMgrDrop(st, m) == [st EXCEPT !.vars = Del(@, m)]

\* A manager lives while a variable (or its thread) holds it; styles only refer to it weakly.
Alive(st, k) == (\E m \in DOMAIN st.vars : st.vars[m] = k) \/ (\E l \in DOMAIN st.dflt : st.dflt[l] = k)

(*************************** styles ****************************************)
Registered(st, k, key) == key \in DOMAIN st.reg[k]
Used(st) == {st.con[i].id : i \in 1..Len(st.con)}

AddContent(st, k, key, id, css, loaded) ==
  [st EXCEPT !.con = Append(@, [id |-> id, key |-> key, css |-> css, inst |-> k, loaded |-> loaded]),
             !.reg[k] = Put(@, key, Len(st.con) + 1)]

\* The style with this key in manager k: the registered one, or a new one.
DoCreate(st, k, key, h, id, css) ==
  IF Registered(st, k, key)
  THEN [st EXCEPT !.hnd = Put(@, h, st.reg[k][key])]
  ELSE LET s2 == AddContent(st, k, key, id, css, FALSE)
           w == st.inst[k].writer
       IN [s2 EXCEPT !.hnd = Put(@, h, Len(s2.con)),
                     !.log = IF w = "" THEN @ ELSE [@ EXCEPT ![w] = Append(@, Len(s2.con))]]

DoClone(st, h, from) == [st EXCEPT !.hnd = Put(@, h, st.hnd[from])]
DoDrop(st, h) == [st EXCEPT !.hnd = Del(@, h)]

\* Forget the style, if its manager still knows this very style.
DoUnreg(st, h) ==
  LET c == st.hnd[h]
      k == st.con[c].inst
      key == st.con[c].key
  IN IF Alive(st, k) /\ Registered(st, k, key) /\ st.reg[k][key] = c
     THEN [st EXCEPT !.reg[k] = Del(@, key)]
     ELSE st

\* Is the style still reachable (so that, in a browser, its element is in the document)?
InUse(st, c) ==
  \/ \E h \in DOMAIN st.hnd : st.hnd[h] = c
  \/ /\ Alive(st, st.con[c].inst)
     /\ \E key \in DOMAIN st.reg[st.con[c].inst] : st.reg[st.con[c].inst][key] = c

(*************************** recorded data *********************************)
Entry(st, c) == [id |-> st.con[c].id, key |-> st.con[c].key, css |-> st.con[c].css]
DoRead(st, w, d) == [st EXCEPT !.dat = Put(@, d, [i \in 1..Len(st.log[w]) |-> Entry(st, st.log[w][i])])]
DoDClone(st, d, from) == [st EXCEPT !.dat = Put(@, d, st.dat[from])]
\* Serialisation keeps identity and stylesheet; the CSS is derived again when loaded.
DoDSer(st, d, from) ==
  [st EXCEPT !.dat = Put(@, d, [i \in 1..Len(st.dat[from]) |-> [st.dat[from][i] EXCEPT !.css = ""]])]

\* Entries (with their CSS) are loaded in order; [st, ok]: ok = FALSE when an entry contradicts a
\* style that is already registered under another id.
RECURSIVE LoadAll(_, _, _)
LoadAll(st, k, q) ==
  IF q = << >> THEN [st |-> st, ok |-> TRUE]
  ELSE IF Registered(st, k, q[1].key)
  THEN IF st.con[st.reg[k][q[1].key]].id = q[1].id THEN LoadAll(st, k, Tail(q)) ELSE [st |-> st, ok |-> FALSE]
  ELSE LoadAll(AddContent(st, k, q[1].key, q[1].id, q[1].css, TRUE), k, Tail(q))

(*************************** invariants ************************************)
\* Only loading may repeat an id, and only for the very same style.
IdsUniqueIn(st) ==
  \A j \in 1..Len(st.con) : \A i \in 1..(j - 1) :
    st.con[i].id = st.con[j].id => st.con[j].loaded /\ st.con[i].key = st.con[j].key /\ st.con[i].css = st.con[j].css
RegistrySoundIn(st) ==
  \A k \in 1..Len(st.reg) : \A key \in DOMAIN st.reg[k] :
    st.con[st.reg[k][key]].key = key /\ st.con[st.reg[k][key]].inst = k
LogExactIn(st) ==
  \A w \in DOMAIN st.log :
    /\ \A i \in 1..Len(st.log[w]) : \A j \in 1..(i - 1) : st.log[w][j] < st.log[w][i]
    /\ {st.log[w][i] : i \in 1..Len(st.log[w])} =
         {c \in 1..Len(st.con) : st.inst[st.con[c].inst].writer = w /\ ~st.con[c].loaded}
\* What never changes from one state to a later one.
Stable(a, b) ==
  /\ Len(a.con) <= Len(b.con) /\ SubSeq(b.con, 1, Len(a.con)) = a.con
  /\ \A h \in DOMAIN a.hnd \cap DOMAIN b.hnd : a.hnd[h] = b.hnd[h]
  /\ \A d \in DOMAIN a.dat : d \in DOMAIN b.dat /\ a.dat[d] = b.dat[d]
  /\ \A w \in DOMAIN a.log : SubSeq(b.log[w], 1, Len(a.log[w])) = a.log[w]
\* At most one registry changes, by at most one key unless data is loaded.
OneRegistry(a, b) ==
  Cardinality({k \in 1..Len(a.reg) : a.reg[k] # b.reg[k]}) <= 1
=============================================================================
