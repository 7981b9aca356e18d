--------------------------------- MODULE MCYew ---------------------------------
(***************************************************************************)
(* All small component trees under all rendering orders: siblings may      *)
(* suspend, so a component starts any time after its parent has rendered,  *)
(* and finishes (is destroyed) once its children have finished.            *)
(***************************************************************************)
EXTENDS Yew, TLC, Json, IOUtils
CONSTANTS Size, Keys, Managers, Recording
VARIABLES T, ph, reg, log, ids, pay, fresh
vars == <<T, ph, reg, log, ids, pay, fresh>>

Kind == [kind : {"prov"}, mgr : Managers, key : {0}]
        \cup [kind : {"scoped"}, mgr : {0}, key : Keys]
        \cup [kind : {"global"}, mgr : {0}, key : {1}]
Trees(n) == {[k \in 1..n |-> [kind |-> f[k].kind, mgr |-> f[k].mgr, key |-> f[k].key, parent |-> p[k]]] :
               f \in [1..n -> Kind], p \in {q \in [1..n -> 0..(n - 1)] : q[1] = 0 /\ \A k \in 2..n : q[k] \in 1..(k - 1) /\ (k > 2 => q[k] >= q[k - 1])}}
AllKeys == [g : BOOLEAN, key : Keys]

Init == /\ T \in UNION {Trees(n) : n \in 1..Size}
        /\ ph = [k \in 1..Len(T) |-> "no"]
        /\ reg = [m \in Managers |-> [w \in AllKeys |-> 0]]
        /\ log = [m \in Managers |-> << >>]
        /\ ids = [k \in 1..Len(T) |-> 0]
        /\ pay = [k \in 1..Len(T) |-> << >>]
        /\ fresh = 1

Start(k) ==
  LET m == Nearest(T, k)
      w == What(T, k)
      new == Styled(T, k) /\ reg[m][w] = 0
  IN /\ ph[k] = "no"
     /\ T[k].parent # 0 => ph[T[k].parent] = "in"
     /\ ph' = [ph EXCEPT ![k] = "in"]
     /\ IF ~Styled(T, k) THEN UNCHANGED <<reg, log, ids, fresh>>
        ELSE /\ reg' = [reg EXCEPT ![m][w] = IF new THEN fresh ELSE @]
             /\ ids' = [ids EXCEPT ![k] = IF new THEN fresh ELSE reg[m][w]]
             /\ fresh' = IF new THEN fresh + 1 ELSE fresh
             /\ log' = IF new /\ m \in Recording THEN [log EXCEPT ![m] = Append(@, [w |-> w, id |-> fresh])] ELSE log
     /\ UNCHANGED <<T, pay>>

\* A global style leaves with its component, unless it has been recorded.
Finish(k) ==
  LET m == Nearest(T, k)
      w == What(T, k)
  IN /\ ph[k] = "in"
     /\ \A c \in Kids(T, k) : ph[c] = "done"
     /\ ph' = [ph EXCEPT ![k] = "done"]
     /\ pay' = IF T[k].kind = "prov" THEN [pay EXCEPT ![k] = log[T[k].mgr]] ELSE pay
     /\ reg' = IF T[k].kind = "global" /\ m \notin Recording /\ reg[m][w] = ids[k] THEN [reg EXCEPT ![m][w] = 0] ELSE reg
     /\ UNCHANGED <<T, log, ids, fresh>>

Next == \E k \in 1..Len(T) : Start(k) \/ Finish(k)
Spec == Init /\ [][Next]_vars

(******************************* properties ********************************)
Range(s) == {s[k] : k \in 1..Len(s)}
Started(k) == ph[k] # "no"
\* Every style is created in the nearest manager, and nowhere else.
InNearest == \A m \in Recording :
  {e.id : e \in Range(log[m])} = {ids[k] : k \in {x \in 1..Len(T) : Started(x) /\ Styled(T, x) /\ Nearest(T, x) = m}}
\* Equal styles under one manager share one id, others never do.
Shared == \A a, b \in {x \in 1..Len(T) : Started(x) /\ Styled(T, x)} :
  /\ ids[a] = ids[b] => Nearest(T, a) = Nearest(T, b) /\ What(T, a) = What(T, b)
  /\ Nearest(T, a) = Nearest(T, b) /\ What(T, a) = What(T, b) /\ (T[a].kind = "scoped" \/ Nearest(T, a) \in Recording) => ids[a] = ids[b]
\* A provider ships what its subtree uses, and what it ships can be loaded.
Ships == \A p \in {x \in 1..Len(T) : T[x].kind = "prov" /\ ph[x] = "done"} :
  IF T[p].mgr \notin Recording THEN pay[p] = << >>
  ELSE /\ \A k \in Owed(T, p) : [w |-> What(T, k), id |-> ids[k]] \in Range(pay[p])
       /\ \A a, b \in Range(pay[p]) : a.w = b.w => a = b
       /\ \A a, b \in 1..Len(pay[p]) : a # b => pay[p][a] # pay[p][b]
\* ... so a client that loads the data of all providers, in any order, uses the server's ids.
Agree == \A p, q \in {x \in 1..Len(T) : T[x].kind = "prov" /\ ph[x] = "done"} :
  T[p].mgr = T[q].mgr => \A a \in Range(pay[p]), b \in Range(pay[q]) : a.w = b.w => a = b
Export == "EXPORT" \in DOMAIN IOEnv /\ (\A k \in 1..Len(T) : ph[k] = "no") => PrintT(<<"EXPORT", ToJson(T)>>)
================================================================================
