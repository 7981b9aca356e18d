------------------------------- MODULE MCMedia --------------------------------
(***************************************************************************)
(* How the hooks do it: a component keeps the answer it last heard, and an *)
(* effect that depends on the query listens on a query list made for it.   *)
(* The browser keeps for every list the answer it was last told.  Checked: *)
(* what is shown is always something Media allows, and only mounted        *)
(* components listen.  (Refresh = FALSE, an effect that does not ask again *)
(* when it starts to listen, breaks this: MCMedia-stale.cfg.)              *)
(***************************************************************************)
EXTENDS Media, Json, IOUtils
CONSTANTS MaxLen, Queries, Slots, Refresh, Record
VARIABLES m, val, lists, todo, hist
\* val: slot -> answer kept; lists: slot -> [q, told] of the list it listens on; todo: slots whose effect is due
vars == <<m, val, lists, todo, hist>>

Ev(op, r) == [op |-> op] @@ r
Log(e) == hist' = Append(hist, e)
Flipped == {hist[i].q : i \in {i \in 1..Len(hist) : hist[i].op = "flip" /\ \A j \in i..Len(hist) : hist[j].op # "report"}}

Mounted == DOMAIN m.slots
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]

Flip == \E q \in Queries \ Flipped : m' = DoFlip(m, q) /\ Log(Ev("flip", [q |-> q])) /\ UNCHANGED <<val, lists, todo>>
\* Every list whose answer changed tells its listener, who keeps the answer.
Report == /\ m' = DoReport(m)
          /\ val' = [n \in DOMAIN val |-> IF n \in DOMAIN lists /\ lists[n].told # m.ans[lists[n].q] THEN m.ans[lists[n].q] ELSE val[n]]
          /\ lists' = [n \in DOMAIN lists |-> [lists[n] EXCEPT !.told = m.ans[lists[n].q]]]
          /\ Log(Ev("report", [q |-> ""])) /\ UNCHANGED todo
Mount == \E n \in Slots \ Mounted, q \in Queries :
           /\ m' = DoEdit(m, n :> q @@ m.slots) /\ val' = n :> m.ans[q] @@ val /\ todo' = todo \cup {n}
           /\ Log(Ev("mount", [n |-> n, q |-> q])) /\ UNCHANGED lists
Change == \E n \in Mounted, q \in Queries :
            /\ q # m.slots[n]
            /\ m' = DoEdit(m, [m.slots EXCEPT ![n] = q]) /\ todo' = todo \cup {n}
            /\ Log(Ev("query", [n |-> n, q |-> q])) /\ UNCHANGED <<val, lists>>
Again == \E n \in Mounted : Log(Ev("again", [n |-> n, q |-> m.slots[n]])) /\ UNCHANGED <<m, val, lists, todo>>
Unmount == \E n \in Mounted :
             /\ m' = DoEdit(m, Without(m.slots, n)) /\ val' = Without(val, n) /\ todo' = todo \ {n}
             /\ lists' = IF n \in DOMAIN lists THEN Without(lists, n) ELSE lists
             /\ Log(Ev("unmount", [n |-> n, q |-> ""]))
\* The effect of a render; the next event waits for it.
Effect == \E n \in todo :
            /\ todo' = todo \ {n}
            /\ lists' = n :> [q |-> m.slots[n], told |-> m.ans[m.slots[n]]] @@ lists
            /\ val' = IF Refresh THEN [val EXCEPT ![n] = m.ans[m.slots[n]]] ELSE val
            /\ UNCHANGED <<m, hist>>

Init == m = Start([q \in Queries |-> FALSE], [n \in {} |-> ""]) /\ val = [n \in {} |-> FALSE] /\ lists = [n \in {} |-> 0] /\ todo = {} /\ hist = << >>
Next == IF todo # {} THEN Effect
        ELSE Len(hist) < MaxLen /\ (Flip \/ Report \/ Mount \/ Change \/ Again \/ Unmount)
Spec == Init /\ [][Next]_vars
View == IF Record THEN vars ELSE <<m, val, lists, todo, Len(hist), Flipped>>

Settled == todo = {}
Shows == Settled => \A n \in Mounted : val[n] \in m.may[n]
Listens == Settled => DOMAIN lists = Mounted /\ \A n \in Mounted : lists[n].q = m.slots[n]
Allowed == CurrentAllowed(m)
Export == ~(Record /\ Settled /\ Len(hist) = MaxLen) \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
