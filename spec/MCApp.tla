--------------------------------- MODULE MCApp ---------------------------------
(***************************************************************************)
(* A page whose components come, go and change: every component uses one   *)
(* scoped or global style of the manager it is under.  Each edit is worked *)
(* off component by component in any order; a component whose style        *)
(* changes makes the new one before it lets go of the old one (or, with    *)
(* the other order allowed, after).  Checked: what an observer of the page *)
(* may rely on (TraceApp) whenever no work is left.                        *)
(*   use  : component -> [g, key, mgr] it should use                       *)
(*   has  : component -> [g, key, mgr, c] it uses (c: number of content)   *)
(*   reg  : manager -> [g, key] -> content, el: contents in the document   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Slots, Keys, Managers, MaxLen, Record
VARIABLES use, has, reg, con, hist
vars == <<use, has, reg, con, hist>>

NoFun == [x \in {} |-> 0]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
What(u) == [g |-> u.g, key |-> u.key]
Uses == [g : BOOLEAN, key : Keys, mgr : Managers]

Held(h, c) == \E n \in DOMAIN h : h[n].c = c
InReg(r, c) == \E m \in Managers : \E k \in DOMAIN r[m] : r[m][k] = c
Els(h, r) == {c \in 1..Len(con) : (Held(h, c) /\ con[c].g) \/ InReg(r, c)}

\* Component n takes up style u; its content.
Take(r, u) == IF What(u) \in DOMAIN r[u.mgr] THEN r[u.mgr][What(u)] ELSE Len(con) + 1
RegWith(r, u, c) == [r EXCEPT ![u.mgr] = What(u) :> c @@ @]
\* Letting go of a global style unregisters it, if the registry still has that very one.
Release(r, x) == IF x.g /\ What(x) \in DOMAIN r[x.mgr] /\ r[x.mgr][What(x)] = x.c THEN [r EXCEPT ![x.mgr] = Without(@, What(x))] ELSE r
Due == {n \in Slots : (n \in DOMAIN use) # (n \in DOMAIN has)
                      \/ (n \in DOMAIN use /\ n \in DOMAIN has /\ [g |-> has[n].g, key |-> has[n].key, mgr |-> has[n].mgr] # use[n])}

Work(n) ==
  IF n \notin DOMAIN use
  THEN reg' = Release(reg, has[n]) /\ has' = Without(has, n) /\ UNCHANGED con
  ELSE \E newFirst \in BOOLEAN :
    LET u == use[n]
        old == n \in DOMAIN has
        r0 == IF old /\ ~newFirst THEN Release(reg, has[n]) ELSE reg
        c == Take(r0, u)
        r1 == RegWith(r0, u, c)
        r2 == IF old /\ newFirst THEN Release(r1, has[n]) ELSE r1
    IN /\ reg' = r2
       /\ con' = IF c > Len(con) THEN Append(con, u) ELSE con
       /\ has' = n :> [g |-> u.g, key |-> u.key, mgr |-> u.mgr, c |-> c] @@ has

Edit == \E n \in Slots :
          \/ /\ n \notin DOMAIN use
             /\ \E u \in Uses : use' = n :> u @@ use /\ hist' = Append(hist, [op |-> "mount", n |-> n] @@ u)
          \/ /\ n \in DOMAIN use
             /\ \/ use' = Without(use, n) /\ hist' = Append(hist, [op |-> "unmount", n |-> n, g |-> FALSE, key |-> 0, mgr |-> 0])
                \/ \E u \in Uses : u # use[n] /\ u.g = use[n].g /\ use' = [use EXCEPT ![n] = u] /\ hist' = Append(hist, [op |-> "change", n |-> n] @@ u)

Init == use = NoFun /\ has = NoFun /\ reg = [m \in Managers |-> NoFun] /\ con = << >> /\ hist = << >>
\* Several edits may pile up before the work is done.
Next == \/ Len(hist) < MaxLen /\ Edit /\ UNCHANGED <<has, reg, con>>
        \/ \E n \in Due : Work(n) /\ UNCHANGED <<use, hist>>
Spec == Init /\ [][Next]_vars
View == IF Record THEN <<use, hist>> ELSE <<use, has, reg, con, Len(hist)>>

Quiet == Due = {}
Mounted(g, key, m) == {n \in DOMAIN use : use[n] = [g |-> g, key |-> key, mgr |-> m]}
ElsOf(g, key, m) == {c \in Els(has, reg) : con[c] = [g |-> g, key |-> key, mgr |-> m]}
Everything == {con[c] : c \in 1..Len(con)}
\* Scoped styles once used stay, once; everybody who uses one has it.
ScopedOnce == Quiet => \A u \in Everything : ~u.g => Cardinality(ElsOf(FALSE, u.key, u.mgr)) = 1
\* A global style is there while a component has it, and not longer.
GlobalWhileMounted == Quiet => \A u \in Everything : u.g =>
  LET k == Cardinality(Mounted(TRUE, u.key, u.mgr))
      e == Cardinality(ElsOf(TRUE, u.key, u.mgr))
  IN e <= k /\ (k > 0 => e > 0)
Export == ~(Record /\ Len(hist) = MaxLen) \/ PrintT(<<"HIST", ToJson(hist)>>)
================================================================================
