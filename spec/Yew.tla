---------------------------------- MODULE Yew ----------------------------------
(***************************************************************************)
(* Components and style managers during server-side rendering.             *)
(*                                                                         *)
(* A tree T is a sequence of nodes [kind, parent, mgr, key]; parents come  *)
(* before their children, the root has parent 0:                           *)
(*   "prov"    manager provider of manager mgr                             *)
(*   "scoped"  component using the scoped style key                        *)
(*   "global"  component using the global style key                        *)
(*   "box"     anything else (elements, suspense boundaries, ...)          *)
(* Manager 1 is the thread's default manager.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

RECURSIVE Nearest(_, _)
Nearest(T, k) ==
  IF T[k].parent = 0 THEN 1
  ELSE IF T[T[k].parent].kind = "prov" THEN T[T[k].parent].mgr
  ELSE Nearest(T, T[k].parent)

RECURSIVE Below(_, _, _)
Below(T, k, p) == T[k].parent # 0 /\ (T[k].parent = p \/ Below(T, T[k].parent, p))
Sub(T, p) == {k \in 1..Len(T) : Below(T, k, p)}
Kids(T, p) == {k \in 1..Len(T) : T[k].parent = p}
Styled(T, k) == T[k].kind \in {"scoped", "global"}
What(T, k) == [g |-> T[k].kind = "global", key |-> T[k].key]

\* Styles a provider's data has to contain.
Owed(T, p) == {k \in Sub(T, p) : Styled(T, k) /\ Nearest(T, k) = T[p].mgr}
================================================================================
