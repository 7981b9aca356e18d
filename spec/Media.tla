-------------------------------- MODULE Media ---------------------------------
(***************************************************************************)
(* Components that show the answer of a media query.                       *)
(*   ans   : query -> current answer                                       *)
(*   slots : mounted component -> query                                    *)
(*   may   : mounted component -> answers it may show: the current one,    *)
(*           and older ones as long as the browser has not reported that   *)
(*           the answer changed                                            *)
(* The browser reports changes some time after they happened; a component  *)
(* that appears or whose query changes asks for the answer then.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Start(ans, slots) == [ans |-> ans, slots |-> slots, may |-> [n \in DOMAIN slots |-> {ans[slots[n]]}]]

DoFlip(s, q) ==
  LET a == [s.ans EXCEPT ![q] = ~@] IN
  [s EXCEPT !.ans = a, !.may = [n \in DOMAIN @ |-> IF s.slots[n] = q THEN @[n] \cup {a[q]} ELSE @[n]]]
DoReport(s) == [s EXCEPT !.may = [n \in DOMAIN @ |-> {s.ans[s.slots[n]]}]]
\* The mounted components become `slots`.
DoEdit(s, slots) ==
  [s EXCEPT !.slots = slots,
            !.may = [n \in DOMAIN slots |-> IF n \in DOMAIN s.slots /\ s.slots[n] = slots[n] THEN s.may[n] ELSE {s.ans[slots[n]]}]]

Unreported(s) == \E n \in DOMAIN s.slots : s.may[n] # {s.ans[s.slots[n]]}
\* Whoever is in `may` includes the truth.
CurrentAllowed(s) == \A n \in DOMAIN s.slots : s.ans[s.slots[n]] \in s.may[n]
=============================================================================
