------------------------------ MODULE TraceMedia ------------------------------
(***************************************************************************)
(* Recorded runs of real components with media queries.                    *)
(*  q: [q, is] the answers in the beginning; server: [n, got, want] what   *)
(*  the server rendered, with the fallback; ev: events [op, q, slots, rush,*)
(*  keyed, shown, listening, late, panic].  slots are the components then  *)
(*  mounted: [n, q, prepared, fallback].  After an event in a rush nothing *)
(*  has been rendered yet.                                                 *)
(***************************************************************************)
EXTENDS Media, Json, IOUtils
VARIABLES tr, at, s, verdict
Traces == ndJsonDeserialize(IOEnv.CASES)
Evs == Traces[tr].ev

SlotsOf(e) == [n \in {e.slots[i].n : i \in 1..Len(e.slots)} |-> e.slots[CHOOSE i \in 1..Len(e.slots) : e.slots[i].n = n].q]
AnsOf(c) == [q \in {c.q[i].q : i \in 1..Len(c.q)} |-> c.q[CHOOSE i \in 1..Len(c.q) : c.q[i].q = q].is]
Str(b) == IF b THEN "true" ELSE "false"

\* A component that takes over another's place (children without keys) may know what that one knew.
Stale(x, e, new) ==
  IF e.keyed THEN new
  ELSE [new EXCEPT !.may = [n \in DOMAIN @ |-> IF Unreported(x) THEN BOOLEAN ELSE @[n]]]
\* Edits take effect when there is time to render; only the last of several is seen.
Step(x, e) ==
  LET y == CASE e.op = "flip" -> DoFlip(x, e.q)
             [] e.op = "report" -> DoReport(x)
             [] OTHER -> x
  IN IF e.rush THEN y ELSE Stale(y, e, DoEdit(y, SlotsOf(e)))

\* What the page showed first for a component the server rendered.
FirstLate(e, n) == e.late[CHOOSE i \in 1..Len(e.late) : e.late[i].n = n /\ \A j \in 1..(i - 1) : e.late[j].n # n].got

Verdict(x, e, c) ==
  IF e.panic # "" \/ Len(e.errors) > 0 THEN "panicked"
  ELSE IF e.rush THEN "ok"
  ELSE IF {e.shown[i].n : i \in 1..Len(e.shown)} # DOMAIN x.slots \/ Len(e.shown) # Cardinality(DOMAIN x.slots) THEN "components are missing"
  ELSE IF \E i \in 1..Len(e.shown) : ~\E b \in x.may[e.shown[i].n] : e.shown[i].got = Str(b) THEN "not the current answer"
  ELSE IF \E i \in 1..Len(e.listening) : \A n \in DOMAIN x.slots : x.slots[n] # e.listening[i].q THEN "listens although nobody is there"
  ELSE IF e.op = "start" /\ c.hydrated /\ \E i \in 1..Len(e.slots) : e.slots[i].prepared /\ FirstLate(e, e.slots[i].n) # e.slots[i].fallback
       THEN "not the fallback while hydrating"
  ELSE IF e.op = "start" /\ \E i \in 1..Len(c.server) : c.server[i].got # c.server[i].want THEN "the server did not render the fallback"
  ELSE "ok"

Init == tr \in 1..Len(Traces) /\ at = 1 /\ s = Start(AnsOf(Traces[tr]), SlotsOf(Traces[tr].ev[1])) /\ verdict = "running"
Next ==
  /\ verdict = "running"
  /\ UNCHANGED tr
  /\ IF at > Len(Evs)
     THEN verdict' = "accepted" /\ UNCHANGED <<at, s>>
     ELSE LET x == Step(s, Evs[at])
              w == Verdict(x, Evs[at], Traces[tr])
          IN /\ s' = x /\ at' = at + 1
             /\ IF w = "ok" THEN verdict' = "running"
                ELSE verdict' = "rejected" /\ PrintT(<<"REJECTED", tr, at, w, ToJson([op |-> Evs[at].op])>>)
View == <<tr, at, verdict>>
vars == <<tr, at, s, verdict>>
Spec == Init /\ [][Next]_vars
Allowed == CurrentAllowed(s)
=============================================================================
