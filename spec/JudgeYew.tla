-------------------------------- MODULE JudgeYew --------------------------------
(***************************************************************************)
(* Recorded server-side renderings of component trees.                     *)
(*  nodes[k]: [kind, parent, mgr, text, near]     (see Yew; numbers from 1)*)
(*  mgrs[m]: [prefix, rec]                                                 *)
(*  els: [n, id]      class found on the element of node n                 *)
(*  made: [n, id, css] what a component saw when it made its style         *)
(*  probes: [n, id, css] the registered style of n after the rendering     *)
(*  logs[m], pay: [n, ok, data]; entries are [g, prefix, ast, id]          *)
(*  client: [n, id]   ids in a client that loaded the shipped data         *)
(*  media: [n, got, want]                                                  *)
(***************************************************************************)
EXTENDS Css, Yew, Json, IOUtils
VARIABLES n, T, verdict
G == INSTANCE Grammar

Cases == ndJsonDeserialize(IOEnv.CASES)

Tree(c) == [k \in 1..Len(c.nodes) |-> [kind |-> c.nodes[k].kind, parent |-> c.nodes[k].parent, mgr |-> c.nodes[k].mgr, key |-> G!Parse(c.nodes[k].chars).ast]]
Verdict(i) ==
  LET c == Cases[i]
      N == 1..Len(c.nodes)
      near == [k \in N |-> Nearest(T, k)]
      styled == {k \in N : Styled(T, k)}
      scoped == {k \in N : T[k].kind = "scoped"}
      rec(m) == c.mgrs[m].rec
      \* the id of a scoped node: what its element carries
      found == [k \in N |-> {c.els[x].id : x \in {y \in 1..Len(c.els) : c.els[y].n = k}}]
      id == [k \in scoped |-> CHOOSE x \in found[k] : TRUE]
      entry(k, x) == [g |-> T[k].kind = "global", prefix |-> c.mgrs[near[k]].prefix, ast |-> T[k].key, id |-> x]
      same(a, b) == a.g = b.g /\ a.prefix = b.prefix /\ a.ast = b.ast
      idin(data, k) == LET hit == {x \in 1..Len(data) : same(data[x], entry(k, ""))} IN
                       IF Cardinality(hit) = 1 THEN data[CHOOSE x \in hit : TRUE].id ELSE ""
      at(seq, k) == CHOOSE x \in 1..Len(seq) : seq[x].n = k
      has(seq, k) == \E x \in 1..Len(seq) : seq[x].n = k
      provs == {k \in N : T[k].kind = "prov"}
      clientOk(k) ==
        LET x == c.client[at(c.client, k)].id IN
        IF T[k].kind = "scoped" THEN x = id[k] ELSE x = idin(c.logs[near[k]], k)
      \* nodes of recording managers that some provider of theirs covers
      covered == {k \in styled : rec(near[k]) /\ \E p \in provs : k \in Owed(T, p)}
  IN
  IF c.died THEN "the rendering panicked"
  ELSE IF \E k \in N : near[k] # c.nodes[k].near THEN "generator and specification disagree"
  ELSE IF \E k \in scoped : Cardinality(found[k]) # 1 THEN "an element has no class, or several"
  ELSE IF \E k \in scoped : ~StartsWith(id[k], c.mgrs[near[k]].prefix \o "-") THEN "class is not of the nearest manager (prefix)"
  ELSE IF \E x \in 1..Len(c.made) : c.made[x].id # id[c.made[x].n] THEN "element carries another class than its style"
  ELSE IF \E a, b \in scoped : (id[a] = id[b]) # (near[a] = near[b] /\ T[a].key = T[b].key) THEN "sharing of classes"
  ELSE IF \E x \in 1..Len(c.probes) : c.probes[x].id # id[c.probes[x].n] THEN "style is not in the nearest manager"
  ELSE IF \E x \in 1..Len(c.probes) : c.probes[x].css # Render(T[c.probes[x].n].key, c.probes[x].id) THEN "css"
  ELSE IF \E m \in 1..Len(c.mgrs) :
            rec(m) /\ \/ \E x \in 1..Len(c.logs[m]) : ~\E k \in styled : near[k] = m /\ same(c.logs[m][x], entry(k, ""))
                      \/ \E k \in styled : near[k] = m /\ ~\E x \in 1..Len(c.logs[m]) : same(c.logs[m][x], entry(k, ""))
       THEN "recorded styles are not those of the manager's components"
  ELSE IF IOEnv.PROP = "C18" THEN "ok"
  ELSE IF \E m \in 1..Len(c.mgrs) :
            rec(m) /\ \/ \E k \in styled : near[k] = m /\ idin(c.logs[m], k) = ""
                      \/ \E k \in scoped : near[k] = m /\ idin(c.logs[m], k) # id[k]
       THEN "a style is recorded under two ids, or under another"
  ELSE IF \E p \in provs : Cardinality({x \in 1..Len(c.payloads) : c.payloads[x].n = p}) # 1 THEN "a provider has no data, or several"
  ELSE IF \E x \in 1..Len(c.payloads) : ~c.payloads[x].ok THEN "a provider's data is unreadable"
  ELSE IF \E p \in provs :
            LET d == c.payloads[at(c.payloads, p)].data
                m == T[p].mgr
            IN IF ~rec(m) THEN d # << >>
               ELSE \/ d # SubSeq(c.logs[m], 1, Len(d))
                    \/ Len(d) > Len(c.logs[m])
                    \/ \E k \in Owed(T, p) : idin(d, k) = ""
       THEN "a provider's data is not what its manager registered"
  ELSE IF \E p \in provs : has(c.client, p) /\ c.client[at(c.client, p)].id # "loaded" THEN "shipped data cannot be loaded"
  ELSE IF \E k \in covered : ~has(c.client, k) \/ ~clientOk(k) THEN "hydrated client uses other ids"
  ELSE IF \E x \in 1..Len(c.media) : c.media[x].got # c.media[x].want THEN "prepared media query is not its fallback"
  ELSE "ok"

Init == n \in 1..Len(Cases) /\ T = Tree(Cases[n]) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ n' = n /\ T' = T
        /\ verdict' = Verdict(n)
        /\ (verdict' = "ok" \/ PrintT(<<"REJECTED", n, verdict'>>))
Spec == Init /\ [][Next]_<<n, T, verdict>>
Accepted == verdict \in {"todo", "ok"}
=================================================================================
