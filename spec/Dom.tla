--------------------------------- MODULE Dom ----------------------------------
(***************************************************************************)
(* Style elements in a document.  The state of the registry model is       *)
(* extended with the containers that style elements are put into.          *)
(*   boxes : container -> sequence of items                                *)
(*   at    : instance number -> [box, append]                              *)
(* An item is [k, n, css, c]: the element of content c (c > 0), a style    *)
(* element somebody else made (k = "style", n its id; the server's, if it  *)
(* is a loaded style's), or any other node (k = "other", n its name).      *)
(***************************************************************************)
EXTENDS Registry

Refusing == {"text", "doc"}          \* nodes that cannot take a style element
DefaultBox == "head"

Item(c, id, css) == [k |-> "style", n |-> id, css |-> css, c |-> c]
Thing(x) == [k |-> x.k, n |-> x.n, css |-> x.css, c |-> 0]

World(pages) == [st |-> Empty, boxes |-> [b \in DOMAIN pages |-> [i \in 1..Len(pages[b]) |-> Thing(pages[b][i])]], at |-> << >>]

Where(w, k) == IF k \in DOMAIN w.at THEN w.at[k] ELSE [box |-> DefaultBox, append |-> TRUE]

(*************************** leaving the document *************************)
\* Does item x belong to content c of state s?
Belongs(s, c, x) == x.c = c \/ (s.con[c].loaded /\ x.c = 0 /\ x.k = "style" /\ x.n = s.con[c].id)

\* Contents that were in use before and are not any more leave the document.
Gone(a, b) == {c \in 1..Len(a.con) : InUse(a, c) /\ ~InUse(b, c)}
Settled(w, s2) ==
  LET gone == Gone(w.st, s2) IN
  [w EXCEPT !.st = s2,
            !.boxes = IF gone = {} THEN @ ELSE
                      [b \in DOMAIN @ |-> SelectSeq(@[b], LAMBDA x : \A c \in gone : ~Belongs(s2, c, x))]]

(*************************** entering the document ************************)
Inserted(q, x, append) == IF append THEN Append(q, x) ELSE <<x>> \o q

\* s2 is w.st after a creation in instance k: if it made a new content, its element enters.
Entered(w, s2, k) ==
  IF Len(s2.con) = Len(w.st.con) THEN [w EXCEPT !.st = s2]
  ELSE LET c == Len(s2.con)
           p == Where(w, k)
       IN [w EXCEPT !.st = s2,
                    !.boxes[p.box] = Inserted(@, Item(c, s2.con[c].id, s2.con[c].css), p.append)]

(*************************** other code on the page ***********************)
PutAt(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
TakeAt(q, i) == IF i >= Len(q) THEN q ELSE SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
DoPut(w, b, i, x) == [w EXCEPT !.boxes[b] = PutAt(@, IF i > Len(@) THEN Len(@) ELSE i, x)]
DoTake(w, b, i) == [w EXCEPT !.boxes[b] = TakeAt(@, i)]

(*************************** what must hold *******************************)
AllItems(w) == {<<b, i>> \in UNION {{b} \X (1..Len(w.boxes[b])) : b \in DOMAIN w.boxes} : TRUE}
Elements(w, c) == {p \in AllItems(w) : w.boxes[p[1]][p[2]].c = c}

\* taken: contents whose element other code removed
ElementWhileInUse(w, taken) ==
  \A c \in 1..Len(w.st.con) :
    IF InUse(w.st, c) /\ ~w.st.con[c].loaded /\ c \notin taken
    THEN /\ Cardinality(Elements(w, c)) = 1
         /\ \A p \in Elements(w, c) : /\ p[1] = Where(w, w.st.con[c].inst).box
                                      /\ w.boxes[p[1]][p[2]].n = w.st.con[c].id
                                      /\ w.boxes[p[1]][p[2]].css = w.st.con[c].css
    ELSE Elements(w, c) = {}
\* Loaded styles that are gone have left nothing behind; a loaded style in use keeps what was there.
Others(q) == SelectSeq(q, LAMBDA x : x.k = "other")
OthersKept(v, w) == \A b \in DOMAIN v.boxes : Others(v.boxes[b]) = Others(w.boxes[b])
=============================================================================
