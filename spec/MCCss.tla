-------------------------------- MODULE MCCss --------------------------------
(* Rendering means what the tree means, for every tree of a small scope, and *)
(* what is rendered is again a stylesheet with the same meaning.             *)
EXTENDS Trees, Grammar
VARIABLES tree, class, css

Init == /\ tree \in Structures
        /\ class \in {"K", ""}
        /\ css = "?"
Next == /\ css = "?"
        /\ css' = Render(Label(tree), class)
        /\ UNCHANGED <<tree, class>>
Spec == Init /\ [][Next]_<<tree, class, css>>

Done == css # "?"
Sheet == Label(tree)
Means == Done => MeansDecls(css, Sheet, class)
NoEmpty == Done => NoEmptyBlocks(css)
Keyframes0 == Done => KeyframesPresent(css, Sheet, class)
Scoped ==      \* in a scoped style every rule outside @keyframes is confined to the class
  (Done /\ class # "") =>
     LET ev == Read(css).ev IN
     \A i \in 1..Len(ev) :
        (IsDeclEv(ev[i]) /\ ~\E j \in 1..Len(ev[i].p) : IsKeyframes(ev[i].p[j]))
          => \E j \in 1..Len(ev[i].p) : StartsWith(ev[i].p[j], "." \o class)
Closed ==      \* rendering, parsing, rendering again
  Done => LET p == Parse(Chars(css)) IN
          /\ p.res = "ok"
          /\ DeclsOf(Flat(p.ast, "")) = DeclsOf(Flat(Sheet, class))
          /\ Render(p.ast, "") = css
=============================================================================
