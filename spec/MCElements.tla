----------------------------- MODULE MCElements -----------------------------
(* All pairs of neighbours, by their references, for every element whose     *)
(* table they choose; emits each as a case for the real code.                *)
EXTENDS Elements, Json
Pairs == {<<0, -1>>} \cup ((1..7) \X {-1, 0}) \cup ((1..4) \X (5..7)) \cup {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<5, 7>>}
Nb == {<<>>} \cup {<<[r0 |-> p[1], r1 |-> p[2], cg |-> g, ci |-> 0]>> : p \in Pairs, g \in {0, 1}}
VARIABLES e, u, l
vars == <<e, u, l>>
Init == e \in RefElements /\ u \in Nb /\ l \in Nb
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
InRange == NbCtx(e, u, l) \in 0..(NbContexts(e) - 1)
(* the context does not care which neighbour is above and which left *)
Symmetric == NbCtx(e, u, l) = NbCtx(e, l, u)
(* every table of every element is in use *)
ASSUME \A x \in RefElements : {NbCtx(x, a, b) : a \in Nb, b \in Nb} = 0..(NbContexts(x) - 1)
Refs(n) == IF n = <<>> THEN <<>> ELSE <<n[1].r0, n[1].r1>>
Low(n) == n = <<>> \/ n[1].cg = 0
Emit == (Low(u) /\ Low(l)) => PrintT("CASE|" \o ToJson([e |-> e, u |-> Refs(u), l |-> Refs(l)]))
=============================================================================
