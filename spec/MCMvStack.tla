------------------------------ MODULE MCMvStack ------------------------------
(* Laws of the candidate list, for all neighbourhoods of small blocks.       *)
EXTENDS MvStack, TLC
CONSTANTS Sizes, Rich        \* block sizes; all kinds of neighbours or the main ones
VARIABLES e, step
vars == <<e, step>>
A == <<3, -5>>  B == <<16, 2>>  C == <<2, -4>>
M(r0, r1, mode, bs, a, b) == [inter |-> r0 > 0, r0 |-> r0, r1 |-> r1, mode |-> mode, bs |-> bs, mv |-> <<a, b>>]
Kinds(bs) == {M(0, -1, 0, bs, A, A), M(1, -1, 17, bs, A, A), M(1, -1, 16, bs, B, A), M(1, 5, 24, bs, A, B)}
             \cup (IF Rich THEN {M(1, -1, 14, bs, C, A), M(1, 5, 25, bs, A, B), M(5, -1, 15, bs, B, B), M(1, 0, 17, bs, B, A)} ELSE {})
Gm == {[t |-> 0, p |-> <<0, 0, 65536, 0, 0, 65536>>], [t |-> 2, p |-> <<40000, -70000, 65536, 300, -300, 65536>>]}
F(hp, fint) == [rows |-> 64, cols |-> 64, tile |-> <<0, 64, 0, 64>>, fint |-> fint, hp |-> hp, temporal |-> TRUE]
Init == /\ step = 0
        /\ e \in [r : {16}, c : {16}, bs : Sizes, refs : {<<1, -1>>, <<1, 5>>}, f : {F(TRUE, FALSE), F(FALSE, FALSE), F(FALSE, TRUE)},
                  above : {<<>>}, left : {<<>>}, corner : {<<>>}, tpl : {<<>>}, gm : {<<x, y>> : x \in Gm, y \in (IF Rich THEN Gm ELSE {[t |-> 3, p |-> <<0, 0, 65000, 0, 7, 65536>>]})}]
(* blocks along a side: each of the side's length or half of it *)
Side(n, bs) == {[k \in 1..n |-> <<>>]} \cup {[k \in 1..n |-> IF k <= n \div 2 THEN <<x>> ELSE <<y>>] : x \in Kinds(bs), y \in Kinds(bs)}
Half(n) == IF n < 4 THEN 0 ELSE IF n < 8 THEN 3 ELSE 6
Next == \/ step = 0 /\ step' = 1 /\ \E s \in Side(W4(e.bs), Half(W4(e.bs))) : e' = [e EXCEPT !.above = s]
        \/ step = 1 /\ step' = 2 /\ \E s \in Side(H4(e.bs), Half(H4(e.bs))) : e' = [e EXCEPT !.left = s]
        \/ step = 2 /\ step' = 3
           /\ \E x \in { <<>> } \cup {<<m>> : m \in Kinds(3)}, t \in {<< <<>>, <<>> >>, << <<A>>, <<B>> >>, << <<C>>, <<>> >>, << <<B>>, <<B>> >>} :
                e' = [e EXCEPT !.corner = x, !.tpl = [k \in 1..16 |-> t]]
Sum(l) == FoldLeft(LAMBDA s, x : s + x.w, 0, l)
Once == step = 3 => LET d == Candidates(e) IN
          /\ Len(d.l) <= MaxList
          /\ \A j, k \in DOMAIN d.l : d.l[j].v = d.l[k].v => j = k
          /\ \A k \in DOMAIN d.l : d.l[k].v = [q \in DOMAIN d.l[k].v |-> Lower(e.f, d.l[k].v[q])]
(* adjacent candidates come first and weigh more *)
First == step = 3 => LET d == Candidates(e)
                         n == Len(Near(e).l)
                     IN \A k \in DOMAIN d.l : d.l[k].w > 640 <=> k <= n
Counts == step = 3 => LET d == Candidates(e) IN
          /\ d.close \in 0..2 /\ (d.close = 0 <=> Near(e).l = <<>>)
          /\ d.zero \in {0, 1}
          /\ (Near(e).l # <<>> => Sum(Near(e).l) >= 2)
Precise == step = 3 => \A k \in Refs(e) : LET g == Global(e, k) IN
             /\ Lower(e.f, g) = g
             /\ e.f.fint => g[1] % 8 = 0 /\ g[2] % 8 = 0
             /\ ~e.f.hp => g[1] % 2 = 0 /\ g[2] % 2 = 0
Spec == Init /\ [][Next]_vars
=============================================================================
