------------------------------ MODULE MCDerive ------------------------------
(* Laws of the derivations themselves, for all arguments.                    *)
EXTENDS Derive, TLC
VARIABLES b, t, inter, reduced, h1, h2, bits
vars == <<b, t, inter, reduced, h1, h2, bits>>
Init == /\ b = 0 /\ t = 0 /\ inter = FALSE /\ reduced = FALSE /\ bits = 1 /\ h1 = 0 /\ h2 = 0
Next == \/ b' \in 0..21 /\ t = 0 /\ bits = 1 /\ ~inter /\ ~reduced /\ UNCHANGED <<t, inter, reduced, h1, h2, bits>>
        \/ t' \in 0..18 /\ inter' \in BOOLEAN /\ reduced' \in BOOLEAN /\ b = 0 /\ bits = 1 /\ UNCHANGED <<b, h1, h2, bits>>
        \/ b = 0 /\ t = 0 /\ ~inter /\ ~reduced /\ bits' \in 1..6 /\ h1' \in 0..(2^bits' - 1) /\ h2' \in 0..(2^bits' - 1) /\ bits = 1 /\ UNCHANGED <<b, t, inter, reduced>>
Spec == Init /\ [][Next]_vars
Sizes == /\ BlockOf(Bw(b), Bh(b)) = b /\ TxOf(Tw(t), Th(t)) = t
         /\ TxSqr(t) <= TxSqrUp(t) /\ TxSqr(t) \in 0..4 /\ TxSqrUp(t) \in 0..4 /\ Adjusted(t) # TxInvalid
(* a partition's parts tile the block: n parts of equal size or A/B shapes *)
Parts == \A p \in 0..9 : LET s == SubSize(p, b) IN s # BlockInvalid =>
           /\ Bw(s) <= Bw(b) /\ Bh(s) <= Bh(b)
           /\ (Bw(b) * Bh(b)) \div (Bw(s) * Bh(s)) = CASE p = 0 -> 1 [] p \in {3, 8, 9} -> 4 [] OTHER -> 2
Planes == \A x, y \in {0, 1} : LET s == PlaneSize(b, 1, x, y) IN
           /\ PlaneSize(b, 0, x, y) = b
           /\ x = y => s # BlockInvalid
(* whatever is selected, the set allows it; identity of the sets is nested *)
Closed == \A plane \in {0, 1}, ty \in 0..15, m \in {0, 1, 2, 4, 13}, l \in BOOLEAN :
           TxTypeOf(plane, t, l, inter, reduced, m, ty, ty) \in SetTypes(inter, TxSet(t, inter, reduced))
Dist == LET d == RelDist(h1, h2, TRUE, bits) IN
          /\ d >= -(2^(bits - 1)) /\ d < 2^(bits - 1)
          /\ (h2 + d + 2^bits) % 2^bits = h1
          /\ (d # -(2^(bits - 1)) => RelDist(h2, h1, TRUE, bits) = -d)
          /\ RelDist(h1, h2, FALSE, bits) = 0
(* the arithmetic, on small numbers around zero *)
Arith == \A x \in -40..40, n \in 0..4 :
           /\ LET y == Round2Signed(x, n) IN
                /\ Round2Signed(-x, n) = -y
                /\ LET e == y * 2^n - x IN 2 * (IF e < 0 THEN -e ELSE e) <= 2^n
           /\ x >= 0 => Round2Signed(x, n) = Round2(x, n)
           /\ Clip3(-n, n, x) \in -n..n /\ (x \in -n..n => Clip3(-n, n, x) = x)
=============================================================================
