----------------------------- MODULE MCLoopRest -----------------------------
(* Laws: the codes round-trip for every value and prediction; every unit of  *)
(* a plane belongs to exactly one superblock.                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxSize
BitRd(D) == [v |-> Head(D), D |-> Tail(D)]
NoSym(D, n) == [v |-> 0, D |-> D]
INSTANCE LoopRest WITH Rd <- BitRd, Sym <- NoSym
VARIABLES n, k, r, f, q, sb
vars == <<n, k, r, f, q, sb>>
Codes == {<<16, 1>>, <<32, 2>>, <<64, 3>>, <<128, 4>>} \cup ((2..14) \X (0..3))
Sizes == 1..MaxSize
F0 == [w |-> 1, h |-> 1, sx |-> 0, sy |-> 0, sup |-> FALSE, den |-> 8]
(* one step per law: pick a code and a prediction, or a geometry *)
Init == n = 0 /\ k = 0 /\ r = 0 /\ f = F0 /\ q = 64 /\ sb = 64
Next == \/ /\ n = 0 /\ f = F0
           /\ \E c \in Codes : n' = c[1] /\ k' = c[2] /\ r' \in 0..(c[1] - 1)
           /\ UNCHANGED <<f, q, sb>>
        \/ /\ n = 0 /\ f = F0                      \* first the width, then the rest
           /\ f' \in [w : {16 * x - d : x \in Sizes, d \in {0, 1, 7}}, h : {0}, sx : {0, 1}, sy : {0, 1}, sup : {FALSE}, den : {8}]
           /\ UNCHANGED <<n, k, r, q, sb>>
        \/ /\ f.h = 0
           /\ \E h \in {16 * x - 3 : x \in Sizes}, d \in 8..16 : f' = [f EXCEPT !.h = h, !.sup = d > 8, !.den = d]
           /\ f.w >= 16 /\ q' \in {64, 128, 256} /\ sb' \in {64, 128}
           /\ UNCHANGED <<n, k, r>>
RoundTrip == n > 0 => \A v \in 0..(n - 1) :
               LET b == WNear(v, n, k, r)
                   x == Near(b \o <<1, 0, 1>>, n, k, r)
               IN x.v = v /\ x.D = <<1, 0, 1>>
(* width of the coded frame *)
CodedW == IF f.sup THEN (f.w * 8 + (f.den \div 2)) \div f.den ELSE f.w
Once == (n = 0 /\ f.h > 0) => \A plane \in {0, 1} :
          LET rows == 0..(UnitRows(f, plane, q) - 1)
              cols == 0..(UnitCols(f, plane, q) - 1)
              s4 == sb \div 4
              sbr == 0..((MiCount(f.h) - 1) \div s4)
              sbc == 0..((MiCount(CodedW) - 1) \div s4)
              \* rows depend on the superblock row alone, columns on the column
              U(x, y) == UnitsIn(f, plane, q, x * s4, y * s4, s4)
          IN /\ \A u \in rows : Cardinality({x \in sbr : U(x, 0).r0 <= u /\ u < U(x, 0).r1}) = 1
             /\ \A u \in cols : Cardinality({y \in sbc : U(0, y).c0 <= u /\ u < U(0, y).c1}) = 1
Spec == Init /\ [][Next]_vars
=============================================================================
