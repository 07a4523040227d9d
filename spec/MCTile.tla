------------------------------- MODULE MCTile -------------------------------
(* Laws of the tile syntax: whatever the elements say, blocks cover the      *)
(* tile exactly once, and what is recorded of them is in range.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Seeds, Sides          \* streams of elements per frame; frame sides in 8x8 units
(* a stream of elements made up on the fly: a linear congruential generator *)
Step(D) == (D * 1103 + 12345) % 32768
Draw(D, n) == (Step(D) \div 64) % n
PartNames == [w \in {8, 16, 32, 64, 128} |-> {"partition_w" \o ToString(w) \o "." \o ToString(k) : k \in 0..3}]
Values(n) == IF n \in PartNames[8] THEN 4 ELSE IF n \in PartNames[128] THEN 8 ELSE IF n \in PartNames[16] \cup PartNames[32] \cup PartNames[64] THEN 10
             ELSE IF n \in {"segment_id." \o ToString(k) : k \in 0..2} THEN 3
             ELSE IF n \in {"delta_q", "delta_lf", "mv_joint.0"} THEN 4
             ELSE IF n \in {"compound_mode." \o ToString(k) : k \in 0..7} THEN 8 ELSE 2
TokSym(D, n) == [v |-> Draw(D, Values(n)), D |-> Step(D)]
TokRd(D) == [v |-> Draw(D, 2), D |-> Step(D)]
TokT(D, t) == [v |-> Draw(D, 2), D |-> Step(D)]
NoTable(D, n) == [k \in 1..11 |-> IF k < 11 THEN 3276 * k ELSE 0]
INSTANCE Tile WITH Rd <- TokRd, Sym <- TokSym, SymT <- TokT, TableOf <- NoTable
VARIABLES f, d, st
vars == <<f, d, st>>
None8 == [k \in 1..8 |-> <<>>]
Feats == {[k \in 1..8 |-> None8], [k \in 1..8 |-> IF k = 2 THEN [None8 EXCEPT ![6] = <<2>>] ELSE IF k = 3 THEN [None8 EXCEPT ![7] = <<0>>] ELSE None8]}
F(h, w, tile, sb, feat) ==
  [rows |-> 2 * h, cols |-> 2 * w, tile |-> tile, sx |-> TRUE, sy |-> TRUE, pre |-> feat[2][6] # <<>>, segon |-> TRUE, last |-> 2, feat |-> feat,
   lossless |-> FALSE, encdef |-> TRUE, ibc |-> FALSE, bits |-> 2, sb |-> sb, dq |-> TRUE, q0 |-> 100, qres |-> 1, lfon |-> TRUE, multi |-> TRUE, lfres |-> 0,
   planes |-> 3, refsel |-> TRUE, fint |-> FALSE, hp |-> FALSE, temporal |-> FALSE, field |-> <<>>,
   gm |-> [k \in 1..7 |-> IF k % 2 = 0 THEN [t |-> 0, p |-> <<0, 0, 65536, 0, 0, 65536>>] ELSE [t |-> 2, p |-> <<40000, -70000, 65536, 300, -300, 65536>>]],
   lr |-> [f |-> [w |-> 8 * w, h |-> 8 * h, sx |-> 1, sy |-> 1, sup |-> FALSE, den |-> 8], types |-> <<3, 1, 2>>, sizes |-> <<64, 64, 64>>]]
Tiles(h, w, sb) == LET n == sb \div 4
                       rs == {k \in 0..(2 * h) : k % n = 0 \/ k = 2 * h}
                       cs == {k \in 0..(2 * w) : k % n = 0 \/ k = 2 * w}
                   IN {<<a, b, x, y>> \in rs \X rs \X cs \X cs : a < b /\ x < y /\ a % n = 0 /\ x % n = 0}
Cdef0 == [y \in 1..4 |-> [x \in 1..4 |-> 7]]
Init == /\ d \in Seeds /\ st = <<>>
        /\ \E h \in Sides, w \in Sides, sb \in {64, 128}, feat \in Feats : \E t \in Tiles(h, w, sb) : f = F(h, w, t, sb, feat)
Next == st = <<>> /\ st' = Tile(f, d * 331, Cdef0) /\ UNCHANGED <<f, d>>
Spec == Init /\ [][Next]_vars
Cells == {<<y, x>> \in (1..f.rows) \X (1..f.cols) : TRUE}
In(y, x) == y > f.tile[1] /\ y <= f.tile[2] /\ x > f.tile[3] /\ x <= f.tile[4]
Done == st # <<>>
Covered == Done => /\ st.why = ""
                   /\ st.area = (f.tile[2] - f.tile[1]) * (f.tile[4] - f.tile[3])
                   /\ \A p \in Cells : (st.mis[p[1]][p[2]] # <<>>) <=> In(p[1], p[2])
Recorded == Done => \A p \in Cells : In(p[1], p[2]) =>
              LET m == st.mis[p[1]][p[2]][1]
              IN /\ m.seg \in 0..f.last /\ m.inter = (m.r0 > 0)
                 /\ m.r0 \in 0..7 /\ m.r1 \in -1..7 /\ (m.r1 > 0 => m.r1 > m.r0)
                 /\ m.mode \in (IF ~m.inter THEN {0} ELSE IF m.r1 > 0 THEN 18..25 ELSE 14..17)
                 /\ m.r1 > 0 => BK!Min(BK!Bw(m.bs), BK!Bh(m.bs)) >= 8
                 /\ \A k \in {1, 2} : m.mv[k][1] % 2 = 0 /\ m.mv[k][2] % 2 = 0
                 /\ m.seg = 2 /\ f.pre => m.skip
Running == Done => /\ st.q \in 1..255 /\ \A k \in 1..4 : st.lf[k] \in -63..63
                   /\ \A y \in 1..4, x \in 1..4 : LET inside == In(16 * (y - 1) + 1, 16 * (x - 1) + 1)
                                                  IN st.cdef[y][x] \in (IF inside THEN -1..3 ELSE {7, -1})
ASSUME PartsCover ==
  \A n \in {2, 4, 8, 16, 32} : \A p \in Allowed(n) :
     /\ \A k \in DOMAIN Parts(p, n) : \E z \in 0..21 : BK!Bw(z) = 4 * Parts(p, n)[k].w /\ BK!Bh(z) = 4 * Parts(p, n)[k].h
     /\ \A y \in 0..(n - 1), x \in 0..(n - 1) :
          Cardinality({k \in DOMAIN Parts(p, n) : LET b == Parts(p, n)[k] IN y >= b.y /\ y < b.y + b.h /\ x >= b.x /\ x < b.x + b.w}) = 1
=============================================================================
