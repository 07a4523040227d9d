------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* The derivations writers and contexts share, defined from first          *)
(* principles: a block size is its (width, height), a transform size too;  *)
(* the numbering of the sizes is the only enumeration here.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Log2(_)
Log2(x) == IF x < 2 THEN 0 ELSE 1 + Log2(x \div 2)

(* division by 2^n to the nearest, halves upwards; the signed one is symmetric about zero *)
Round2(x, n) == IF n = 0 THEN x ELSE (x + 2^(n - 1)) \div 2^n
Round2Signed(x, n) == IF x >= 0 THEN Round2(x, n) ELSE -Round2(-x, n)
Clip3(lo, hi, x) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

Blocks == << <<4,4>>, <<4,8>>, <<8,4>>, <<8,8>>, <<8,16>>, <<16,8>>, <<16,16>>, <<16,32>>, <<32,16>>, <<32,32>>,
             <<32,64>>, <<64,32>>, <<64,64>>, <<64,128>>, <<128,64>>, <<128,128>>,
             <<4,16>>, <<16,4>>, <<8,32>>, <<32,8>>, <<16,64>>, <<64,16>> >>
BlockInvalid == 22
Bw(b) == Blocks[b + 1][1]
Bh(b) == Blocks[b + 1][2]
BlockOf(w, h) == LET s == {b \in 0..21 : Bw(b) = w /\ Bh(b) = h} IN IF s = {} THEN BlockInvalid ELSE CHOOSE b \in s : TRUE

Txs == << <<4,4>>, <<8,8>>, <<16,16>>, <<32,32>>, <<64,64>>, <<4,8>>, <<8,4>>, <<8,16>>, <<16,8>>, <<16,32>>, <<32,16>>,
          <<32,64>>, <<64,32>>, <<4,16>>, <<16,4>>, <<8,32>>, <<32,8>>, <<16,64>>, <<64,16>> >>
TxInvalid == 19
Tw(t) == Txs[t + 1][1]
Th(t) == Txs[t + 1][2]
TxOf(w, h) == LET s == {t \in 0..18 : Tw(t) = w /\ Th(t) = h} IN IF s = {} THEN TxInvalid ELSE CHOOSE t \in s : TRUE
TxSqr(t) == IF t = TxInvalid THEN TxInvalid ELSE LET m == Min(Tw(t), Th(t)) IN TxOf(m, m)
TxSqrUp(t) == IF t = TxInvalid THEN TxInvalid ELSE LET m == Max(Tw(t), Th(t)) IN TxOf(m, m)
Adjusted(t) == TxOf(Min(Tw(t), 32), Min(Th(t), 32))

(* the block of a plane: never below 4 samples, not defined when subsampling *)
(* in one direction only leaves a shape that is not a block                  *)
PlaneSize(b, plane, sx, sy) ==
  LET x == IF plane > 0 THEN sx ELSE 0
      y == IF plane > 0 THEN sy ELSE 0
  IN IF x = 1 /\ y = 0 /\ Bh(b) > Bw(b) THEN BlockInvalid
     ELSE IF x = 0 /\ y = 1 /\ Bw(b) > Bh(b) THEN BlockInvalid
     ELSE BlockOf(Max(4, IF x = 1 THEN Bw(b) \div 2 ELSE Bw(b)), Max(4, IF y = 1 THEN Bh(b) \div 2 ELSE Bh(b)))

(* partitions: 0 NONE 1 HORZ 2 VERT 3 SPLIT 4 HORZ_A 5 HORZ_B 6 VERT_A 7 VERT_B 8 HORZ_4 9 VERT_4; size of the *)
(* (first, for A and B the larger) part of a square block                                                      *)
SubSize(p, b) ==
  LET s == Bw(b) IN
  IF Bw(b) # Bh(b) THEN BlockInvalid
  ELSE IF p = 0 THEN b
  ELSE IF s = 4 THEN BlockInvalid
  ELSE CASE p \in {1, 4, 5} -> BlockOf(s, s \div 2)
         [] p \in {2, 6, 7} -> BlockOf(s \div 2, s)
         [] p = 3 -> BlockOf(s \div 2, s \div 2)
         [] p = 8 -> IF s = 8 \/ s = 128 THEN BlockInvalid ELSE BlockOf(s, s \div 4)
         [] p = 9 -> IF s = 8 \/ s = 128 THEN BlockInvalid ELSE BlockOf(s \div 4, s)
(* context group of a block: the log2 of the smaller side, capped *)
SizeGroup(b) == Min(3, Log2(Min(Bw(b), Bh(b))) - 2)

MiCount(samples) == 2 * ((samples + 7) \div 8)

(* distance between order hints modulo 2^n, in -2^(n-1) .. 2^(n-1)-1 *)
RelDist(a, b, on, n) ==
  IF ~on THEN 0 ELSE LET m == 2^n
                         d == ((a - b) + m * 8) % m
                     IN IF d >= m \div 2 THEN d - m ELSE d

Backward(r) == r >= 5 /\ r <= 7
SameDir(a, b) == a > 0 /\ b > 0 /\ ((a >= 5) = (b >= 5))
CountCtx(x, y) == IF x < y THEN 0 ELSE IF x = y THEN 1 ELSE 2

(* transform types 0..15: DCT_DCT ADST_DCT DCT_ADST ADST_ADST FLIPADST_DCT DCT_FLIPADST FLIPADST_FLIPADST ADST_FLIPADST *)
(* FLIPADST_ADST IDTX V_DCT H_DCT V_ADST H_ADST V_FLIPADST H_FLIPADST                                                    *)
SetTypes(inter, s) ==
  IF s = 0 THEN {0}
  ELSE IF inter THEN CASE s = 1 -> 0..15 [] s = 2 -> 0..11 [] s = 3 -> {0, 9}
  ELSE CASE s = 1 -> {9, 0, 10, 11, 3, 1, 2} [] s = 2 -> {9, 0, 3, 1, 2}
TxSet(t, inter, reduced) ==
  LET up == Max(Tw(t), Th(t))
      lo == Min(Tw(t), Th(t))
  IN IF up > 32 THEN 0
     ELSE IF inter THEN IF reduced \/ up = 32 THEN 3 ELSE IF lo = 16 THEN 2 ELSE 1
     ELSE IF up = 32 THEN 0 ELSE IF reduced \/ lo = 16 THEN 2 ELSE 1
TxClass(ty) == CASE ty \in {10, 12, 14} -> 2 [] ty \in {11, 13, 15} -> 1 [] OTHER -> 0
(* modes: DC V H D45 D135 D113 D157 D203 D67 SMOOTH SMOOTH_V SMOOTH_H PAETH CFL; vertical-ish: ADST on columns *)
ModeTx(m) == CASE m \in {1, 5, 8, 10} -> 1 [] m \in {2, 6, 7, 11} -> 2 [] m \in {4, 9, 12} -> 3 [] OTHER -> 0
(* here = type stored for the block, at = type stored at the place chroma refers to *)
TxTypeOf(plane, t, lossless, inter, reduced, uvmode, here, at) ==
  IF lossless \/ Max(Tw(t), Th(t)) > 32 THEN 0
  ELSE LET ty == IF plane = 0 THEN here ELSE IF inter THEN at ELSE ModeTx(uvmode)
       IN IF ty \in SetTypes(inter, TxSet(t, inter, reduced)) THEN ty ELSE 0

(* coefficient contexts *)
BaseOffset(t, row, col) ==
  IF Tw(t) < Th(t) /\ row < 2 THEN 11
  ELSE IF Tw(t) > Th(t) /\ col < 2 THEN 16
  ELSE IF row + col < 2 THEN 1 ELSE IF row + col < 4 THEN 6 ELSE 21
Neigh(class) == CASE class = 0 -> << <<0,1>>, <<1,0>>, <<1,1>>, <<0,2>>, <<2,0>> >>
                  [] class = 1 -> << <<0,1>>, <<1,0>>, <<0,2>>, <<0,3>>, <<0,4>> >>
                  [] class = 2 -> << <<0,1>>, <<1,0>>, <<2,0>>, <<3,0>>, <<4,0>> >>
MagNeigh(class) == CASE class = 0 -> << <<0,1>>, <<1,0>>, <<1,1>> >>
                     [] class = 1 -> << <<0,1>>, <<1,0>>, <<0,2>> >>
                     [] class = 2 -> << <<0,1>>, <<1,0>>, <<2,0>> >>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumUp(_, _, _)
SumUp(f(_), n, k) == IF k > n THEN 0 ELSE f(k) + SumUp(f, n, k + 1)
(* magnitude of quant at a neighbour, 0 outside the coded area *)
LevelAt(q, t, row, col) ==
  LET w == Tw(Adjusted(t)) h == Th(Adjusted(t))
  IN IF row >= h \/ col >= w THEN 0 ELSE Abs(q[row * w + col + 1])
(* lev(dr, dc): magnitude at an offset from the position *)
CoeffBaseOf(t, class, pos, lev(_, _)) ==
  LET w == Tw(Adjusted(t))
      row == pos \div w
      col == pos % w
      nb == Neigh(class)
      mag == SumUp(LAMBDA k : Min(lev(nb[k][1], nb[k][2]), 3), 5, 1)
      ctx == Min((mag + 1) \div 2, 4)
  IN IF class = 0 THEN (IF pos = 0 THEN 0 ELSE ctx + BaseOffset(t, row, col))
     ELSE ctx + 26 + 5 * Min(IF class = 2 THEN row ELSE col, 2)
CoeffBaseCtx(t, class, pos, q) ==
  LET w == Tw(Adjusted(t)) IN CoeffBaseOf(t, class, pos, LAMBDA a, b : LevelAt(q, t, pos \div w + a, (pos % w) + b))
CoeffEobCtx(t, c) ==
  LET n == Tw(Adjusted(t)) * Th(Adjusted(t))
  IN IF c = 0 THEN 38 ELSE IF c <= n \div 8 THEN 39 ELSE IF c <= n \div 4 THEN 40 ELSE 41
CoeffBrOf(t, class, pos, lev(_, _)) ==
  LET w == Tw(Adjusted(t))
      row == pos \div w
      col == pos % w
      nb == MagNeigh(class)
      mag == Min((SumUp(LAMBDA k : Min(lev(nb[k][1], nb[k][2]), 15), 3, 1) + 1) \div 2, 6)
  IN IF pos = 0 THEN mag
     ELSE IF (class = 0 /\ row < 2 /\ col < 2) \/ (class = 1 /\ col = 0) \/ (class = 2 /\ row = 0) THEN mag + 7
     ELSE mag + 14
=============================================================================
