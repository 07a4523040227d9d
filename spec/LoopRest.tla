------------------------------ MODULE LoopRest ------------------------------
(***************************************************************************)
(* Loop restoration units: which units a superblock carries and how their  *)
(* parameters are coded (decoder side).                                    *)
(*                                                                         *)
(* Restoration types: 0 none, 1 Wiener, 2 self-guided, 3 (frame only) the  *)
(* type is chosen per unit.                                                *)
(***************************************************************************)
EXTENDS Derive
CONSTANTS Rd(_),       \* next equiprobable bit of a reader D: [v, D]
          Sym(_, _)    \* next symbol of a named table

RECURSIVE Lit(_, _, _)
Lit(D, n, acc) == IF n = 0 THEN [v |-> acc, D |-> D] ELSE LET x == Rd(D) IN Lit(x.D, n - 1, 2 * acc + x.v)
(* one of n values, the first ones one bit shorter *)
NonSym(D, n) ==
  LET w == Log2(n) + 1
      m == 2^w - n
      x == Lit(D, w - 1, 0)
  IN IF x.v < m THEN x ELSE LET y == Rd(x.D) IN [v |-> 2 * x.v - m + y.v, D |-> y.D]
(* one of n values, in classes that double from the third on *)
RECURSIVE Class(_, _, _, _, _)
Class(D, n, k, i, low) ==
  LET b == IF i > 0 THEN k + i - 1 ELSE k
      a == 2^b
  IN IF n <= low + 3 * a THEN LET x == NonSym(D, n - low) IN [v |-> x.v + low, D |-> x.D]
     ELSE LET more == Rd(D) IN
          IF more.v = 1 THEN Class(more.D, n, k, i + 1, low + a)
          ELSE LET x == Lit(more.D, b, 0) IN [v |-> x.v + low, D |-> x.D]
(* numbers ordered by distance from r: r, r-1, r+1, r-2 ... then upwards *)
Uncenter(r, v) == IF v > 2 * r THEN v ELSE IF v % 2 = 1 THEN r - ((v + 1) \div 2) ELSE r + (v \div 2)
Near(D, n, k, r) ==
  LET x == Class(D, n, k, 0, 0)
  IN [x EXCEPT !.v = IF 2 * r <= n THEN Uncenter(r, @) ELSE (n - 1) - Uncenter((n - 1) - r, @)]
(* a number in lo..hi, given a prediction *)
Param(D, lo, hi, k, pred) == LET x == Near(D, (hi - lo) + 1, k, pred - lo) IN [x EXCEPT !.v = @ + lo]

(* the same as a writer, for the laws *)
Center(r, v) == IF v > 2 * r THEN v ELSE IF v >= r THEN 2 * (v - r) ELSE 2 * (r - v) - 1
RECURSIVE Bin(_, _)
Bin(v, n) == IF n = 0 THEN <<>> ELSE Bin(v \div 2, n - 1) \o <<v % 2>>
WNonSym(v, n) == LET w == Log2(n) + 1
                     m == 2^w - n
                 IN IF v < m THEN Bin(v, w - 1) ELSE Bin((v + m) \div 2, w - 1) \o <<(v + m) % 2>>
RECURSIVE WClass(_, _, _, _, _)
WClass(v, n, k, i, low) ==
  LET b == IF i > 0 THEN k + i - 1 ELSE k
      a == 2^b
  IN IF n <= low + 3 * a THEN WNonSym(v - low, n - low)
     ELSE IF v - low < a THEN <<0>> \o Bin(v - low, b) ELSE <<1>> \o WClass(v, n, k, i + 1, low + a)
WNear(v, n, k, r) == WClass(IF 2 * r <= n THEN Center(r, v) ELSE Center((n - 1) - r, (n - 1) - v), n, k, 0, 0)

-----------------------------------------------------------------------------
(* the parameters *)
WLo == <<-5, -23, -17>>  WHi == <<10, 8, 46>>  WK == <<1, 2, 3>>
SLo == <<-96, -32>>      SHi == <<31, 95>>     SK == 4
(* sets of the self-guided filter that lack the first / the second pass *)
NoFirst == 10..13
NoSecond == {14, 15}

RECURSIVE Wiener(_, _, _)
(* coefficients still to read of one filter: got so far, prediction *)
Wiener(D, pred, got) ==
  LET j == Len(got) + 1 IN
  IF j = 4 THEN [v |-> got, D |-> D]
  ELSE LET x == Param(D, WLo[j], WHi[j], WK[j], pred[j]) IN Wiener(x.D, pred, Append(got, x.v))
(* chroma filters have no outermost coefficient; its prediction stays *)
WienerUnit(D, plane, ref) ==
  LET start == IF plane > 0 THEN <<0>> ELSE <<>>
      p1 == Wiener(D, ref[1], start)
      p2 == Wiener(p1.D, ref[2], start)
      keep(k, v) == IF plane > 0 THEN <<ref[k][1], v[2], v[3]>> ELSE v
  IN [v |-> <<p1.v, p2.v>>, ref |-> <<keep(1, p1.v), keep(2, p2.v)>>, D |-> p2.D]
SelfGuided(D, ref) ==
  LET set == Lit(D, 4, 0)
      one == IF set.v \in NoFirst THEN [v |-> 0, D |-> set.D] ELSE Param(set.D, SLo[1], SHi[1], SK, ref[1])
      two == IF set.v \in NoSecond THEN [v |-> Clip3(SLo[2], SHi[2], 128 - one.v), D |-> one.D]
             ELSE Param(one.D, SLo[2], SHi[2], SK, ref[2])
  IN [set |-> set.v, v |-> <<one.v, two.v>>, D |-> two.D]
(* a unit of a plane: its type, parameters, the predictions after it (w, s) *)
Unit(D, plane, frameType, w, s) ==
  LET ty == CASE frameType = 1 -> Sym(D, "use_wiener")
              [] frameType = 2 -> LET x == Sym(D, "use_sgrproj") IN [x EXCEPT !.v = 2 * @]
              [] frameType = 3 -> Sym(D, "restoration_type")
  IN IF ty.v = 0 THEN [u |-> [type |-> 0], w |-> w, s |-> s, D |-> ty.D]
     ELSE IF ty.v = 1 THEN LET x == WienerUnit(ty.D, plane, w)
                           IN [u |-> [type |-> 1, w |-> x.v], w |-> x.ref, s |-> s, D |-> x.D]
     ELSE LET x == SelfGuided(ty.D, s) IN [u |-> [type |-> 2, set |-> x.set, s |-> x.v], w |-> w, s |-> x.v, D |-> x.D]

-----------------------------------------------------------------------------
(* Geometry.  f: [w: width after upscaling, h, sx, sy, sup, den], q: size of a plane's units. *)
CountUnits(size, samples) == Max((samples + (size \div 2)) \div size, 1)
UnitRows(f, plane, q) == CountUnits(q, Round2(f.h, IF plane > 0 THEN f.sy ELSE 0))
UnitCols(f, plane, q) == CountUnits(q, Round2(f.w, IF plane > 0 THEN f.sx ELSE 0))
CeilDiv(x, y) == (x + y - 1) \div y
(* first unit that starts at or behind 4x4 row / column p: those from the superblock's own position up to *)
(* the next superblock's are its own                                                                       *)
RowAt(f, plane, q, p) == CeilDiv(p * (4 \div 2^(IF plane > 0 THEN f.sy ELSE 0)), q)
ColAt(f, plane, q, p) ==
  LET m == 4 \div 2^(IF plane > 0 THEN f.sx ELSE 0)
  IN IF f.sup THEN CeilDiv(p * m * f.den, q * 8) ELSE CeilDiv(p * m, q)
UnitsIn(f, plane, q, r, c, n) ==
  [r0 |-> RowAt(f, plane, q, r), r1 |-> Min(UnitRows(f, plane, q), RowAt(f, plane, q, r + n)),
   c0 |-> ColAt(f, plane, q, c), c1 |-> Min(UnitCols(f, plane, q), ColAt(f, plane, q, c + n))]
=============================================================================
