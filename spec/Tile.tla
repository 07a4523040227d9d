-------------------------------- MODULE Tile --------------------------------
(***************************************************************************)
(* A tile, decoder side: superblocks in raster order, each with its loop   *)
(* restoration units and a tree of partitions whose leaves are blocks      *)
(* (Block.tla) with motion vectors predicted from those decoded before     *)
(* (MvStack.tla).                                                          *)
(*                                                                         *)
(* f: rows, cols, tile <<row start, end, column start, end>>, sb, planes,  *)
(*    sx, sy (booleans), what Block.tla and MvStack.tla need of the frame, *)
(*    dq (quantiser steps present), q0                                     *)
(*    gm[ref]: global motion [t, p]; field[ref][y][x]: motion field, <<>>  *)
(*    or <<mv>>, per 8x8                                                   *)
(*    lr: [f, types, sizes] as LoopRest.tla has them                       *)
(* st: D, mis (grid of <<>> or <<m>>), cdef, q, lf, deltas, w, s (predicted*)
(*    restoration parameters), units (decoded), n (blocks), area (in the   *)
(*    frame, 4x4 units)                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Rd(_), Sym(_, _), SymT(_, _), TableOf(_, _)
BK == INSTANCE Block
MS == INSTANCE MvStack
LR == INSTANCE LoopRest

(* partitions: where the blocks of each lie, in 4x4 units, for a square of n *)
NONE == 0  HORZ == 1  VERT == 2  SPLIT == 3  HORZ_A == 4  HORZ_B == 5  VERT_A == 6  VERT_B == 7  HORZ_4 == 8  VERT_4 == 9
Parts(p, n) ==
  LET h == n \div 2
      k == n \div 4
      b(y, x, hh, ww) == [y |-> y, x |-> x, h |-> hh, w |-> ww]
  IN CASE p = NONE   -> << b(0, 0, n, n) >>
       [] p = HORZ   -> << b(0, 0, h, n), b(h, 0, h, n) >>
       [] p = VERT   -> << b(0, 0, n, h), b(0, h, n, h) >>
       [] p = SPLIT  -> << b(0, 0, h, h), b(0, h, h, h), b(h, 0, h, h), b(h, h, h, h) >>
       [] p = HORZ_A -> << b(0, 0, h, h), b(0, h, h, h), b(h, 0, h, n) >>
       [] p = HORZ_B -> << b(0, 0, h, n), b(h, 0, h, h), b(h, h, h, h) >>
       [] p = VERT_A -> << b(0, 0, h, h), b(h, 0, h, h), b(0, h, n, h) >>
       [] p = VERT_B -> << b(0, 0, n, h), b(0, h, h, h), b(h, h, h, h) >>
       [] p = HORZ_4 -> << b(0, 0, k, n), b(k, 0, k, n), b(2 * k, 0, k, n), b(3 * k, 0, k, n) >>
       [] p = VERT_4 -> << b(0, 0, n, k), b(0, k, n, k), b(0, 2 * k, n, k), b(0, 3 * k, n, k) >>
SizeOf(h, w) == CHOOSE z \in 0..21 : BK!Bw(z) = 4 * w /\ BK!Bh(z) = 4 * h
Allowed(n) == IF n = 2 THEN 0..3 ELSE IF n = 32 THEN 0..7 ELSE 0..9

Inside(f, y, x) == y >= f.tile[1] /\ y < f.tile[2] /\ x >= f.tile[3] /\ x < f.tile[4]
Cell(f, st, y, x) == IF Inside(f, y, x) THEN st.mis[y + 1][x + 1] ELSE <<>>
Narrower(cell, n) == cell # <<>> /\ BK!Bw(cell[1].bs) < 4 * n
Lower(cell, n) == cell # <<>> /\ BK!Bh(cell[1].bs) < 4 * n
(* which partition a square of n units at r, c has: [p, D] *)
Chosen(f, st, r, c, n) ==
  LET bs == SizeOf(n, n)
      below == r + (n \div 2) < f.rows
      right == c + (n \div 2) < f.cols
      ctx == 2 * BK!Bit(Lower(Cell(f, st, r, c - 1), n)) + BK!Bit(Narrower(Cell(f, st, r - 1, c), n))
      name == BK!Dotted(BK!PartSet(bs), <<ctx>>)
      two(e, one) == LET x == SymT(st.D, BK!SplitTable([e |-> e, bs |-> bs, tab |-> TableOf(st.D, name)]))
                     IN [p |-> IF x.v = 1 THEN SPLIT ELSE one, D |-> x.D]
  IN IF n < 2 THEN [p |-> NONE, D |-> st.D]
     ELSE IF below /\ right THEN LET x == Sym(st.D, name) IN [p |-> x.v, D |-> x.D]
     ELSE IF right THEN two("split_or_horz", HORZ)
     ELSE IF below THEN two("split_or_vert", VERT)
     ELSE [p |-> SPLIT, D |-> st.D]

(* motion vector candidates of a block, from the blocks decoded so far *)
Field(f, ref, y, x) == IF ref < 1 \/ f.field = <<>> THEN <<>> ELSE IF y >= Len(f.field[ref]) \/ x >= Len(f.field[ref][1]) THEN <<>> ELSE f.field[ref][y + 1][x + 1]
Candidates(f, st, r, c, bs, refs) ==
  LET w4 == BK!Bw(bs) \div 4
      h4 == BK!Bh(bs) \div 4
      sw == MS!Sample(w4)
      sh == MS!Sample(h4)
      nw == (BK!Min(w4, 16) + sw - 1) \div sw
      nh == (BK!Min(h4, 16) + sh - 1) \div sh
      at(k) == [y |-> MS!Odd(r + ((k - 1) \div nw) * sh) \div 2, x |-> MS!Odd(c + ((k - 1) % nw) * sw) \div 2]
      e == [r |-> r, c |-> c, bs |-> bs, refs |-> refs, f |-> f,
            above |-> [k \in 1..w4 |-> Cell(f, st, r - 1, c + k - 1)],
            left |-> [k \in 1..h4 |-> Cell(f, st, r + k - 1, c - 1)],
            corner |-> Cell(f, st, r - 1, c + w4),
            tpl |-> [k \in 1..(nw * nh) |-> <<Field(f, refs[1], at(k).y, at(k).x), Field(f, refs[2], at(k).y, at(k).x)>>],
            gm |-> <<f.gm[refs[1]], IF refs[2] > 0 THEN f.gm[refs[2]] ELSE f.gm[1]>>]
      d == MS!Candidates(e)
  IN [n |-> Len(d.l), stack |-> [k \in 1..8 |-> MS!At(d, k)], global |-> d.global,
      new |-> 0, zero |-> d.zero, ref |-> 0, drl |-> <<0, 0, 0, 0>>]

Grid(m, r, c, h, w, v) == [y \in DOMAIN m |-> IF y > r /\ y <= r + h THEN [x \in DOMAIN m[y] |-> IF x > c /\ x <= c + w THEN v ELSE m[y][x]] ELSE m[y]]
Block(f, st, r, c, bs) ==
  LET e == [r |-> r, c |-> c, bs |-> bs, u |-> Cell(f, st, r - 1, c), l |-> Cell(f, st, r, c - 1),
            ul |-> IF Inside(f, r - 1, c) /\ Inside(f, r, c - 1) THEN Cell(f, st, r - 1, c - 1) ELSE <<>>,
            deltas |-> st.deltas, q |-> st.q, lf |-> st.lf, cdef |-> st.cdef] @@ f
      h == BK!ReadHead(st.D, e)
      inter == h.f.is_inter = 1
      x == IF inter THEN BK!ReadTail(h, [mv |-> Candidates(f, st, r, c, bs, <<h.f.r0, h.f.r1>>)] @@ e) ELSE h
      zero == <<0, 0>>
      m == IF inter THEN [bs |-> bs, inter |-> TRUE, skip |-> x.f.skip = 1, r0 |-> x.f.r0, r1 |-> x.f.r1, seg |-> x.f.seg, mode |-> x.f.mode,
                          mv |-> IF x.f.r1 > 0 THEN x.f.mvs ELSE <<x.f.mvs[1], zero>>]
           ELSE [bs |-> bs, inter |-> FALSE, skip |-> x.f.skip = 1, r0 |-> 0, r1 |-> -1, seg |-> x.f.seg, mode |-> 0, mv |-> <<zero, zero>>]
      units == BK!CdefUnits(e)
  IN IF x.f.seg < 0 THEN [st EXCEPT !.why = "block " \o ToString(r) \o "," \o ToString(c) \o " has a segment that does not exist"]
     ELSE [st EXCEPT !.D = x.D, !.q = x.f.q, !.lf = x.f.lf, !.deltas = FALSE, !.n = @ + 1,
           !.area = @ + BK!Min(BK!Bh(bs) \div 4, f.rows - r) * BK!Min(BK!Bw(bs) \div 4, f.cols - c),
           !.mis = Grid(@, r, c, BK!Bh(bs) \div 4, BK!Bw(bs) \div 4, <<m>>),
           !.cdef = IF "cdef" \in DOMAIN x.f
                    THEN [y \in DOMAIN @ |-> [k \in DOMAIN @[y] |-> IF <<y - 1, k - 1>> \in units THEN x.f.cdef ELSE @[y][k]]]
                    ELSE @]
RECURSIVE Square(_, _, _, _, _)
Square(f, st, r, c, n) ==
  IF st.why # "" \/ r >= f.rows \/ c >= f.cols THEN st
  ELSE LET ch == Chosen(f, st, r, c, n)
           s0 == [st EXCEPT !.D = ch.D]
           one(s, b) == IF s.why # "" THEN s
                        ELSE IF ch.p = SPLIT THEN Square(f, s, r + b.y, c + b.x, b.h)
                        ELSE IF r + b.y >= f.rows \/ c + b.x >= f.cols THEN s
                        ELSE Block(f, s, r + b.y, c + b.x, SizeOf(b.h, b.w))
       IN IF n >= 2 /\ ch.p \notin Allowed(n) THEN [st EXCEPT !.why = "a partition that does not exist"]
          ELSE FoldLeft(one, s0, Parts(ch.p, n))

(* restoration units of a superblock: plane, place in the superblock, place in the frame *)
Places(f, r, c) ==
  LET n == f.sb \div 4
      of(p) == LET g == LR!UnitsIn(f.lr.f, p, f.lr.sizes[p + 1], r, c, n)
                   nr == IF g.r1 > g.r0 THEN g.r1 - g.r0 ELSE 0
                   nc == IF g.c1 > g.c0 THEN g.c1 - g.c0 ELSE 0
               IN [k \in 1..(nr * nc) |-> [p |-> p, r |-> r, c |-> c, dy |-> (k - 1) \div nc, dx |-> (k - 1) % nc, y |-> g.r0 + ((k - 1) \div nc), x |-> g.c0 + ((k - 1) % nc)]]
      used(p) == p < f.planes /\ f.lr.types[p + 1] # 0 /\ ~f.ibc
  IN (IF used(0) THEN of(0) ELSE <<>>) \o (IF used(1) THEN of(1) ELSE <<>>) \o (IF used(2) THEN of(2) ELSE <<>>)
RestUnit(f, st, l) ==
  LET x == LR!Unit(st.D, l.p, f.lr.types[l.p + 1], st.w[l.p + 1], st.s[l.p + 1])
  IN [st EXCEPT !.D = x.D, !.w = [@ EXCEPT ![l.p + 1] = x.w], !.s = [@ EXCEPT ![l.p + 1] = x.s], !.units = Append(@, <<l, x.u>>)]
(* a decoded restoration unit is the one given, as far as it matters *)
Same(p, got, given) ==
  /\ got.type = given.type
  /\ got.type = 1 => \A k \in {1, 2}, j \in 1..3 : got.w[k][j] = (IF p > 0 /\ j = 1 THEN 0 ELSE given.w[k][j])
  /\ got.type = 2 => /\ got.set = given.set
                     /\ got.set \notin LR!NoFirst => got.s[1] = given.s[1]
                     /\ got.set \notin LR!NoSecond => got.s[2] = given.s[2]
Superblock(f, st, r, c) ==
  IF st.why # "" THEN st
  ELSE LET k == f.sb \div 64
           clear == {<<(r \div 16) + y, (c \div 16) + x>> : y, x \in 0..(k - 1)}
           s0 == [st EXCEPT !.deltas = f.dq,
                  !.cdef = [y \in DOMAIN @ |-> [x \in DOMAIN @[y] |-> IF <<y - 1, x - 1>> \in clear THEN -1 ELSE @[y][x]]]]
           s1 == FoldLeft(LAMBDA s, l : RestUnit(f, s, l), s0, Places(f, r, c))
       IN Square(f, s1, r, c, f.sb \div 4)
WienerMid == <<3, -7, 15>>  GuidedMid == <<-32, 31>>
Start(f, D, cdef) ==
  [D |-> D, mis |-> [y \in 1..f.rows |-> [x \in 1..f.cols |-> <<>>]], cdef |-> cdef, q |-> f.q0, lf |-> <<0, 0, 0, 0>>, deltas |-> FALSE,
   w |-> [p \in 1..3 |-> <<WienerMid, WienerMid>>], s |-> [p \in 1..3 |-> GuidedMid], units |-> <<>>, n |-> 0, area |-> 0, why |-> ""]
Corners(f) ==
  LET n == f.sb \div 4
      nr == (f.tile[2] - f.tile[1] + n - 1) \div n
      nc == (f.tile[4] - f.tile[3] + n - 1) \div n
  IN [k \in 1..(nr * nc) |-> <<f.tile[1] + ((k - 1) \div nc) * n, f.tile[3] + ((k - 1) % nc) * n>>]
Tile(f, D, cdef) == FoldLeft(LAMBDA s, p : Superblock(f, s, p[1], p[2]), Start(f, D, cdef), Corners(f))
=============================================================================
