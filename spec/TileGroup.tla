----------------------------- MODULE TileGroup -----------------------------
(***************************************************************************)
(* A tile group OBU: which tiles it holds, and the tiles one after the     *)
(* other, all but the last preceded by their size.                         *)
(*    tile_start_and_end_present_flag   1 bit, if there are several tiles  *)
(*    tg_start, tg_end                  if that flag is set                *)
(*    byte alignment                                                       *)
(*    tile_size_minus_1   le(size bytes), for all but the last             *)
(*    the tile's bytes                                                     *)
(* Tiles are numbered in raster order; without the flag all are there.     *)
(* g: nr, nc (tile rows and columns), sized (bytes of a size)              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt
Log2Up(n) == CHOOSE k \in 0..12 : 2^k >= n /\ (k = 0 \/ 2^(k - 1) < n)
Wide(g) == Log2Up(g.nr) + Log2Up(g.nc)
Count(g) == g.nr * g.nc
BitsOf(v, n) == [k \in 1..n |-> (v \div 2^(n - k)) % 2]
RECURSIVE Val(_, _, _, _)
Val(b, p, n, acc) == IF n = 0 THEN acc ELSE Val(b, p + 1, n - 1, 2 * acc + b[p])       \* n bits at p
Zeros(n) == [k \in 1..n |-> 0]
Up8(p) == ((p + 7) \div 8) * 8                                                       \* bits before a byte boundary, p used

(* writing: the group of tiles s..e, ts their bits (whole bytes) *)
RECURSIVE Le(_, _)
Le(v, n) == IF n = 0 THEN <<>> ELSE BitsOf(v % 256, 8) \o Le(v \div 256, n - 1)
RECURSIVE Laid(_, _, _)
Laid(g, ts, k) == IF k > Len(ts) THEN <<>>
                  ELSE (IF k < Len(ts) THEN Le((Len(ts[k]) \div 8) - 1, g.sized) ELSE <<>>) \o ts[k] \o Laid(g, ts, k + 1)
Write(g, said, s, e, ts) ==
  LET head == IF Count(g) = 1 THEN <<>> ELSE IF said THEN <<1>> \o BitsOf(s, Wide(g)) \o BitsOf(e, Wide(g)) ELSE <<0>>
  IN head \o Zeros(Up8(Len(head)) - Len(head)) \o Laid(g, ts, 1)

(* reading *)
RECURSIVE LeAt(_, _, _)
LeAt(b, p, n) == IF n = 0 THEN 0 ELSE Val(b, p, 8, 0) + 256 * LeAt(b, p + 8, n - 1)
Bad(w) == [why |-> w, s |-> 0, e |-> 0, ts |-> <<>>]
(* tiles from bit p on; n still to come *)
RECURSIVE Tiles(_, _, _, _, _, _)
Tiles(g, b, p, n, s, ts) ==
  IF n = 1 THEN IF p > Len(b) THEN Bad("the last tile is missing") ELSE [why |-> "", s |-> s, e |-> s + Len(ts), ts |-> Append(ts, SubSeq(b, p, Len(b)))]
  ELSE IF p + 8 * g.sized - 1 > Len(b) THEN Bad("a tile size is missing")
  ELSE LET big == \E k \in (8 * 3)..(8 * g.sized - 1) : b[p + k] # 0     \* beyond 3 bytes: no tile here has that size
           z == LeAt(b, p, IF g.sized > 3 THEN 3 ELSE g.sized) + 1
           q == p + 8 * g.sized
       IN IF big \/ q + 8 * z - 1 > Len(b) THEN Bad("tile " \o ToString(s + Len(ts)) \o " is said to be longer than what is there")
          ELSE Tiles(g, b, q + 8 * z, n - 1, s, Append(ts, SubSeq(b, q, q + 8 * z - 1)))
Read(g, b) ==
  IF Count(g) = 1 THEN Tiles(g, b, 1, 1, 0, <<>>)
  ELSE IF b = <<>> THEN Bad("nothing was written")
  ELSE LET said == b[1] = 1
           n == IF said THEN 1 + 2 * Wide(g) ELSE 1
           body == Up8(n)
       IN IF Len(b) < body THEN Bad("the group's numbers are missing")
          ELSE LET s == IF said THEN Val(b, 2, Wide(g), 0) ELSE 0
                   e == IF said THEN Val(b, 2 + Wide(g), Wide(g), 0) ELSE Count(g) - 1
               IN IF \E k \in (n + 1)..body : b[k] # 0 THEN Bad("alignment bits are not zero")
                  ELSE IF s > e \/ e >= Count(g) THEN Bad("the group holds tiles " \o ToString(s) \o ".." \o ToString(e) \o ", which do not exist")
                  ELSE Tiles(g, b, body + 1, e - s + 1, s, <<>>)
=============================================================================
