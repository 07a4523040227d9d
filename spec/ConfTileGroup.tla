--------------------------- MODULE ConfTileGroup ---------------------------
(* Tile group OBUs of the real encoder.  r.tiles: the tiles the group should *)
(* hold, each coded on its own.                                              *)
EXTENDS TileGroup, TraceRun
Verdict(r) ==
  IF r.err # "" THEN "the encoder failed: " \o r.err
  ELSE LET g == [nr |-> r.nr, nc |-> r.nc, sized |-> r.sized]
           n == Len(r.before)
           x == Read(g, SubSeq(r.bits, n + 1, Len(r.bits)))
           s == IF r.said /\ Count(g) > 1 THEN r.start ELSE 0
           e == IF r.said /\ Count(g) > 1 THEN r.end ELSE Count(g) - 1
       IN IF Len(r.bits) < n \/ SubSeq(r.bits, 1, n) # r.before THEN "what was written before was changed"
          ELSE IF x.why # "" THEN x.why
          ELSE IF x.s # s \/ x.e # e THEN "the group says it holds tiles " \o ToString(x.s) \o ".." \o ToString(x.e) \o " instead of " \o ToString(s) \o ".." \o ToString(e)
          ELSE IF \E k \in DOMAIN x.ts : x.ts[k] # r.tiles[k]
               THEN "tile " \o ToString(s + (CHOOSE k \in DOMAIN x.ts : x.ts[k] # r.tiles[k]) - 1) \o " of the group is not the tile coded on its own"
          ELSE IF r.seen1 # (IF e = Count(g) - 1 THEN FALSE ELSE r.seen) THEN "the frame counts as " \o (IF r.seen1 THEN "unfinished" ELSE "finished") \o " after tile " \o ToString(e) \o " of " \o ToString(Count(g))
          ELSE ""
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
