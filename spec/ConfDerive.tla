----------------------------- MODULE ConfDerive -----------------------------
(* Results of the real derivations, each record over a range of arguments.   *)
EXTENDS Derive, TraceRun
CeilLog2(n) == IF n = 1 THEN 0 ELSE Log2(n - 1) + 1
B(x) == IF x THEN 1 ELSE 0
N(r) == Len(r.r)
Refs(nb, ref) == Cardinality({k \in DOMAIN nb : nb[k] = ref})
At(r, x) == (* column and row the x-th chroma block refers to *)
  LET bx == (x - 1) % r.nx
      by == (x - 1) \div r.nx
      col == Max(r.mc, IF r.sx = 1 THEN 2 * bx ELSE bx)
      row == Max(r.mr, IF r.sy = 1 THEN 2 * by ELSE by)
  IN r.g[row * 4 + col + 1]
(* what the x-th result has to be *)
Want(r, x) ==
  CASE r.k = "msb" -> Log2(r.lo + x - 1)
    [] r.k = "msbbig" -> Len(r.v) - 1
    [] r.k = "arith" ->
         (CASE r.what = "round2" -> Round2(r.x[x], r.n) [] r.what = "round2signed" -> Round2Signed(r.x[x], r.n)
           [] r.what = "abs" -> (IF r.x[x] < 0 THEN -r.x[x] ELSE r.x[x])
           [] r.what = "min" -> Min(r.x[x], r.n) [] r.what = "max" -> Max(r.x[x], r.n)
           [] r.what = "clip3" -> Clip3(r.n, r.m, r.x[x]) [] r.what = "floorlog2" -> Log2(r.x[x]))
    [] r.k = "mi" -> MiCount(r.lo + x - 1)
    [] r.k = "tiles" -> (CASE r.what = "num" -> r.c * x [] r.what = "cols" -> r.c [] r.what = "rows" -> x
                          [] r.what = "colslog2" -> CeilLog2(r.c) [] r.what = "rowslog2" -> CeilLog2(x))
    [] r.k = "dist" -> RelDist(r.a, x - 1, r.on, r.n)
    [] r.k = "backward" -> B(Backward(x - 2))
    [] r.k = "samedir" -> B(SameDir(r.a, x - 2))
    [] r.k = "countctx" -> CountCtx(r.a, x - 1)
    [] r.k = "count" -> Refs(r.above, x - 2) + Refs(r.left, x - 2)
    [] r.k = "plane" -> PlaneSize(x - 1, r.plane, r.sx, r.sy)
    [] r.k = "findtx" -> TxOf(r.w, x - 1)
    [] r.k = "btable" -> LET b == x - 1 IN
         (CASE r.what = "bw" -> Bw(b) [] r.what = "bh" -> Bh(b) [] r.what = "miwlog2" -> Log2(Bw(b)) - 2
           [] r.what = "mihlog2" -> Log2(Bh(b)) - 2 [] r.what = "n4w" -> Bw(b) \div 4 [] r.what = "n4h" -> Bh(b) \div 4
           [] r.what = "sizegroup" -> SizeGroup(b))
    [] r.k = "ttable" -> LET t == x - 1 IN
         (CASE r.what = "tw" -> Tw(t) [] r.what = "th" -> Th(t) [] r.what = "twlog2" -> Log2(Tw(t)) [] r.what = "thlog2" -> Log2(Th(t))
           [] r.what = "sqr" -> TxSqr(t) [] r.what = "sqrup" -> TxSqrUp(t) [] r.what = "adjusted" -> Adjusted(t))
    [] r.k = "subsize" -> SubSize(r.p, x - 1)
    [] r.k = "txset" -> TxSet(x - 1, r.inter, r.reduced)
    [] r.k = "inset" -> B((x - 1) \in SetTypes(r.inter, r.s))
    [] r.k = "class" -> TxClass(x - 1)
    [] r.k = "txtype" ->
         (CASE r.what = "luma" -> TxTypeOf(0, r.t, r.lossless, r.inter, r.reduced, 0, r.g[x], r.g[x])
           [] r.what = "modes" -> TxTypeOf(r.plane, r.t, r.lossless, r.inter, r.reduced, x - 1, r.g[1], r.g[1])
           [] r.what = "chroma" -> TxTypeOf(r.plane, r.t, r.lossless, r.inter, r.reduced, r.uv, r.g[r.mr * 4 + r.mc + 1], At(r, x)))
    [] r.k = "base" -> CoeffBaseCtx(r.t, TxClass(TxTypeOf(0, r.t, r.lossless, r.inter, r.reduced, 0, r.here, r.here)), r.pos[x], r.q)
    [] r.k = "eob" -> CoeffEobCtx(r.t, r.pos[x])
Size(r) == CASE r.k \in {"base", "eob"} -> Len(r.pos) [] r.k = "arith" -> Len(r.x) [] OTHER -> N(r)
Verdict(r) ==
  IF r.err # "" THEN r.k \o ": " \o r.err
  ELSE LET bad == {x \in 1..N(r) : r.r[x] # Want(r, x)}
       IN IF bad = {} /\ N(r) = Size(r) THEN ""
          ELSE LET x == CHOOSE x \in bad : \A j \in bad : x <= j
               IN r.k \o ": argument " \o ToString(x) \o " gives " \o ToString(r.r[x]) \o ", defined as " \o ToString(Want(r, x))
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
