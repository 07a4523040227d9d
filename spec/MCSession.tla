----------------------------- MODULE MCSession -----------------------------
(* Configurations of small streams: a sequence header and intra frames, the   *)
(* headers as in MCFrameHeader.tla.                                           *)
EXTENDS MCFrameHeader
NoLayer(k) == 0
SessionSeq(e, vals, d) ==
  LET n == e.n IN
  CASE n \in {"wbits", "hbits"} -> {3, 5, 6, 7}
    [] n \in {"restoration", "cdef"} -> Mostly({1}, {0})
    [] n = "sb128" -> Mostly({0}, {1})
    [] OTHER -> ChainSeqDom(e, vals, d)
SessionFrame(e, vals, d) ==
  LET n == e.n
      small == vals["sbcols"] * vals["sbrows"] <= 3
  IN
  CASE n = "existing" -> {0}
    [] n = "ftype" -> IF Usable(vals) = {} THEN {KEY} ELSE {KEY, INTRAONLY}
    [] n = "usesr" -> Mostly({0}, {1})
    [] n = "ibc" -> Mostly({0}, {1})
    [] n = "baseq" -> Mostly({1, RandomElement(2..254), 255}, {0})
    [] n = "seg" -> Mostly({1}, {0})
    [] n = "fe" -> IF e.i = 1 /\ e.j = 6 THEN Mostly({1}, {0}) ELSE IF e.i = 1 /\ e.j > 6 THEN Mostly({0}, {1}) ELSE FrameDom(e, vals, d)
    [] n = "fv" -> IF e.i = 1 /\ e.j = 6 THEN 0..7 ELSE FrameDom(e, vals, d)
    [] n = "lrtype.1" -> Mostly({1, 2, 3}, {0})
    [] n = "tsb" -> IF small THEN 0..3 ELSE 1..3
    [] n = "gapply" -> Mostly({0}, {1})
    [] OTHER -> FrameDom(e, vals, d)
=============================================================================
