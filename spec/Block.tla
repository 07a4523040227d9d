-------------------------------- MODULE Block --------------------------------
(***************************************************************************)
(* Mode information of one block, decoder side: segment, skip flag, cdef   *)
(* index, quantiser and loop filter steps, references, prediction mode and *)
(* motion vectors, in the order they are coded.                            *)
(*                                                                         *)
(* e: where and how the block is coded                                     *)
(*   r, c, bs        position in 4x4 units, block size                     *)
(*   u, l, ul        blocks above, left, above left (<<>> or <<m>>)        *)
(*   pre, segon, last, feat[id + 1][feature + 1] = <<>> or <<value>>       *)
(*   lossless, encdef, ibc, bits, cdef[y + 1][x + 1] per 64x64, -1 unknown *)
(*   sb (64 or 128), deltas, q, qres, lfon, multi, lf, lfres, planes       *)
(*   refsel, fint, hp                                                      *)
(*   mv: motion vector candidates [n, stack, global, new, zero, ref, drl]  *)
(* A motion vector is <<vertical, horizontal>>.                            *)
(***************************************************************************)
EXTENDS Elements
CONSTANTS Rd(_),       \* next equiprobable bit of a reader D: [v, D]
          Sym(_, _)    \* next symbol of a named table
(* reading: s = [D: reader, f: fields found, inf: those the stream does not carry] *)
Put(s, k, v) == [s EXCEPT !.f = (k :> v) @@ @]
Infer(s, k, v) == [Put(s, k, v) EXCEPT !.inf = @ \cup {k}]
Take(s, k, name) == LET x == Sym(s.D, name) IN Put([s EXCEPT !.D = x.D], k, x.v)
Bits(s, k, n) ==
  LET f[i \in 0..n] == IF i = 0 THEN [v |-> 0, D |-> s.D] ELSE LET x == Rd(f[i - 1].D) IN [v |-> 2 * f[i - 1].v + x.v, D |-> x.D]
  IN Put([s EXCEPT !.D = f[n].D], k, f[n].v)
Nb(x, e) == Dotted(NbSet(x), <<NbCtx(x, e.u, e.l)>> \o NbTail(x))
TakeNb(s, k, e) == Take(s, k, Nb(k, e))

(* segment: the numbers 0..n-1 ordered by their distance from r, upwards first *)
Before(v, w, r) == Abs(v - r) < Abs(w - r) \/ (Abs(v - r) = Abs(w - r) /\ v > w)
Rank(v, r, n) == Cardinality({w \in 0..(n - 1) : Before(w, v, r)})
Ranked(d, r, n) == CHOOSE v \in 0..(n - 1) : Rank(v, r, n) = d
SegOf(n) == Val(n, LAMBDA m : m.seg, -1)
SegPred(e) ==
  LET u == SegOf(e.u)  l == SegOf(e.l)
  IN IF u = -1 /\ l = -1 THEN 0 ELSE IF u = -1 THEN l ELSE IF l = -1 THEN u ELSE IF SegOf(e.ul) = u THEN u ELSE l
SegId(s, e, skip) ==
  IF ~e.segon THEN Infer(s, "seg", 0)
  ELSE IF skip THEN Infer(s, "seg", SegPred(e))
  ELSE LET t == Take(s, "segd", Dotted("segment_id", <<SegCtx(SegOf(e.u), SegOf(e.l), SegOf(e.ul))>>))
       IN IF t.f.segd > e.last THEN Put(t, "seg", -1) ELSE Put(t, "seg", Ranked(t.f.segd, SegPred(e), e.last + 1))
Active(e, seg, ft) == e.segon /\ e.feat[seg + 1][ft + 1] # <<>>
RefFeature == 5  SkipFeature == 6  GlobalFeature == 7
Skip(s, e) ==
  IF e.pre /\ Active(e, s.f.seg, SkipFeature) THEN Infer(s, "skip", 1) ELSE TakeNb(s, "skip", e)

(* cdef: once per 64x64, with the first block there that is not skipped *)
CdefUnits(e) == {<<y, x>> : y \in (e.r \div 16)..((e.r \div 16) + Max(0, (Bh(e.bs) \div 64) - 1)),
                            x \in (e.c \div 16)..((e.c \div 16) + Max(0, (Bw(e.bs) \div 64) - 1))}
Cdef(s, e) ==
  IF s.f.skip = 1 \/ e.lossless \/ ~e.encdef \/ e.ibc \/ e.cdef[(e.r \div 16) + 1][(e.c \div 16) + 1] # -1 THEN s
  ELSE Bits(s, "cdef", e.bits)

(* a step of size 2^res: its magnitude as a symbol, larger ones with further bits *)
Small == 3
Step(s, k, name, from, res, lo, hi) ==
  LET a == Take(s, "abs", name)
      n == Bits(a, "rem", 3)
      w == n.f.rem + 1
      x == Bits(n, "more", w)
      big == a.f.abs = Small
      b == IF big THEN x ELSE a
      mag == IF big THEN x.f.more + 2^w + 1 ELSE a.f.abs
      sg == Bits(b, "sign", 1)
  IN IF mag = 0 THEN Put(b, k, from)
     ELSE Put(sg, k, Clip3(lo, hi, from + (IF sg.f.sign = 1 THEN -mag ELSE mag) * 2^res))
WithDeltas(s, e) == e.deltas /\ ~(Bw(e.bs) = e.sb /\ Bh(e.bs) = e.sb /\ s.f.skip = 1)
DeltaQ(s, e) == IF WithDeltas(s, e) THEN Step(s, "q", "delta_q", e.q, e.qres, 1, 255) ELSE Infer(s, "q", e.q)
LfCount(e) == IF ~e.multi THEN 1 ELSE IF e.planes > 1 THEN 4 ELSE 2
RECURSIVE DeltaLfFrom(_, _, _)
DeltaLfFrom(s, e, i) ==
  IF i > LfCount(e) THEN s
  ELSE LET x == Step(s, "lf1", IF e.multi THEN Dotted("delta_lf_multi", <<i - 1>>) ELSE "delta_lf", e.lf[i], e.lfres, -63, 63)
       IN DeltaLfFrom(Put(x, "lf", [x.f.lf EXCEPT ![i] = x.f.lf1]), e, i + 1)
DeltaLf(s, e) ==
  LET t == Put(s, "lf", e.lf) IN IF WithDeltas(s, e) /\ e.lfon THEN DeltaLfFrom(t, e, 1) ELSE Infer(t, "lf", e.lf)

IsInter(s, e) ==
  IF Active(e, s.f.seg, RefFeature) THEN Infer(s, "is_inter", Bit(e.feat[s.f.seg + 1][RefFeature + 1][1] # 0))
  ELSE IF Active(e, s.f.seg, GlobalFeature) THEN Infer(s, "is_inter", 1)
  ELSE TakeNb(s, "is_inter", e)

(* references *)
Refs(s, a, b) == Put(Put(s, "r0", a), "r1", b)
Pick(s, e, k, zero(_), one(_)) == LET t == TakeNb(s, k, e) IN IF t.f[k] = 0 THEN zero(t) ELSE one(t)
Single(s, e) ==
  Pick(s, e, "single_ref_p1",
       LAMBDA t : Pick(t, e, "single_ref_p3",
                       LAMBDA t2 : Pick(t2, e, "single_ref_p4", LAMBDA t3 : Refs(t3, LAST, -1), LAMBDA t3 : Refs(t3, LAST2, -1)),
                       LAMBDA t2 : Pick(t2, e, "single_ref_p5", LAMBDA t3 : Refs(t3, LAST3, -1), LAMBDA t3 : Refs(t3, GOLDEN, -1))),
       LAMBDA t : Pick(t, e, "single_ref_p2",
                       LAMBDA t2 : Pick(t2, e, "single_ref_p6", LAMBDA t3 : Refs(t3, BWDREF, -1), LAMBDA t3 : Refs(t3, ALTREF2, -1)),
                       LAMBDA t2 : Refs(t2, ALTREF, -1)))
Unidir(s, e) ==
  Pick(s, e, "uni_comp_ref",
       LAMBDA t : Pick(t, e, "uni_comp_ref_p1", LAMBDA t2 : Refs(t2, LAST, LAST2),
                       LAMBDA t2 : Pick(t2, e, "uni_comp_ref_p2", LAMBDA t3 : Refs(t3, LAST, LAST3), LAMBDA t3 : Refs(t3, LAST, GOLDEN))),
       LAMBDA t : Refs(t, BWDREF, ALTREF))
Second(s, e, a) ==
  Pick(s, e, "comp_bwdref",
       LAMBDA t : Pick(t, e, "comp_bwdref_p1", LAMBDA t2 : Refs(t2, a, BWDREF), LAMBDA t2 : Refs(t2, a, ALTREF2)),
       LAMBDA t : Refs(t, a, ALTREF))
Bidir(s, e) ==
  Pick(s, e, "comp_ref",
       LAMBDA t : Pick(t, e, "comp_ref_p1", LAMBDA t2 : Second(t2, e, LAST), LAMBDA t2 : Second(t2, e, LAST2)),
       LAMBDA t : Pick(t, e, "comp_ref_p2", LAMBDA t2 : Second(t2, e, LAST3), LAMBDA t2 : Second(t2, e, GOLDEN)))
RefFrames(s, e) ==
  LET inferred(r) == [Refs(s, r, -1) EXCEPT !.inf = @ \cup {"r0", "r1"}]
  IN IF Active(e, s.f.seg, RefFeature) THEN inferred(e.feat[s.f.seg + 1][RefFeature + 1][1])
     ELSE IF Active(e, s.f.seg, SkipFeature) \/ Active(e, s.f.seg, GlobalFeature) THEN inferred(LAST)
     ELSE IF e.refsel /\ Min(Bw(e.bs), Bh(e.bs)) >= 8
     THEN Pick(s, e, "comp_mode", LAMBDA t : Single(t, e),
               LAMBDA t : Pick(t, e, "comp_ref_type", LAMBDA t2 : Unidir(t2, e), LAMBDA t2 : Bidir(t2, e)))
     ELSE [Single(s, e) EXCEPT !.inf = @ \cup {"r1"}]

(* prediction modes *)
NEAREST == 14  NEAR == 15  GLOBAL == 16  FRESH == 17  NEAREST_NEAREST == 18
(* what the modes 18.. mean for each of the two references *)
PairOf == << <<NEAREST, NEAREST>>, <<NEAR, NEAR>>, <<NEAREST, FRESH>>, <<FRESH, NEAREST>>, <<NEAR, FRESH>>, <<FRESH, NEAR>>,
             <<GLOBAL, GLOBAL>>, <<FRESH, FRESH>> >>
Modes(m) == IF m < NEAREST_NEAREST THEN <<m>> ELSE PairOf[m - NEAREST_NEAREST + 1]
Mode(s, e) ==
  IF Active(e, s.f.seg, SkipFeature) \/ Active(e, s.f.seg, GlobalFeature) THEN Infer(s, "mode", GLOBAL)
  ELSE IF s.f.r1 > 0
  THEN LET t == Take(s, "pair", Dotted("compound_mode", <<CompModeMap[e.mv.ref \div 2 + 1][Min(e.mv.new, 4) + 1]>>))
       IN Put(t, "mode", NEAREST_NEAREST + t.f.pair)
  ELSE LET a == Take(s, "new_mv", Dotted("new_mv", <<e.mv.new>>))
           b == Take(a, "zero_mv", Dotted("zero_mv", <<e.mv.zero>>))
           c == Take(b, "ref_mv", Dotted("ref_mv", <<e.mv.ref>>))
       IN IF a.f.new_mv = 0 THEN Put(a, "mode", FRESH)
          ELSE IF b.f.zero_mv = 0 THEN Put(b, "mode", GLOBAL)
          ELSE Put(c, "mode", IF c.f.ref_mv = 0 THEN NEAREST ELSE NEAR)
(* which candidate: up to two flags *)
HasNear(m) == \E k \in DOMAIN Modes(m) : Modes(m)[k] = NEAR
AllNew(m) == \A k \in DOMAIN Modes(m) : Modes(m)[k] = FRESH
Drl(s, e) ==
  LET first == IF HasNear(s.f.mode) THEN 1 ELSE 0
      more(idx, t) == Take(t, "drl" \o ToString(idx), Dotted("drl_mode", <<e.mv.drl[idx + 1]>>))
      go(idx) == e.mv.n > idx + 1
      one == more(first, s)
      v1 == one.f["drl" \o ToString(first)]
      two == more(first + 1, one)
      v2 == two.f["drl" \o ToString(first + 1)]
  IN IF ~AllNew(s.f.mode) /\ ~HasNear(s.f.mode) THEN Infer(s, "idx", 0)
     ELSE IF ~go(first) THEN Infer(s, "idx", first)
     ELSE IF v1 = 0 THEN Put(one, "idx", first)
     ELSE IF ~go(first + 1) THEN Put(one, "idx", first + 1)
     ELSE Put(two, "idx", first + 1 + v2)

(* motion vectors: the difference from the prediction *)
(* e.copy: the block is copied from the same frame, its vector has tables of its own *)
MvCtx(e) == IF "copy" \in DOMAIN e THEN 1 ELSE 0
MvName(e, x, comp, tail) == Dotted(x, <<MvCtx(e), comp>> \o tail)
MvComponent(s, e, comp) ==
  LET a == Take(s, "sign", MvName(e, "mv_sign", comp, <<>>))
      b == Take(a, "class", MvName(e, "mv_class", comp, <<>>))
      n == b.f.class
      c0 == Take(b, "int", MvName(e, "mv_class0_bit", comp, <<>>))
      f[i \in 0..n] == IF i = 0 THEN Put(b, "int", 0)
                       ELSE LET t == Take(f[i - 1], "bit", MvName(e, "mv_bit", comp, <<i - 1>>))
                            IN Put(t, "int", t.f.int + t.f.bit * 2^(i - 1))
      w == IF n = 0 THEN c0 ELSE f[n]
      fr == IF e.fint THEN Put(w, "fr", 3)
            ELSE IF n = 0 THEN Take(w, "fr", MvName(e, "mv_class0_fr", comp, <<w.f.int>>)) ELSE Take(w, "fr", MvName(e, "mv_fr", comp, <<>>))
      h == IF ~e.hp THEN Put(fr, "hp", 1)
           ELSE Take(fr, "hp", MvName(e, IF n = 0 THEN "mv_class0_hp" ELSE "mv_hp", comp, <<>>))
      mag == (IF n = 0 THEN 0 ELSE 2^(n + 3)) + 8 * h.f.int + 2 * h.f.fr + h.f.hp + 1
  IN Put(h, "diff", IF a.f.sign = 1 THEN -mag ELSE mag)
Mv(s, e, pred) ==
  LET j == Take(s, "joint", Dotted("mv_joint", <<MvCtx(e)>>))
      v == IF j.f.joint >= 2 THEN MvComponent(j, e, 0) ELSE Put(j, "diff", 0)
      h == IF j.f.joint \in {1, 3} THEN MvComponent(v, e, 1) ELSE Put(v, "diff", 0)
  IN Put(h, "mv", <<pred[1] + v.f.diff, pred[2] + h.f.diff>>)
(* k-th reference *)
Predicted(s, e, k) ==
  LET m == Modes(s.f.mode)[k]
  IN IF m = GLOBAL THEN e.mv.global[k]
     ELSE e.mv.stack[(IF m = NEAREST \/ (m = FRESH /\ e.mv.n <= 1) THEN 0 ELSE s.f.idx) + 1][k]
MvOf(s, e, k) ==
  LET p == Predicted(s, e, k)
  IN IF Modes(s.f.mode)[k] = FRESH THEN Mv(s, e, p) ELSE Put(s, "mv", p)
Mvs(s, e) ==
  LET a == MvOf(s, e, 1)
      b == MvOf(a, e, 2)
  IN IF s.f.r1 > 0 THEN Put(b, "mvs", <<a.f.mv, b.f.mv>>) ELSE Put(a, "mvs", <<a.f.mv>>)

(* up to the references; then, of an inter block, mode and motion vectors *)
(* vectors of blocks copied from the same frame: predicted by the first nonzero candidate, *)
(* else by a place that is decoded already: a superblock above, or in the first row of     *)
(* superblocks of the tile far enough to the left                                          *)
CopyFrom(e) ==
  LET nonzero == {k \in {1, 2} : e.mv.stack[k][1] # <<0, 0>>}
      first == IF 1 \in nonzero THEN 1 ELSE 2
  IN IF nonzero # {} THEN e.mv.stack[first][1]
     ELSE IF e.r - (e.sb \div 4) < e.tile[1] THEN <<0, -8 * (e.sb + 256)>>
     ELSE <<-8 * e.sb, 0>>
Copied(D, e) == Mv([D |-> D, f |-> [k \in {} |-> 0], inf |-> {}], e, CopyFrom(e))

ReadHead(D, e) ==
  LET s0 == [D |-> D, f |-> [lf |-> e.lf], inf |-> {}]
      s1 == IF e.pre THEN SegId(s0, e, FALSE) ELSE s0
      s2 == Skip(s1, e)
      s3 == IF e.pre THEN s2 ELSE SegId(s2, e, s2.f.skip = 1)
      s4 == Cdef(s3, e)
      s5 == DeltaQ(s4, e)
      s6 == DeltaLf(s5, e)
      s7 == IsInter(s6, e)
      none == Put(Put(s3, "seg", -1), "is_inter", 0)
  IN IF s3.f.seg < 0 \/ (e.pre /\ s1.f.seg < 0) THEN none ELSE IF s7.f.is_inter = 0 THEN s7 ELSE RefFrames(s7, e)
ReadTail(s, e) == IF s.f.is_inter = 0 THEN s ELSE Mvs(Drl(Mode(s, e), e), e)
Read(D, e) == ReadTail(ReadHead(D, e), e)

-----------------------------------------------------------------------------
(* The same as a writer, for the laws: the elements as <<table, value>>, the empty name for single bits. *)
Raw(v, n) == [i \in 1..n |-> <<"", (v \div 2^(n - i)) % 2>>]
WStep(name, from, to, res) ==
  LET d == (to - from) \div 2^res
      m == Abs(d)
      w == Log2(m - 1)
  IN (IF m < Small THEN << <<name, m>> >> ELSE << <<name, Small>> >> \o Raw(w - 1, 3) \o Raw(m - 1 - 2^w, w))
     \o (IF m = 0 THEN <<>> ELSE << <<"", Bit(d < 0)>> >>)
WComponent(e, comp, d) ==
  LET m == Abs(d) - 1
      n == IF m < 16 THEN 0 ELSE Log2(m) - 3
      x == IF n = 0 THEN m ELSE m - 2^(n + 3)
      fr == IF e.fint THEN <<>> ELSE << <<MvName(e, IF n = 0 THEN "mv_class0_fr" ELSE "mv_fr", comp, IF n = 0 THEN <<x \div 8>> ELSE <<>>), (x \div 2) % 4>> >>
      hp == IF e.hp THEN << <<MvName(e, IF n = 0 THEN "mv_class0_hp" ELSE "mv_hp", comp, <<>>), x % 2>> >> ELSE <<>>
  IN << <<MvName(e, "mv_sign", comp, <<>>), Bit(d < 0)>>, <<MvName(e, "mv_class", comp, <<>>), n>> >>
     \o (IF n = 0 THEN << <<MvName(e, "mv_class0_bit", comp, <<>>), x \div 8>> >>
         ELSE [i \in 1..n |-> <<MvName(e, "mv_bit", comp, <<i - 1>>), (x \div 2^(i + 2)) % 2>>])
     \o fr \o hp
WMv(e, d) ==
  << <<Dotted("mv_joint", <<MvCtx(e)>>), 2 * Bit(d[1] # 0) + Bit(d[2] # 0)>> >>
  \o (IF d[1] # 0 THEN WComponent(e, 0, d[1]) ELSE <<>>) \o (IF d[2] # 0 THEN WComponent(e, 1, d[2]) ELSE <<>>)
(* differences that can be coded *)
Unit(e) == IF e.fint THEN 8 ELSE IF e.hp THEN 1 ELSE 2
=============================================================================
