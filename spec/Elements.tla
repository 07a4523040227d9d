------------------------------ MODULE Elements ------------------------------
(***************************************************************************)
(* Block-level syntax elements: which probability table codes an element,  *)
(* given its parameters and the blocks above and to the left, and which    *)
(* symbol of that table stands for the value.                              *)
(*                                                                         *)
(* A neighbour is <<>> (not available) or <<m>>, m its mode info.  A       *)
(* reference r is -1 none, 0 intra, 1..4 forward, 5..7 backward.           *)
(***************************************************************************)
EXTENDS Derive, TLC
Av(n) == n # <<>>
Val(n, f(_), other) == IF Av(n) THEN f(n[1]) ELSE other
Bit(x) == IF x THEN 1 ELSE 0
(* what the reference pair says about a neighbour *)
IsIntra(m) == m.r0 <= 0
IsSingle(m) == m.r1 <= 0
IsComp(n) == Av(n) /\ ~IsIntra(n[1]) /\ ~IsSingle(n[1])
UniComp(n) == IsComp(n) /\ SameDir(n[1].r0, n[1].r1)
Count(u, l, refs) ==
  LET one(n) == IF Av(n) THEN Bit(n[1].r0 \in refs) + Bit(n[1].r1 \in refs) ELSE 0 IN one(u) + one(l)
Versus(u, l, a, b) == CountCtx(Count(u, l, a), Count(u, l, b))
LAST == 1  LAST2 == 2  LAST3 == 3  GOLDEN == 4  BWDREF == 5  ALTREF2 == 6  ALTREF == 7
Fwd == {LAST, LAST2, LAST3, GOLDEN}
Bwd == {BWDREF, ALTREF2, ALTREF}

CompModeCtx(u, l) ==
  LET bk(n) == Backward(n[1].r0) IN
  IF Av(u) /\ Av(l) THEN
    IF IsSingle(u[1]) /\ IsSingle(l[1]) THEN Bit(bk(u) # bk(l))
    ELSE IF IsSingle(u[1]) THEN 2 + Bit(bk(u) \/ IsIntra(u[1]))
    ELSE IF IsSingle(l[1]) THEN 2 + Bit(bk(l) \/ IsIntra(l[1]))
    ELSE 4
  ELSE IF ~Av(u) /\ ~Av(l) THEN 1
  ELSE LET n == IF Av(u) THEN u ELSE l IN IF IsSingle(n[1]) THEN Bit(bk(n)) ELSE 3
IsInterCtx(u, l) ==
  IF Av(u) /\ Av(l) THEN IF IsIntra(u[1]) /\ IsIntra(l[1]) THEN 3 ELSE Bit(IsIntra(u[1]) \/ IsIntra(l[1]))
  ELSE IF Av(u) THEN 2 * Bit(IsIntra(u[1])) ELSE IF Av(l) THEN 2 * Bit(IsIntra(l[1])) ELSE 0
CompRefTypeCtx(u, l) ==
  IF Av(u) /\ Av(l) /\ ~IsIntra(u[1]) /\ ~IsIntra(l[1]) THEN
    LET same == Bit(SameDir(u[1].r0, l[1].r0)) IN
    IF ~IsComp(u) /\ ~IsComp(l) THEN 1 + 2 * same
    ELSE IF ~IsComp(u) THEN (IF UniComp(l) THEN 3 + same ELSE 1)
    ELSE IF ~IsComp(l) THEN (IF UniComp(u) THEN 3 + same ELSE 1)
    ELSE IF ~UniComp(u) /\ ~UniComp(l) THEN 0
    ELSE IF ~UniComp(u) \/ ~UniComp(l) THEN 2
    ELSE 3 + Bit((u[1].r0 = BWDREF) = (l[1].r0 = BWDREF))
  ELSE IF Av(u) /\ Av(l) THEN
    IF IsComp(u) THEN 1 + 2 * Bit(UniComp(u)) ELSE IF IsComp(l) THEN 1 + 2 * Bit(UniComp(l)) ELSE 2
  ELSE IF IsComp(u) THEN 4 * Bit(UniComp(u)) ELSE IF IsComp(l) THEN 4 * Bit(UniComp(l)) ELSE 2
GroupIdx(m) == IF ~IsSingle(m) THEN m.cg ELSE IF m.r0 = ALTREF THEN 3 ELSE 0
CompIdx(m) == IF ~IsSingle(m) THEN m.ci ELSE IF m.r0 = ALTREF THEN 1 ELSE 0

(* elements chosen by the two neighbours alone: name of the table set, the context, and what follows it *)
NbElements == {"comp_mode", "skip_mode", "skip", "comp_ref", "comp_ref_p1", "comp_ref_p2", "comp_bwdref", "comp_bwdref_p1",
  "single_ref_p1", "single_ref_p2", "single_ref_p3", "single_ref_p4", "single_ref_p5", "single_ref_p6", "comp_ref_type",
  "uni_comp_ref", "uni_comp_ref_p1", "uni_comp_ref_p2", "comp_group_idx", "is_inter", "seg_id_predicted"}
RefElements == NbElements \ {"skip_mode", "skip", "seg_id_predicted"}
NbCtx(e, u, l) ==
  CASE e = "comp_mode" -> CompModeCtx(u, l)
    [] e = "is_inter" -> IsInterCtx(u, l)
    [] e = "comp_ref_type" -> CompRefTypeCtx(u, l)
    [] e = "skip_mode" -> Val(u, LAMBDA m : m.sm, 0) + Val(l, LAMBDA m : m.sm, 0)
    [] e = "skip" -> Val(u, LAMBDA m : Bit(m.skip), 0) + Val(l, LAMBDA m : Bit(m.skip), 0)
    [] e = "seg_id_predicted" -> Val(u, LAMBDA m : m.sp, 0) + Val(l, LAMBDA m : m.sp, 0)
    [] e = "comp_group_idx" -> Min(5, Val(u, GroupIdx, 0) + Val(l, GroupIdx, 0))
    [] e \in {"comp_ref", "single_ref_p3"} -> Versus(u, l, {LAST, LAST2}, {LAST3, GOLDEN})
    [] e \in {"comp_ref_p1", "single_ref_p4"} -> Versus(u, l, {LAST}, {LAST2})
    [] e \in {"comp_ref_p2", "single_ref_p5", "uni_comp_ref_p2"} -> Versus(u, l, {LAST3}, {GOLDEN})
    [] e \in {"comp_bwdref", "single_ref_p2"} -> Versus(u, l, {BWDREF, ALTREF2}, {ALTREF})
    [] e \in {"comp_bwdref_p1", "single_ref_p6"} -> Versus(u, l, {BWDREF}, {ALTREF2})
    [] e \in {"single_ref_p1", "uni_comp_ref"} -> Versus(u, l, Fwd, Bwd)
    [] e = "uni_comp_ref_p1" -> Versus(u, l, {LAST2}, {LAST3, GOLDEN})
NbContexts(e) == CASE e \in {"comp_mode", "comp_ref_type"} -> 5 [] e = "is_inter" -> 4 [] e = "comp_group_idx" -> 6 [] OTHER -> 3
NbSet(e) ==
  CASE e \in {"comp_ref", "comp_ref_p1", "comp_ref_p2"} -> "comp_ref"
    [] e \in {"comp_bwdref", "comp_bwdref_p1"} -> "comp_bwd_ref"
    [] e \in {"uni_comp_ref", "uni_comp_ref_p1", "uni_comp_ref_p2"} -> "uni_comp_ref"
    [] e \in {"single_ref_p1", "single_ref_p2", "single_ref_p3", "single_ref_p4", "single_ref_p5", "single_ref_p6"} -> "single_ref"
    [] e = "seg_id_predicted" -> "segment_id_predicted"
    [] OTHER -> e
NbTail(e) ==
  CASE e \in {"comp_ref", "comp_bwdref", "single_ref_p1", "uni_comp_ref"} -> <<0>>
    [] e \in {"comp_ref_p1", "comp_bwdref_p1", "single_ref_p2", "uni_comp_ref_p1"} -> <<1>>
    [] e \in {"comp_ref_p2", "single_ref_p3", "uni_comp_ref_p2"} -> <<2>>
    [] e = "single_ref_p4" -> <<3>> [] e = "single_ref_p5" -> <<4>> [] e = "single_ref_p6" -> <<5>>
    [] OTHER -> <<>>

(* sizes of the neighbours *)
TxDepthCtx(t, u, l) ==
  Bit(Val(u, LAMBDA m : IF ~IsIntra(m) THEN Bw(m.bs) ELSE Tw(m.tx), 0) >= Tw(t))
  + Bit(Val(l, LAMBDA m : IF ~IsIntra(m) THEN Bh(m.bs) ELSE Th(m.tx), 0) >= Th(t))
(* iu, il: the neighbour lies inside the same block *)
SplitCtx(t, bs, u, l, iu, il) ==
  LET above == Val(u, LAMBDA m : IF ~iu /\ m.skip /\ ~IsIntra(m) THEN Bw(m.bs) ELSE Tw(m.tx), 64)
      left == Val(l, LAMBDA m : IF ~il /\ m.skip /\ ~IsIntra(m) THEN Bh(m.bs) ELSE Th(m.tx), 64)
      maxLog == Log2(Min(64, Max(Bw(bs), Bh(bs)))) - 2
  IN (IF TxSqrUp(t) # maxLog THEN 3 ELSE 0) + (4 - maxLog) * 6 + Bit(above < Tw(t)) + Bit(left < Th(t))
FilterCtx(h, u, l, dir) ==
  LET ty(n) == IF Av(n) /\ (n[1].r0 = h.r0 \/ n[1].r1 = h.r0) THEN n[1].f[dir + 1] ELSE 3
      a == ty(u)
      b == ty(l)
  IN (dir * 2 + Bit(h.r1 > 0)) * 4 + (IF a = b THEN a ELSE IF b = 3 THEN a ELSE IF a = 3 THEN b ELSE 3)
CompoundIdxCtx(r) ==
  LET d(k) == Abs(RelDist(r.hints[r.refs[k] + 1], r.cur, r.on, r.n))
  IN (IF d(1) = d(2) THEN 3 ELSE 0) + Val(r.u, CompIdx, 0) + Val(r.l, CompIdx, 0)
(* coefficients present at the edges: the picture ends mx, my units from its corner *)
Edge(n, f(_), cnt, zero) == IF cnt > 0 /\ Av(n) THEN f(n[1]) ELSE zero
AllZeroCtx(r) ==
  LET nu == Min(r.w4, r.mx - r.x4)
      nl == Min(r.h4, r.my - r.y4)
      b == PlaneSize(r.bs, r.plane, r.sx, r.sy)
      top == Edge(r.u, LAMBDA m : Min(255, m.lc[r.plane + 1]), nu, 0)
      left == Edge(r.l, LAMBDA m : Min(255, m.lc[r.plane + 1]), nl, 0)
      any(n, k) == Edge(n, LAMBDA m : m.lc[r.plane + 1] # 0 \/ m.dc[r.plane + 1] # 0, k, FALSE)
  IN IF r.plane = 0
     THEN IF Bw(b) = Tw(r.t) /\ Bh(b) = Th(r.t) THEN 0
          ELSE IF top = 0 /\ left = 0 THEN 1
          ELSE IF top = 0 \/ left = 0 THEN 2 + Bit(Max(top, left) > 3)
          ELSE IF Max(top, left) <= 3 THEN 4 ELSE IF Min(top, left) <= 3 THEN 5 ELSE 6
     ELSE 7 + Bit(any(r.u, nu)) + Bit(any(r.l, nl)) + (IF Bw(b) * Bh(b) > Tw(r.t) * Th(r.t) THEN 3 ELSE 0)
DcSignCtx(r) ==
  LET nu == Max(0, Min(r.w4, r.mx - r.x4))
      nl == Max(0, Min(r.h4, r.my - r.y4))
      s(n) == Val(n, LAMBDA m : CASE m.dc[r.plane + 1] = 1 -> -1 [] m.dc[r.plane + 1] = 2 -> 1 [] OTHER -> 0, 0)
      sum == nu * s(r.u) + nl * s(r.l)
  IN IF sum < 0 THEN 1 ELSE IF sum > 0 THEN 2 ELSE 0
TypeHere(r) ==
  LET col == Max(r.col, IF r.sx = 1 THEN 2 * r.x4 ELSE r.x4)
      row == Max(r.row, IF r.sy = 1 THEN 2 * r.y4 ELSE r.y4)
  IN TxTypeOf(r.plane, r.t, r.lossless, r.inter, r.reduced, r.uv, r.ty[r.row + 1][r.col + 1], r.ty[row + 1][col + 1])
Win(r, a, b) == Abs(r.win[a * 5 + b + 1])

ModeCtx == <<0, 1, 2, 3, 4, 4, 4, 4, 3, 0, 1, 2, 0>>
CompModeMap == << <<0,1,1,1,1>>, <<1,2,3,4,4>>, <<4,4,5,6,7>> >>
FilterDir == <<0, 1, 2, 6, 0>>        \* prediction direction of a recursive filter mode
ColorCtx(h) == CASE h = 2 -> 0 [] h = 5 -> 4 [] h = 6 -> 3 [] h = 7 -> 2 [] h = 8 -> 1
CflAllowed(r) == IF r.lossless THEN PlaneSize(r.bs, 1, r.sx, r.sy) = 0 ELSE Max(Bw(r.bs), Bh(r.bs)) <= 32
SegCtx(u, l, ul) == IF ul < 0 THEN 0 ELSE IF ul = u /\ ul = l THEN 2 ELSE IF ul = u \/ ul = l \/ u = l THEN 1 ELSE 0
PartSet(bs) == "partition_w" \o ToString(Bw(bs))
PartCtx(r) == r.la * 2 + r.ua
InvIntra == << <<9,0,10,11,3,1,2>>, <<9,0,3,1,2>> >>
InvInter == << <<9,10,11,12,13,14,15,0,1,2,4,5,3,6,7,8>>, <<9,10,11,0,1,2,4,5,3,6,7,8>>, <<9,0>> >>
Direct == {"new_mv", "ref_mv", "zero_mv", "drl_mode", "compound_type", "use_obmc", "mv_sign", "mv_class0_bit", "mv_class0_hp", "mv_hp",
           "mv_joint", "mv_class", "mv_class0_fr", "mv_fr", "mv_bit", "motion_mode", "wedge_index"}
Whole == {"filter_intra_mode", "use_wiener", "use_sgrproj", "restoration_type"}
EobPts == {"eob_pt_16", "eob_pt_32", "eob_pt_64", "eob_pt_128", "eob_pt_256", "eob_pt_512", "eob_pt_1024"}
(* << name of the table set, indices >> *)
Table(r) ==
  CASE r.e \in NbElements -> <<NbSet(r.e), <<NbCtx(r.e, r.u, r.l)>> \o NbTail(r.e)>>
    [] r.e \in Direct -> <<r.e, r.i>>
    [] r.e \in Whole -> <<r.e, <<>> >>
    [] r.e = "intra_frame_y_mode" -> <<r.e, <<ModeCtx[r.um + 1], ModeCtx[r.lm + 1]>> >>
    [] r.e = "y_mode" -> <<r.e, <<SizeGroup(r.bs)>> >>
    [] r.e = "uv_mode" -> <<IF CflAllowed(r) THEN "uv_mode_cfl_allowed" ELSE "uv_mode_cfl_not_allowed", <<r.ym>> >>
    [] r.e \in {"angle_delta_y", "angle_delta_uv"} -> <<"angle_delta", <<r.m - 1>> >>
    [] r.e = "partition" -> <<PartSet(r.bs), <<PartCtx(r)>> >>
    [] r.e = "use_filter_intra" -> <<"filter_intra", r.i>>
    [] r.e = "wedge_interintra" -> <<"wedge_inter_intra", r.i>>
    [] r.e = "interintra" -> <<"inter_intra", <<SizeGroup(r.i[1])>> >>
    [] r.e = "interintra_mode" -> <<"inter_intra_mode", <<SizeGroup(r.i[1])>> >>
    [] r.e = "has_palette_y" -> <<"palette_y_mode", <<r.i[1], Val(r.u, LAMBDA m : Bit(m.pal[1] > 0), 0) + Val(r.l, LAMBDA m : Bit(m.pal[1] > 0), 0)>> >>
    [] r.e = "has_palette_uv" -> <<"palette_uv_mode", <<Bit(r.i[1] > 0)>> >>
    [] r.e = "palette_size_y_minus_2" -> <<"palette_y_size", r.i>>
    [] r.e = "palette_size_uv_minus_2" -> <<"palette_uv_size", r.i>>
    [] r.e = "palette_color_idx_y" -> <<"palette_size_" \o ToString(r.i[2]) \o "_y_color", <<ColorCtx(r.i[1])>> >>
    [] r.e = "palette_color_idx_uv" -> <<"palette_size_" \o ToString(r.i[2]) \o "_uv_color", <<ColorCtx(r.i[1])>> >>
    [] r.e = "delta_q_abs" -> <<"delta_q", <<>> >>
    [] r.e = "delta_lf_abs" -> IF r.i[1] = 0 THEN <<"delta_lf", <<>> >> ELSE <<"delta_lf_multi", <<r.i[2]>> >>
    [] r.e = "cfl_alpha_signs" -> <<"cfl_sign", <<>> >>
    (* the joint sign s stands for the pair ((s+1) / 3, (s+1) % 3); 0 is zero *)
    [] r.e = "cfl_alpha_u" -> LET s == r.i[1] + 1 IN <<"cfl_alpha", <<((s \div 3) - 1) * 3 + (s % 3)>> >>
    [] r.e = "cfl_alpha_v" -> LET s == r.i[1] + 1 IN <<"cfl_alpha", <<((s % 3) - 1) * 3 + (s \div 3)>> >>
    [] r.e = "compound_mode" -> <<r.e, <<CompModeMap[r.i[1] \div 2 + 1][Min(r.i[2], 4) + 1]>> >>
    [] r.e = "segment_id" -> <<r.e, <<SegCtx(r.i[1], r.i[2], r.i[3])>> >>
    [] r.e = "intra_tx_type" -> <<"intra_tx_type_set" \o ToString(r.i[2]),
                                  <<TxSqr(r.i[1]), IF r.i[3] = 1 THEN FilterDir[r.i[4] + 1] ELSE r.i[5]>> >>
    [] r.e = "inter_tx_type" -> <<"inter_tx_type_set" \o ToString(r.i[2]), <<TxSqr(r.i[1])>> >>
    [] r.e = "tx_depth" -> LET n == <<"8x8", "16x16", "32x32", "64x64">> IN <<"tx_" \o n[r.depth], <<TxDepthCtx(r.t, r.u, r.l)>> >>
    [] r.e = "txfm_split" -> <<r.e, <<SplitCtx(r.t, r.bs, r.u, r.l, r.iu, r.il)>> >>
    [] r.e = "interp_filter" -> <<r.e, <<FilterCtx(r.h[1], r.u, r.l, r.dir)>> >>
    [] r.e = "compound_idx" -> <<r.e, <<CompoundIdxCtx(r)>> >>
    (* coefficients: tables of the first quantiser class *)
    [] r.e = "eob_extra" -> <<r.e, <<0>> \o r.i>>
    [] r.e = "all_zero" -> <<"txb_skip", <<0, r.txc, AllZeroCtx(r)>> >>
    [] r.e = "dc_sign" -> <<r.e, <<0, Bit(r.plane > 0), DcSignCtx(r)>> >>
    [] r.e \in EobPts -> <<r.e, <<0, r.ptype, Bit(TxClass(TypeHere(r)) # 0)>> >>
    [] r.e = "coeff_base" -> <<r.e, <<0, r.txc, r.ptype, CoeffBaseOf(r.t, TxClass(TypeHere(r)), r.pos, LAMBDA a, b : Win(r, a, b))>> >>
    [] r.e = "coeff_base_eob" -> <<r.e, <<0, r.txc, r.ptype, CoeffEobCtx(r.t, r.c) - 38>> >>
    [] r.e = "coeff_br" -> <<r.e, <<0, Min(r.txc, 3), r.ptype, CoeffBrOf(r.t, TxClass(TypeHere(r)), r.pos, LAMBDA a, b : Win(r, a, b))>> >>
Pos(s, x) == CHOOSE k \in DOMAIN s : s[k] = x
Symbol(r) ==
  CASE r.e = "intra_tx_type" -> Pos(InvIntra[r.i[2]], r.v) - 1
    [] r.e = "inter_tx_type" -> Pos(InvInter[r.i[2]], r.v) - 1
    [] OTHER -> r.v
RECURSIVE Dotted(_, _)
Dotted(s, x) == IF x = <<>> THEN s ELSE Dotted(s \o "." \o ToString(Head(x)), Tail(x))
Name(r) == LET t == Table(r) IN Dotted(t[1], t[2])
(* where the lower (right) half is outside the picture only two partitions are left: probability of *)
(* the one that splits further is that of all partitions whose blocks lie across the edge           *)
Mass(t, p) == t[p + 1] - (IF p = 0 THEN 0 ELSE t[p])
RECURSIVE MassOf(_, _)
MassOf(t, ps) == IF ps = <<>> THEN 0 ELSE Mass(t, Head(ps)) + MassOf(t, Tail(ps))
SplitTable(r) ==
  LET ps == IF r.e = "split_or_horz" THEN <<2, 3, 4, 6, 7>> \o (IF Bw(r.bs) = 128 THEN <<>> ELSE <<9>>)
            ELSE <<1, 3, 4, 5, 6>> \o (IF Bw(r.bs) = 128 THEN <<>> ELSE <<8>>)
  IN <<32768 - MassOf(r.tab, ps), 32768, 0>>
=============================================================================
