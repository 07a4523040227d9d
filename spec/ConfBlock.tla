------------------------------ MODULE ConfBlock ------------------------------
(* Mode information coded by the real tile encoder, read back by the         *)
(* specified decoder.                                                        *)
EXTENDS SymRead, TraceRun, SequencesExt
BK == INSTANCE Block
Fields == {"seg", "skip", "is_inter", "r0", "r1", "pair", "new_mv", "zero_mv", "ref_mv"}
(* where the block is coded *)
Env(r, st, b) == [r |-> b.r, c |-> b.c, bs |-> b.bs, u |-> b.u, l |-> b.l, ul |-> b.ul, deltas |-> b.deltas, mv |-> b.mv,
                  q |-> st.q, lf |-> st.lf, cdef |-> st.cdef] @@ r.f
Inside(r, y, x) == y >= r.f.tile[1] /\ y < r.f.tile[2] /\ x >= r.f.tile[3] /\ x < r.f.tile[4]
Chroma(r, b) == r.f.planes > 1 /\ ~(BK!Bh(b.bs) = 4 /\ r.f.sy /\ b.r % 2 = 0) /\ ~(BK!Bw(b.bs) = 4 /\ r.f.sx /\ b.c % 2 = 0)
Avail(r, b) ==
  LET u == Inside(r, b.r - 1, b.c)  l == Inside(r, b.r, b.c - 1)
  IN IF ~Chroma(r, b) THEN <<u, l, FALSE, FALSE>>
     ELSE <<u, l, IF r.f.sy /\ BK!Bh(b.bs) = 4 THEN Inside(r, b.r - 2, b.c) ELSE u,
                  IF r.f.sx /\ BK!Bw(b.bs) = 4 THEN Inside(r, b.r, b.c - 2) ELSE l>>
(* what is wrong with block b, given what was read (x) *)
Wrong(r, st, b, x, e) ==
  LET f == x.f
      carried == DOMAIN f \ x.inf
      lost == {k \in Fields \cap carried : f[k] # b.g[k]}
      kept == {k \in {"seg", "skip", "is_inter", "r0", "r1", "mode", "idx"} \cap DOMAIN f : f[k] # b.a[k]}
      drl(k) == "drl" \o ToString(k)
      news == BK!Modes(f.mode)
      lfs == {k \in 1..BK!LfCount(e) : f.lf[k] # b.g.lf[k]}
  IN IF lost # {} THEN ToString(lost) \o ": a decoder finds something else than was given"
     ELSE IF "cdef" \in carried /\ f.cdef # b.g.cdef THEN "a decoder finds another cdef index"
     ELSE IF "q" \in carried /\ f.q # b.g.q THEN "a decoder finds quantiser index " \o ToString(f.q) \o " instead of " \o ToString(b.g.q)
     ELSE IF "lf" \in carried /\ lfs # {} THEN "a decoder finds other loop filter steps"
     ELSE IF kept # {} THEN ToString(kept) \o ": the block holds something else than a decoder finds"
     ELSE IF b.a.q # f.q \/ b.a.lf # f.lf THEN "the encoder's quantiser or loop filter state differs from the decoder's"
     ELSE IF b.a.deltas THEN "further blocks of the superblock would carry steps"
     ELSE IF b.a.lossless # r.f.larr[f.seg + 1] THEN "losslessness is not that of the segment"
     ELSE IF b.a.pos # <<b.r, b.c, b.bs>> THEN "the encoder is at another block"
     ELSE IF b.a.has # Chroma(r, b) THEN "has chroma: " \o ToString(b.a.has)
     ELSE IF b.a.av # Avail(r, b) THEN "availability: " \o ToString(b.a.av)
     ELSE IF f.is_inter = 0 THEN ""
     ELSE IF b.a.pal # 0 THEN "an inter block has a palette"
     ELSE IF \E k \in 0..3 : drl(k) \in DOMAIN f /\ f[drl(k)] # b.g.drl[k + 1] THEN "a decoder finds another candidate index"
     ELSE IF \E k \in DOMAIN news : news[k] = BK!FRESH /\ f.mvs[k] # b.g.mvs[k] THEN "a decoder finds another motion vector"
     ELSE IF \E k \in DOMAIN news : f.mvs[k] # b.a.mvs[k] THEN "the block holds another motion vector than a decoder finds"
     ELSE ""
Step(r, st, b) ==
  IF st.why # "" THEN st
  ELSE LET e == Env(r, st, b)
           x == BK!Read(st.D, e)
           w == Wrong(r, st, b, x, e)
           here == BK!CdefUnits(e)
       IN IF w # "" THEN [st EXCEPT !.why = "block " \o ToString(b.r) \o "," \o ToString(b.c) \o ": " \o w]
          ELSE [st EXCEPT !.D = x.D, !.q = x.f.q, !.lf = x.f.lf,
                !.cdef = IF "cdef" \in DOMAIN x.f
                         THEN [y \in DOMAIN @ |-> [k \in DOMAIN @[y] |-> IF <<y - 1, k - 1>> \in here THEN x.f.cdef ELSE @[y][k]]]
                         ELSE @]
Verdict(r) ==
  IF r.err # "" THEN r.err
  ELSE LET st == FoldLeft(LAMBDA s, b : Step(r, s, b), [D |-> Open(r.bits, [n \in {} |-> <<>>]), q |-> r.q0, lf |-> r.lf0, cdef |-> r.cdef0, why |-> ""], r.blocks)
           known == {<<16 * (y - 1), 16 * (x - 1), st.cdef[y][x]>> : y \in DOMAIN st.cdef, x \in DOMAIN st.cdef[1]}
           was == {<<16 * (y - 1), 16 * (x - 1), r.cdef0[y][x]>> : y \in DOMAIN st.cdef, x \in DOMAIN st.cdef[1]}
       IN IF st.why # "" THEN st.why
          ELSE IF ~Fits(st.D) THEN "the segment is shorter than its blocks need"
          ELSE IF DOMAIN st.D.a # DOMAIN r.tabs \/ (\E n \in DOMAIN r.tabs : st.D.a[n] # r.tabs[n]) THEN "tables are left in another state than the decoder's"
          ELSE IF {r.cdef1[k] : k \in DOMAIN r.cdef1} # known \ was THEN "the frame's cdef record differs from the decoder's"
          ELSE ""
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
