------------------------------- MODULE MvStack -------------------------------
(***************************************************************************)
(* Motion vector candidates of an inter block: those of the blocks above,  *)
(* left and above right that use the same references, then those of the    *)
(* motion field, each once, with a weight.                                 *)
(*                                                                         *)
(* e: r, c, bs, refs (<<r0, r1>>), f (rows, cols, tile, fint, hp, temporal)*)
(*    above[k], left[k]: cells beside the block, <<>> or <<m>>; corner     *)
(*    tpl: motion field samples, each <<for r0, for r1>>, <<>> or <<mv>>   *)
(*    gm: global motion of the two references [t, p]                       *)
(* A motion vector is <<vertical, horizontal>>.                            *)
(***************************************************************************)
EXTENDS Derive, SequencesExt
Two(e) == e.refs[2] > 0
Refs(e) == IF Two(e) THEN {1, 2} ELSE {1}
W4(b) == Bw(b) \div 4
H4(b) == Bh(b) \div 4
Toward0(v) == IF v % 2 = 0 THEN v ELSE IF v > 0 THEN v - 1 ELSE v + 1
(* as precise as the frame's motion vectors are *)
Lower1(f, v) == IF f.hp THEN v
                ELSE IF f.fint THEN LET a == 8 * ((Abs(v) + 3) \div 8) IN IF v > 0 THEN a ELSE -a
                ELSE Toward0(v)
Lower(f, mv) == <<Lower1(f, mv[1]), Lower1(f, mv[2])>>
(* global motion at the block's centre *)
Global(e, k) ==
  LET g == e.gm[k]
      x == e.c * 4 + (Bw(e.bs) \div 2) - 1
      y == e.r * 4 + (Bh(e.bs) \div 2) - 1
      h == (g.p[3] - 65536) * x + g.p[4] * y + g.p[1]
      v == g.p[5] * x + (g.p[6] - 65536) * y + g.p[2]
      at(z) == IF e.f.hp THEN Round2Signed(z, 13) ELSE 2 * Round2Signed(z, 14)
  IN Lower(e.f, IF g.t = 0 THEN <<0, 0>> ELSE IF g.t = 1 THEN <<g.p[2] \div 2^13, g.p[1] \div 2^13>> ELSE <<at(v), at(h)>>)
Globals(e) == IF Two(e) THEN <<Global(e, 1), Global(e, 2)>> ELSE <<Global(e, 1)>>

(* the list: st = [l: candidates [v, w], new: how many came from a new motion vector, found] *)
MaxList == 8
Known(l, v) == {k \in DOMAIN l : l[k].v = v}
AddTo(l, v, w) ==
  IF Known(l, v) # {} THEN LET k == CHOOSE x \in Known(l, v) : TRUE IN [l EXCEPT ![k].w = @ + w]
  ELSE IF Len(l) < MaxList THEN Append(l, [v |-> v, w |-> w]) ELSE l
(* modes: 16 global, 17 new; of two references 18..25, 24 both global *)
IsNew(m) == m \in {17} \cup 20..23 \cup {25}
Take(st, e, m, v, w) == [l |-> AddTo(st.l, v, w), new |-> st.new + (IF IsNew(m.mode) THEN 1 ELSE 0), found |-> TRUE]
FromOne(st, e, m, w, k) ==
  LET r == IF k = 1 THEN m.r0 ELSE m.r1
      glob == m.mode \in {16, 24} /\ e.gm[1].t > 1 /\ Min(Bw(m.bs), Bh(m.bs)) >= 8
  IN IF r # e.refs[1] THEN st ELSE Take(st, e, m, <<Lower(e.f, IF glob THEN Global(e, 1) ELSE m.mv[k])>>, w)
FromCell(st, e, m, w) ==
  IF ~m.inter THEN st
  ELSE IF ~Two(e) THEN FromOne(FromOne(st, e, m, w, 1), e, m, w, 2)
  ELSE IF m.r0 # e.refs[1] \/ m.r1 # e.refs[2] THEN st
  ELSE LET v(k) == Lower(e.f, IF m.mode = 24 /\ e.gm[k].t > 1 THEN Global(e, k) ELSE m.mv[k]) IN Take(st, e, m, <<v(1), v(2)>>, w)
(* along a side of n units: cells one after the other, each as long as its block and the side allow *)
RECURSIVE Along(_, _, _, _, _, _)
Along(st, e, cells, n, size(_), i) ==
  IF i >= Min(n, 16) \/ i >= Len(cells) THEN st
  ELSE IF cells[i + 1] = <<>> THEN st
  ELSE LET m == cells[i + 1][1]
           len == Max(IF n >= 16 THEN 4 ELSE 1, Min(n, size(m.bs)))
       IN Along(FromCell(st, e, m, 2 * len), e, cells, n, size, i + len)
Clear(st) == [st EXCEPT !.found = FALSE]
Near(e) ==
  LET s0 == [l |-> <<>>, new |-> 0, found |-> FALSE]
      s1 == Along(s0, e, e.above, W4(e.bs), W4, 0)
      s2 == Along(Clear(s1), e, e.left, H4(e.bs), H4, 0)
      s3 == IF Max(W4(e.bs), H4(e.bs)) <= 16 /\ e.corner # <<>> THEN FromCell(Clear(s2), e, e.corner[1], 4) ELSE Clear(s2)
  IN [l |-> s3.l, new |-> s3.new, close |-> (IF s1.found \/ s3.found THEN 1 ELSE 0) + (IF s2.found THEN 1 ELSE 0)]
Bonus(l) == [k \in DOMAIN l |-> [l[k] EXCEPT !.w = @ + 640]]

(* the motion field: one sample per 8x8, or per 16x16 in large blocks *)
Sample(n) == IF n >= 16 THEN 4 ELSE 2
Samples(e) ==
  LET nw == CHOOSE k \in 1..8 : k * Sample(W4(e.bs)) >= Min(W4(e.bs), 16) /\ (k - 1) * Sample(W4(e.bs)) < Min(W4(e.bs), 16)
      nh == CHOOSE k \in 1..8 : k * Sample(H4(e.bs)) >= Min(H4(e.bs), 16) /\ (k - 1) * Sample(H4(e.bs)) < Min(H4(e.bs), 16)
  IN [k \in 1..(nw * nh) |-> [dr |-> ((k - 1) \div nw) * Sample(H4(e.bs)), dc |-> ((k - 1) % nw) * Sample(W4(e.bs)), t |-> e.tpl[k]]]
Odd(x) == IF x % 2 = 1 THEN x ELSE x + 1
Inside(e, y, x) == y >= e.f.tile[1] /\ y < e.f.tile[2] /\ x >= e.f.tile[3] /\ x < e.f.tile[4]
Far(a, b) == Abs(a[1] - b[1]) >= 16 \/ Abs(a[2] - b[2]) >= 16
FromField(st, e, s) ==
  LET y == Odd(e.r + s.dr)
      x == Odd(e.c + s.dc)
      here == s.dr = 0 /\ s.dc = 0
      v == [k \in 1..Cardinality(Refs(e)) |-> Lower(e.f, s.t[k][1])]
      far == \E k \in Refs(e) : Far(v[k], Global(e, k))
  IN IF ~Inside(e, y, x) THEN st
     ELSE IF \E k \in Refs(e) : s.t[k] = <<>> THEN IF here THEN [st EXCEPT !.zero = 1] ELSE st
     ELSE [l |-> AddTo(st.l, v, 2), zero |-> IF here THEN IF far THEN 1 ELSE 0 ELSE st.zero]
Candidates(e) ==
  LET n == Near(e)
      s0 == [l |-> Bonus(n.l), zero |-> 0]
      t == IF e.f.temporal THEN FoldLeft(LAMBDA st, s : FromField(st, e, s), s0, Samples(e)) ELSE s0
  IN [l |-> t.l, new |-> n.new, close |-> n.close, zero |-> t.zero, global |-> Globals(e)]
(* what index k stands for: the first two exist always *)
At(c, k) == IF k <= Len(c.l) THEN c.l[k].v ELSE c.global
=============================================================================
