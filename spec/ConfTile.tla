------------------------------ MODULE ConfTile ------------------------------
(* Tiles coded by the real tile encoder, read back by the specified decoder. *)
EXTENDS SymRead, TraceRun, SequencesExt
TL == INSTANCE Tile
(* tile number -> its bounds, tiles in raster order *)
Bounds(r) == LET nc == Len(r.cols) - 1
                 y == r.tile \div nc
                 x == r.tile % nc
             IN <<r.rows[y + 1], r.rows[y + 2], r.cols[x + 1], r.cols[x + 2]>>
Verdict(r) ==
  IF r.err # "" THEN r.err
  ELSE LET f == [tile |-> Bounds(r)] @@ r.f
           st == TL!Tile(f, IF r.fixed THEN OpenFixed(r.bits) ELSE Open(r.bits, [n \in {} |-> <<>>]), r.cdef0)
           held(y, x) == IF r.mis[y][x] = 0 THEN <<>> ELSE <<r.kinds[r.mis[y][x]]>>
           bad == {<<y, x>> \in (f.tile[1] + 1 .. f.tile[2]) \X (f.tile[3] + 1 .. f.tile[4]) : held(y, x) # st.mis[y][x]}
       IN IF st.why # "" THEN st.why
          ELSE IF bad # {} THEN LET p == CHOOSE p \in bad : \A q \in bad : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
                                IN "the frame's record differs from the decoder's, first at " \o ToString(<<p[1] - 1, p[2] - 1>>)
          ELSE IF ~Fits(st.D) THEN "the tile is shorter than its blocks need"
          ELSE IF Len(r.bits) % 8 # 0 THEN "the tile is not a whole number of bytes"
          ELSE IF Len(r.bits) > st.D.d.pos + 16 THEN "the tile holds data no block needs"
          ELSE IF DOMAIN st.D.a # DOMAIN r.tabs \/ (\E n \in DOMAIN r.tabs : st.D.a[n] # r.tabs[n]) THEN "tables are left in another state than the decoder's"
          ELSE IF r.cdef1 # st.cdef THEN "the frame's cdef record differs from the decoder's"
          ELSE IF r.q1 # st.q \/ r.lf1 # st.lf THEN "the quantiser or loop filter state differs from the decoder's"
          ELSE IF \E p \in 1..f.planes : r.w1[p] # st.w[p] \/ r.s1[p] # st.s[p] THEN "restoration predictions differ from the decoder's"
          ELSE IF \E k \in DOMAIN st.units : LET l == st.units[k][1] IN ~TL!Same(l.p, st.units[k][2], r.units[(l.r * 4) \div r.f.sb + 1][(l.c * 4) \div r.f.sb + 1][l.p + 1][l.dy + 1][l.dx + 1])
               THEN "a restoration unit decodes to something else than was given"
          ELSE ""
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
