---------------------------- MODULE ConfSession ----------------------------
(* Streams of one real encoder, decoded from their bytes alone; frames: what  *)
(* the encoder holds of each frame after it, and what it was given.           *)
EXTENDS Session, TraceRun
Judge(g, h) ==
  LET f == g.f
      t == <<g.v["rowstarts"][Len(g.v["rowstarts"]) - 1], f.rows, g.v["colstarts"][Len(g.v["colstarts"]) - 1], f.cols>>
      held(y, x) == IF h.mis[y][x] = 0 THEN <<>> ELSE <<h.kinds[h.mis[y][x]]>>
      bad == {<<y, x>> \in (t[1] + 1 .. t[2]) \X (t[3] + 1 .. t[4]) : held(y, x) # g.st.mis[y][x]}
  IN IF bad # {} THEN LET p == CHOOSE p \in bad : \A q \in bad : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
                      IN "the encoder's record differs from the decoder's, first at " \o ToString(<<p[1] - 1, p[2] - 1>>)
     ELSE IF \E y \in 1..Len(h.cdef) : \E x \in 1..Len(h.cdef[1]) : h.cdef[y][x] # g.cdef[y][x] THEN "the encoder's cdef record differs from the decoder's"
     ELSE IF h.q # g.st.q \/ h.lf # g.st.lf THEN "the quantiser or loop filter state differs from the decoder's"
     ELSE IF \E p \in 1..f.planes : h.w[p] # g.st.w[p] \/ h.s[p] # g.st.s[p] THEN "restoration predictions differ from the decoder's"
     ELSE IF \E k \in DOMAIN g.units : LET l == g.units[k][1] IN ~TL!Same(l.p, g.units[k][2], h.units[(l.r * 4) \div f.sb + 1][(l.c * 4) \div f.sb + 1][l.p + 1][l.dy + 1][l.dx + 1])
          THEN "a restoration unit decodes to something else than was given"
     ELSE ""
Verdict(r) ==
  IF r.err # "" THEN "the encoder failed: " \o r.err
  ELSE LET d == Stream(r.bytes)
           bad == {k \in 1..Len(d.done) : Judge(d.done[k], r.frames[k]) # ""}
       IN IF d.why # "" THEN "frame " \o ToString(Len(d.done) + 1) \o ": " \o d.why
          ELSE IF Len(d.done) # Len(r.frames) THEN ToString(Len(d.done)) \o " frames instead of " \o ToString(Len(r.frames))
          ELSE IF bad # {} THEN LET k == CHOOSE k \in bad : \A q \in bad : k <= q IN "frame " \o ToString(k) \o ": " \o Judge(d.done[k], r.frames[k])
          ELSE ""
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
