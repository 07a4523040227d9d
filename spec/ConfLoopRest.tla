---------------------------- MODULE ConfLoopRest ----------------------------
(* Restoration units written by the real code, read back by the specified    *)
(* decoder.                                                                  *)
EXTENDS SymRead, TraceRun, SequencesExt
LR == INSTANCE LoopRest
(* units of one superblock, in coding order: plane, row, column, place in the superblock *)
Places(r, s) ==
  LET n == r.sb \div 4
      of(p) == LET g == LR!UnitsIn(r.f, p, r.sizes[p + 1], s.r, s.c, n)
                   nr == IF g.r1 > g.r0 THEN g.r1 - g.r0 ELSE 0
                   nc == IF g.c1 > g.c0 THEN g.c1 - g.c0 ELSE 0
               IN [x \in 1..(nr * nc) |-> [p |-> p, dy |-> (x - 1) \div nc, dx |-> (x - 1) % nc,
                                           y |-> g.r0 + ((x - 1) \div nc), x |-> g.c0 + ((x - 1) % nc)]]
      used(p) == p < r.planes /\ r.types[p + 1] # 0 /\ ~r.ibc
  IN (IF used(0) THEN of(0) ELSE <<>>) \o (IF used(1) THEN of(1) ELSE <<>>) \o (IF used(2) THEN of(2) ELSE <<>>)
(* does the unit read say what was given? *)
Same(p, got, given) ==
  /\ got.type = given.type
  /\ got.type = 1 => \A k \in {1, 2}, j \in 1..3 : got.w[k][j] = (IF p > 0 /\ j = 1 THEN 0 ELSE given.w[k][j])
  /\ got.type = 2 => /\ got.set = given.set
                     /\ got.set \notin LR!NoFirst => got.s[1] = given.s[1]
                     /\ got.set \notin LR!NoSecond => got.s[2] = given.s[2]
At(l) == "plane " \o ToString(l.p) \o " unit " \o ToString(l.y) \o "," \o ToString(l.x)
Step(r, st, s, l) ==
  IF st.why # "" THEN st
  ELSE LET x == LR!Unit(st.D, l.p, r.types[l.p + 1], st.w[l.p + 1], st.s[l.p + 1])
           given == s.u[l.p + 1][l.dy + 1][l.dx + 1]
       IN IF ~Same(l.p, x.u, given) THEN [st EXCEPT !.why = At(l) \o " decodes to something else than was given"]
          ELSE [st EXCEPT !.D = x.D, !.w = [@ EXCEPT ![l.p + 1] = x.w], !.s = [@ EXCEPT ![l.p + 1] = x.s], !.held = Append(@, <<l, x.u>>)]
Run(r) ==
  FoldLeft(LAMBDA st, s : FoldLeft(LAMBDA st2, l : Step(r, st2, s, l), st, Places(r, s)),
           [D |-> Open(r.bits, r.tabs), w |-> r.w0, s |-> r.s0, held |-> <<>>, why |-> ""], r.sbs)
(* the frame's record of a unit *)
Holds(h, l, u) == /\ h.p = l.p /\ h.y = l.y /\ h.x = l.x /\ h.type = u.type
                  /\ u.type = 1 => h.w = u.w
                  /\ u.type = 2 => h.set = u.set /\ h.s = u.s
Verdict(r) ==
  IF r.err # "" THEN r.err
  ELSE LET st == Run(r) IN
       IF st.why # "" THEN st.why
       ELSE IF ~Fits(st.D) THEN "the segment is shorter than its units need"
       ELSE IF \E n \in DOMAIN r.after : TableOf(st.D, n) # r.after[n] THEN "a table is left in another state than the decoder's"
       ELSE IF r.other # <<>> THEN "another table changed: " \o r.other[1]
       ELSE IF r.w1 # st.w \/ r.s1 # st.s THEN "predictions differ from the decoder's"
       ELSE IF \E k \in DOMAIN st.held : st.held[k][2].type # 0 /\ ~ \E h \in DOMAIN r.held : Holds(r.held[h], st.held[k][1], st.held[k][2])
            THEN "the frame does not hold what was coded"
       ELSE IF \E h \in DOMAIN r.held : ~ \E k \in DOMAIN st.held : LET l == st.held[k][1] IN l.p = r.held[h].p /\ l.y = r.held[h].y /\ l.x = r.held[h].x
            THEN "the frame holds a unit that was not coded"
       ELSE ""
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
