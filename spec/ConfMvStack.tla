----------------------------- MODULE ConfMvStack -----------------------------
(* Motion vector candidates found by the real tile encoder.                  *)
EXTENDS TraceRun
MV == INSTANCE MvStack
Env(r, b) == [r |-> b.r, c |-> b.c, bs |-> b.bs, refs |-> <<b.a.r0, b.a.r1>>, f |-> r.f,
              above |-> b.scan.above, left |-> b.scan.left, corner |-> b.scan.corner, tpl |-> b.scan.tpl, gm |-> b.scan.gm]
Wrong(r, b) ==
  LET e == Env(r, b)
      d == MV!Candidates(e)
      n == IF b.a.r1 > 0 THEN 2 ELSE 1
      entry(k) == SubSeq(b.mv.stack[k], 1, n)
  IN IF SubSeq(b.mv.global, 1, n) # d.global THEN "global motion vectors " \o ToString(b.mv.global) \o ", defined " \o ToString(d.global)
     ELSE IF b.mv.n # Len(d.l) THEN ToString(b.mv.n) \o " candidates, defined " \o ToString(Len(d.l))
     ELSE IF \E k \in 1..MV!Max(2, b.mv.n) : entry(k) # MV!At(d, k) THEN "another candidate list"
     ELSE IF \E k \in 1..b.mv.n : b.scan.weights[k] # d.l[k].w THEN "other weights"
     ELSE IF b.scan.newc # d.new THEN "counts " \o ToString(b.scan.newc) \o " new motion vectors"
     ELSE IF b.scan.close # d.close THEN "counts " \o ToString(b.scan.close) \o " close matches"
     ELSE IF b.mv.zero # d.zero THEN "context of the zero motion vector " \o ToString(b.mv.zero)
     ELSE ""
RECURSIVE First(_, _)
First(r, k) == IF k > Len(r.blocks) THEN ""
               ELSE LET w == IF "scan" \in DOMAIN r.blocks[k] THEN Wrong(r, r.blocks[k]) ELSE ""
                    IN IF w # "" THEN "block " \o ToString(r.blocks[k].r) \o "," \o ToString(r.blocks[k].c) \o ": " \o w ELSE First(r, k + 1)
Verdict(r) == IF r.err # "" THEN r.err ELSE First(r, 1)
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
