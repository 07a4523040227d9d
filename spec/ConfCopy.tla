------------------------------ MODULE ConfCopy ------------------------------
(* Vectors of blocks copied from the same frame, coded by the real encoder.  *)
EXTENDS SymRead, TraceRun, SequencesExt
BK == INSTANCE Block
Verdict(r) ==
  IF r.err # "" THEN r.err
  ELSE LET e == [r |-> r.r, sb |-> r.sb, tile |-> r.tile, fint |-> r.fint, hp |-> r.hp, copy |-> TRUE, mv |-> [stack |-> r.stack]]
           x == BK!Copied(Open(r.bits, [n \in {} |-> <<>>]), e)
       IN IF x.f.mv # r.given THEN "a decoder finds vector " \o ToString(x.f.mv) \o " instead of " \o ToString(r.given)
          ELSE IF r.kept # r.given THEN "the block's vector was changed"
          ELSE IF ~Fits(x.D) THEN "the segment is shorter than the vector needs"
          ELSE IF DOMAIN x.D.a # DOMAIN r.tabs \/ (\E n \in DOMAIN r.tabs : x.D.a[n] # r.tabs[n]) THEN "tables are left in another state than the decoder's"
          ELSE ""
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
