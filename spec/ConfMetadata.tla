---------------------------- MODULE ConfMetadata ----------------------------
(* payloads written one after another by one real encoder *)
EXTENDS Metadata, TraceRun
Verdict(r) ==
  IF r.err # "" THEN "the encoder failed: " \o r.err
  ELSE FoldLeft(LAMBDA a, h : IF a # "" THEN a
                  ELSE IF h.t = "pad" THEN PadVerdict(h.n, h.bits) ELSE MetaVerdict(h.w, h.bytes, h.bits), "", r.hs)
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
