---------------------------- MODULE ConfFraming ----------------------------
(* r.us: the OBUs handed to the real encoder (payload bits as the payload    *)
(* writer gives them), r.bytes: the output file                              *)
EXTENDS Framing, TraceRun
Verdict(r) == IF r.err # "" THEN "the encoder failed: " \o r.err ELSE Check(r.bytes, 1, r.us, 1)
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
