--------------------------- MODULE ConfFrameHeader ---------------------------
(* Histories of one real encoder: the sequence header it wrote (seq), then    *)
(* its frame headers: w = the configured values, tid and sid = the layers the *)
(* frame belongs to, bits = the payload, after =                              *)
(* the encoder's state, copies = the same header written again.  They are     *)
(* read as a decoder does, with the reference slots the frames leave.         *)
EXTENDS FrameHeader, TraceRun
Show(x) == ToString(x)
(* what a decoder learns of one header, against the configured values *)
Coded(h, v) ==
  LET bad == {k \in DOMAIN h.w : k \notin FrameFree /\ ~(Has(v, k) /\ v[k] = h.w[k])}
      odd == {k \in DOMAIN h.copies : h.copies[k].bits # h.bits}
  IN IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN
          "configured " \o k \o " is " \o Show(h.w[k]) \o ", the header says " \o (IF Has(v, k) THEN Show(v[k]) ELSE "nothing")
     ELSE IF odd # {} THEN "a repeated frame header is no copy of the first"
     ELSE ""
(* the state the encoder goes on with, against the decoder's *)
State(h, v) ==
  LET off == {k \in DOMAIN h.after : Has(v, k) /\ h.after[k] # v[k]}
      odd == {k \in DOMAIN h.copies : ~h.copies[k].same}
  IN IF off # {} THEN LET k == CHOOSE k \in off : TRUE IN
          "the encoder goes on with " \o k \o " = " \o Show(h.after[k]) \o ", a decoder with " \o Show(v[k])
     ELSE IF odd # {} THEN "repeating the frame header changed the encoder's state"
     ELSE ""
History(r, Judge(_, _)) ==
  LET s == ParseFrom(SeqDesc, SeqOrder, NoVals, r.seq)
      init == IF ~s.ok THEN [why |-> "sequence header: " \o s.why, ctx |-> NoVals]
              ELSE [why |-> "", ctx |-> s.v @@ ("ref" :> NoRefs) @@ ("tid" :> 0) @@ ("sid" :> 0)]
      step(a, h) ==
        IF a.why # "" THEN a
        ELSE LET p == ParseFrom(FrameDesc, FrameOrder, [a.ctx EXCEPT !["tid"] = h.tid, !["sid"] = h.sid], h.bits) IN
             IF ~p.ok THEN [a EXCEPT !.why = p.why]
             ELSE IF p.p # Len(h.bits) + 1 THEN [a EXCEPT !.why = Show(Len(h.bits) + 1 - p.p) \o " bits after the end of the frame header"]
             ELSE [why |-> Judge(h, p.v), ctx |-> [a.ctx EXCEPT !["ref"] = Refreshed(p.v)]]
      at(a, k) == IF a.why # "" THEN a
                  ELSE LET b == step(a, r.fs[k]) IN IF b.why = "" THEN b ELSE [b EXCEPT !.why = "frame " \o Show(k) \o ": " \o @]
  IN FoldLeft(at, init, [k \in 1..Len(r.fs) |-> k]).why
Verdict(r) ==
  IF r.err # "" THEN "the encoder failed: " \o r.err
  ELSE IF IOEnv.PART = "state" THEN History(r, State) ELSE History(r, Coded)
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
