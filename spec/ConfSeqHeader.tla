---------------------------- MODULE ConfSeqHeader ----------------------------
(* A chain of sequence headers written by one real encoder.  Each: w = the   *)
(* configured values, bits = the payload, after = the encoder's state.       *)
EXTENDS SeqHeader, TraceRun
OneHdr(h) ==
  LET s == ParseFrom(SeqDesc, SeqOrder, NoVals, h.bits) IN
  IF ~s.ok THEN s.why
  ELSE IF s.p # Len(h.bits) + 1 THEN ToString(Len(h.bits) + 1 - s.p) \o " bits after the end of the sequence header"
  ELSE LET bad == {k \in DOMAIN h.w : k \notin Free /\ ~(Has(s.v, k) /\ s.v[k] = h.w[k])}
           st == SeqState(s.v)
           off == {k \in DOMAIN st : Has(h.after, k) /\ h.after[k] # st[k]}
       IN IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN
               "configured " \o k \o " is " \o ToString(h.w[k]) \o ", the header says " \o (IF Has(s.v, k) THEN ToString(s.v[k]) ELSE "nothing")
          ELSE IF off # {} THEN LET k == CHOOSE k \in off : TRUE IN
               "the encoder goes on with " \o k \o " = " \o ToString(h.after[k]) \o ", a decoder with " \o ToString(st[k])
          ELSE IF st.fid = 1 /\ (h.after.dfid # s.v["dfid"] + 2 \/ h.after.afid # s.v["afid"] + 1)
               THEN "frame id lengths differ from the announced ones"
          ELSE IF st.orderhint = 1 /\ h.after.ohbits # s.v["ohbits"] + 1 THEN "order hint length differs from the announced one"
          ELSE ""
Verdict(r) ==
  IF r.err # "" THEN "the encoder failed: " \o r.err
  ELSE FoldLeft(LAMBDA a, h : IF a # "" THEN a ELSE OneHdr(h), "", r.hs)
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
