----------------------------- MODULE ConfReader -----------------------------
EXTENDS Reader, TraceRun
(* r.got[k] = [n |-> returned count, size |-> samples of the plane, s |-> (position, sample) pairs] of the real reader *)
Verdict(r) ==
  IF r.err # "" THEN "reader: " \o r.err
  ELSE IF Len(r.got) # Len(r.planes) THEN "not every plane was read"
  ELSE IF \E k \in DOMAIN r.got : r.got[k].n # Count(r.planes, r.len, k)
       THEN "a plane got " \o ToString(r.got[CHOOSE k \in DOMAIN r.got : r.got[k].n # Count(r.planes, r.len, k)].n) \o " bytes although more had been sent, or more than there were"
  ELSE IF \E k \in DOMAIN r.got : r.got[k].size # r.planes[k] THEN "the plane changed its size"
  ELSE IF \E k \in DOMAIN r.got : \E j \in DOMAIN r.got[k].s : r.got[k].s[j][1] < r.got[k].n /\ r.got[k].s[j][2] # ByteAt(Start(r.planes, k) + r.got[k].s[j][1])
       THEN "a plane holds other bytes than were sent"
  ELSE ""
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
