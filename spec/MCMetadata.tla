----------------------------- MODULE MCMetadata -----------------------------
EXTENDS Metadata, SyntaxWalk
Init == \E n \in {0, 1, 2, 5, MaxBytes} : WInit("bytes" :> n)
Next == WNext(MetaDesc, MetaDom, MetaOrder)
Spec == Init /\ [][Next]_wvars
Emit == at > Len(MetaOrder) => PrintT("CASE|" \o ToJson([w |-> w, bytes |-> v["bytes"]]))
RoundTrip == WRoundTrip(MetaDesc, MetaOrder, "bytes" :> v["bytes"]) 
Accepted == at > Len(MetaOrder) => MetaVerdict(w, v["bytes"], bits) = ""
=============================================================================
