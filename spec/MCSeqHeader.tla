----------------------------- MODULE MCSeqHeader -----------------------------
EXTENDS SeqHeader, SyntaxWalk
Init == WInit(NoVals)
Next == WNext(SeqDesc, SeqDom, SeqOrder)
Spec == Init /\ [][Next]_wvars
Emit == WEmit(SeqOrder)
RoundTrip == WRoundTrip(SeqDesc, SeqOrder, NoVals)
=============================================================================
