---------------------------- MODULE ConfElements ----------------------------
(* Element writers of the real code: which tables changed, and the bits.     *)
EXTENDS Elements, TraceRun
RB == 15  FB == 15  A == 8  G == 5  RateBase == 4  Sat == 32
RC == INSTANCE RangeCoder
First(b, t) == RC!DecSym(b, RC!DecStart(b), t).sym
Splits == {"split_or_horz", "split_or_vert"}
Verdict(r) ==
  IF r.err # "" THEN r.e \o ": " \o r.err
  ELSE IF ~r.same THEN r.e \o ": changes the neighbouring blocks"
  ELSE IF r.e \in Splits
  THEN IF r.ch # <<>> THEN r.e \o ": changes table " \o r.ch[1].t
       ELSE IF First(r.bits, SplitTable(r)) # r.v THEN r.e \o ": decodes to another value"
       ELSE IF r.bits # RC!Flush(RC!EncSym(RC!EncStart, SplitTable(r), r.v), 8) THEN r.e \o ": coded with other probabilities" ELSE ""
  ELSE LET name == Name(r) IN
       IF Len(r.ch) # 1 THEN r.e \o ": changes " \o ToString(Len(r.ch)) \o " tables, uses " \o name
       ELSE IF r.ch[1].t # name THEN r.e \o ": uses table " \o r.ch[1].t \o ", defined " \o name
       ELSE IF Symbol(r) >= RC!Alphabet(r.ch[1].b) THEN r.e \o ": table has no such symbol"
       ELSE IF First(r.bits, r.ch[1].b) # Symbol(r) THEN r.e \o ": decodes to another value"
       ELSE IF r.ch[1].a # RC!Adapt(r.ch[1].b, Symbol(r)) THEN r.e \o ": table adapted otherwise"
       ELSE ""
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
