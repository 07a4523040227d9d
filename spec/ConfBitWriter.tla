---------------------------- MODULE ConfBitWriter ----------------------------
EXTENDS BitWriter, TraceRun
FileVerdict(r) ==
  LET w == FoldLeft(WOp, WStart, r.ops) IN
  IF r.err # "" THEN "writer: " \o r.err
  ELSE IF Len(r.bytes) < Len(w.bytes) THEN "bytes are missing from the file"
  ELSE IF Len(r.bytes) > Len(w.bytes) THEN "the file has extra bytes"
  ELSE IF r.bytes # w.bytes THEN "the file holds other bits than were written"
  ELSE ""
AlignVerdict(r) ==
  IF r.err # "" THEN "align: " \o r.err
  ELSE IF r.out # r.pre \o Zeros((-Len(r.pre)) % 8) THEN "in-memory alignment is not the minimal zero padding"
  ELSE ""
Verdict(r) == IF r.k = "file" THEN FileVerdict(r) ELSE AlignVerdict(r)
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
