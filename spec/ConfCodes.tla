------------------------------ MODULE ConfCodes ------------------------------
(* Trace specification for the number codes: records of the real writers and *)
(* readers against Codes.                                                     *)
EXTENDS Codes, TraceRun

Expected(r) ==
  LET v == r.v n == ValOf(r.n) IN
  CASE r.k = "f" -> EncF(v, n)
    [] r.k = "uvlc" -> EncUvlc(v)
    [] r.k = "le" -> EncLe(v, n)
    [] r.k = "leb" -> EncLeb128(v)
    [] r.k = "su" -> EncSu(r.neg, v, n)
    [] r.k = "ns" -> EncNs(v, r.n)

Verdict(r) ==
  IF r.err # "" THEN r.k \o ": " \o r.err
  ELSE IF ~IsPrefix(r.pre, r.out) THEN r.k \o ": bits already written were disturbed"
  ELSE IF SubSeq(r.out, Len(r.pre) + 1, Len(r.out)) # Expected(r) THEN r.k \o ": not the defined bit string"
  ELSE IF ~Same(r.dv, r.v) \/ (r.k = "su" /\ r.dneg # r.neg) THEN r.k \o ": reads back as another value"
  ELSE IF r.left # r.tail THEN r.k \o ": reader did not consume exactly the code"
  ELSE ""

Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
