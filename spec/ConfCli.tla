------------------------------- MODULE ConfCli -------------------------------
EXTENDS Cli, TraceRun

(* the product of two decimal numbers of any length, as its digits, lowest first *)
RECURSIVE ColSum(_, _, _, _), Carry(_, _, _, _), Trim(_)
ColSum(a, b, k, j) == IF j > Len(a) THEN 0
                      ELSE (IF k - j \in 0..(Len(b) - 1) THEN a[j] * b[k - j + 1] ELSE 0) + ColSum(a, b, k, j + 1)
Carry(a, b, k, up) == IF k > Len(a) + Len(b) THEN <<>>
                     ELSE LET t == ColSum(a, b, k, 1) + up IN <<t % 10>> \o Carry(a, b, k + 1, t \div 10)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Low(s) == [j \in 1..Len(s) |-> DigitVal(s[Len(s) + 1 - j])]
Product(x, y) == Trim(Carry(Low(x), Low(y), 1, 0))
Numeral(s) == s # <<>> /\ \A k \in DOMAIN s : IsDigit(s[k])
(* same rational number, by cross multiplication *)
SameRate(n1, d1, n2, d2) ==
  \/ n1 = n2 /\ d1 = d2
  \/ Numeral(n1) /\ Numeral(d1) /\ Numeral(n2) /\ Numeral(d2) /\ Product(n1, d2) = Product(n2, d1)

(* "parse": the real parser and validator on one argument list *)
ParseVerdict(r) ==
  LET p == Parse(r.args, Defaults) IN
  IF r.res = "panic" THEN "the parser crashed: " \o r.msg
  ELSE IF p.out = "error" /\ r.res = "ok" THEN "malformed arguments were accepted"
  ELSE IF p.out = "ok" /\ r.res # "ok" THEN "well-formed arguments were rejected"
  ELSE IF p.out = "error" THEN ""
  ELSE IF r.cfg.input # p.cfg.input THEN "input setting wrong"
  ELSE IF r.cfg.output # p.cfg.output THEN "output setting wrong"
  ELSE IF r.cfg.frames # p.cfg.frames THEN "frame count setting wrong"
  ELSE IF r.cfg.width # p.cfg.width \/ r.cfg.height # p.cfg.height THEN "frame size setting wrong"
  ELSE IF ~SameRate(p.cfg.rn, p.cfg.rd, r.cfg.rn, r.cfg.rd) THEN "frame rate setting wrong"
  ELSE ""
ValidVerdict(r) ==
  LET p == Parse(r.args, Defaults) IN
  IF r.res = "panic" THEN "the parser or validator crashed: " \o r.msg
  ELSE IF p.out # "ok" THEN ""
  ELSE IF Valid(p.cfg) /\ ~(r.res = "ok" /\ r.valid) THEN "a usable configuration was rejected"
  ELSE IF ~Valid(p.cfg) /\ r.res = "ok" /\ r.valid THEN "an unusable configuration was accepted"
  ELSE IF r.res = "ok" /\ r.cfg.frames # p.cfg.frames THEN "frame count or its default wrong"
  ELSE IF r.res = "ok" /\ p.cfg.rd # Zero /\ ~SameRate(p.cfg.rn, p.cfg.rd, r.cfg.rn, r.cfg.rd) THEN "frame rate or its default wrong"
  ELSE ""

(* "proc": a run of the real program in an empty directory; created = files it left *)
ProcVerdict(r) ==
  LET f == Outcome(r.args) IN
  IF r.args = <<>> THEN IF r.created # <<>> THEN "output created without arguments" ELSE ""
  ELSE IF r.how # "exit" THEN "the program did not end normally: " \o r.how
  ELSE IF f.out = "help" THEN IF r.status # 0 THEN "help reported failure" ELSE IF r.created # <<>> THEN "help created output" ELSE ""
  ELSE IF f.out = "error" \/ (f.out = "ok" /\ ~r.readable)
       THEN IF r.status = 0 THEN "rejected arguments, configuration or input, but the exit status says success"
            ELSE IF r.created # <<>> THEN "rejected, but output was created"
            ELSE IF ~r.said THEN "rejected without any message" ELSE ""
  ELSE IF r.status # 0 THEN "accepted configuration ended with failure status"
  ELSE IF r.outname \notin ToSet(r.created) THEN "accepted run left no output file"
  ELSE ""
(* "long": -fr 1 -fr 2 ... -fr n --size 16x8; by the rule of Parse, the last value of each option stays *)
LongVerdict(r) ==
  IF r.res # "ok" THEN "a long argument list is not accepted"
  ELSE IF r.frames = <<"none">> \/ ToInt(r.frames) # r.n \/ r.width # <<"1", "6">> \/ r.height # <<"8">> THEN "settings of a long argument list wrong"
  ELSE ""
Verdict(r) == CASE r.k = "long" -> LongVerdict(r) [] r.k = "parse" -> ParseVerdict(r) [] r.k = "valid" -> ValidVerdict(r) [] r.k = "proc" -> ProcVerdict(r)
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
