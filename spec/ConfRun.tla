------------------------------- MODULE ConfRun -------------------------------
(* Runs of the real program.  r.args: the command line; r.len: bytes of      *)
(* input; r.held: the input stayed open after them; r.out: the output;       *)
(* r.sink: "good" | "bad" (the output cannot take data); r.src likewise;     *)
(* r.saved: the output file's contents                                       *)
EXTENDS Run, TraceRun
Cl == INSTANCE Cli
Fr == INSTANCE Framing
Sq == INSTANCE SeqHeader
(* frame counts of more than 6 digits are as good as unlimited here *)
Count(f) == IF Len(f) > 6 THEN 999999 ELSE Cl!ToInt(f)
SeqCheck(bytes, u, w, h) ==
  LET nb == 8 * (u.to - u.from + 1)
      bits == [k \in 1..nb |-> (bytes[u.from + ((k-1) \div 8)] \div 2^(7 - ((k-1) % 8))) % 2]
      s == Sq!ParseFrom(Sq!SeqDesc, Sq!SeqOrder, Sq!NoVals, bits)
  IN IF ~s.ok THEN "the sequence header does not parse: " \o s.why
     ELSE IF s.p > nb THEN "no trailing bits after the sequence header"
     ELSE IF bits[s.p] # 1 \/ nb - s.p >= 8 \/ (\E k \in (s.p + 1)..nb : bits[k] # 0) THEN "wrong trailing bits after the sequence header"
     ELSE IF s.v["maxw"] + 1 # w \/ s.v["maxh"] + 1 # h
          THEN "the sequence header announces " \o ToString(s.v["maxw"] + 1) \o "x" \o ToString(s.v["maxh"] + 1)
     ELSE ""
Verdict(r) ==
  LET f == Cl!Outcome(r.args)
      w == Cl!ToInt(f.cfg.width)
      h == Cl!ToInt(f.cfg.height)
      n == Units(w, h, Count(f.cfg.frames), r.len)
      u == Fr!UnitAt(r.out, 1)
  IN IF f.out # "ok" THEN "(not an accepted command line)"
     ELSE IF r.how # "exit" THEN "the program did not end normally: " \o r.how
     ELSE IF r.src = "bad" /\ Count(f.cfg.frames) > 0
          THEN IF r.status = 0 THEN "the input could not be read, but the exit status says success"
               ELSE IF r.saved # <<>> THEN "output although the input could not be read" ELSE ""
     ELSE IF r.sink = "bad" THEN IF n > 0 /\ r.status = 0 THEN "the output could not be written, but the exit status says success" ELSE ""
     ELSE IF r.status # 0 THEN "the run failed with status " \o ToString(r.status)
     ELSE IF n = 0 THEN IF r.out # <<>> THEN "output although no complete frame was read" ELSE ""
     ELSE IF r.out = <<>> THEN "no output although a frame was read"
     ELSE IF ~u.ok THEN u.why
     ELSE IF u.t # 1 THEN "the unit holds an OBU of type " \o ToString(u.t)
     ELSE IF u.next # Len(r.out) + 1 THEN ToString(Len(r.out) + 1 - u.next) \o " bytes after the temporal unit"
     ELSE SeqCheck(r.out, u, w, h)
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
