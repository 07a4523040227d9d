--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line.  An argument is a sequence of one-character strings.  *)
(* Parsing is a state machine that consumes an option and its value at a   *)
(* time, left to right, over the default settings.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitVal(ch) == CHOOSE d \in 0..9 : Digits[d + 1] = ch
IsDigit(ch) == \E d \in 1..10 : Digits[d] = ch

RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = "0" THEN Strip(Tail(s)) ELSE s

(* decimal numbers of any size as digit strings without leading zeros *)
RECURSIVE DigLess(_, _)
DigLess(a, b) == IF a = <<>> THEN FALSE
                 ELSE IF a[1] # b[1] THEN DigitVal(a[1]) < DigitVal(b[1]) ELSE DigLess(Tail(a), Tail(b))
NumLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE DigLess(a, b)
MaxNum == <<"1","8","4","4","6","7","4","4","0","7","3","7","0","9","5","5","1","6","1","5">>
Unsigned(s) == IF Len(s) > 1 /\ s[1] = "+" THEN Tail(s) ELSE s
IsNum(s) == LET u == Unsigned(s) IN
            /\ u # <<>>
            /\ \A k \in DOMAIN u : IsDigit(u[k])
            /\ ~NumLess(MaxNum, Strip(u))
Num(s) == Strip(Unsigned(s))
RECURSIVE IntR(_, _)
IntR(s, a) == IF s = <<>> THEN a ELSE IntR(Tail(s), 10 * a + DigitVal(s[1]))
ToInt(s) == IntR(s, 0)          \* only for numbers of at most 9 digits

RECURSIVE Split(_, _, _)
Split(s, sep, cur) == IF s = <<>> THEN <<cur>>
                      ELSE IF s[1] = sep THEN <<cur>> \o Split(Tail(s), sep, <<>>)
                      ELSE Split(Tail(s), sep, Append(cur, s[1]))

-----------------------------------------------------------------------------
None == <<"none">>            \* marker: not a possible optional value below
NoCfg == [input |-> None, output |-> None, frames |-> None, width |-> None, height |-> None, rn |-> None, rd |-> None]
Defaults == [NoCfg EXCEPT !.frames = <<"4","2","9","4","9","6","7","2","9","5">>, !.rn = <<"3","0">>, !.rd = <<"1">>]

Long(name) == <<"-", "-">> \o name
OptName == [help |-> <<"h","e","l","p">>, input |-> <<"i","n","p","u","t">>, output |-> <<"o","u","t","p","u","t">>,
            frames |-> <<"f","r","a","m","e","s">>, size |-> <<"s","i","z","e">>,
            framerate |-> <<"f","r","a","m","e","r","a","t","e">>]
OptShort == [help |-> <<"h">>, input |-> <<"i">>, output |-> <<"o">>, frames |-> <<"f","r">>, size |-> <<"s">>, framerate |-> <<"r">>]
(* which option an argument names; "" if none *)
OptionOf(a) ==
  IF Len(a) = 0 \/ a[1] # "-" THEN ""
  ELSE LET long == Len(a) >= 2 /\ a[2] = "-"
           m == {o \in DOMAIN OptName : IF long THEN a = Long(OptName[o]) ELSE a = <<"-">> \o OptShort[o]}
       IN IF m = {} THEN "" ELSE CHOOSE o \in m : TRUE

(* one option applied to its value; ok = FALSE if the value is malformed *)
Bad == [ok |-> FALSE, cfg |-> NoCfg]
Apply(o, v, cfg) ==
  CASE o = "input" -> [ok |-> TRUE, cfg |-> [cfg EXCEPT !.input = v]]
    [] o = "output" -> [ok |-> TRUE, cfg |-> [cfg EXCEPT !.output = v]]
    [] o = "frames" -> IF IsNum(v) THEN [ok |-> TRUE, cfg |-> [cfg EXCEPT !.frames = Num(v)]] ELSE Bad
    [] o = "size" -> LET p == Split(v, "x", <<>>) IN
                     IF Len(p) = 2 /\ IsNum(p[1]) /\ IsNum(p[2])
                     THEN [ok |-> TRUE, cfg |-> [cfg EXCEPT !.width = Num(p[1]), !.height = Num(p[2])]] ELSE Bad
    [] o = "framerate" -> LET p == Split(v, "/", <<>>) IN
                     IF Len(p) = 1 /\ IsNum(p[1])
                     THEN [ok |-> TRUE, cfg |-> [cfg EXCEPT !.rn = Num(p[1]), !.rd = <<"1">>]]
                     ELSE IF Len(p) = 2 /\ IsNum(p[1]) /\ IsNum(p[2]) /\ Num(p[2]) # <<"0">>   \* N/0 is not a number
                     THEN [ok |-> TRUE, cfg |-> [cfg EXCEPT !.rn = Num(p[1]), !.rd = Num(p[2])]] ELSE Bad

(* outcome "ok" | "error" | "help" *)
RECURSIVE Parse(_, _)
Parse(args, cfg) ==
  IF args = <<>> THEN [out |-> "ok", cfg |-> cfg]
  ELSE LET o == OptionOf(args[1]) IN
       IF o = "" THEN [out |-> "error", cfg |-> NoCfg]
       ELSE IF o = "help" THEN [out |-> "help", cfg |-> NoCfg]
       ELSE IF Len(args) < 2 THEN [out |-> "error", cfg |-> NoCfg]
       ELSE LET a == Apply(o, args[2], cfg) IN
            IF ~a.ok THEN [out |-> "error", cfg |-> NoCfg] ELSE Parse(SubSeq(args, 3, Len(args)), a.cfg)

Zero == <<"0">>
DimOk(d) == d # None /\ d # Zero /\ Len(d) <= 4 /\ ToInt(d) \in 1..8191
Valid(cfg) ==
  /\ cfg.input # None /\ cfg.output # None /\ cfg.frames # None
  /\ DimOk(cfg.width) /\ DimOk(cfg.height)
  /\ cfg.rn # None /\ cfg.rd # None /\ cfg.rn # Zero /\ cfg.rd # Zero

(* the whole front end; the system may hand over bytes which are no characters ("invalid") *)
Readable(args) == \A k \in 1..Len(args) : \A j \in 1..Len(args[k]) : args[k][j] # "invalid"
Outcome(args) == LET p == Parse(args, Defaults) IN
               IF ~Readable(args) THEN [out |-> "error", cfg |-> NoCfg]
               ELSE IF p.out # "ok" THEN p ELSE IF Valid(p.cfg) THEN p ELSE [out |-> "error", cfg |-> NoCfg]
=============================================================================
