------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* The length-delimited stream format: temporal units, each holding one    *)
(* frame unit holding one OBU.                                             *)
(*    temporal_unit_size  leb128, bytes that follow in the unit            *)
(*      frame_unit_size   leb128                                           *)
(*        obu_length      leb128                                           *)
(*          obu header    one byte: 0, type (4), extension 0, size 0, 0    *)
(*          body          payload bits, trailing bits                      *)
(* Bytes are numbers 0..255.  A unit is [t |-> type, pay |-> payload bits]  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

SeqHdrT == 1  TdT == 2  FrameHdrT == 3  TileGroupT == 4  MetaT == 5  FrameT == 6  RedundantT == 7  PaddingT == 15
OpenEnded == {TileGroupT, FrameT}           \* no trailing one bit of their own

(* writing *)
RECURSIVE Leb(_)
Leb(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Leb(n \div 128)
ZeroBits(n) == [k \in 1..n |-> 0]
Body(t, pay) ==       \* body bits
  LET one == IF Len(pay) > 0 /\ t \notin OpenEnded THEN pay \o <<1>> ELSE pay
  IN one \o ZeroBits((8 - (Len(one) % 8)) % 8)
Pack(b) == [k \in 1 .. (Len(b) \div 8) |->
              128*b[8*k-7] + 64*b[8*k-6] + 32*b[8*k-5] + 16*b[8*k-4] + 8*b[8*k-3] + 4*b[8*k-2] + 2*b[8*k-1] + b[8*k]]
Obu(t, pay) == <<8 * t>> \o Pack(Body(t, pay))
Sized(x) == Leb(Len(x)) \o x
UnitBytes(u) == Sized(Sized(Sized(Obu(u.t, u.pay))))

(* reading: leb128 at p; n = bytes used, 0 if it is not there or out of range *)
RECURSIVE LebAt(_, _, _, _)
LebAt(b, p, k, acc) ==
  IF p + k > Len(b) \/ k > 3 THEN [n |-> 0, v |-> 0]
  ELSE LET x == b[p + k] IN
       IF x < 128 THEN [n |-> k + 1, v |-> acc + x * 128^k]
       ELSE LebAt(b, p, k + 1, acc + (x - 128) * 128^k)
Size(b, p) == LebAt(b, p, 0, 0)

(* one unit at p: [ok, why, t, from, to, next] with the body in from..to *)
Bad(w) == [ok |-> FALSE, why |-> w, t |-> 0, from |-> 0, to |-> 0, next |-> 0]
UnitAt(b, p) ==
  LET tu == Size(b, p)
      p1 == p + tu.n
      endtu == p1 + tu.v            \* first byte after the temporal unit
      fu == Size(b, p1)
      p2 == p1 + fu.n
      ob == Size(b, p2)
      p3 == p2 + ob.n
  IN IF tu.n = 0 \/ endtu > Len(b) + 1 THEN Bad("temporal_unit_size does not match the data")
     ELSE IF fu.n = 0 \/ p2 + fu.v # endtu THEN Bad("frame_unit_size is not the size of the frame unit")
     ELSE IF ob.n = 0 \/ p3 + ob.v # endtu THEN Bad("obu_length is not the size of the OBU")
     ELSE IF ob.v = 0 THEN Bad("no OBU header")
     ELSE IF b[p3] % 8 # 0 \/ b[p3] >= 128 THEN Bad("OBU header has wrong flags")
     ELSE [ok |-> TRUE, why |-> "", t |-> b[p3] \div 8, from |-> p3 + 1, to |-> endtu - 1, next |-> endtu]

BitAt(b, k) == (b[(k-1) \div 8 + 1] \div 2^(7 - ((k-1) % 8))) % 2     \* k-th bit of a byte sequence

(* the units of a stream against the expected ones; "" if they match *)
RECURSIVE Check(_, _, _, _)
Check(b, p, us, k) ==
  IF k > Len(us) THEN IF p = Len(b) + 1 THEN "" ELSE ToString(Len(b) + 1 - p) \o " bytes after the last temporal unit"
  ELSE LET u == UnitAt(b, p) IN
       IF ~u.ok THEN u.why
       ELSE IF u.t # us[k].t THEN "OBU of type " \o ToString(u.t) \o " instead of " \o ToString(us[k].t)
       ELSE IF us[k].t = PaddingT /\ us[k].zeros >= 0
            THEN \* padding of zero bytes, kept out of the record
                 LET n == us[k].zeros
                     want == IF n = 0 THEN 0 ELSE n + 1
                 IN IF u.to - u.from + 1 # want THEN "padding body has the wrong size"
                    ELSE IF \E q \in 0..(n-1) : b[u.from + q] # 0 THEN "padding is not zero"
                    ELSE IF n > 0 /\ b[u.to] # 128 THEN "trailing bits are wrong"
                    ELSE Check(b, u.next, us, k + 1)
       ELSE LET want == Pack(Body(us[k].t, us[k].pay)) IN
            IF u.to - u.from + 1 # Len(want) THEN "the body has " \o ToString(u.to - u.from + 1) \o " bytes instead of " \o ToString(Len(want))
            ELSE IF SubSeq(b, u.from, u.to) # want THEN "the body is not the payload and its trailing bits"
            ELSE Check(b, u.next, us, k + 1)
=============================================================================
