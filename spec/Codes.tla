-------------------------------- MODULE Codes --------------------------------
(***************************************************************************)
(* The number codes of AV1 headers.  For every code: the bit string that   *)
(* codes a value (Enc) and the reader (Dec), which returns the value and   *)
(* the number of bits it used, or ok = FALSE if the input ends too early.  *)
(* Values are bit strings (see Bits).                                      *)
(*                                                                         *)
(*   f(n)      n bits, most significant first                              *)
(*   uvlc      v+1 in binary, preceded by one zero per bit after its first *)
(*   le(n)     n bytes, least significant byte first                       *)
(*   leb128    7-bit groups, least significant first, continuation flag    *)
(*   su(n)     n-bit two's complement                                      *)
(*   ns(n)     value in 0..n-1, truncated binary                           *)
(***************************************************************************)
EXTENDS Bits

EncF(v, n) == PadTo(v, n)

EncUvlc(v) == LET x == Add(v, One) IN Zeros(Len(x) - 1) \o x

EncLe(v, n) == LET x == PadTo(v, 8*n)
               IN [k \in 1..(8*n) |-> x[8*(n - 1 - ((k-1) \div 8)) + ((k-1) % 8) + 1]]

EncLeb128(v) ==
  LET L == Len(Norm(v))
      groups == IF L = 0 THEN 1 ELSE (L + 6) \div 7
      x == PadTo(v, 7*groups)
  IN [k \in 1..(8*groups) |->
        LET g == (k-1) \div 8        \* 0-based group, least significant first
            o == (k-1) % 8
        IN IF o = 0 THEN (IF g = groups-1 THEN 0 ELSE 1)
           ELSE x[7*(groups-1-g) + o]]

(* neg says whether the value is negative, mag is its absolute value *)
EncSu(neg, mag, n) == IF ~neg THEN PadTo(mag, n)
                      ELSE PadTo(Sub(TwoTo(n), mag), n)

EncNs(v, n) ==
  LET w == Len(Norm(n))
      m == Sub(TwoTo(w), n)
  IN IF Less(v, m) THEN PadTo(v, w-1) ELSE PadTo(Add(v, m), w)

-----------------------------------------------------------------------------
Fail == [ok |-> FALSE, v |-> <<>>, used |-> 0]
Got(v, u) == [ok |-> TRUE, v |-> Norm(v), used |-> u]

DecF(b, n) == IF Len(b) < n THEN Fail ELSE Got(Take(b, 1, n), n)

DecUvlc(b) ==
  LET p == FirstOne(b, 1)      \* leading zeros = p-1
      z == p - 1
  IN IF p > Len(b) \/ Len(b) < p + z THEN Fail
     ELSE Got(Sub(Take(b, p, z+1), One), p + z)

DecLe(b, n) == IF Len(b) < 8*n THEN Fail
               ELSE Got([k \in 1..(8*n) |-> b[8*(n - 1 - ((k-1) \div 8)) + ((k-1) % 8) + 1]], 8*n)

RECURSIVE DecLebR(_, _, _)
DecLebR(b, g, acc) ==          \* g groups read so far
  IF g = 8 \/ Len(b) < 8*(g+1) THEN Fail
  ELSE LET byte == Take(b, 8*g + 1, 8)
           acc2 == SubSeq(byte, 2, 8) \o acc
       IN IF byte[1] = 0 THEN Got(acc2, 8*(g+1)) ELSE DecLebR(b, g+1, acc2)
DecLeb128(b) == DecLebR(b, 0, <<>>)

(* returns also neg; v is the absolute value *)
DecSu(b, n) == IF Len(b) < n THEN [ok |-> FALSE, neg |-> FALSE, v |-> <<>>, used |-> 0]
               ELSE LET x == Take(b, 1, n) IN
                    IF x[1] = 0 THEN [ok |-> TRUE, neg |-> FALSE, v |-> Norm(x), used |-> n]
                    ELSE [ok |-> TRUE, neg |-> TRUE, v |-> Sub(TwoTo(n), x), used |-> n]

DecNs(b, n) ==
  LET w == Len(Norm(n))
      m == Sub(TwoTo(w), n)
  IN IF Len(b) < w - 1 THEN Fail
     ELSE LET v == Take(b, 1, w-1) IN
          IF Less(v, m) THEN Got(v, w-1)
          ELSE IF Len(b) < w THEN Fail
          ELSE Got(Sub(Take(b, 1, w), m), w)
=============================================================================
