------------------------------- MODULE MCCodes -------------------------------
(* Exhaustive model run for Codes: every code, every width/range and value   *)
(* within the bounds below, read back with two different continuations.      *)
EXTENDS Codes, TLC
CONSTANTS UvlcMax, LebMax, SuMax, NsMax, FMax, LeMax
VARIABLES k, n, v
vars == <<k, n, v>>

B(x) == Norm(BitsOf(x, 30))

(* two steps, so that TLC's workers share the enumeration: pick the code, its *)
(* parameter and a residue class, then a value in that class                  *)
Classes == 32
Values(kk, nn) == CASE kk = "uvlc" -> 0..UvlcMax
                   [] kk = "leb" -> 0..LebMax
                   [] kk = "f" -> 0..(2^nn - 1)
                   [] kk = "le" -> 0..(2^(8*nn) - 1)
                   [] kk = "su" -> (-(2^(nn-1)))..(2^(nn-1) - 1)
                   [] kk = "ns" -> 0..(nn-1)
Params == {<<"uvlc", 0>>, <<"leb", 0>>} \cup {<<"f", j>> : j \in 0..FMax}
          \cup {<<"le", j>> : j \in 1..LeMax} \cup {<<"su", j>> : j \in 1..SuMax}
          \cup {<<"ns", j>> : j \in 1..NsMax}
Init == \E p \in Params : k = p[1] /\ n = p[2] /\ v \in {-100000 - c : c \in 0..(Classes-1)}
Pick == /\ v <= -100000
        /\ v' \in {x \in Values(k, n) : (x % Classes) = -100000 - v}
        /\ UNCHANGED <<k, n>>
Next == Pick
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
Enc == CASE k = "uvlc" -> EncUvlc(B(v))
         [] k = "leb" -> EncLeb128(B(v))
         [] k = "f" -> EncF(B(v), n)
         [] k = "le" -> EncLe(B(v), n)
         [] k = "su" -> EncSu(v < 0, B(Abs(v)), n)
         [] k = "ns" -> EncNs(B(v), B(n))
Dec(b) == CASE k = "uvlc" -> DecUvlc(b)
         [] k = "leb" -> DecLeb128(b)
         [] k = "f" -> DecF(b, n)
         [] k = "le" -> DecLe(b, n)
         [] k = "su" -> DecSu(b, n)
         [] k = "ns" -> DecNs(b, B(n))

Picked == v > -100000
RoundTrip == Picked => \A tail \in {<<>>, <<0>>, <<1>>, <<1,0,1,1>>, Zeros(9)} :
  LET d == Dec(Enc \o tail) IN
  /\ d.ok
  /\ d.used = Len(Enc)
  /\ Same(d.v, B(Abs(v)))
  /\ (k = "su" => (d.neg <=> v < 0))
(* no proper prefix of a code word is accepted *)
PrefixFree == Picked => \A j \in 0..(Len(Enc) - 1) : ~ Dec(SubSeq(Enc, 1, j)).ok
WellFormed == Picked => IsBits(Enc)
=============================================================================
