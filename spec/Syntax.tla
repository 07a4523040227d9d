------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* Header syntax as an ordered list of elements.  An element is a record   *)
(* with a key k (unique), a name n and up to two indices i, j.  A syntax   *)
(* gives, for every element and the values of the earlier ones, how the    *)
(* element appears:                                                        *)
(*    <<"skip">>      not there, no value                                  *)
(*    <<"set", x>>    not there, the decoder infers x                      *)
(*    <<"f", n>>      n bits (an integer if n <= 30, else a bit string)    *)
(*    <<"su", n>>     n bits, two's complement                             *)
(*    <<"ns", n>>     0..n-1, truncated binary                             *)
(*    <<"le", n>>     n bytes, least significant first                     *)
(*    <<"sub", lo, hi, r>>  lo..hi-1, subexponential around r               *)
(*    <<"uvlc">>, <<"leb">>   variable length (value: a bit string)        *)
(*    <<"zero", n>>   n bits that must be zero                             *)
(* Parsing runs through the list once, as a decoder does.                  *)
(***************************************************************************)
EXTENDS Codes, TLC

NoVals == [x \in {} |-> 0]
Has(v, k) == k \in DOMAIN v
Val(v, k) == IF k \in DOMAIN v THEN v[k] ELSE 0
El(n) == [k |-> n, n |-> n, i |-> 0, j |-> 0]
El1(n, i) == [k |-> n \o "." \o ToString(i), n |-> n, i |-> i, j |-> 0]
El2(n, i, j) == [k |-> n \o "." \o ToString(i) \o "." \o ToString(j), n |-> n, i |-> i, j |-> j]
Key1(n, i) == n \o "." \o ToString(i)
Key2(n, i, j) == n \o "." \o ToString(i) \o "." \o ToString(j)
Flat(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)

(* value of bits as the element's value *)
Unsig(b) == IF Len(b) <= 30 THEN ValOf(b) ELSE Norm(b)
Signed(b) == IF b[1] = 0 THEN ValOf(b) ELSE ValOf(b) - 2^Len(b)

(* subexponential codes *)
InvRecenter(r, x) == IF x > 2 * r THEN x ELSE IF x % 2 = 1 THEN r - ((x + 1) \div 2) ELSE r + (x \div 2)
Recenter(r, x) == IF x > 2 * r THEN x ELSE IF x >= r THEN 2 * (x - r) ELSE 2 * (r - x) - 1
RECURSIVE DecSub(_, _, _, _, _)
DecSub(b, p, n, i, mk) ==      \* b from position p; n symbols
  LET b2 == IF i > 0 THEN 2 + i ELSE 3
      a == 2^b2
      fail == [ok |-> FALSE, v |-> 0, used |-> 0]
  IN IF n <= mk + 3 * a THEN LET x == DecNs(SubSeq(b, p, Len(b)), BitsOf(n - mk, 30)) IN
                             IF x.ok THEN [ok |-> TRUE, v |-> ValOf(x.v) + mk, used |-> p - 1 + x.used] ELSE fail
     ELSE IF p > Len(b) THEN fail
     ELSE IF b[p] = 1 THEN DecSub(b, p + 1, n, i + 1, mk + a)
     ELSE IF p + b2 > Len(b) THEN fail
     ELSE [ok |-> TRUE, v |-> ValOf(SubSeq(b, p + 1, p + b2)) + mk, used |-> p + b2]
RECURSIVE EncSub(_, _, _, _)
EncSub(x, n, i, mk) ==
  LET b2 == IF i > 0 THEN 2 + i ELSE 3
      a == 2^b2
  IN IF n <= mk + 3 * a THEN EncNs(BitsOf(x - mk, 30), BitsOf(n - mk, 30))
     ELSE IF x < mk + a THEN <<0>> \o BitsOf(x - mk, b2)
     ELSE <<1>> \o EncSub(x, n, i + 1, mk + a)
Unsub(x, n, r) == IF 2 * r <= n THEN InvRecenter(r, x) ELSE n - 1 - InvRecenter(n - 1 - r, x)
Resub(x, n, r) == IF 2 * r <= n THEN Recenter(r, x) ELSE Recenter(n - 1 - r, n - 1 - x)

Advance(s, e, val, used) == [s EXCEPT !.v = @ @@ (e.k :> val), !.p = @ + used]
Stop(s, e, why) == [s EXCEPT !.ok = FALSE, !.why = why \o " at " \o e.k]
Rest(b, p, n) == SubSeq(b, p, IF p + n - 1 < Len(b) THEN p + n - 1 ELSE Len(b))

ParseStep(b, s, e, d) ==
  CASE d[1] = "skip" -> s
    [] d[1] = "set" -> [s EXCEPT !.v = @ @@ (e.k :> d[2])]
    [] d[1] \in {"f", "zero", "su"} ->
         IF s.p + d[2] - 1 > Len(b) THEN Stop(s, e, "the payload ends")
         ELSE LET x == SubSeq(b, s.p, s.p + d[2] - 1) IN
              IF d[1] = "f" THEN Advance(s, e, Unsig(x), d[2])
              ELSE IF d[1] = "su" THEN Advance(s, e, Signed(x), d[2])
              ELSE IF \E q \in DOMAIN x : x[q] = 1 THEN Stop(s, e, "reserved bits are not zero")
              ELSE Advance(s, e, 0, d[2])
    [] d[1] \in {"uvlc", "leb", "le", "ns"} ->
         LET r == Rest(b, s.p, 80)
             x == CASE d[1] = "uvlc" -> DecUvlc(r) [] d[1] = "leb" -> DecLeb128(r)
                    [] d[1] = "le" -> DecLe(r, d[2]) [] d[1] = "ns" -> DecNs(r, BitsOf(d[2], 30))
         IN IF ~x.ok THEN Stop(s, e, "the payload ends")
            ELSE Advance(s, e, IF d[1] = "ns" THEN ValOf(x.v) ELSE x.v, x.used)

    [] d[1] = "sub" ->
         LET n == d[3] - d[2]
             x == DecSub(Rest(b, s.p, 80), 1, n, 0, 0)
         IN IF ~x.ok THEN Stop(s, e, "the payload ends")
            ELSE IF x.v >= n THEN Stop(s, e, "a value outside its range")
            ELSE Advance(s, e, Unsub(x.v, n, d[4] - d[2]) + d[2], x.used)

(* the whole payload; ctx = values known beforehand *)
ParseFrom(Desc(_, _), Order, ctx, b) ==
  FoldLeft(LAMBDA s, e : IF ~s.ok THEN s ELSE ParseStep(b, s, e, Desc(e, s.v)),
           [p |-> 1, v |-> ctx, ok |-> TRUE, why |-> ""], Order)

(* writing one element *)
EncEl(d, x) ==
  CASE d[1] = "f" -> IF d[2] <= 30 THEN BitsOf(x, d[2]) ELSE PadTo(x, d[2])
    [] d[1] = "zero" -> Zeros(d[2])
    [] d[1] = "su" -> BitsOf(IF x < 0 THEN x + 2^d[2] ELSE x, d[2])
    [] d[1] = "uvlc" -> EncUvlc(x)
    [] d[1] = "leb" -> EncLeb128(x)
    [] d[1] = "le" -> EncLe(x, d[2])
    [] d[1] = "ns" -> EncNs(BitsOf(x, 30), BitsOf(d[2], 30))
    [] d[1] = "sub" -> EncSub(Resub(x - d[2], d[3] - d[2], d[4] - d[2]), d[3] - d[2], 0, 0)

(* representative values for generating behaviours *)
Ends(n) == IF n = 0 THEN {0}
           ELSE IF n <= 30 THEN {x \in {0, 1, 2^(n-1), 2^n - 1, (2^n - 1) \div 3, 2^n - 2} : x >= 0 /\ x < 2^n}
           ELSE {Norm(PadTo(<<>>, n)), <<1>>, Norm([k \in 1..n |-> 1]), Norm([k \in 1..n |-> k % 2]), TwoTo(n - 1)}
DefaultDom(d) ==
  CASE d[1] = "f" -> IF d[2] <= 3 THEN 0..(2^d[2] - 1) ELSE Ends(d[2]) \cup (IF d[2] <= 30 THEN {RandomElement(0..(2^d[2] - 1))} ELSE {})
    [] d[1] = "zero" -> {0}
    [] d[1] = "su" -> {-(2^(d[2]-1)), -1, 0, 1, 2^(d[2]-1) - 1, 2^(d[2]-2), RandomElement(-(2^(d[2]-1))..(2^(d[2]-1) - 1))}
    [] d[1] = "uvlc" -> {<<>>, <<1>>, <<1,0>>, <<1,1,0,1>>, [k \in 1..20 |-> 1], [k \in 1..31 |-> 1]}
    [] d[1] = "ns" -> {x \in {0, 1, d[2] - 1, d[2] \div 2, RandomElement(0..(d[2] - 1))} : x >= 0 /\ x < d[2]}
    [] d[1] = "sub" -> {x \in {d[2], d[3] - 1, d[4], d[4] + 1, d[4] - 1, d[4] + 7, d[4] - 9, d[4] + 40, d[4] - 300, (d[2] + d[3]) \div 2, d[3] \div 3, RandomElement(d[2]..(d[3] - 1))} : x >= d[2] /\ x < d[3]}
    [] OTHER -> {<<>>, <<1>>, <<1,0,1>>}

(* first key on which two assignments differ, among Keys; "" if none *)
Differ(Keys, a, b) == LET bad == {k \in Keys : Has(a, k) /\ Has(b, k) /\ a[k] # b[k]}
                      IN IF bad = {} THEN "" ELSE CHOOSE k \in bad : TRUE
=============================================================================
