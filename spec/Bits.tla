-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bit strings: sequences of 0/1, most significant bit first.  Numbers     *)
(* that may exceed 31 bits are represented by bit strings throughout,      *)
(* because TLC's integers are 32 bits wide.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Bit == {0, 1}
IsBits(b) == \A k \in DOMAIN b : b[k] \in Bit

(* value v < 2^31 as n bits *)
BitsOf(v, n) == [k \in 1..n |-> IF n - k > 30 THEN 0 ELSE (v \div (2^(n-k))) % 2]
(* value of a bit string of at most 30 significant bits *)
ValOf(b) == FoldLeft(LAMBDA a, x : 2*a + x, 0, b)

Zeros(n) == [k \in 1..n |-> 0]

RECURSIVE FirstOne(_, _)
FirstOne(b, k) == IF k > Len(b) THEN k ELSE IF b[k] = 1 THEN k ELSE FirstOne(b, k+1)

(* normal form: no leading zeros; the number 0 is <<>> *)
Norm(b) == SubSeq(b, FirstOne(b, 1), Len(b))
PadTo(b, n) == LET m == Norm(b) IN Zeros(n - Len(m)) \o m
FitsIn(b, n) == Len(Norm(b)) <= n

(* comparison and addition of normal-form numbers *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, k) == IF k > Len(a) THEN FALSE
                    ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LexLess(a, b, k+1)
Less(a, b) == LET x == Norm(a) y == Norm(b) IN
              IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LexLess(x, y, 1)
Same(a, b) == Norm(a) = Norm(b)

At(b, k, n) == LET j == k - (n - Len(b)) IN IF j < 1 THEN 0 ELSE b[j]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE AddR(_, _, _, _, _)
AddR(a, b, n, k, c) ==           \* bits n..1 right to left, k = current position, c = carry
  IF k = 0 THEN IF c = 1 THEN <<1>> ELSE <<>>
  ELSE LET s == At(a, k, n) + At(b, k, n) + c
       IN AddR(a, b, n, k-1, s \div 2) \o <<s % 2>>
Add(a, b) == LET n == Max2(Len(a), Len(b)) IN Norm(AddR(a, b, n, n, 0))

RECURSIVE SubR(_, _, _, _, _)
SubR(a, b, n, k, c) ==           \* a - b, a >= b, c = borrow
  IF k = 0 THEN <<>>
  ELSE LET s == At(a, k, n) - At(b, k, n) - c
       IN SubR(a, b, n, k-1, IF s < 0 THEN 1 ELSE 0) \o <<s % 2>>
Sub(a, b) == LET n == Max2(Len(a), Len(b)) IN Norm(SubR(a, b, n, n, 0))

One == <<1>>
TwoTo(n) == <<1>> \o Zeros(n)
Take(b, p, n) == SubSeq(b, p, p + n - 1)
=============================================================================
