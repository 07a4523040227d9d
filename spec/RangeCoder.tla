----------------------------- MODULE RangeCoder -----------------------------
(***************************************************************************)
(* The symbol (range) coder with adaptive probability tables.              *)
(*                                                                         *)
(* A table for an alphabet of N symbols is a sequence of N+1 numbers: the  *)
(* N cumulative frequencies, scaled to Top = 2^FB, and an adaptation       *)
(* counter.  Symbols are 0..N-1.                                           *)
(*                                                                         *)
(* The range is RB+1 bits wide.  The real coder has RB = 15, FB = 15,      *)
(* A = 8; the exhaustive model uses the same definitions with fewer bits.  *)
(***************************************************************************)
EXTENDS Bits
CONSTANTS RB,        \* range is kept in 2^RB .. 2^(RB+1)-1
          FB,        \* precision of the frequencies
          A,         \* low bits of the range ignored in the product
          G,         \* log2 of the floor kept under every probability (5)
          RateBase,  \* 4
          Sat        \* saturation of the adaptation counter (32)

Top == 2^FB
RLo == 2^RB
Alphabet(t) == Len(t) - 1
Counter(t) == t[Len(t)]
Cum(t, s) == t[s + 1]                       \* cumulative frequency up to symbol s

WellFormed(t) ==
  /\ Len(t) >= 3
  /\ \A k \in 1..Len(t) : t[k] \in Int
  /\ t[1] > 0
  /\ \A k \in 1..(Len(t) - 2) : t[k] < t[k+1]
  /\ t[Len(t) - 1] = Top
  /\ Counter(t) \in 0..Sat

-----------------------------------------------------------------------------
(* Adaptation.  Every entry moves towards its target by 2^-rate of the     *)
(* distance, rounded down; the targets keep 2^G apart.                     *)
RECURSIVE FloorLog2(_)
FloorLog2(x) == IF x < 2 THEN 0 ELSE 1 + FloorLog2(x \div 2)

Rate(t) == RateBase + (IF Counter(t) >= Sat THEN 1 ELSE 0) + FloorLog2(Alphabet(t))
Shr(x, r) == x \div 2^r                     \* floor, also for negative x
Adapt(t, s) ==
  LET N == Alphabet(t)
      r == Rate(t)
      diff == Shr(Top - N * 2^G, r) * 2^r
      target(k) == k * 2^G + (IF k - 1 >= s THEN diff ELSE 0)
  IN [k \in 1..(N + 1) |->
        IF k < N THEN t[k] - Shr(t[k] - target(k), r)
        ELSE IF k = N THEN t[k]
        ELSE IF t[k] < Sat THEN t[k] + 1 ELSE t[k]]

-----------------------------------------------------------------------------
(* Boundary, within a range of size R, above which symbol s lies:          *)
(* symbols are laid out from the top of the range downwards.               *)
Scale(R, f) == ((R \div 2^A) * f) \div 2^(FB - A)
Hi(R, t, s) == IF s = 0 THEN R ELSE Scale(R, Top - Cum(t, s - 1))
Lo(R, t, s) == Scale(R, Top - Cum(t, s))

RECURSIVE Shifts(_)
Shifts(R) == IF R >= RLo THEN 0 ELSE 1 + Shifts(2 * R)

(* Encoder: low is the part of the code value not yet moved out; one bit   *)
(* "first" is always zero and dropped; a run of ones behind the last zero  *)
(* is held back because a carry could still ripple through it.             *)
EncStart == [low |-> 0, rng |-> RLo, lastZero |-> FALSE, ones |-> 0, first |-> TRUE, out |-> <<>>]
Ones(n) == [k \in 1..n |-> 1]
Carry(e) ==
  IF e.low < 2 * RLo THEN e
  ELSE IF e.ones > 0
       THEN [e EXCEPT !.low = @ - 2*RLo, !.out = @ \o <<1>> \o Zeros(e.ones - 1), !.ones = 0, !.lastZero = TRUE]
       ELSE [e EXCEPT !.low = @ - 2*RLo, !.ones = 1, !.lastZero = FALSE]
RECURSIVE Renorm(_)
Renorm(e) ==
  IF e.rng >= RLo THEN e
  ELSE LET b == e.low \div RLo
           f == IF e.first THEN e
                ELSE IF b = 1 THEN [e EXCEPT !.ones = @ + 1]
                ELSE [e EXCEPT !.out = @ \o (IF e.lastZero THEN <<0>> ELSE <<>>) \o Ones(e.ones),
                               !.ones = 0, !.lastZero = TRUE]
       IN Renorm([f EXCEPT !.first = FALSE, !.low = (2 * @) % (2 * RLo), !.rng = 2 * @])
EncSym(e, t, s) ==
  Renorm(Carry([e EXCEPT !.low = @ + (e.rng - Hi(e.rng, t, s)), !.rng = Hi(e.rng, t, s) - Lo(e.rng, t, s)]))
(* the whole of low is written, then zeros up to a multiple of Unit bits   *)
Flush(e, Unit) ==
  LET b == e.out \o (IF e.lastZero THEN <<0>> ELSE <<>>) \o Ones(e.ones) \o BitsOf(e.low, RB + 1)
  IN b \o Zeros((-Len(b)) % Unit)

-----------------------------------------------------------------------------
(* Decoder.  Bits past the end of the segment read as zero.                *)
BitAt(b, p) == IF p <= Len(b) THEN b[p] ELSE 0
RECURSIVE Read(_, _, _, _)
Read(b, p, n, acc) == IF n = 0 THEN acc ELSE Read(b, p + 1, n - 1, 2 * acc + BitAt(b, p))

DecStart(b) == [val |-> RLo - 1 - Read(b, 1, RB, 0), rng |-> RLo, pos |-> RB + 1]
RECURSIVE FindSym(_, _, _)
FindSym(d, t, s) == IF s = Alphabet(t) - 1 \/ d.val >= Lo(d.rng, t, s) THEN s ELSE FindSym(d, t, s + 1)
DecSym(b, d, t) ==
  LET s == FindSym(d, t, 0)
      lo == Lo(d.rng, t, s)
      r == Hi(d.rng, t, s) - lo
      n == Shifts(r)
  IN [sym |-> s,
      d |-> [val |-> (d.val - lo) * 2^n + (2^n - 1 - Read(b, d.pos, n, 0)), rng |-> r * 2^n, pos |-> d.pos + n]]

(* A boolean with probability p/256 of being zero; literals use p = 128    *)
BoolTable(p) == << (p * 2^FB + 2^8 - p) \div 2^8, Top, 0 >>
Half == BoolTable(128)
=============================================================================
