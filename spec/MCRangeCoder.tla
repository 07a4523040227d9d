---------------------------- MODULE MCRangeCoder ----------------------------
(* Exhaustive model run of the range coder at reduced precision: every       *)
(* history of at most Depth symbols over the tables below, adapting.         *)
EXTENDS RangeCoder, TLC
CONSTANTS Depth, Unit, Tables0, Adapting, Others
VARIABLES e, tabs, hist
(* table sets for the configs (Top = 16, counter saturates at 3) *)
T1 == << <<8, 16, 0>>, <<15, 16, 0>>, <<1, 2, 16, 0>>, <<5, 6, 7, 16, 0>> >>
T2 == << <<1, 16, 0>>, <<4, 11, 16, 0>>, <<14, 15, 16, 2>> >>
T3 == << <<8, 16, 0>>, <<15, 16, 0>> >>
OthersDef == { <<1,1,1,1,1,1,1,1>>, <<0,0,0,0>>, <<1,0,1,1,0>> }
vars == <<e, tabs, hist>>

Init == e = EncStart /\ tabs = Tables0 /\ hist = <<>>
Next == \E k \in DOMAIN tabs : \E s \in 0..(Alphabet(tabs[k]) - 1) :
          /\ Len(hist) < Depth
          /\ e' = EncSym(e, tabs[k], s)
          /\ tabs' = IF Adapting THEN [tabs EXCEPT ![k] = Adapt(@, s)] ELSE tabs
          /\ hist' = Append(hist, <<k, s>>)
Spec == Init /\ [][Next]_vars

RECURSIVE DecodeAll(_, _, _, _)
DecodeAll(b, d, ts, h) ==
  IF h = <<>> THEN [ok |-> TRUE, d |-> d, ts |-> ts]
  ELSE LET k == h[1][1]
           x == DecSym(b, d, ts[k])
       IN IF x.sym # h[1][2] THEN [ok |-> FALSE, d |-> d, ts |-> ts]
          ELSE DecodeAll(b, x.d, IF Adapting THEN [ts EXCEPT ![k] = Adapt(@, x.sym)] ELSE ts, Tail(h))

Bits1 == Flush(e, Unit)
RoundTrip == LET r == DecodeAll(Bits1, DecStart(Bits1), Tables0, hist)
             IN r.ok /\ r.ts = tabs /\ r.d.pos <= Len(Bits1) + 1
Whole == Len(Bits1) % Unit = 0 /\ IsBits(Bits1)
(* a decoder that sees other data after the segment decodes the same symbols *)
SelfContained == \A x \in Others : DecodeAll(Bits1 \o x, DecStart(Bits1 \o x), Tables0, hist).ok
Valid == \A k \in DOMAIN tabs : WellFormed(tabs[k])
Bounds == e.rng \in RLo..(2*RLo - 1) /\ e.low \in 0..(2*RLo - 1) /\ e.ones >= 0
(* non-vacuity: reached in the reduced model (checked as violated invariants by hand) *)
LongCarry == e.ones < 3
=============================================================================
