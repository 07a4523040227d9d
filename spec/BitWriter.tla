------------------------------ MODULE BitWriter ------------------------------
(***************************************************************************)
(* The bit writer: whole bytes already passed on to the output, and a      *)
(* partial byte of fewer than eight bits.  An operation is a record        *)
(* [op, v]: "bit"/"bits" append v, "align" appends zeros up to the next    *)
(* byte boundary (none when already there).                                *)
(***************************************************************************)
EXTENDS Bits

WStart == [bytes |-> <<>>, part |-> <<>>]
WBit(w, b) == LET p == Append(w.part, b) IN
              IF Len(p) = 8 THEN [bytes |-> Append(w.bytes, ValOf(p)), part |-> <<>>]
              ELSE [w EXCEPT !.part = p]
WBits(w, v) == FoldLeft(WBit, w, v)
WAlign(w) == IF w.part = <<>> THEN w ELSE WBits(w, Zeros(8 - Len(w.part)))
WOp(w, o) == IF o.op = "align" THEN WAlign(w) ELSE WBits(w, o.v)

(* The same thing said without a state machine: all bits ever written      *)
AllBits(ops) == FoldLeft(LAMBDA a, o : IF o.op = "align" THEN a \o Zeros((-Len(a)) % 8) ELSE a \o o.v, <<>>, ops)
Packed(bits) == [k \in 1..(Len(bits) \div 8) |-> ValOf(SubSeq(bits, 8*k - 7, 8*k))]
=============================================================================
