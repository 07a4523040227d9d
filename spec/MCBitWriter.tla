----------------------------- MODULE MCBitWriter -----------------------------
(* All operation sequences of length Depth; each is printed for replay.      *)
EXTENDS BitWriter, TLC, Json
CONSTANTS Depth, Lens
VARIABLES w, hist
Pat(n) == [k \in 1..n |-> IF k = 1 \/ k % 3 = 0 THEN 1 ELSE 0]
Inv(b) == [k \in DOMAIN b |-> 1 - b[k]]
Ops == {[op |-> "bit", v |-> <<0>>], [op |-> "bit", v |-> <<1>>], [op |-> "align", v |-> <<>>]}
       \cup {[op |-> "bits", v |-> Pat(n)] : n \in Lens} \cup {[op |-> "bits", v |-> Inv(Pat(n))] : n \in Lens}
Init == w = WStart /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : w' = WOp(w, o) /\ hist' = Append(hist, o)
        /\ IF Len(hist') = Depth THEN PrintT("CASE|" \o ToJson(hist')) ELSE TRUE
Spec == Init /\ [][Next]_<<w, hist>>
PartShort == Len(w.part) < 8
Exact == w.bytes = Packed(AllBits(hist)) /\ 8 * Len(w.bytes) + Len(w.part) = Len(AllBits(hist))
AlignWhole == hist # <<>> /\ hist[Len(hist)].op = "align" => w.part = <<>>
=============================================================================
