------------------------------ MODULE MCFraming ------------------------------
(* All streams of up to Depth units over a set of kinds and payload sizes.   *)
EXTENDS Framing, Json
CONSTANTS Depth, Kinds
VARIABLES us, out
(* kinds the harness can make on demand: name, padding length *)
KindSet == {<<"td", 0>>, <<"seq", 0>>, <<"cll", 0>>, <<"mdcv", 0>>, <<"t35", 3>>, <<"t35", 120>>, <<"frame", 0>>, <<"tiles", 0>>, <<"tiles", 1>>, <<"redundant", 0>>,
            <<"pad", 0>>, <<"pad", 1>>, <<"pad", 123>>, <<"pad", 124>>, <<"pad", 125>>, <<"pad", 126>>, <<"pad", 127>>, <<"pad", 255>>}
Pay(k) == CASE k[1] = "td" -> [t |-> 2, pay |-> <<>>, zeros |-> -1]
            [] k[1] = "seq" -> [t |-> 1, pay |-> [j \in 1..77 |-> j % 2], zeros |-> -1]
            [] k[1] = "cll" -> [t |-> 5, pay |-> [j \in 1..40 |-> (j \div 3) % 2], zeros |-> -1]
            [] k[1] = "mdcv" -> [t |-> 5, pay |-> [j \in 1..200 |-> (j \div 5) % 2], zeros |-> -1]
            [] k[1] = "t35" -> [t |-> 5, pay |-> [j \in 1..(16 + 8 * k[2]) |-> (j \div 7) % 2], zeros |-> -1]
            [] k[1] = "frame" -> [t |-> 6, pay |-> <<>>, zeros |-> -1]
            [] k[1] = "tiles" -> [t |-> 4, pay |-> [j \in 1..(8 * (3 + k[2])) |-> (j \div 4) % 2], zeros |-> -1]
            [] k[1] = "redundant" -> [t |-> 7, pay |-> <<>>, zeros |-> -1]
            [] k[1] = "pad" -> [t |-> 15, pay |-> ZeroBits(8 * k[2]), zeros |-> k[2]]
Init == us = <<>> /\ out = <<>>
Next == /\ Len(us) < Depth
        /\ \E k \in Kinds : us' = Append(us, k) /\ out' = out \o UnitBytes(Pay(k))
Spec == Init /\ [][Next]_<<us, out>>
Emit == Len(us) = Depth => PrintT("CASE|" \o ToJson(us))
RoundTrip == Check(out, 1, [k \in DOMAIN us |-> Pay(us[k])], 1) = ""
=============================================================================
