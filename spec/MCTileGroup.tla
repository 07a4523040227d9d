---------------------------- MODULE MCTileGroup ----------------------------
(* Reading inverts writing, and nothing but the whole group reads back.      *)
EXTENDS TileGroup
CONSTANTS Rows, Lens
VARIABLES g, said, s, ts
vars == <<g, said, s, ts>>
Fill(n, v) == [k \in 1..(8 * n) |-> (k * 5 + v) % 2]
All == Count(g)
End == s + Len(ts) - 1
Init == /\ \E nr \in Rows, nc \in Rows, z \in 1..4 : g = [nr |-> nr, nc |-> nc, sized |-> z]
        /\ said \in BOOLEAN /\ s \in 0..(g.nr * g.nc - 1) /\ (~said => s = 0) /\ ts = <<>>
Next == /\ s + Len(ts) < All
        /\ \E n \in Lens : ts' = Append(ts, Fill(n, Len(ts)))
        /\ UNCHANGED <<g, said, s>>
Spec == Init /\ [][Next]_vars
Whole == ts # <<>> /\ (said \/ Len(ts) = All)
RoundTrip == Whole => LET x == Read(g, Write(g, said, s, End, ts)) IN x = [why |-> "", s |-> s, e |-> End, ts |-> ts]
Aligned == Whole => Len(Write(g, said, s, End, ts)) % 8 = 0
(* all tiles are needed: what remains when the last is left out does not read as the same group *)
Needed == Whole /\ Len(ts) > 1 => LET w == Write(g, said, s, End, ts)
                                      x == Read(g, SubSeq(w, 1, Len(w) - Len(ts[Len(ts)])))
                                  IN x.why # ""
=============================================================================
