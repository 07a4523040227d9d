-------------------------------- MODULE MCRun --------------------------------
(* The run as a process reading a stream that somebody else delivers in      *)
(* pieces and then closes (or, once enough has come, keeps open).            *)
EXTENDS Run, TLC, Json
CONSTANTS Dims, MaxFrames, Pieces
VARIABLES w, h, n, pieces, closed,        \* the deliverer
          avail, plane, need, frame, units, pc   \* the program
vars == <<w, h, n, pieces, closed, avail, plane, need, frame, units, pc>>
Sum(s) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE s[k] + S(k - 1) IN S(Len(s))
DimsDef == {<<1, 1>>, <<2, 1>>, <<3, 2>>}
Limit == (MaxFrames + 1) * FrameBytes(w, h) - 1
Init == /\ \E d \in Dims : w = d[1] /\ h = d[2]
        /\ n \in 0..MaxFrames
        /\ pieces = <<>> /\ closed = FALSE
        /\ avail = 0 /\ plane = 1 /\ need = Planes(w, h)[1] /\ frame = 0 /\ units = 0 /\ pc = "start"
Deliver == /\ ~closed /\ pc # "done" /\ Len(pieces) < Pieces
           /\ \E k \in {1, 2, FrameBytes(w, h) - 1, FrameBytes(w, h), FrameBytes(w, h) + 1} :
                /\ k > 0 /\ Sum(pieces) + k <= Limit
                /\ pieces' = Append(pieces, k) /\ avail' = avail + k
           /\ UNCHANGED <<w, h, n, closed, plane, need, frame, units, pc>>
Close == /\ ~closed /\ closed' = TRUE
         /\ UNCHANGED <<w, h, n, pieces, avail, plane, need, frame, units, pc>>
Begin == /\ pc = "start"
         /\ pc' = IF frame = n THEN "done" ELSE "read"
         /\ UNCHANGED <<w, h, n, pieces, closed, avail, plane, need, frame, units>>
Take == /\ pc = "read" /\ need > 0 /\ avail > 0
        /\ LET m == MinOf(need, avail) IN need' = need - m /\ avail' = avail - m
        /\ UNCHANGED <<w, h, n, pieces, closed, plane, frame, units, pc>>
Full == /\ pc = "read" /\ need = 0
        /\ IF plane < 3 THEN plane' = plane + 1 /\ need' = Planes(w, h)[plane + 1] /\ UNCHANGED <<frame, units, pc>>
           ELSE /\ plane' = 1 /\ need' = Planes(w, h)[1] /\ frame' = frame + 1
                /\ units' = IF frame = 0 THEN units + 1 ELSE units
                /\ pc' = "start"
        /\ UNCHANGED <<w, h, n, pieces, closed, avail>>
Ended == /\ pc = "read" /\ need > 0 /\ avail = 0 /\ closed
         /\ pc' = "done"
         /\ UNCHANGED <<w, h, n, pieces, closed, avail, plane, need, frame, units>>
Next == Deliver \/ Close \/ Begin \/ Take \/ Full \/ Ended
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin) /\ WF_vars(Take) /\ WF_vars(Full) /\ WF_vars(Ended)
(* the result depends on the bytes delivered, not on the pieces *)
Result == pc = "done" => /\ frame = Coded(w, h, n, Sum(pieces))
                         /\ units = Units(w, h, n, Sum(pieces))
AtMost == units <= 1 /\ frame <= n
Emit == pc = "done" => PrintT("CASE|" \o ToJson([w |-> w, h |-> h, n |-> n, pieces |-> pieces, held |-> ~closed]))
(* a closed or sufficient input always leads to the end *)
Enough == Sum(pieces) >= n * FrameBytes(w, h)
Terminates == (closed \/ Enough) ~> (pc = "done")
=============================================================================
