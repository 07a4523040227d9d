------------------------------ MODULE TraceRun ------------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace file holds one record *)
(* per line.  TLC visits every record (each in its own state, K records    *)
(* side by side); the extending module's Verdict says "" (the record is a  *)
(* behaviour of the specification) or why it is not.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES c, i

Trace == ndJsonDeserialize(IOEnv.TRACE)
K == IF Len(Trace) < 64 THEN Len(Trace) ELSE 64
Index(cc, ii) == cc + K * (ii - 1)

TraceInit == c \in 1..K /\ i = 0
Visit(V(_)) == /\ Index(c, i + 1) <= Len(Trace)
               /\ i' = i + 1
               /\ c' = c
               /\ LET r == Trace[Index(c, i')]
                      w == V(r)
                  IN IF w = "" THEN TRUE ELSE PrintT("REJECT|" \o ToString(r.id) \o "|" \o w)
Visited == PrintT("VISITED|" \o ToString(TLCGet("stats").distinct - K) \o "|" \o ToString(Len(Trace)))
=============================================================================
