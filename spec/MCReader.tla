------------------------------ MODULE MCReader ------------------------------
(* All deliveries of small inputs, interleaved with a reader that takes any  *)
(* part of what is there; prints every (planes, pieces) pair for replay.     *)
EXTENDS Reader, TLC, Json
CONSTANTS MaxLen, PlaneSets
VARIABLES planes, pieces, arrived, next, taken, got, done
vars == <<planes, pieces, arrived, next, taken, got, done>>
PlaneSetsDef == {<<3, 1, 1>>, <<2>>, <<1, 2, 0, 2>>, <<4, 1, 1, 4, 1, 1>>}

RECURSIVE Compositions(_)
Compositions(n) == IF n = 0 THEN {<<>>}
                   ELSE UNION {{<<p>> \o cc : cc \in Compositions(n - p)} : p \in 1..n}
Init == /\ planes \in PlaneSets
        /\ \E n \in 0..MaxLen : pieces \in Compositions(n)
        /\ arrived = 0 /\ next = 1 /\ taken = 0 /\ got = <<>> /\ done = <<>>
        /\ PrintT("CASE|" \o ToJson([planes |-> planes, pieces |-> pieces]))
Deliver == /\ next <= Len(pieces)
           /\ arrived' = arrived + pieces[next] /\ next' = next + 1
           /\ UNCHANGED <<planes, pieces, taken, got, done>>
Cur == Len(done) + 1
Take == /\ Cur <= Len(planes) /\ Len(got) < planes[Cur]
        /\ \E m \in 1..(planes[Cur] - Len(got)) :
             /\ taken + m <= arrived
             /\ got' = got \o [k \in 1..m |-> taken + k]
             /\ taken' = taken + m
        /\ UNCHANGED <<planes, pieces, arrived, next, done>>
Eof == next > Len(pieces) /\ taken = arrived
Finish == /\ Cur <= Len(planes)
          /\ Len(got) = planes[Cur] \/ Eof
          /\ done' = Append(done, got) /\ got' = <<>>
          /\ UNCHANGED <<planes, pieces, arrived, next, taken>>
(* a signal interrupts the reader while it waits: nothing is taken, nothing is lost *)
Interrupt == Cur <= Len(planes) /\ taken = arrived /\ UNCHANGED vars
Next == Deliver \/ Take \/ Interrupt \/ Finish
Spec == Init /\ [][Next]_vars
(* every completed plane is as specified, whatever the schedule *)
Correct == \A k \in DOMAIN done :
   done[k] = [j \in 1..Count(planes, Sum(pieces), k) |-> Start(planes, k) + j]
=============================================================================
