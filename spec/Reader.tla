------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Reading planes from a byte stream that arrives in pieces.               *)
(* State: what has arrived and not been taken (avail), what is still to    *)
(* come (rest: a sequence of pieces), the plane being filled and the       *)
(* planes done.  A read step takes any non-empty part of what is there;    *)
(* the end of the input is seen only when everything has arrived and been  *)
(* taken.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* the bytes of the input, as numbered positions *)
ByteAt(k) == ((k % 256) * 37 + ((k \div 256) % 256) * 11 + ((k \div 7) % 256)) % 256
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

(* what reading planes of the given sizes from n bytes must yield:         *)
(* counts, and for plane k its first byte is input byte Start(k)           *)
Start(planes, k) == Sum(SubSeq(planes, 1, k - 1))
Count(planes, n, k) == LET left == n - Start(planes, k) IN
                       IF left <= 0 THEN 0 ELSE IF left < planes[k] THEN left ELSE planes[k]
=============================================================================
