--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* A run of the program: it reads 4:2:0 frames of 8-bit samples, plane by  *)
(* plane, until the requested number has been read or the input ends       *)
(* within a frame, and writes one temporal unit with the sequence header   *)
(* when the first frame is complete.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
Half(x) == (x + 1) \div 2
Planes(w, h) == <<w * h, Half(w) * Half(h), Half(w) * Half(h)>>
FrameBytes(w, h) == w * h + 2 * Half(w) * Half(h)
MinOf(a, b) == IF a < b THEN a ELSE b
(* frames a run over len bytes codes when n are requested *)
Coded(w, h, n, len) == MinOf(n, len \div FrameBytes(w, h))
Units(w, h, n, len) == IF Coded(w, h, n, len) > 0 THEN 1 ELSE 0
=============================================================================
