------------------------------ MODULE SymRead -------------------------------
(***************************************************************************)
(* A reader of one entropy-coded segment: D = [b: its bits, d: the state   *)
(* of the decoding process, a: tables adapted so far, by name, on: whether *)
(* they adapt].  Tables not adapted yet have their initial values.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
RB == 15  FB == 15  A == 8  G == 5  RateBase == 4  Sat == 32
RC == INSTANCE RangeCoder
Initial == JsonDeserialize(IOEnv.TABLES)       \* name -> table
Open(b, a) == [b |-> b, d |-> RC!DecStart(b), a |-> a, on |-> TRUE]
OpenFixed(b) == [b |-> b, d |-> RC!DecStart(b), a |-> [n \in {} |-> <<>>], on |-> FALSE]
TableOf(D, name) == IF name \in DOMAIN D.a THEN D.a[name] ELSE Initial[name]
(* one symbol of the named table / one equiprobable bit *)
Sym(D, name) ==
  LET t == TableOf(D, name)
      x == RC!DecSym(D.b, D.d, t)
  IN [v |-> x.sym, D |-> [D EXCEPT !.d = x.d, !.a = IF D.on THEN (name :> RC!Adapt(t, x.sym)) @@ @ ELSE @]]
Rd(D) == LET x == RC!DecSym(D.b, D.d, RC!Half) IN [v |-> x.sym, D |-> [D EXCEPT !.d = x.d]]
(* one symbol of a table made up for it *)
SymT(D, t) == LET x == RC!DecSym(D.b, D.d, t) IN [v |-> x.sym, D |-> [D EXCEPT !.d = x.d]]
(* what was read fits the segment *)
Fits(D) == D.d.pos <= Len(D.b) + 1
(* tables whose state differs from tab (name -> table) *)
TablesDiffer(D, tab) == {n \in DOMAIN Initial : TableOf(D, n) # tab[n]}
=============================================================================
