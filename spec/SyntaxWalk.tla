----------------------------- MODULE SyntaxWalk -----------------------------
(***************************************************************************)
(* Behaviours of a header syntax as its writer sees it: element by element *)
(* a value is chosen for whatever is present.  The complete walks are the  *)
(* valid configurations; each is printed for replay into the real encoder. *)
(* The bits are built along the way; parsing them must return the values.  *)
(* (The syntax is passed as arguments, not as constants, so that TLC       *)
(* evaluates the element list once.)                                       *)
(***************************************************************************)
EXTENDS Syntax, Json
VARIABLES at, v, w, bits
wvars == <<at, v, w, bits>>

WInit(ctx) == /\ bits = <<>> /\ w = NoVals /\ at = 1 /\ v = ctx
WNext(Desc(_, _), Dom(_, _, _), Order) ==
  /\ at <= Len(Order)
  /\ at' = at + 1
  /\ LET e == Order[at]
         d == Desc(e, v)
     IN CASE d[1] = "skip" -> UNCHANGED <<v, w, bits>>
          [] d[1] = "set" -> v' = v @@ (e.k :> d[2]) /\ UNCHANGED <<w, bits>>
          [] OTHER -> \E x \in Dom(e, v, d) :
                        /\ v' = v @@ (e.k :> x)
                        /\ w' = w @@ (e.k :> x)
                        /\ bits' = bits \o EncEl(d, x)
(* the same walk with everything between two choices done in one step *)
WSkip(Desc(_, _), Order, k, val) ==
  FoldLeft(LAMBDA s, e : IF s.stop THEN s
                         ELSE LET d == Desc(e, s.v) IN
                              CASE d[1] = "skip" -> [s EXCEPT !.at = @ + 1]
                                [] d[1] = "set" -> [s EXCEPT !.at = @ + 1, !.v = @ @@ (e.k :> d[2])]
                                [] OTHER -> [s EXCEPT !.stop = TRUE],
           [at |-> k, v |-> val, stop |-> FALSE], SubSeq(Order, k, IF k + 39 < Len(Order) THEN k + 39 ELSE Len(Order)))
WLeap(Desc(_, _), Dom(_, _, _), Order) ==
  /\ at <= Len(Order)
  /\ \E d \in {Desc(Order[at], v)} :
       IF d[1] \in {"skip", "set"}
       THEN \E r \in {WSkip(Desc, Order, at, v)} : at' = r.at /\ v' = r.v /\ UNCHANGED <<w, bits>>
       ELSE \E x \in {RandomElement(Dom(Order[at], v, d))} :
            \E r \in {WSkip(Desc, Order, at + 1, v @@ (Order[at].k :> x))} :
              /\ at' = r.at /\ v' = r.v
              /\ w' = w @@ (Order[at].k :> x)
              /\ bits' = bits \o EncEl(d, x)
WEmit(Order) == at > Len(Order) => PrintT("CASE|" \o ToJson([w |-> w]))
WRoundTrip(Desc(_, _), Order, ctx) == at > Len(Order) =>
  LET r == ParseFrom(Desc, Order, ctx, bits) IN r.ok /\ r.p = Len(bits) + 1 /\ r.v = v
=============================================================================
