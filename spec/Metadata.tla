------------------------------ MODULE Metadata ------------------------------
(***************************************************************************)
(* Metadata and padding payloads.  The number of ITU-T T.35 payload bytes  *)
(* and of padding bytes is not written: they run to the end of the payload *)
(* (context value "bytes").                                                *)
(***************************************************************************)
EXTENDS Syntax
MaxBytes == 12
MaxLayers == 4
MaxGroups == 6
MaxRefs == 7

Cll == <<1>>   Mdcv == <<1, 0>>   Scal == <<1, 1>>   T35 == <<1, 0, 0>>   Tcode == <<1, 0, 1>>

MetaOrder ==
  << El("type"), El("cc"), El("ccext") >> \o [k \in 1..MaxBytes |-> El1("pb", k)]
  \o << El("maxcll"), El("maxfall") >>
  \o Flat([k \in 1..3 |-> << El1("px", k), El1("py", k) >>])
  \o << El("wx"), El("wy"), El("lmax"), El("lmin") >>
  \o << El("mode"), El("scnt"), El("dimp"), El("descp"), El("tgp"), El("res") >>
  \o Flat([k \in 1..MaxLayers |-> << El1("dimw", k), El1("dimh", k) >>])
  \o [k \in 1..MaxLayers |-> El1("refid", k)]
  \o << El("tgn") >>
  \o Flat([k \in 1..MaxGroups |-> << El1("tid", k), El1("tsw", k), El1("ssw", k), El1("rn", k) >>
                                  \o [m \in 1..MaxRefs |-> El2("rd", k, m)]])
  \o << El("ctype"), El("full"), El("fsec"), El("fmin"), El("fhour"), El("secp"), El("sec"), El("minp"), El("min"),
        El("hourp"), El("hour"), El("tol"), El("tov") >>

F(n) == <<"f", n>>
When(x, d) == IF x THEN d ELSE <<"skip">>
MetaDesc(e, v) ==
  LET n == e.n
      ty == IF n = "type" THEN <<>> ELSE v["type"]
      ss == ty = Scal /\ Val(v, "mode") = 14
      tc == ty = Tcode
  IN
  CASE n = "type" -> <<"leb">>
    [] n = "cc" -> When(ty = T35, F(8))
    [] n = "ccext" -> When(ty = T35 /\ Val(v, "cc") = 255, F(8))
    [] n = "pb" -> When(ty = T35 /\ e.i <= v["bytes"], F(8))
    [] n \in {"maxcll", "maxfall"} -> When(ty = Cll, F(16))
    [] n \in {"px", "py", "wx", "wy"} -> When(ty = Mdcv, F(16))
    [] n \in {"lmax", "lmin"} -> When(ty = Mdcv, F(32))
    [] n = "mode" -> When(ty = Scal, F(8))
    [] n = "scnt" -> When(ss, F(2))
    [] n \in {"dimp", "descp", "tgp"} -> When(ss, F(1))
    [] n = "res" -> When(ss, <<"zero", 3>>)
    [] n \in {"dimw", "dimh"} -> When(ss /\ Val(v, "dimp") = 1 /\ e.i <= Val(v, "scnt") + 1, F(16))
    [] n = "refid" -> When(ss /\ Val(v, "descp") = 1 /\ e.i <= Val(v, "scnt") + 1, F(8))
    [] n = "tgn" -> When(ss /\ Val(v, "tgp") = 1, F(8))
    [] n \in {"tid", "rn"} -> When(ss /\ e.i <= Val(v, "tgn"), F(3))
    [] n \in {"tsw", "ssw"} -> When(ss /\ e.i <= Val(v, "tgn"), F(1))
    [] n = "rd" -> When(ss /\ e.i <= Val(v, "tgn") /\ e.j <= Val(v, Key1("rn", e.i)), F(8))
    [] n = "ctype" -> When(tc, F(5))
    [] n = "full" -> When(tc, F(1))
    [] n \in {"fsec", "fmin"} -> When(tc /\ v["full"] = 1, F(6))
    [] n = "fhour" -> When(tc /\ v["full"] = 1, F(5))
    [] n = "secp" -> When(tc /\ v["full"] = 0, F(1))
    [] n = "sec" -> When(Val(v, "secp") = 1, F(6))
    [] n = "minp" -> When(Val(v, "secp") = 1, F(1))
    [] n = "min" -> When(Val(v, "minp") = 1, F(6))
    [] n = "hourp" -> When(Val(v, "minp") = 1, F(1))
    [] n = "hour" -> When(Val(v, "hourp") = 1, F(5))
    [] n = "tol" -> When(tc, F(5))
    [] n = "tov" -> When(tc, F(v["tol"]))

(* number of layers, groups in range: the syntax allows more groups than spelled out here *)
MetaDom(e, v, d) ==
  LET n == e.n IN
  CASE n = "type" -> {Cll, Mdcv, Scal, T35, Tcode}
    [] n = "cc" -> {0, 1, 181, 254, 255}
    [] n = "ccext" -> {0}
    [] n = "mode" -> IF v["bytes"] > 1 THEN {14} ELSE 0..14
    [] n = "descp" -> IF v["dimp"] = 0 THEN {1} ELSE {0, 1}
    [] n = "tgn" -> {1, 2, MaxGroups}
    [] n = "rn" -> {0, 1, 3, MaxRefs}
    [] n \in {"fsec", "fmin", "sec", "min"} -> {0, 1, 32, 59}
    [] n \in {"fhour", "hour"} -> {0, 1, 16, 23}
    [] n = "hourp" -> {0}         \* all three given: the full form
    [] n = "tol" -> {0, 1, 7, 8, 30, 31}
    [] OTHER -> DefaultDom(d)

(* the time of day a timecode gives *)
Clock(v) == [s |-> IF Has(v, "fsec") THEN v["fsec"] ELSE IF Has(v, "sec") THEN v["sec"] ELSE -1,
             m |-> IF Has(v, "fmin") THEN v["fmin"] ELSE IF Has(v, "min") THEN v["min"] ELSE -1,
             h |-> IF Has(v, "fhour") THEN v["fhour"] ELSE IF Has(v, "hour") THEN v["hour"] ELSE -1]
TimeKeys == {"full", "fsec", "fmin", "fhour", "secp", "sec", "minp", "min", "hourp", "hour", "ccext"}

MetaVerdict(w, bytes, b) ==
  LET s == ParseFrom(MetaDesc, MetaOrder, ("bytes" :> bytes), b) IN
  IF ~s.ok THEN s.why
  ELSE IF s.p # Len(b) + 1 THEN ToString(Len(b) + 1 - s.p) \o " bits after the end of the metadata"
  ELSE LET bad == {k \in DOMAIN w : k \notin TimeKeys /\ ~(Has(s.v, k) /\ s.v[k] = w[k])} IN
       IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN
            "given " \o k \o " is " \o ToString(w[k]) \o ", the payload says " \o (IF Has(s.v, k) THEN ToString(s.v[k]) ELSE "nothing")
       ELSE IF Clock(w) # Clock(s.v) THEN "the time of day is not the one given"
       ELSE ""
PadVerdict(n, b) == IF b = Zeros(8 * n) THEN "" ELSE "padding is not the requested number of zero bytes"
=============================================================================
