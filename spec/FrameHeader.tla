----------------------------- MODULE FrameHeader -----------------------------
(***************************************************************************)
(* Frame header syntax (uncompressed_header of the AV1 draft this encoder  *)
(* writes), on top of the values of the sequence header in force and the   *)
(* state of the eight reference slots, v["ref"][1..8], and the layers the  *)
(* frame belongs to, v["tid"] and v["sid"].                                *)
(* Elements whose description is always "set" are the quantities a decoder *)
(* derives on the way (sizes, tile layout, losslessness, skip-mode         *)
(* references, ...): they are part of the values like the coded ones.      *)
(***************************************************************************)
EXTENDS SeqHeader, FiniteSets

KEY == 0  INTER == 1  INTRAONLY == 2  SWITCH == 3
None == 7                        \* primary_ref_frame: none
NoFeat == -1000
MaxTiles == 64
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
B(x) == IF x THEN 1 ELSE 0
Clip(lo, hi, x) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
AndBit(x, k) == (x \div 2^k) % 2

GrainOff == [apply |-> 0, seed |-> 0, y |-> <<>>, cfl |-> 0, cb |-> <<>>, cr |-> <<>>, scaling |-> 0, lag |-> 0,
             ary |-> <<>>, arcb |-> <<>>, arcr |-> <<>>, arshift |-> 0, gshift |-> 0, cbm |-> <<>>, crm |-> <<>>, overlap |-> 0, clip |-> 0]
GmOff == [k \in 1..6 |-> IF k \in {3, 6} THEN 65536 ELSE 0]
FeatOff == [s \in 1..8 |-> [j \in 1..8 |-> NoFeat]]
NoRef == [valid |-> 0, showable |-> 0, id |-> 0, type |-> KEY, oh |-> 0, w |-> 0, h |-> 0, rw |-> 0, rh |-> 0,
          grain |-> GrainOff, gm |-> [r \in 1..7 |-> GmOff], feat |-> FeatOff]
NoRefs == [k \in 1..8 |-> NoRef]

FrameOrder ==
  << El("idlen"), El("existing"), El("showidx"), El("tpdx"), El("dispid"), El("xtype"), El("ftype"), El("intra"), El("show"), El("tpd"), El("showable"), El("err"),
     El("nocdf"), El("sct"), El("imvf"), El("imv"), El("fidv"), El("override"), El("ohint"), El("primary"), El("brp") >>
  \o [k \in 1..4 |-> El1("brd", k)]
  \o << El("refresh"), El("roh8") >> \o [k \in 1..8 |-> El1("roh", k)] \o << El("rvalid"), El("short"), El("lastidx"), El("goldidx") >>
  \o Flat([k \in 1..7 |-> << El1("refidx", k), El1("dfidv", k) >>])
  \o << El("refs"), El("expid") >> \o [k \in 1..7 |-> El1("found", k)]
  \o << El("fromref"), El("fw"), El("fh"), El("usesr"), El("denom"), El("sden"), El("upw"), El("fwd"), El("fht"), El("rdiff"), El("rw"), El("rh"),
        El("ibc"), El("hp"), El("fswitch"), El("interp"), El("mmswitch"), El("usemvs"), El("ohints"), El("signbias"), El("noend"),
        El("micols"), El("mirows"), El("sbcols"), El("sbrows"), El("minlc"), El("maxlc"), El("maxlr"), El("minlt"), El("uniform") >>
  \o [k \in 1..6 |-> El1("tcinc", k)] \o [k \in 1..MaxTiles |-> El1("tw", k)] \o << El("tcstarts"), El("tclog2"), El("minlr") >>
  \o [k \in 1..6 |-> El1("trinc", k)] \o << El("maxth") >> \o [k \in 1..MaxTiles |-> El1("th", k)] \o << El("trstarts"), El("trlog2") >>
  \o << El("colstarts"), El("rowstarts"), El("ctxtile"), El("tsb"),
        El("baseq"), El("ydcc"), El("ydc"), El("diffuv"), El("udcc"), El("udc"), El("uacc"), El("uac"), El("vdcc"), El("vdc"), El("vacc"), El("vac"),
        El("qm"), El("qmy"), El("qmu"), El("qmv"), El("seg"), El("segmap"), El("segtemp"), El("segdata") >>
  \o Flat([s \in 1..8 |-> Flat([j \in 1..8 |-> << El2("fe", s, j), El2("fv", s, j) >>])])
  \o << El("feat"), El("preskip"), El("lastseg"), El("dq"), El("dqres"), El("dlf"), El("dlfres"), El("dlfmulti"),
        El("losslessarr"), El("lossless"), El("alllossless"), El("qmlevel"), El("lf1"), El("lf2"), El("lf3"), El("lf4"), El("sharp"), El("lfd"), El("lfu") >>
  \o Flat([k \in 1..8 |-> << El1("lrefu", k), El1("lref", k) >>]) \o Flat([k \in 1..2 |-> << El1("lmodu", k), El1("lmod", k) >>])
  \o << El("cdamp"), El("cbits") >>
  \o Flat([k \in 1..8 |-> << El1("cyp", k), El1("cys", k), El1("cup", k), El1("cus", k) >>])
  \o << El("cdefy"), El("cdefuv"), El("lrtype.1"), El("lrtype.2"), El("lrtype.3"), El("frt"), El("useslr"), El("chromalr"), El("lrbit"), El("lrextra"), El("lrshift"), El("lruv"), El("lrsize"),
        El("txsel"), El("txmode"), El("refsel"), El("skipframes"), El("skipallowed"), El("skipmode"), El("warp"), El("redtx"), El("prevgm") >>
  \o Flat([r \in 1..7 |-> << El1("gmg", r), El1("gmr", r), El1("gmt", r), El1("gmty", r), El2("gp", r, 3), El2("gp", r, 4), El2("gp", r, 5), El2("gp", r, 6),
                             El2("gp", r, 1), El2("gp", r, 2), El1("gm", r) >>])
  \o << El("gapply"), El("gseed"), El("gupdate"), El("gref"), El("gny") >>
  \o Flat([k \in 1..15 |-> << El1("gyv", k), El1("gys", k) >>]) \o << El("gcfl"), El("gncb") >>
  \o Flat([k \in 1..15 |-> << El1("gcbv", k), El1("gcbs", k) >>]) \o << El("gncr") >>
  \o Flat([k \in 1..15 |-> << El1("gcrv", k), El1("gcrs", k) >>]) \o << El("gscale"), El("glag") >>
  \o [k \in 1..24 |-> El1("gay", k)] \o [k \in 1..25 |-> El1("gab", k)] \o [k \in 1..25 |-> El1("gar", k)]
  \o << El("gshift"), El("gss"), El("gcbm"), El("gcbl"), El("gcbo"), El("gcrm"), El("gcrl"), El("gcro"), El("gover"), El("gclip"), El("grain2"), El("seen") >>

(* -------- derivations -------- *)
SbSz(v) == IF v["sb128"] = 1 THEN 5 ELSE 4
RECURSIVE TileLog2(_, _, _)
TileLog2(blk, target, k) == IF blk * 2^k >= target THEN k ELSE TileLog2(blk, target, k + 1)
MaxTileW(v) == 4096 \div 2^(SbSz(v) + 2)
MaxTileA(v) == (4096 * 2304) \div 4^(SbSz(v) + 2)
CeilDiv2(n, k) == (n + 2^k - 1) \div 2^k
UniformStarts(n, k) == LET w == CeilDiv2(n, k) IN [q \in 1..((n + w - 1) \div w) |-> (q - 1) * w]
(* starts given by explicit sizes: those of the elements e.1, e.2, ... *)
SizesTo(v, e, k) == FoldLeft(LAMBDA a, q : a + v[Key1(e, q)] + 1, 0, [q \in 1..k |-> q])
Rel(v, a, b) ==
  IF v["orderhint"] = 0 THEN 0
  ELSE LET n == v["ohbits"] + 1
           d == (a - b) % 2^n
       IN IF d >= 2^(n - 1) THEN d - 2^n ELSE d
(* set_frame_refs: the references implied by the last and golden slots *)
ShortRefs(v) ==
  LET cur == 2^v["ohbits"]
      hint(k) == cur + Rel(v, v["roh8"][k + 1], v["ohint"])
      slots == [k \in 1..8 |-> k - 1]
      pick(used, P(_), Better(_, _)) == FoldLeft(LAMBDA best, k : IF k \notin used /\ P(k) /\ (best = -1 \/ Better(k, best)) THEN k ELSE best, -1, slots)
      latestBack(used) == pick(used, LAMBDA k : hint(k) >= cur, LAMBDA k, b : hint(k) >= hint(b))
      earlyBack(used) == pick(used, LAMBDA k : hint(k) >= cur, LAMBDA k, b : hint(k) < hint(b))
      latestFwd(used) == pick(used, LAMBDA k : hint(k) < cur, LAMBDA k, b : hint(k) >= hint(b))
      put(s, q, x) == IF x = -1 THEN s ELSE [r |-> [s.r EXCEPT ![q] = x], u |-> s.u \cup {x}]
      s0 == [r |-> [k \in 1..7 |-> IF k = 1 THEN v["lastidx"] ELSE IF k = 4 THEN v["goldidx"] ELSE -1], u |-> {v["lastidx"], v["goldidx"]}]
      s1 == put(s0, 7, latestBack(s0.u))
      s2 == put(s1, 5, earlyBack(s1.u))
      s3 == put(s2, 6, earlyBack(s2.u))
      s4 == FoldLeft(LAMBDA s, q : IF s.r[q] # -1 THEN s ELSE put(s, q, latestFwd(s.u)), s3, <<2, 3, 5, 6, 7>>)
      rest == pick({}, LAMBDA k : TRUE, LAMBDA k, b : hint(k) < hint(b))
  IN [k \in 1..7 |-> IF s4.r[k] = -1 THEN rest ELSE s4.r[k]]
(* mark_ref_frames *)
IdLost(v, cur, id) ==
  LET dl == 2^(v["dfid"] + 2) IN
  IF cur > dl THEN id > cur \/ id < cur - dl
  ELSE id > cur /\ id < 2^(v["idlen"]) + cur - dl
ShownKey(v) == v["ftype"] = KEY /\ v["show"] = 1
Models(v) == IF v["opdm"] = 1 THEN v["opdmcnt"] + 1 ELSE 0
Planes(v) == IF v["mono"] = 1 THEN 1 ELSE 3
SegBits == <<8, 6, 6, 6, 6, 3, 0, 0>>
SegMax == <<255, 63, 63, 63, 63, 7, 0, 0>>
SegActive(v, s, j) == v["seg"] = 1 /\ v["feat"][s][j] # NoFeat
QIndex(v, s) == IF SegActive(v, s, 1) THEN Clip(0, 255, v["baseq"] + v["feat"][s][1]) ELSE v["baseq"]
SecStrength(x) == IF x = 3 THEN 4 ELSE x
(* skip_mode_params: <<>> or the two reference frames *)
SkipFrames(v) ==
  LET hint(k) == v["roh8"][v["refs"][k] + 1]
      cur == v["ohint"]
      fold(P(_), Better(_, _)) == FoldLeft(LAMBDA best, k : IF P(k) /\ (best = 0 \/ Better(k, best)) THEN k ELSE best, 0, [k \in 1..7 |-> k])
      fwd == fold(LAMBDA k : Rel(v, hint(k), cur) < 0, LAMBDA k, b : Rel(v, hint(k), hint(b)) > 0)
      bwd == fold(LAMBDA k : Rel(v, hint(k), cur) > 0, LAMBDA k, b : Rel(v, hint(k), hint(b)) < 0)
      snd == fold(LAMBDA k : Rel(v, hint(k), hint(fwd)) < 0, LAMBDA k, b : Rel(v, hint(k), hint(b)) > 0)
  IN IF fwd = 0 THEN <<>>
     ELSE IF bwd # 0 THEN <<MinI(fwd, bwd), MaxI(fwd, bwd)>>
     ELSE IF snd # 0 THEN <<MinI(fwd, snd), MaxI(fwd, snd)>>
     ELSE <<>>
(* global motion parameter k (1..6) of type ty: coded range and shift *)
GmAbs(v, ty, k) == IF k <= 2 THEN (IF ty = 1 THEN 9 - (1 - v["hp"]) ELSE 12) ELSE 12
GmPrec(v, ty, k) == IF k <= 2 THEN (IF ty = 1 THEN 3 - (1 - v["hp"]) ELSE 6) ELSE 15
GmRef(v, ty, r, k) == (v["prevgm"][r][k] \div 2^(16 - GmPrec(v, ty, k))) - (IF k \in {3, 6} THEN 2^GmPrec(v, ty, k) ELSE 0)
GmVal(v, ty, r, k) == v[Key2("gp", r, k)] * 2^(16 - GmPrec(v, ty, k)) + (IF k \in {3, 6} THEN 65536 ELSE 0)
GmOf(v, r) ==
  LET ty == v[Key1("gmty", r)]
      p(k) == GmVal(v, ty, r, k)
  IN CASE ty = 0 -> GmOff
       [] ty = 1 -> <<p(1), p(2), 65536, 0, 0, 65536>>
       [] ty = 2 -> <<p(1), p(2), p(3), p(4), 0 - p(4), p(3)>>
       [] ty = 3 -> <<p(1), p(2), p(3), p(4), p(5), p(6)>>
(* film grain *)
LumaPos(v) == 2 * v["glag"] * (v["glag"] + 1)
ChromaPos(v) == LumaPos(v) + (IF v["gny"] > 0 THEN 1 ELSE 0)
List(v, e, n) == [k \in 1..n |-> v[Key1(e, k)]]
Pairs(v, a, b, n) == [k \in 1..n |-> <<v[Key1(a, k)], v[Key1(b, k)]>>]
GrainOf(v) ==
  IF v["existing"] = 1 THEN v["ref"][v["showidx"] + 1].grain
  ELSE IF v["gapply"] = 0 THEN GrainOff
  ELSE IF v["gupdate"] = 0 THEN [v["ref"][v["gref"] + 1].grain EXCEPT !.seed = v["gseed"]]
  ELSE [apply |-> 1, seed |-> v["gseed"], y |-> Pairs(v, "gyv", "gys", v["gny"]), cfl |-> v["gcfl"],
        cb |-> Pairs(v, "gcbv", "gcbs", v["gncb"]), cr |-> Pairs(v, "gcrv", "gcrs", v["gncr"]),
        scaling |-> v["gscale"] + 8, lag |-> v["glag"],
        ary |-> IF v["gny"] > 0 THEN List(v, "gay", LumaPos(v)) ELSE <<>>,
        arcb |-> IF v["gcfl"] = 1 \/ v["gncb"] > 0 THEN List(v, "gab", ChromaPos(v)) ELSE <<>>,
        arcr |-> IF v["gcfl"] = 1 \/ v["gncr"] > 0 THEN List(v, "gar", ChromaPos(v)) ELSE <<>>,
        arshift |-> v["gshift"] + 6, gshift |-> v["gss"],
        cbm |-> IF v["gncb"] > 0 THEN <<v["gcbm"], v["gcbl"], v["gcbo"]>> ELSE <<>>,
        crm |-> IF v["gncr"] > 0 THEN <<v["gcrm"], v["gcrl"], v["gcro"]>> ELSE <<>>,
        overlap |-> v["gover"], clip |-> v["gclip"]]
GrainHere(v) == v["grain"] = 1 /\ (v["show"] = 1 \/ v["showable"] = 1)

(* -------- the syntax -------- *)
Early == {"idlen", "existing", "showidx", "tpdx", "dispid", "xtype", "refresh", "grain2", "seen"}
FrameDesc(e, v) ==
  LET n == e.n
      i == e.i
      when(c, d) == IF c THEN d ELSE Skip
      unless(c, d, x) == IF c THEN Set(x) ELSE d
      red == v["reduced"] = 1
      ex == Val(v, "existing") = 1
      inter == Val(v, "intra") = 0
      su7 == <<"su", 7>>
  IN
  IF ex /\ n \notin Early THEN Skip
  ELSE
  CASE n = "idlen" -> Set(IF v["fid"] = 1 THEN v["dfid"] + v["afid"] + 3 ELSE 0)
    [] n = "existing" -> unless(red, F(1), 0)
    [] n = "showidx" -> when(ex, F(3))
    [] n = "tpdx" -> when(ex /\ v["dmi"] = 1 /\ v["equal"] = 0, F(v["fplen"] + 1))
    [] n = "dispid" -> when(ex /\ v["fid"] = 1, F(v["idlen"]))
    [] n = "xtype" -> when(ex, Set(v["ref"][v["showidx"] + 1].type))
    [] n = "seen" -> Set(B(~ex))
    [] n = "ftype" -> unless(red, F(2), KEY)
    [] n = "intra" -> Set(B(v["ftype"] \in {KEY, INTRAONLY}))
    [] n = "show" -> unless(red, F(1), 1)
    [] n = "tpd" -> when(v["show"] = 1 /\ v["dmi"] = 1 /\ v["equal"] = 0, F(v["fplen"] + 1))
    [] n = "showable" -> unless(v["show"] = 1, F(1), 0)
    [] n = "err" -> IF red THEN Skip ELSE unless(v["ftype"] = SWITCH \/ ShownKey(v), F(1), 1)
    [] n = "nocdf" -> F(1)
    [] n = "sct" -> unless(v["forcesct"] # 2, F(1), v["forcesct"])
    [] n = "imvf" -> when(v["sct"] = 1 /\ v["forceimv"] = 2, F(1))
    [] n = "imv" -> Set(IF v["intra"] = 1 THEN 1 ELSE IF v["sct"] = 0 THEN 0 ELSE IF v["forceimv"] = 2 THEN v["imvf"] ELSE v["forceimv"])
    [] n = "fidv" -> unless(v["fid"] = 0, F(v["idlen"]), 0)
    [] n = "override" -> IF v["ftype"] = SWITCH THEN Set(1) ELSE unless(red, F(1), 0)
    [] n = "ohint" -> unless(v["orderhint"] = 0, F(v["ohbits"] + 1), 0)
    [] n = "primary" -> unless(v["intra"] = 1 \/ Val(v, "err") = 1, F(3), None)
    [] n = "brp" -> when(v["dmi"] = 1, F(1))
    [] n = "brd" -> when(Val(v, "brp") = 1 /\ i <= Models(v) /\ (LET m == v[Key1("midc", i)] IN m = 0 \/ (AndBit(m, v["tid"]) = 1 /\ AndBit(m, 8 + v["sid"]) = 1)), F(v["brlen"] + 1))
    [] n = "refresh" -> IF ex THEN Set(IF v["ref"][v["showidx"] + 1].type = KEY THEN 255 ELSE 0)
                        ELSE unless(v["ftype"] = SWITCH \/ ShownKey(v), F(8), 255)
    [] n = "roh" -> when((v["intra"] = 0 \/ v["refresh"] # 255) /\ Val(v, "err") = 1 /\ v["orderhint"] = 1, F(v["ohbits"] + 1))
    [] n = "roh8" -> Set([k \in 1..8 |-> IF ShownKey(v) THEN 0 ELSE v["ref"][k].oh])
    [] n = "rvalid" -> Set([k \in 1..8 |-> B(/\ v["ref"][k].valid = 1 /\ ~ShownKey(v)
                                             /\ ~(v["fid"] = 1 /\ IdLost(v, v["fidv"], v["ref"][k].id))
                                             /\ (Has(v, Key1("roh", k)) => v[Key1("roh", k)] = v["roh8"][k]))])
    [] n = "short" -> when(inter, unless(v["orderhint"] = 0, F(1), 0))
    [] n \in {"lastidx", "goldidx"} -> when(Val(v, "short") = 1, F(3))
    [] n = "refidx" -> when(inter /\ v["short"] = 0, F(3))
    [] n = "dfidv" -> when(inter /\ v["fid"] = 1, F(v["dfid"] + 2))
    [] n = "refs" -> when(inter, Set(IF v["short"] = 1 THEN ShortRefs(v) ELSE [k \in 1..7 |-> v[Key1("refidx", k)]]))
    [] n = "expid" -> when(inter /\ v["fid"] = 1, Set([k \in 1..7 |-> (v["fidv"] + 2^v["idlen"] - (v[Key1("dfidv", k)] + 1)) % 2^v["idlen"]]))
    [] n = "found" -> when(inter /\ v["override"] = 1 /\ v["err"] = 0 /\ (\A k \in 1..(i - 1) : v[Key1("found", k)] = 0), F(1))
    [] n = "fromref" -> Set(LET f == {k \in 1..7 : Val(v, Key1("found", k)) = 1} IN IF f = {} THEN 0 ELSE CHOOSE k \in f : TRUE)
    [] n = "fw" -> IF v["fromref"] # 0 THEN Set(v["ref"][v["refs"][v["fromref"]] + 1].w - 1) ELSE unless(v["override"] = 0, F(v["wbits"] + 1), v["maxw"])
    [] n = "fh" -> IF v["fromref"] # 0 THEN Set(v["ref"][v["refs"][v["fromref"]] + 1].h - 1) ELSE unless(v["override"] = 0, F(v["hbits"] + 1), v["maxh"])
    [] n = "usesr" -> unless(v["superres"] = 0, F(1), 0)
    [] n = "denom" -> when(v["usesr"] = 1, F(3))
    [] n = "sden" -> Set(IF v["usesr"] = 1 THEN v["denom"] + 9 ELSE 8)
    [] n = "upw" -> Set(v["fw"] + 1)
    [] n = "fwd" -> Set((v["upw"] * 8 + v["sden"] \div 2) \div v["sden"])
    [] n = "fht" -> Set(v["fh"] + 1)
    [] n = "rdiff" -> when(v["fromref"] = 0, F(1))
    [] n = "rw" -> IF v["fromref"] # 0 THEN Set(v["ref"][v["refs"][v["fromref"]] + 1].rw - 1) ELSE unless(v["rdiff"] = 0, F(16), v["upw"] - 1)
    [] n = "rh" -> IF v["fromref"] # 0 THEN Set(v["ref"][v["refs"][v["fromref"]] + 1].rh - 1) ELSE unless(v["rdiff"] = 0, F(16), v["fh"])
    [] n = "ibc" -> unless(inter \/ v["sct"] = 0 \/ v["upw"] # v["fwd"], F(1), 0)
    [] n = "hp" -> unless(~inter \/ v["imv"] = 1, F(1), 0)
    [] n = "fswitch" -> when(inter, F(1))
    [] n = "interp" -> when(inter, unless(v["fswitch"] = 1, F(2), 4))
    [] n = "mmswitch" -> when(inter, F(1))
    [] n = "usemvs" -> unless(~inter \/ Val(v, "err") = 1 \/ v["refmvs"] = 0, F(1), 0)
    [] n = "ohints" -> IF inter THEN Set([k \in 1..7 |-> v["roh8"][v["refs"][k] + 1]]) ELSE when(ShownKey(v), Set([k \in 1..7 |-> 0]))
    [] n = "signbias" -> when(inter, Set([k \in 1..7 |-> B(Rel(v, v["ohints"][k], v["ohint"]) > 0)]))
    [] n = "noend" -> unless(red \/ v["nocdf"] = 1, F(1), 1)
    (* tiles *)
    [] n = "micols" -> Set(2 * ((v["fwd"] + 7) \div 8))
    [] n = "mirows" -> Set(2 * ((v["fht"] + 7) \div 8))
    [] n = "sbcols" -> Set(CeilDiv2(v["micols"], SbSz(v)))
    [] n = "sbrows" -> Set(CeilDiv2(v["mirows"], SbSz(v)))
    [] n = "minlc" -> Set(TileLog2(MaxTileW(v), v["sbcols"], 0))
    [] n = "maxlc" -> Set(TileLog2(1, MinI(v["sbcols"], 64), 0))
    [] n = "maxlr" -> Set(TileLog2(1, MinI(v["sbrows"], 64), 0))
    [] n = "minlt" -> Set(MaxI(v["minlc"], TileLog2(MaxTileA(v), v["sbcols"] * v["sbrows"], 0)))
    [] n = "uniform" -> F(1)
    [] n = "tcinc" -> when(v["uniform"] = 1 /\ v["minlc"] + i - 1 < v["maxlc"] /\ (i = 1 \/ Val(v, Key1("tcinc", i - 1)) = 1), F(1))
    [] n = "tw" -> when(v["uniform"] = 0 /\ (i = 1 \/ Has(v, Key1("tw", i - 1))),
                        LET left == v["sbcols"] - SizesTo(v, "tw", i - 1) IN IF left <= 0 THEN Skip ELSE <<"ns", MinI(left, MaxTileW(v))>>)
    [] n = "tcstarts" -> Set(IF v["uniform"] = 1 THEN UniformStarts(v["sbcols"], v["minlc"] + Cardinality({k \in 1..6 : Val(v, Key1("tcinc", k)) = 1}))
                             ELSE [k \in 1..Cardinality({k \in 1..MaxTiles : Has(v, Key1("tw", k))}) |-> SizesTo(v, "tw", k - 1)])
    [] n = "tclog2" -> Set(IF v["uniform"] = 1 THEN v["minlc"] + Cardinality({k \in 1..6 : Val(v, Key1("tcinc", k)) = 1}) ELSE TileLog2(1, Len(v["tcstarts"]), 0))
    [] n = "minlr" -> Set(MaxI(v["minlt"] - v["tclog2"], 0))
    [] n = "trinc" -> when(v["uniform"] = 1 /\ v["minlr"] + i - 1 < v["maxlr"] /\ (i = 1 \/ Val(v, Key1("trinc", i - 1)) = 1), F(1))
    [] n = "maxth" -> when(v["uniform"] = 0,
                           Set(LET widest == CHOOSE m \in {v[Key1("tw", k)] + 1 : k \in 1..Len(v["tcstarts"])} : \A k \in 1..Len(v["tcstarts"]) : v[Key1("tw", k)] + 1 <= m
                                   area == IF v["minlt"] > 0 THEN (v["sbcols"] * v["sbrows"]) \div 2^(v["minlt"] + 1) ELSE v["sbcols"] * v["sbrows"]
                               IN MaxI(area \div widest, 1)))
    [] n = "th" -> when(v["uniform"] = 0 /\ (i = 1 \/ Has(v, Key1("th", i - 1))),
                        LET left == v["sbrows"] - SizesTo(v, "th", i - 1) IN IF left <= 0 THEN Skip ELSE <<"ns", MinI(left, v["maxth"])>>)
    [] n = "trstarts" -> Set(IF v["uniform"] = 1 THEN UniformStarts(v["sbrows"], v["minlr"] + Cardinality({k \in 1..6 : Val(v, Key1("trinc", k)) = 1}))
                             ELSE [k \in 1..Cardinality({k \in 1..MaxTiles : Has(v, Key1("th", k))}) |-> SizesTo(v, "th", k - 1)])
    [] n = "trlog2" -> Set(IF v["uniform"] = 1 THEN v["minlr"] + Cardinality({k \in 1..6 : Val(v, Key1("trinc", k)) = 1}) ELSE TileLog2(1, Len(v["trstarts"]), 0))
    [] n = "colstarts" -> Set(Append([k \in 1..Len(v["tcstarts"]) |-> v["tcstarts"][k] * 2^SbSz(v)], v["micols"]))
    [] n = "rowstarts" -> Set(Append([k \in 1..Len(v["trstarts"]) |-> v["trstarts"][k] * 2^SbSz(v)], v["mirows"]))
    [] n = "ctxtile" -> unless(v["tclog2"] + v["trlog2"] = 0, F(v["tclog2"] + v["trlog2"]), 0)
    [] n = "tsb" -> when(v["tclog2"] + v["trlog2"] > 0, F(2))
    (* quantiser *)
    [] n = "baseq" -> F(8)
    [] n = "ydcc" -> F(1)
    [] n = "ydc" -> unless(v["ydcc"] = 0, su7, 0)
    [] n = "diffuv" -> unless(v["mono"] = 1 \/ v["sepuv"] = 0, F(1), 0)
    [] n \in {"udcc", "uacc"} -> unless(v["mono"] = 1, F(1), 0)
    [] n = "udc" -> unless(v["udcc"] = 0, su7, 0)
    [] n = "uac" -> unless(v["uacc"] = 0, su7, 0)
    [] n \in {"vdcc", "vacc"} -> when(v["diffuv"] = 1, F(1))
    [] n = "vdc" -> IF v["diffuv"] = 0 THEN Set(v["udc"]) ELSE unless(v["vdcc"] = 0, su7, 0)
    [] n = "vac" -> IF v["diffuv"] = 0 THEN Set(v["uac"]) ELSE unless(v["vacc"] = 0, su7, 0)
    [] n = "qm" -> F(1)
    [] n \in {"qmy", "qmu"} -> when(v["qm"] = 1, F(4))
    [] n = "qmv" -> when(v["qm"] = 1, unless(v["sepuv"] = 0, F(4), v["qmu"]))
    (* segmentation *)
    [] n = "seg" -> F(1)
    [] n = "segmap" -> when(v["seg"] = 1, unless(v["primary"] = None, F(1), 1))
    [] n = "segtemp" -> when(v["seg"] = 1, IF v["primary"] = None THEN Set(0) ELSE when(v["segmap"] = 1, F(1)))
    [] n = "segdata" -> when(v["seg"] = 1, unless(v["primary"] = None, F(1), 1))
    [] n = "fe" -> when(Val(v, "segdata") = 1, F(1))
    [] n = "fv" -> when(Val(v, Key2("fe", i, e.j)) = 1, IF e.j <= 5 THEN <<"su", SegBits[e.j] + 1>> ELSE F(SegBits[e.j]))
    [] n = "feat" -> Set(IF v["seg"] = 0 THEN FeatOff
                         ELSE IF v["segdata"] = 0 THEN v["ref"][v["refs"][v["primary"] + 1] + 1].feat
                         ELSE [s \in 1..8 |-> [j \in 1..8 |->
                                 IF v[Key2("fe", s, j)] = 0 THEN NoFeat
                                 ELSE Clip(IF j <= 5 THEN 0 - SegMax[j] ELSE 0, SegMax[j], v[Key2("fv", s, j)])]])
    [] n = "preskip" -> Set(B(\E s \in 1..8, j \in 6..8 : v["feat"][s][j] # NoFeat))
    [] n = "lastseg" -> Set(FoldLeft(LAMBDA a, s : IF \E j \in 1..8 : v["feat"][s][j] # NoFeat THEN s - 1 ELSE a, 0, [s \in 1..8 |-> s]))
    [] n = "dq" -> unless(v["baseq"] = 0, F(1), 0)
    [] n = "dqres" -> unless(v["dq"] = 0, F(2), 0)
    [] n = "dlf" -> unless(v["dq"] = 0 \/ v["ibc"] = 1, F(1), 0)
    [] n = "dlfres" -> unless(v["dlf"] = 0, F(2), 0)
    [] n = "dlfmulti" -> unless(v["dlf"] = 0, F(1), 0)
    [] n = "losslessarr" -> Set([s \in 1..8 |-> B(QIndex(v, s) = 0 /\ v["ydc"] = 0 /\ v["udc"] = 0 /\ v["uac"] = 0 /\ v["vdc"] = 0 /\ v["vac"] = 0)])
    [] n = "lossless" -> Set(B(\A s \in 1..8 : v["losslessarr"][s] = 1))
    [] n = "alllossless" -> Set(B(v["lossless"] = 1 /\ v["fwd"] = v["upw"]))
    [] n = "qmlevel" -> when(v["qm"] = 1, Set([s \in 1..8 |-> IF v["losslessarr"][s] = 1 THEN <<15, 15, 15>> ELSE <<v["qmy"], v["qmu"], v["qmv"]>>]))
    (* filters *)
    [] n \in {"lf1", "lf2"} -> unless(v["lossless"] = 1 \/ v["ibc"] = 1, F(6), 0)
    [] n \in {"lf3", "lf4"} -> when(v["mono"] = 0 /\ (v["lf1"] > 0 \/ v["lf2"] > 0), F(6))
    [] n \in {"sharp"} -> when(v["lossless"] = 0 /\ v["ibc"] = 0, F(3))
    [] n = "lfd" -> when(v["lossless"] = 0 /\ v["ibc"] = 0, F(1))
    [] n = "lfu" -> when(Val(v, "lfd") = 1, F(1))
    [] n \in {"lrefu", "lmodu"} -> when(Val(v, "lfu") = 1, F(1))
    [] n = "lref" -> IF v["lossless"] = 1 \/ v["ibc"] = 1 THEN Set(<<1, 0, 0, 0, -1, 0, -1, -1>>[i]) ELSE when(Val(v, Key1("lrefu", i)) = 1, su7)
    [] n = "lmod" -> IF v["lossless"] = 1 \/ v["ibc"] = 1 THEN Set(0) ELSE when(Val(v, Key1("lmodu", i)) = 1, su7)
    [] n = "cdamp" -> unless(v["lossless"] = 1 \/ v["ibc"] = 1 \/ v["cdef"] = 0, F(2), 0)
    [] n = "cbits" -> unless(v["lossless"] = 1 \/ v["ibc"] = 1 \/ v["cdef"] = 0, F(2), 0)
    [] n \in {"cyp", "cys"} -> IF i > 2^v["cbits"] THEN Skip ELSE unless(v["lossless"] = 1 \/ v["ibc"] = 1 \/ v["cdef"] = 0, F(IF n = "cyp" THEN 4 ELSE 2), 0)
    [] n \in {"cup", "cus"} -> IF i > 2^v["cbits"] THEN Skip ELSE IF v["lossless"] = 1 \/ v["ibc"] = 1 \/ v["cdef"] = 0 THEN Set(0) ELSE when(v["mono"] = 0, F(IF n = "cup" THEN 4 ELSE 2))
    [] n = "cdefy" -> Set([k \in 1..2^v["cbits"] |-> <<v[Key1("cyp", k)], SecStrength(v[Key1("cys", k)])>>])
    [] n = "cdefuv" -> when(Has(v, "cup.1"), Set([k \in 1..2^v["cbits"] |-> <<v[Key1("cup", k)], SecStrength(v[Key1("cus", k)])>>]))
    [] n \in {"lrtype.1", "lrtype.2", "lrtype.3"} ->
         IF n # "lrtype.1" /\ v["mono"] = 1 THEN Skip
         ELSE unless(v["alllossless"] = 1 \/ v["ibc"] = 1 \/ v["restoration"] = 0, F(2), 0)
    [] n = "frt" -> Set([k \in 1..Planes(v) |-> <<0, 3, 1, 2>>[v[Key1("lrtype", k)] + 1]])
    [] n = "useslr" -> Set(B(\E k \in 1..Planes(v) : v["frt"][k] # 0))
    [] n = "chromalr" -> when(~(v["alllossless"] = 1 \/ v["ibc"] = 1 \/ v["restoration"] = 0), Set(B(\E k \in 2..Planes(v) : v["frt"][k] # 0)))
    [] n = "lrbit" -> when(v["useslr"] = 1, F(1))
    [] n = "lrextra" -> when(v["useslr"] = 1 /\ v["sb128"] = 0 /\ v["lrbit"] = 1, F(1))
    [] n = "lrshift" -> when(v["useslr"] = 1, Set(v["lrbit"] + (IF v["sb128"] = 1 THEN 1 ELSE Val(v, "lrextra"))))
    [] n = "lruv" -> when(v["useslr"] = 1, unless(~(v["ssx"] = 1 /\ v["ssy"] = 1 /\ v["chromalr"] = 1), F(1), 0))
    [] n = "lrsize" -> when(v["useslr"] = 1, Set(LET s == 256 \div 2^(2 - v["lrshift"]) IN <<s, s \div 2^v["lruv"], s \div 2^v["lruv"]>>))
    [] n = "txsel" -> when(v["lossless"] = 0, F(1))
    [] n = "txmode" -> Set(IF v["lossless"] = 1 THEN 0 ELSE IF v["txsel"] = 1 THEN 2 ELSE 1)
    (* references and motion *)
    [] n = "refsel" -> unless(~inter, F(1), 0)
    [] n = "skipframes" -> Set(IF ~inter \/ v["refsel"] = 0 \/ v["orderhint"] = 0 THEN <<>> ELSE SkipFrames(v))
    [] n = "skipallowed" -> Set(B(v["skipframes"] # <<>>))
    [] n = "skipmode" -> unless(v["skipallowed"] = 0, F(1), 0)
    [] n = "warp" -> unless(~inter \/ Val(v, "err") = 1 \/ v["warped"] = 0, F(1), 0)
    [] n = "redtx" -> F(1)
    [] n = "prevgm" -> when(inter, Set(IF v["primary"] = None THEN [r \in 1..7 |-> GmOff] ELSE v["ref"][v["refs"][v["primary"] + 1] + 1].gm))
    [] n = "gmg" -> when(inter, F(1))
    [] n = "gmr" -> when(Val(v, Key1("gmg", i)) = 1, F(1))
    [] n = "gmt" -> when(Val(v, Key1("gmg", i)) = 1 /\ Val(v, Key1("gmr", i)) = 0, F(1))
    [] n = "gmty" -> Set(IF Val(v, Key1("gmg", i)) = 0 THEN 0 ELSE IF v[Key1("gmr", i)] = 1 THEN 2 ELSE IF v[Key1("gmt", i)] = 1 THEN 1 ELSE 3)
    [] n = "gp" -> LET ty == v[Key1("gmty", i)]
                       mx == 2^GmAbs(v, ty, e.j)
                   IN when(CASE e.j <= 2 -> ty >= 1 [] e.j \in {3, 4} -> ty >= 2 [] OTHER -> ty = 3,
                           <<"sub", 0 - mx, mx + 1, GmRef(v, ty, i, e.j)>>)
    [] n = "gm" -> Set(GmOf(v, i))
    (* film grain *)
    [] n = "gapply" -> IF ~GrainHere(v) THEN Set(0) ELSE F(1)
    [] n \in {"gseed"} -> when(v["gapply"] = 1, F(16))
    [] n = "gupdate" -> when(v["gapply"] = 1, unless(v["ftype"] # INTER, F(1), 1))
    [] n = "gref" -> when(v["gapply"] = 1 /\ v["gupdate"] = 0, F(3))
    [] n = "grain2" -> when(v["grain"] = 1, Set(GrainOf(v)))
    [] OTHER ->     \* the remaining grain parameters
         IF Val(v, "gapply") = 0 \/ Val(v, "gupdate") = 0 THEN Skip
         ELSE LET nochroma == v["mono"] = 1 \/ Val(v, "gcfl") = 1 \/ (v["ssx"] = 1 /\ v["ssy"] = 1 /\ v["gny"] = 0) IN
         CASE n = "gny" -> F(4)
           [] n \in {"gyv", "gys"} -> when(i <= v["gny"], F(8))
           [] n = "gcfl" -> unless(v["mono"] = 1, F(1), 0)
           [] n \in {"gncb", "gncr"} -> unless(nochroma, F(4), 0)
           [] n \in {"gcbv", "gcbs"} -> when(i <= v["gncb"], F(8))
           [] n \in {"gcrv", "gcrs"} -> when(i <= v["gncr"], F(8))
           [] n \in {"gscale", "glag", "gshift", "gss"} -> F(2)
           [] n = "gay" -> when(v["gny"] > 0 /\ i <= LumaPos(v), F(8))
           [] n = "gab" -> when((v["gcfl"] = 1 \/ v["gncb"] > 0) /\ i <= ChromaPos(v), F(8))
           [] n = "gar" -> when((v["gcfl"] = 1 \/ v["gncr"] > 0) /\ i <= ChromaPos(v), F(8))
           [] n \in {"gcbm", "gcbl"} -> when(v["gncb"] > 0, F(8))
           [] n = "gcbo" -> when(v["gncb"] > 0, F(9))
           [] n \in {"gcrm", "gcrl"} -> when(v["gncr"] > 0, F(8))
           [] n = "gcro" -> when(v["gncr"] > 0, F(9))
           [] n \in {"gover", "gclip"} -> F(1)

(* reference slots after the frame *)
Refreshed(v) ==
  LET ex == v["existing"] = 1
      info == IF ex THEN [v["ref"][v["showidx"] + 1] EXCEPT !.showable = 0]
              ELSE [valid |-> 1, showable |-> v["showable"], id |-> v["fidv"], type |-> v["ftype"], oh |-> v["ohint"], w |-> v["upw"], h |-> v["fht"],
                    rw |-> v["rw"] + 1, rh |-> v["rh"] + 1, grain |-> IF v["grain"] = 1 THEN v["grain2"] ELSE GrainOff,
                    gm |-> [r \in 1..7 |-> v[Key1("gm", r)]], feat |-> v["feat"]]
  IN [k \in 1..8 |-> IF AndBit(v["refresh"], k - 1) = 1 THEN info
                     ELSE IF ex THEN v["ref"][k]
                     ELSE [v["ref"][k] EXCEPT !.valid = v["rvalid"][k], !.oh = v["roh8"][k]]]
(* a sequence header for chains, without the operating points beyond the fourth *)
ShortSeqOrder == SelectSeq(SeqOrder, LAMBDA e : e.i <= 4)
(* written in a way the encoder is free to choose *)
FrameFree == {"ydcc", "udcc", "uacc", "vdcc", "vacc", "rdiff"}

(* -------- domain -------- *)
(* mostly one of A, sometimes one of B (for generating behaviours) *)
Mostly(A, S) == IF A # {} /\ RandomElement(1..4) # 1 THEN A ELSE S
ChainSeqDom(e, v, d) ==
  LET n == e.n IN
  CASE n = "opcnt" -> {0}
    [] n = "opdmcnt" -> {0, 1, 3}
    [] n = "midc" -> {0, 1, 256, 257, 4095, 514, 2056, 1026, 772}
    [] n = "cdesc" -> {0}
    [] n = "orderhint" -> Mostly({1}, {0})
    [] n \in {"refmvs", "warped"} -> Mostly({1}, {0})
    [] n = "choosesct" -> Mostly({1}, {0})
    [] n = "grain" -> Mostly({1}, {0})
    [] n = "profile" -> Mostly({0}, 0..2)
    [] n = "mono" -> Mostly({0}, {1})
    [] n \in {"wbits", "hbits"} -> {3, 5, 7, 8, 10, 11, 12, IF v["still"] = 1 THEN 15 ELSE 9}
    [] n = "maxw" -> {2^v["wbits"] + 5, 2^(v["wbits"] + 1) - 1}
    [] n = "maxh" -> {2^v["hbits"] + 5, 2^(v["hbits"] + 1) - 1}
    [] n = "still" -> Mostly({0}, {1})
    [] n = "reduced" -> IF v["still"] = 1 /\ v["profile"] = 0 THEN {0, 1} ELSE {0}
    [] n = "dfid" -> {0, 1, 5, 13}
    [] n = "afid" -> {x \in {0, 1, 3, 7} : v["dfid"] + x + 3 <= 16}
    [] n \in {"br", "buf"} -> {<<1, 0, 1>>}
    [] OTHER -> SeqDom(e, v, d)
Usable(v) == {k \in 0..7 : v["ref"][k + 1].w > 0}
FrameDom(e, v, d) ==
  LET n == e.n
      i == e.i
      plain == Val(v, "nocdf") = 0
      valid == LET g == {k \in Usable(v) : v["rvalid"][k + 1] = 1} IN IF g = {} THEN Usable(v) ELSE g
      past == {k \in valid : Rel(v, v["roh8"][k + 1], v["ohint"]) < 0}
  IN
  CASE n = "existing" -> IF \E k \in 1..8 : v["ref"][k].valid = 1 /\ v["ref"][k].showable = 1 THEN {0, 1} ELSE {0}
    [] n = "showidx" -> {k \in 0..7 : v["ref"][k + 1].valid = 1 /\ v["ref"][k + 1].showable = 1}
    [] n = "dispid" -> {v["ref"][v["showidx"] + 1].id}
    [] n = "ftype" -> IF Usable(v) = {} THEN {KEY} ELSE Mostly({INTER}, IF Cardinality(Usable(v)) < 4 THEN {KEY, INTRAONLY} ELSE {KEY, INTRAONLY, SWITCH})
    [] n = "fidv" -> Ends(d[2]) \cup {(v["ref"][1].id + 1) % 2^d[2], (v["ref"][8].id + 2) % 2^d[2]}
    [] n = "refresh" -> {0, 1, 129, 254, 15, 240} \cup (IF v["ftype"] = INTRAONLY THEN {} ELSE {255})
    [] n = "err" -> Mostly({0}, {1})
    [] n = "brd" -> LET first == {k \in 1..(i - 1) : Has(v, Key1("brd", k))} IN IF first = {} THEN DefaultDom(d) ELSE {v[Key1("brd", CHOOSE k \in first : TRUE)]}
    [] n = "primary" -> Mostly(0..6, {7})
    [] n = "refsel" -> Mostly({1}, {0})
    [] n = "ohint" -> {(RandomElement({0, v["ref"][1].oh, v["ref"][8].oh}) + RandomElement(0..20)) % 2^d[2]}
    [] n = "roh" -> {v["roh8"][i]} \cup (IF i \in {3, 8} THEN {0} ELSE {})
    [] n = "short" -> IF past = {} THEN {0} ELSE {0, 1}
    [] n \in {"lastidx", "goldidx"} -> past
    [] n = "refidx" -> valid
    [] n = "dfidv" -> LET x == ((v["fidv"] - v["ref"][IF v["short"] = 1 THEN v["lastidx"] + 1 ELSE v[Key1("refidx", i)] + 1].id) % 2^v["idlen"]) - 1
                      IN Ends(d[2]) \cup (IF x >= 0 /\ x < 2^d[2] THEN {x} ELSE {})
    [] n = "found" -> {1}
    [] n = "fw" -> {x \in {0, 7, 8, 15, 64, v["maxw"] \div 2, v["maxw"], v["maxw"] - 1, RandomElement(0..v["maxw"])} : x <= v["maxw"]}
    [] n = "fh" -> {x \in {0, 7, 8, 15, 64, v["maxh"] \div 2, v["maxh"], v["maxh"] - 1, RandomElement(0..v["maxh"])} : x <= v["maxh"]}
    [] n = "rw" -> {v["fwd"] - 1, v["upw"] - 1, 0, 65535, RandomElement(0..65535)}
    [] n = "rh" -> {v["fh"], 0, 65535}
    [] n = "uniform" -> IF v["sbcols"] > 200 \/ v["sbrows"] > 200 THEN {1} ELSE {0, 1}
    [] n = "tw" -> LET left == v["sbcols"] - SizesTo(v, "tw", i - 1)
                       least == (left + 64 - i) \div (65 - i)
                   IN {x \in {least - 1, least, d[2] - 1, d[2] \div 2, d[2] \div 5} : x >= least - 1 /\ x < d[2]}
    [] n = "th" -> LET left == v["sbrows"] - SizesTo(v, "th", i - 1)
                       least == (left + 64 - i) \div (65 - i)
                   IN {x \in {least - 1, least, d[2] - 1, d[2] \div 2, d[2] \div 5} : x >= least - 1 /\ x < d[2]}
    [] n = "ctxtile" -> {0, Len(v["tcstarts"]) * Len(v["trstarts"]) - 1}
    [] n = "baseq" -> {0, 1, RandomElement(2..254), 255}
    [] n = "ydcc" -> IF v["baseq"] = 0 THEN {0} ELSE {0, 1}
    [] n \in {"udcc", "uacc", "vdcc", "vacc"} -> IF v["baseq"] = 0 /\ plain THEN {0} ELSE {0, 1}
    [] n \in {"ydc", "udc", "uac", "vdc", "vac"} -> {-64, -1, 1, 63, 20}
    [] n = "fe" -> IF i > 2 /\ plain THEN {0} ELSE {0, 1}
    [] n = "fv" -> CASE e.j <= 5 -> {0 - SegMax[e.j], -1, 0, 5, SegMax[e.j]} [] e.j = 6 -> {0, 1, 5, 7} [] OTHER -> {0}
    [] n \in {"lrtype.2", "lrtype.3"} -> {v["lrtype.1"]}
    [] n = "gref" -> {v["refs"][k] : k \in 1..7}
    [] n = "gny" -> {0, 1, 2, 14, RandomElement(3..13)}
    [] n \in {"gncb", "gncr"} -> {0, 1, 10, RandomElement(2..9)}
    [] OTHER -> DefaultDom(d)
=============================================================================
