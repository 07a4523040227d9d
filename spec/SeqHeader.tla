------------------------------ MODULE SeqHeader ------------------------------
(***************************************************************************)
(* Sequence header syntax (the AV1 draft this encoder writes).             *)
(***************************************************************************)
EXTENDS Syntax
MaxOps == 32
MaxModels == 32

SeqOrder ==
  << El("profile"), El("still"), El("reduced"), El("opcnt") >>
  \o Flat([i \in 1..MaxOps |-> << El1("idc", i), El1("level", i), El1("tier", i) >>])
  \o << El("wbits"), El("hbits"), El("maxw"), El("maxh"), El("fid"), El("dfid"), El("afid"),
        El("sb128"), El("filterintra"), El("intraedge"),
        El("interintra"), El("masked"), El("warped"), El("dual"), El("orderhint"), El("jnt"), El("refmvs"),
        El("choosesct"), El("forcesct"), El("chooseimv"), El("forceimv"), El("ohbits"),
        El("superres"), El("cdef"), El("restoration"),
        El("high"), El("twelve"), El("mono"), El("cdesc"), El("cp"), El("tc"), El("mc"),
        El("crange"), El("ssx"), El("ssy"), El("csp"), El("sepuv"),
        El("timing"), El("tick"), El("tscale"), El("equal"), El("ticks"),
        El("dmi"), El("brscale"), El("bufscale"), El("edlen"), El("dectick"), El("brlen"), El("fplen"),
        El("opdm"), El("opdmcnt") >>
  \o Flat([i \in 1..MaxModels |-> << El1("midc", i), El1("idd", i), El1("iddv", i), El1("opi", i), El1("br", i), El1("buf", i),
                                     El1("cbr", i), El1("ddelay", i), El1("edelay", i), El1("low", i) >>])
  \o << El("grain") >>

Srgb(v) == v["cp"] = 1 /\ v["tc"] = 13 /\ v["mc"] = 0
F(n) == <<"f", n>>
Set(x) == <<"set", x>>
Skip == <<"skip">>

SeqDesc(e, v) ==
  LET n == e.n
      red == Val(v, "reduced") = 1
      unless(flag, d, x) == IF flag THEN Set(x) ELSE d
      when(flag, d) == IF flag THEN d ELSE Skip
  IN
  CASE n = "profile" -> F(3)
    [] n = "still" -> F(1)
    [] n = "reduced" -> F(1)
    [] n = "opcnt" -> unless(red, F(5), 0)
    [] n = "idc" -> IF e.i > v["opcnt"] + 1 THEN Skip ELSE unless(red, F(12), 0)
    [] n = "level" -> when(e.i <= v["opcnt"] + 1, F(5))
    [] n = "tier" -> IF e.i > v["opcnt"] + 1 THEN Skip ELSE IF red \/ v[Key1("level", e.i)] <= 7 THEN Set(0) ELSE F(1)
    [] n \in {"wbits", "hbits"} -> F(4)
    [] n = "maxw" -> F(v["wbits"] + 1)
    [] n = "maxh" -> F(v["hbits"] + 1)
    [] n = "fid" -> unless(red, F(1), 0)
    [] n = "dfid" -> when(v["fid"] = 1, F(4))
    [] n = "afid" -> when(v["fid"] = 1, F(3))
    [] n \in {"sb128", "filterintra", "intraedge"} -> F(1)
    [] n \in {"interintra", "masked", "warped", "dual", "orderhint"} -> unless(red, F(1), 0)
    [] n \in {"jnt", "refmvs"} -> unless(v["orderhint"] = 0, F(1), 0)
    [] n = "choosesct" -> unless(red, F(1), 1)
    [] n = "forcesct" -> unless(v["choosesct"] = 1, F(1), 2)
    [] n = "chooseimv" -> IF red THEN Set(1) ELSE IF v["forcesct"] > 0 THEN F(1) ELSE Set(1)
    [] n = "forceimv" -> unless(v["chooseimv"] = 1, F(1), 2)
    [] n = "ohbits" -> when(v["orderhint"] = 1, F(3))
    [] n \in {"superres", "cdef", "restoration", "high"} -> F(1)
    [] n = "twelve" -> IF v["profile"] = 2 /\ v["high"] = 1 THEN F(1) ELSE Set(0)
    [] n = "mono" -> unless(v["profile"] = 1, F(1), 0)
    [] n = "cdesc" -> F(1)
    [] n \in {"cp", "tc", "mc"} -> unless(v["cdesc"] = 0, F(8), 2)
    [] n = "crange" -> IF v["mono"] = 0 /\ Srgb(v) THEN Set(1) ELSE F(1)
    [] n = "ssx" -> IF v["mono"] = 1 THEN Set(1) ELSE IF Srgb(v) THEN Set(0)
                    ELSE IF v["profile"] = 0 THEN Set(1) ELSE IF v["profile"] = 1 THEN Set(0)
                    ELSE IF v["twelve"] = 1 THEN F(1) ELSE Set(1)
    [] n = "ssy" -> IF v["mono"] = 1 THEN Set(1) ELSE IF Srgb(v) THEN Set(0)
                    ELSE IF v["profile"] = 0 THEN Set(1) ELSE IF v["profile"] = 1 THEN Set(0)
                    ELSE IF v["twelve"] = 1 /\ v["ssx"] = 1 THEN F(1) ELSE Set(0)
    [] n = "csp" -> IF v["mono"] = 1 THEN Set(0) ELSE IF Srgb(v) THEN Skip ELSE when(v["ssx"] = 1 /\ v["ssy"] = 1, F(2))
    [] n = "sepuv" -> unless(v["mono"] = 1, F(1), 0)
    [] n = "timing" -> unless(red, F(1), 0)
    [] n \in {"tick", "tscale"} -> when(v["timing"] = 1, F(32))
    [] n = "equal" -> when(v["timing"] = 1, F(1))
    [] n = "ticks" -> when(v["timing"] = 1 /\ v["equal"] = 1, <<"uvlc">>)
    [] n = "dmi" -> unless(v["timing"] = 0, F(1), 0)
    [] n \in {"brscale", "bufscale"} -> when(v["dmi"] = 1, F(4))
    [] n \in {"edlen", "brlen", "fplen"} -> when(v["dmi"] = 1, F(5))
    [] n = "dectick" -> when(v["dmi"] = 1, F(32))
    [] n = "opdm" -> F(1)
    [] n = "opdmcnt" -> when(v["opdm"] = 1, F(5))
    [] n \in {"midc", "idd", "iddv", "opi", "br", "buf", "cbr", "ddelay", "edelay", "low"} ->
         IF v["opdm"] = 0 THEN Skip
         ELSE IF e.i > v["opdmcnt"] + 1 THEN Skip
         ELSE IF n = "midc" THEN F(12)
         ELSE IF n = "idd" THEN F(1)
         ELSE IF n = "iddv" THEN when(v[Key1("idd", e.i)] = 1, F(4))
         ELSE IF n = "opi" THEN unless(v["dmi"] = 0, F(1), 0)
         ELSE IF v[Key1("opi", e.i)] = 0 THEN Skip
         ELSE IF n \in {"br", "buf"} THEN <<"uvlc">>
         ELSE IF n \in {"ddelay", "edelay"} THEN F(v["edlen"] + 1)
         ELSE F(1)
    [] n = "grain" -> F(1)

(* the domain of valid configurations *)
Cps == {1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 22}
Can444(v) == v["profile"] = 1 \/ (v["profile"] = 2 /\ v["twelve"] = 1)
Rgb(v) == v["mono"] = 0 /\ Can444(v) /\ v["filterintra"] = 1 /\ v["superres"] = 0   \* bias only
SeqDom(e, v, d) ==
  LET n == e.n IN
  CASE n = "profile" -> 0..2
    [] n = "reduced" -> IF v["still"] = 1 THEN {0, 1} ELSE {0}
    [] n = "opcnt" -> {0, 1, 2, 3, IF v["still"] = 1 THEN MaxOps - 1 ELSE 4}
    [] n = "idc" -> {0, 1, 257, 1025, 4095}
    [] n = "level" -> {0, 5, 7, 8, 12, 23, 31}
    [] n = "afid" -> {x \in DefaultDom(d) : v["dfid"] + x + 3 <= 16}
    [] n = "cp" -> IF Rgb(v) THEN {1} ELSE Cps
    [] n = "tc" -> IF Rgb(v) THEN {13} ELSE 0..18
    [] n = "mc" -> IF Rgb(v) THEN {0, 1} ELSE IF Can444(v) THEN 0..14 ELSE 1..14
    [] n = "csp" -> 0..2
    [] n = "opdmcnt" -> {0, 1, 2, IF v["still"] = 1 THEN MaxModels - 1 ELSE 3}
    [] n = "midc" -> {0, 1, 257, 4095}
    [] n \in {"tick", "tscale", "dectick"} -> {<<1>>, [k \in 1..32 |-> 1], [k \in 1..31 |-> k % 2], TwoTo(31), TwoTo(16)}
    [] OTHER -> DefaultDom(d)

(* Decoder state after the header *)
SeqState(v) ==
  [jnt |-> v["jnt"], refmvs |-> v["refmvs"], forcesct |-> v["forcesct"], forceimv |-> v["forceimv"],
   warped |-> v["warped"], orderhint |-> v["orderhint"], interintra |-> v["interintra"], masked |-> v["masked"],
   dual |-> v["dual"], mono |-> v["mono"], planes |-> IF v["mono"] = 1 THEN 1 ELSE 3,
   ssx |-> v["ssx"], ssy |-> v["ssy"], crange |-> v["crange"], sepuv |-> v["sepuv"],
   cp |-> v["cp"], tc |-> v["tc"], mc |-> v["mc"],
   fid |-> v["fid"], timing |-> v["timing"], dmi |-> v["dmi"], superres |-> v["superres"],
   cdef |-> v["cdef"], restoration |-> v["restoration"], sb128 |-> v["sb128"]]
(* values of which only the meaning counts, not the written form *)
Free == {"wbits", "hbits", "cdesc"}
=============================================================================
