------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A decoder of whole streams: temporal units (Framing.tla) holding a      *)
(* sequence header, frame headers and tile groups.  Everything a tile is   *)
(* read with comes from the headers before it, nothing from elsewhere.     *)
(* Frames are intra frames; other OBUs are passed over.                    *)
(*                                                                         *)
(* d: why, seq (values of the sequence header in force), ref (slots), hdr  *)
(*    (values of the header of the frame under way, or none), bits (that   *)
(*    header), next (tile expected), cdef, units, st (last tile), done     *)
(*    (frames decoded)                                                     *)
(***************************************************************************)
EXTENDS FrameHeader, SymRead
TL == INSTANCE Tile
TG == INSTANCE TileGroup
FR == INSTANCE Framing

BodyBits(b, u) == [k \in 1..(8 * (u.to - u.from + 1)) |-> FR!BitAt(b, 8 * (u.from - 1) + k)]
(* without the trailing bits: [ok, bits] *)
Payload(x) ==
  IF x = <<>> THEN [ok |-> TRUE, bits |-> <<>>]
  ELSE LET last == SelectLastInSeq(x, LAMBDA q : q = 1)
       IN [ok |-> last > 0 /\ Len(x) - last < 8, bits |-> SubSeq(x, 1, last - 1)]

(* what the tiles of a frame are read with (Tile.tla) *)
Params(v) ==
  LET p == Planes(v)
      sx == v["ssx"] = 1
      sy == v["ssy"] = 1
      size == IF Has(v, "lrsize") THEN v["lrsize"] ELSE <<64, 64, 64>>
  IN [rows |-> v["mirows"], cols |-> v["micols"], sx |-> sx, sy |-> sy, planes |-> p, sb |-> IF v["sb128"] = 1 THEN 128 ELSE 64,
      pre |-> v["preskip"] = 1, segon |-> v["seg"] = 1, last |-> v["lastseg"],
      feat |-> [s \in 1..8 |-> [j \in 1..8 |-> IF v["feat"][s][j] = NoFeat THEN <<>> ELSE <<v["feat"][s][j]>>]],
      lossless |-> v["lossless"] = 1, encdef |-> v["cdef"] = 1, ibc |-> v["ibc"] = 1, bits |-> v["cbits"],
      dq |-> v["dq"] = 1, q0 |-> v["baseq"], qres |-> v["dqres"], lfon |-> v["dlf"] = 1, multi |-> v["dlfmulti"] = 1, lfres |-> v["dlfres"],
      refsel |-> v["refsel"] = 1, fint |-> v["imv"] = 1, hp |-> v["hp"] = 1, temporal |-> v["usemvs"] = 1,
      gm |-> [r \in 1..7 |-> [t |-> v[Key1("gmty", r)], p |-> v[Key1("gm", r)]]], field |-> <<>>,
      lr |-> [f |-> [w |-> v["upw"], h |-> v["fht"], sx |-> v["ssx"], sy |-> v["ssy"], sup |-> v["usesr"] = 1, den |-> v["sden"]],
              types |-> [k \in 1..3 |-> IF k <= p THEN v["frt"][k] ELSE 0], sizes |-> size]]
TilesOf(v) == [nr |-> Len(v["rowstarts"]) - 1, nc |-> Len(v["colstarts"]) - 1, sized |-> Val(v, "tsb") + 1]
NoTile == [why |-> ""]
Idle == [why |-> "", seq |-> NoVals, ref |-> NoRefs, hdr |-> NoVals, bits |-> <<>>, next |-> 0, cdef |-> <<>>, units |-> <<>>, st |-> NoTile, done |-> <<>>]
Halt(d, w) == [d EXCEPT !.why = w]

SeqUnit(d, x) ==
  LET y == Payload(x)
      p == ParseFrom(SeqDesc, SeqOrder, NoVals, y.bits)
  IN IF ~y.ok \/ ~p.ok THEN Halt(d, "sequence header: " \o p.why)
     ELSE IF p.p # Len(y.bits) + 1 THEN Halt(d, "bits after the end of the sequence header")
     ELSE [d EXCEPT !.seq = p.v]
HeaderUnit(d, x) ==
  LET y == Payload(x)
      p == ParseFrom(FrameDesc, FrameOrder, d.seq @@ ("ref" :> d.ref) @@ ("tid" :> 0) @@ ("sid" :> 0), y.bits)
  IN IF d.seq = NoVals THEN Halt(d, "a frame before any sequence header")
     ELSE IF ~y.ok THEN Halt(d, "frame header: trailing bits")
     ELSE IF d.hdr # NoVals THEN IF y.bits = d.bits THEN d ELSE Halt(d, "a repeated frame header is no copy of the first")
     ELSE IF ~p.ok THEN Halt(d, "frame header: " \o p.why)
     ELSE IF p.p # Len(y.bits) + 1 THEN Halt(d, "bits after the end of the frame header")
     ELSE IF p.v["existing"] = 1 THEN [d EXCEPT !.ref = Refreshed(p.v)]
     ELSE LET uy == ((p.v["mirows"] + 31) \div 32) * 2
              ux == ((p.v["micols"] + 31) \div 32) * 2
          IN [d EXCEPT !.hdr = p.v, !.bits = y.bits, !.next = 0, !.units = <<>>, !.cdef = [k \in 1..uy |-> [q \in 1..ux |-> -1]]]
OneTile(d, f, v, bits) ==
  IF d.why # "" THEN d
  ELSE LET nc == Len(v["colstarts"]) - 1
           y == d.next \div nc
           x == d.next % nc
           at == [tile |-> <<v["rowstarts"][y + 1], v["rowstarts"][y + 2], v["colstarts"][x + 1], v["colstarts"][x + 2]>>] @@ f
           D == IF v["nocdf"] = 1 THEN OpenFixed(bits) ELSE Open(bits, [n \in {} |-> <<>>])
           st == TL!Tile(at, D, d.cdef)
           tile == "tile " \o ToString(d.next) \o ": "
       IN IF st.why # "" THEN Halt(d, tile \o st.why)
          ELSE IF ~Fits(st.D) THEN Halt(d, tile \o "it is shorter than its blocks need")
          ELSE IF Len(bits) > st.D.d.pos + 16 THEN Halt(d, tile \o "it holds data no block needs")
          ELSE [d EXCEPT !.next = @ + 1, !.cdef = st.cdef, !.units = @ \o st.units, !.st = st]
GroupUnit(d, x) ==
  LET v == d.hdr
      f == Params(v)
      t == TG!Read(TilesOf(v), x)
      e == FoldLeft(LAMBDA s, b : OneTile(s, f, v, b), d, t.ts)
  IN IF v = NoVals THEN Halt(d, "a tile group without a frame header")
     ELSE IF t.why # "" THEN Halt(d, t.why)
     ELSE IF t.s # d.next THEN Halt(d, "tile " \o ToString(t.s) \o " instead of " \o ToString(d.next))
     ELSE IF e.why # "" \/ e.next < TG!Count(TilesOf(v)) THEN e
     ELSE [e EXCEPT !.hdr = NoVals, !.ref = Refreshed(v),
                    !.done = Append(@, [v |-> v, f |-> f, st |-> e.st, units |-> e.units, cdef |-> e.cdef])]
Unit(d, b, u) ==
  LET x == BodyBits(b, u)
  IN CASE u.t = FR!SeqHdrT -> SeqUnit(d, x)
       [] u.t \in {FR!FrameHdrT, FR!RedundantT} -> HeaderUnit(d, x)
       [] u.t = FR!TileGroupT -> GroupUnit(d, x)
       [] u.t = FR!TdT -> IF d.hdr # NoVals THEN Halt(d, "a frame is not complete") ELSE d
       [] OTHER -> d
RECURSIVE Decode(_, _, _)
Decode(b, p, d) ==
  IF d.why # "" THEN d
  ELSE IF p > Len(b) THEN IF d.hdr = NoVals THEN d ELSE Halt(d, "a frame is not complete")
  ELSE LET u == FR!UnitAt(b, p) IN IF ~u.ok THEN Halt(d, u.why) ELSE Decode(b, u.next, Unit(d, b, u))
Stream(b) == Decode(b, 1, Idle)
=============================================================================
