---------------------------- MODULE MCFrameHeader ----------------------------
(* Histories: a sequence header, then frame headers with the reference slots  *)
(* each of them leaves.  Every complete history is printed for replay.        *)
EXTENDS FrameHeader, SyntaxWalk
CONSTANT Frames
VARIABLES phase, ctx, hist
fvars == <<at, v, w, bits, phase, ctx, hist>>
(* what is chosen from (MCSession.tla narrows it) *)
SeqChoice(e, vals, d) == ChainSeqDom(e, vals, d)
FrameChoice(e, vals, d) == FrameDom(e, vals, d)
Layer(k) == k % 4
Ord == IF phase = 0 THEN ShortSeqOrder ELSE FrameOrder
Init == WInit(NoVals) /\ phase = 0 /\ ctx = NoVals /\ hist = <<>>
Own == [k \in DOMAIN v \ DOMAIN ctx |-> v[k]]
Step == /\ IF phase = 0 THEN WLeap(SeqDesc, SeqChoice, ShortSeqOrder) ELSE WLeap(FrameDesc, FrameChoice, FrameOrder)
        /\ UNCHANGED <<phase, ctx, hist>>
SeqVals == IF phase = 0 THEN v ELSE [k \in DOMAIN ctx \ {"ref", "tid", "sid"} |-> ctx[k]]
(* the next frame's layers: any, here drawn from the length of the header before it *)
After == SeqVals @@ ("ref" :> IF phase = 0 THEN NoRefs ELSE Refreshed(v)) @@ ("tid" :> Layer(Len(bits) \div 2)) @@ ("sid" :> Layer(Len(bits) \div 9))
Turn == /\ at > Len(Ord) /\ phase <= Frames
        /\ hist' = Append(hist, [w |-> w, s |-> Own, tid |-> Val(ctx, "tid"), sid |-> Val(ctx, "sid")])
        /\ phase' = phase + 1
        /\ ctx' = After /\ LET r == WSkip(FrameDesc, FrameOrder, 1, After) IN v' = r.v /\ at' = r.at /\ w' = NoVals /\ bits' = <<>>
Next == (phase <= Frames /\ Step) \/ Turn
Spec == Init /\ [][Next]_fvars
Emit == phase = Frames + 1 => PrintT("CASE|" \o ToJson([hs |-> hist]))
RoundTrip == (phase <= Frames /\ at > Len(Ord)) =>
   LET r == IF phase = 0 THEN ParseFrom(SeqDesc, ShortSeqOrder, ctx, bits) ELSE ParseFrom(FrameDesc, FrameOrder, ctx, bits)
   IN r.ok /\ r.p = Len(bits) + 1 /\ r.v = v
Stuck == (phase <= Frames /\ at <= Len(Ord)) => LET d == IF phase = 0 THEN SeqDesc(Ord[at], v) ELSE FrameDesc(Ord[at], v)
   IN d[1] \in {"skip", "set"} \/ (IF phase = 0 THEN SeqChoice(Ord[at], v, d) ELSE FrameChoice(Ord[at], v, d)) # {} \/ PrintT(<<"STUCK", Ord[at], d>>)
(* laws of the derived quantities *)
Laws == (phase \in 1..Frames /\ at > Len(Ord) /\ v["existing"] = 0) =>
   /\ v["colstarts"][1] = 0 /\ \A k \in 1..(Len(v["colstarts"]) - 1) : v["colstarts"][k] < v["colstarts"][k + 1]
   /\ v["rowstarts"][1] = 0 /\ \A k \in 1..(Len(v["rowstarts"]) - 1) : v["rowstarts"][k] < v["rowstarts"][k + 1]
   /\ Len(v["tcstarts"]) <= 2^v["tclog2"] /\ 2 * Len(v["tcstarts"]) > 2^v["tclog2"]
   /\ Len(v["trstarts"]) <= 2^v["trlog2"] /\ 2 * Len(v["trstarts"]) > 2^v["trlog2"]
   /\ Len(v["tcstarts"]) <= 64 /\ Len(v["trstarts"]) <= 64
   /\ v["fwd"] <= v["upw"] /\ (v["usesr"] = 0 => v["fwd"] = v["upw"])
   /\ v["lossless"] = 1 => (v["lf1"] = 0 /\ v["lf2"] = 0 /\ v["txmode"] = 0)
   /\ v["skipallowed"] = 1 => v["skipframes"][1] < v["skipframes"][2]
   /\ v["intra"] = 1 => (v["hp"] = 0 /\ v["usemvs"] = 0 /\ v["skipmode"] = 0 /\ \A r \in 1..7 : v[Key1("gm", r)] = GmOff)
=============================================================================
