--------------------------- MODULE ConfRangeCoder ---------------------------
(* Trace specification for the real entropy coder.                           *)
EXTENDS RangeCoder, TraceRun

(* one operation of a history: a symbol of table o.t (1-based), a literal of *)
(* Len(o.v) bits (o.t = 0), or bits of probability o.s/256 (o.t < 0)         *)
LitStep(b, d, v) == FoldLeft(LAMBDA a, x : LET y == DecSym(b, a.d, Half)
                                           IN [d |-> y.d, ok |-> a.ok /\ y.sym = x, got |-> Append(a.got, y.sym)],
                             [d |-> d, ok |-> TRUE, got |-> <<>>], v)
(* bits of which a zero has probability p/256, each on its own or as a run   *)
(* whose table adapts                                                        *)
Odds(p) == <<(p * 32768 + 256 - p) \div 256, 32768, 0>>
BoolStep(b, d, v, p, run) ==
  FoldLeft(LAMBDA a, x : LET y == DecSym(b, a.d, a.t)
                         IN [d |-> y.d, ok |-> a.ok /\ y.sym = x, t |-> IF run THEN Adapt(a.t, y.sym) ELSE a.t],
           [d |-> d, ok |-> TRUE, t |-> Odds(p)], v)
(* runs the specified decoder over the bits, along the operations: result    *)
(* d, ts, and ok = the symbols are those of the operations                   *)
Run(b, ts0, ops) ==
  FoldLeft(LAMBDA a, o :
      IF o.t > 0
      THEN LET x == DecSym(b, a.d, a.ts[o.t])
           IN [a EXCEPT !.d = x.d, !.ts = [@ EXCEPT ![o.t] = Adapt(@, x.sym)],
                        !.ok = @ /\ x.sym = o.s, !.n = IF a.ok /\ x.sym # o.s THEN a.k ELSE @, !.k = @ + 1]
      ELSE LET x == IF o.t = 0 THEN LitStep(b, a.d, o.v) ELSE BoolStep(b, a.d, o.v, o.s, o.t = -2)
           IN [a EXCEPT !.d = x.d, !.ok = @ /\ x.ok, !.n = IF a.ok /\ ~x.ok THEN a.k ELSE @, !.k = @ + 1],
    [d |-> DecStart(b), ts |-> ts0, ok |-> TRUE, n |-> 0, k |-> 1], ops)

(* "seg": a history coded by the real encoder (bits, tables after), and the  *)
(* real decoder's reading of the same bits                                   *)
SegVerdict(r) ==
  LET run == Run(r.bits, r.tabs, r.ops) IN
  IF r.err # "" THEN "encoder: " \o r.err
  ELSE IF ~IsBits(r.bits) THEN "segment holds something that is not a bit"
  ELSE IF ~run.ok THEN "segment decodes to other symbols, first at operation " \o ToString(run.n)
  ELSE IF run.d.pos > Len(r.bits) + 1 THEN "segment is shorter than its symbols need"
  ELSE IF r.derr # "" THEN "decoder: " \o r.derr
  ELSE IF r.dops # r.ops THEN "the decoder returns other symbols than were coded"
  ELSE ""
TabVerdict(r) ==
  LET run == Run(r.bits, r.tabs, r.ops) IN
  IF r.err # "" THEN "encoder: " \o r.err
  ELSE IF r.etabs # [k \in DOMAIN r.tabs |-> FoldLeft(LAMBDA t, o : IF o.t = k THEN Adapt(t, o.s) ELSE t, r.tabs[k], r.ops)]
       THEN "encoder's tables differ from the adaptation rule"
  ELSE IF ~ \A k \in DOMAIN r.etabs : WellFormed(r.etabs[k]) THEN "a table became invalid"
  ELSE IF r.derr # "" THEN "decoder: " \o r.derr
  ELSE IF r.dtabs # r.etabs THEN "decoder's tables differ from the encoder's"
  ELSE ""

(* "raw": the real decoder on arbitrary bytes; ops carries what it returned  *)
RawVerdict(r) ==
  LET run == Run(r.bits, r.tabs, r.ops) IN
  IF r.derr # "" THEN "decoder: " \o r.derr
  ELSE IF ~run.ok THEN "decoder returned another symbol than the decoding process, at operation " \o ToString(run.n)
  ELSE IF r.dtabs # run.ts THEN "decoder's tables differ from the adaptation rule"
  ELSE ""

(* "adapt": one symbol coded with one table                                  *)
AdaptVerdict(r) ==
  IF ~WellFormed(r.before) THEN "a table in use is not well formed: " \o r.name
  ELSE IF r.err # "" THEN "encoder: " \o r.err
  ELSE IF r.after # Adapt(r.before, r.s) THEN "table update differs from the adaptation rule"
  ELSE IF ~WellFormed(r.after) THEN "the update made the table invalid"
  ELSE IF r.dafter # r.after \/ r.ds # r.s THEN "decoder's table update differs from the encoder's"
  ELSE ""

(* "default": a built-in table                                               *)
DefaultVerdict(r) == IF ~WellFormed(r.t) \/ Counter(r.t) # 0 THEN "default table is not well formed: " \o r.name ELSE ""

(* "chain": several segments by one coder object; alone[k] is what a fresh   *)
(* object makes of the same operations and tables                            *)
ChainVerdict(r) ==
  IF r.err # "" THEN "coder: " \o r.err
  ELSE IF \E k \in DOMAIN r.segs : Len(r.segs[k]) % 8 # 0 THEN "segment is not a whole number of bytes"
  ELSE IF \E k \in DOMAIN r.segs : r.segs[k] # r.alone[k] THEN "segment depends on earlier use of the coder"
  ELSE IF \E k \in DOMAIN r.segs : LET run == Run(r.segs[k], r.tabs[k], r.ops[k])
                                   IN ~run.ok \/ run.d.pos > Len(r.segs[k]) + 1 THEN "segment is not decodable on its own"
  ELSE IF r.derr # "" THEN "decoder: " \o r.derr
  ELSE IF \E k \in DOMAIN r.segs : r.used[k] # Len(r.segs[k]) THEN "decoder does not consume exactly its segment"
  ELSE IF \E k \in DOMAIN r.segs : ~IsPrefix(r.dops[k], r.ops[k]) THEN "decoder returns other symbols when segments follow each other"
  ELSE ""

Verdict(r) == CASE r.k = "seg" -> SegVerdict(r) [] r.k = "segtab" -> TabVerdict(r) [] r.k = "raw" -> RawVerdict(r)
                [] r.k = "adapt" -> AdaptVerdict(r) [] r.k = "default" -> DefaultVerdict(r) [] r.k = "chain" -> ChainVerdict(r)
Next == Visit(Verdict)
TraceSpec == TraceInit /\ [][Next]_<<c, i>>
=============================================================================
