------------------------------- MODULE MCBlock -------------------------------
(* Laws of the mode information syntax: every segment, step, reference pair, *)
(* candidate index and motion vector difference is read back from exactly    *)
(* the elements the writer makes of it.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Top          \* largest motion vector difference
(* a reader of elements: their tables must be the expected ones, single bits have none *)
TokSym(D, n) == IF D # <<>> /\ Head(D)[1] = n THEN [v |-> Head(D)[2], D |-> Tail(D)] ELSE [v |-> 0, D |-> << <<"(error)", 0>> >>]
TokRd(D) == TokSym(D, "")
INSTANCE Block WITH Rd <- TokRd, Sym <- TokSym
VARIABLES kind, a, b, n
vars == <<kind, a, b, n>>
Init == kind = "start" /\ a = 0 /\ b = 0 /\ n = 0
Blk == 400
Next == \/ /\ kind = "start"
           /\ \/ kind' = "seg" /\ n' \in 1..8 /\ a' \in 0..(n' - 1) /\ b' = 0
              \/ kind' = "step" /\ n' \in 0..3 /\ a' \in 1..255 /\ b' = 0
              \/ kind' = "lf" /\ n' \in 0..3 /\ a' \in -63..63 /\ b' = 0
              \/ kind' = "refs" /\ n' = 0 /\ a' \in 1..7 /\ b' \in -1..7
              \/ kind' = "mv" /\ n' \in {1, 2, 8} /\ a' \in {0, 1} /\ b' \in 0..(Top \div Blk)
              \/ kind' = "drl" /\ n' \in 0..4 /\ a' \in {14, 15, 16, 17} \cup 18..25 /\ b' = 0
S0(D) == [D |-> D, f |-> [none |-> 0], inf |-> {}]
Seg == kind = "seg" => /\ {Rank(v, a, n) : v \in 0..(n - 1)} = 0..(n - 1)
                       /\ \A v \in 0..(n - 1) : Ranked(Rank(v, a, n), a, n) = v
                       /\ Rank(a, a, n) = 0
Steps == kind \in {"step", "lf"} =>
  LET lo == IF kind = "lf" THEN -63 ELSE 1
      hi == IF kind = "lf" THEN 63 ELSE 255
  IN \A v \in lo..hi : (v - a) % 2^n = 0 =>
       LET x == Step(S0(WStep("t", a, v, n)), "k", "t", a, n, lo, hi) IN x.f.k = v /\ x.D = <<>>
E0 == [u |-> <<>>, l |-> <<>>, segon |-> FALSE, bs |-> 3, refsel |-> TRUE, fint |-> FALSE, hp |-> TRUE]
E(unit) == [E0 EXCEPT !.fint = unit = 8, !.hp = unit = 1]
(* which pairs exist *)
Pairs == {<<x, -1>> : x \in 1..7} \cup {<<x, y>> : x \in 1..4, y \in 5..7} \cup {<<1, 2>>, <<1, 3>>, <<1, 4>>, <<5, 7>>}
Mvs1 == kind = "mv" => \A d \in (b * Blk)..Min(Top, b * Blk + Blk - 1) : (d > 0 /\ d % n = 0) =>
          \A sg \in {1, -1} :
            LET t == WComponent(E(n), a, sg * d)
                x == MvComponent(S0(t), E(n), a)
            IN x.f.diff = sg * d /\ x.D = <<>>
Joint == kind = "mv" /\ b = 0 => \A p \in {-17, -8, 0, 8, 16}, q \in {-24, 0, 8, 160} :
          p % n = 0 => LET x == Mv(S0(WMv(E(n), <<p, q>>)), E(n), <<5, -3>>) IN x.f.mv = <<5 + p, q - 3>> /\ x.D = <<>>
(* candidate indices: each reachable one from exactly one flag sequence *)
DrlE == [mv |-> [n |-> n, drl |-> <<0, 0, 0, 0>>]]
Flags == { <<>> } \cup [1..1 -> {0, 1}] \cup [1..2 -> {0, 1}]
DrlRead(fl) == Drl(Put(S0([k \in DOMAIN fl |-> <<"drl_mode.0", fl[k]>>]), "mode", a), DrlE)
Clean(fl) == LET x == DrlRead(fl) IN x.D = <<>> /\ "(error)" \notin {x.D[k][1] : k \in DOMAIN x.D}
Index == kind = "drl" =>
  LET ok == {fl \in Flags : Clean(fl)}
      first == IF HasNear(a) THEN 1 ELSE 0
      top == IF ~HasNear(a) /\ ~AllNew(a) THEN 0 ELSE Max(first, Min(first + 2, n - 1))
  IN /\ {DrlRead(fl).f.idx : fl \in ok} = first..top
     /\ \A x, y \in ok : DrlRead(x).f.idx = DrlRead(y).f.idx => x = y
(* references: the answers a decoder needs for every pair *)
RefTok(p) ==
  LET x == p[1]  y == p[2]
      t(k, v) == <<Nb(k, E0), Bit(v)>>
      bwd == << t("comp_bwdref", y = ALTREF) >> \o (IF y = ALTREF THEN <<>> ELSE << t("comp_bwdref_p1", y = ALTREF2) >>)
  IN IF y < 0
     THEN << t("comp_mode", FALSE), t("single_ref_p1", x >= BWDREF) >>
          \o (IF x >= BWDREF THEN << t("single_ref_p2", x = ALTREF) >> \o (IF x = ALTREF THEN <<>> ELSE << t("single_ref_p6", x = ALTREF2) >>)
              ELSE << t("single_ref_p3", x >= LAST3) >> \o (IF x >= LAST3 THEN << t("single_ref_p5", x = GOLDEN) >> ELSE << t("single_ref_p4", x = LAST2) >>))
     ELSE << t("comp_mode", TRUE), t("comp_ref_type", ~SameDir(x, y)) >>
          \o (IF SameDir(x, y)
              THEN << t("uni_comp_ref", x = BWDREF) >> \o (IF x = BWDREF THEN <<>> ELSE << t("uni_comp_ref_p1", y > LAST2) >>
                   \o (IF y = LAST2 THEN <<>> ELSE << t("uni_comp_ref_p2", y = GOLDEN) >>))
              ELSE << t("comp_ref", x >= LAST3) >> \o (IF x >= LAST3 THEN << t("comp_ref_p2", x = GOLDEN) >> ELSE << t("comp_ref_p1", x = LAST2) >>) \o bwd)
References == (kind = "refs" /\ <<a, b>> \in Pairs) =>
  LET x == RefFrames(Put(S0(RefTok(<<a, b>>)), "seg", 0), E0) IN x.D = <<>> /\ x.f.r0 = a /\ x.f.r1 = b
Spec == Init /\ [][Next]_vars
=============================================================================
