-------------------------------- MODULE Crowd --------------------------------
(***************************************************************************)
(* Large clouds whose weights differ by orders of magnitude (C07).  A cloud  *)
(* is a sequence of classes <<how many particles, weight of each, location>> *)
(* (locations are corners of the unit square), heaviest class first; its     *)
(* summaries depend on the counts only, so clouds of thousands of particles  *)
(* cost no more than three classes do.                                      *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
Corners == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>}
VARIABLES cl, out
vars == <<cl, out>>

Tot(c) == SumSeq([j \in DOMAIN c |-> c[j][1] * c[j][2]])
Sq(c) == SumSeq([j \in DOMAIN c |-> c[j][1] * c[j][2] * c[j][2]])
M1(c, a) == SumSeq([j \in DOMAIN c |-> c[j][1] * c[j][2] * c[j][3][a]])
M2(c, a, b) == SumSeq([j \in DOMAIN c |-> c[j][1] * c[j][2] * c[j][3][a] * c[j][3][b]])
Count(c) == SumSeq([j \in DOMAIN c |-> c[j][1]])
\* weight in the classes before j
Before(c, j) == SumSeq([i \in 1..(j - 1) |-> c[i][1] * c[i][2]])
\* least number of particles, heaviest first, whose weight exceeds a/16 of the whole (all of them if none does)
ClassOf(c, a) == IF a = 16 THEN Len(c) ELSE CHOOSE j \in DOMAIN c : 16 * Before(c, j + 1) > a * Tot(c) /\ 16 * Before(c, j) <= a * Tot(c)
InClass(c, a) == Bind(ClassOf(c, a), LAMBDA j : IF a = 16 THEN c[j][1] ELSE ((a * Tot(c) - 16 * Before(c, j)) \div (16 * c[j][2])) + 1)
\* no prefix carries the level exactly
SharpAt(c, a) == a = 16 \/ Bind(ClassOf(c, a), LAMBDA j : (a * Tot(c) - 16 * Before(c, j)) % (16 * c[j][2]) # 0)
Region(c, a) == [level |-> a, inside |-> [j \in DOMAIN c |-> IF j < ClassOf(c, a) THEN c[j][1] ELSE IF j = ClassOf(c, a) THEN InClass(c, a) ELSE 0]]

Shapes == {<<n, w>> \in {1, 2, 3, 7, 40, 300, 2000} \X {1, 2, 5, 60, 1000, 9000} : n * w <= 9000}
Triples == {t \in Shapes \X Shapes \X Shapes : t[1][2] > t[2][2] /\ t[2][2] > t[3][2]}
Init == /\ \E t \in RandomSubset(500, Triples) : \E p \in RandomSubset(2, Corners \X Corners \X Corners) :
             cl = [j \in 1..3 |-> <<t[j][1], t[j][2], p[j]>>]
        /\ out = <<>>
Next == /\ out = <<>> /\ UNCHANGED cl
        /\ out' = << [n |-> Count(cl), ess |-> Red(Tot(cl) * Tot(cl), Sq(cl)), tot |-> Tot(cl),
                     mean |-> [a \in 1..2 |-> Red(M1(cl, a), Tot(cl))],
                     cov |-> [a \in 1..2 |-> [b \in 1..2 |-> Red(Tot(cl) * M2(cl, a, b) - M1(cl, a) * M1(cl, b), Tot(cl) * Tot(cl))]],
                     regions |-> SetToSeq({Region(cl, a) : a \in {b \in 1..16 : SharpAt(cl, b)}})] >>
Spec == Init /\ [][Next]_vars

Emit == out = <<>> \/ PrintT("@@" \o ToJson([cl |-> cl, o |-> out[1]]))
\* the effective number of particles lies between one and their number; a region carries more than its level, and would not without its lightest particle
Bounds == out = <<>> \/ (RLe(<<1, 1>>, out[1].ess) /\ RLe(out[1].ess, <<out[1].n, 1>>))
RegionsTight == out = <<>> \/ \A k \in DOMAIN out[1].regions : Bind(out[1].regions[k], LAMBDA g :
    Bind(SumSeq([j \in DOMAIN cl |-> g.inside[j] * cl[j][2]]), LAMBDA v :
       /\ g.level < 16 => 16 * v > g.level * Tot(cl)
       /\ \A j \in DOMAIN cl : (g.inside[j] > 0 /\ g.level < 16) => 16 * (v - cl[j][2]) <= g.level * Tot(cl) \/ \E i \in DOMAIN cl : i > j /\ g.inside[i] > 0))
=============================================================================
