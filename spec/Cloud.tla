-------------------------------- MODULE Cloud --------------------------------
(***************************************************************************)
(* Weighted particle clouds and everything that is estimated from them     *)
(* (C07).  W: integer weights as given (not normalised), locs: integer     *)
(* points in D dimensions.  The cloud may be replaced (new weights, new    *)
(* locations) between readings; no reading changes it.                     *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS NP, D, WMAX, DEPTH,
          POW2        \* TRUE: only clouds whose total weight is a power of two (exact ties are then meaningful)

VARIABLES W, locs, h
vars == <<W, locs, h>>
I == 1..NP
C == 1..D

T(w) == SumSeq(w)
Weights == LET S == RandomSubset(60, {w \in [I -> 0..WMAX] : \E i \in I : w[i] > 0})
           IN IF POW2 THEN {w \in S : IsPow2(SumSeq(w))} ELSE S
Points == RandomSubset(4, [I -> RandomSubset(12, [C -> -2..3])])

M1(c) == SumSeq([i \in I |-> W[i] * locs[i][c]])
M2(c, d) == SumSeq([i \in I |-> W[i] * locs[i][c] * locs[i][d]])
Mean(c) == Red(M1(c), T(W))
CovNum(c, d) == T(W) * M2(c, d) - M1(c) * M1(d)
Cov(c, d) == Red(CovNum(c, d), T(W) * T(W))
ESS == Red(T(W) * T(W), SumSeq([i \in I |-> W[i] * W[i]]))

\* functions whose expectation is asked for: a scalar, a vector and a matrix valued one
F1(x) == x[1] * x[1] - x[1]
F2(x) == <<x[1] * x[D], x[D] + 1, 3>>
F3(x) == << <<x[1], 0>>, <<x[D] * x[D], 1>> >>
Mean1(f(_)) == Red(SumSeq([i \in I |-> W[i] * f(locs[i])]), T(W))

\* credible region: least prefix, heaviest first, whose weight exceeds the level a/16
Desc == SortSeq([i \in I |-> W[i]], LAMBDA a, b : a > b)
Prefix(k) == SumSeq([i \in 1..k |-> Desc[i]])
Exceeds(k, a) == 16 * Prefix(k) > a * T(W)
RegionSize(a) == IF \E k \in I : Exceeds(k, a) THEN CHOOSE k \in I : Exceeds(k, a) /\ \A j \in 1..(k-1) : ~Exceeds(j, a)
                 ELSE NP
\* rounding may decide when the level is hit exactly by a weight that has no finite binary expansion
Sharp(a) == IsPow2(T(W)) \/ \A k \in I : 16 * Prefix(k) # a * T(W)
\* the particles certainly inside, and those that may be (equal weights at the boundary)
Inside(a) == Bind(Desc[RegionSize(a)], LAMBDA v : {i \in I : W[i] > v})
Boundary(a) == Bind(Desc[RegionSize(a)], LAMBDA v : {i \in I : W[i] = v})
Unambiguous(a) == Cardinality(Inside(a)) + Cardinality(Boundary(a)) = RegionSize(a)

\* planar geometry: convex hull of the region (D = 2)
Cross(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
InOpen(p, t) == \/ Cross(t[1], t[2], p) > 0 /\ Cross(t[2], t[3], p) > 0 /\ Cross(t[3], t[1], p) > 0
                \/ Cross(t[1], t[2], p) < 0 /\ Cross(t[2], t[3], p) < 0 /\ Cross(t[3], t[1], p) < 0
InClosed(p, t) == \/ Cross(t[1], t[2], p) >= 0 /\ Cross(t[2], t[3], p) >= 0 /\ Cross(t[3], t[1], p) >= 0
                  \/ Cross(t[1], t[2], p) <= 0 /\ Cross(t[2], t[3], p) <= 0 /\ Cross(t[3], t[1], p) <= 0
RegPts(a) == {locs[i] : i \in Inside(a) \cup Boundary(a)}
Tri(a) == {t \in RegPts(a) \X RegPts(a) \X RegPts(a) : Cross(t[1], t[2], t[3]) # 0}
Side(p, a) == IF \E t \in Tri(a) : InOpen(p, t) THEN "in"
              ELSE IF \A t \in Tri(a) : ~InClosed(p, t) THEN "out" ELSE "edge"
\* covariance ellipsoid: squared Mahalanobis distance of p (D = 2)
\* how far a point is from the mean, in units of the covariance, for one parameter or a pair of them
DetOf(c, d) == CovNum(c, c) * CovNum(d, d) - CovNum(c, d) * CovNum(c, d)
Maha1(c, x) == Bind(T(W) * x - M1(c), LAMBDA v : Red(v * v, CovNum(c, c)))
Maha2(c, d, p) == Bind(<<T(W) * p[1] - M1(c), T(W) * p[2] - M1(d)>>, LAMBDA v :
             Red(v[1] * v[1] * CovNum(d, d) - 2 * v[1] * v[2] * CovNum(c, d) + v[2] * v[2] * CovNum(c, c), DetOf(c, d)))
GridPts == {<<x, y>> : x \in -3..4, y \in -3..4}

\* clusters: connected components of the particles under lattice distance one
Near(i, j) == SumSeq([c \in C |-> Abs(locs[i][c] - locs[j][c])]) <= 1
RECURSIVE Grow(_)
Grow(S) == Bind({j \in I : \E i \in S : Near(i, j)}, LAMBDA U : IF U = S THEN S ELSE Grow(U))
Clusters == {Grow({i}) : i \in I}
GW(g) == SumSeq([i \in I |-> IF i \in g THEN W[i] ELSE 0])
GM(g, c) == SumSeq([i \in I |-> IF i \in g THEN W[i] * locs[i][c] ELSE 0])
GC(g, c, d) == SumSeq([i \in I |-> IF i \in g THEN W[i] * locs[i][c] * locs[i][d] ELSE 0])
GCov(g, c, d) == Red(GW(g) * GC(g, c, d) - GM(g, c) * GM(g, d), GW(g) * GW(g))
Within(G, c, d) == RSumSeq([k \in DOMAIN G |-> Red(GW(G[k]) * GC(G[k], c, d) - GM(G[k], c) * GM(G[k], d), GW(G[k]) * T(W))])
Between(G, c, d) == RSub(RSumSeq([k \in DOMAIN G |-> Red(GM(G[k], c) * GM(G[k], d), GW(G[k]) * T(W))]),
                         RMul(Mean(c), Mean(d)))

Init == /\ \E w \in Weights : W = w
        /\ \E l \in Points : locs = l
        /\ h = <<>>
Snap == [W |-> W, locs |-> locs]
Rec(r) == h' = Append(h, [pre |-> Snap] @@ r)

\* the parameters a region is asked for: all of them (<<>>), or some of them in any order
Selections == UNION {{f \in [1..n -> C] : \A i, j \in 1..n : i # j => f[i] # f[j]} : n \in 0..D}
ReadMoments == UNCHANGED <<W, locs>> /\ Rec(
    [op |-> "moments", n |-> NP, dim |-> D, ess |-> ESS, mean |-> [c \in C |-> Mean(c)],
     cov |-> [c \in C |-> [d \in C |-> Cov(c, d)]],
     f1 |-> Mean1(F1), f2 |-> [k \in 1..3 |-> Mean1(LAMBDA x : F2(x)[k])],
     f3 |-> [k \in 1..2 |-> [l \in 1..2 |-> Mean1(LAMBDA x : F3(x)[k][l])]],
     probs |-> [i \in I |-> Red(W[i], T(W))]])
ReadRegion == \E a \in RandomSubset(4, 0..16) : Sharp(a) /\ UNCHANGED <<W, locs>> /\ Rec(
    [op |-> "region", level |-> a, k |-> RegionSize(a), sure |-> SetToSeq(Inside(a)), may |-> SetToSeq(Boundary(a)),
     cols |-> RandomElement(Selections)])
ReadHull == D = 2 /\ \E a \in RandomSubset(4, 4..16) : Sharp(a) /\ Unambiguous(a) /\ Tri(a) # {} /\ UNCHANGED <<W, locs>> /\ Rec(
    [op |-> "hull", level |-> a, pts |-> SetToSeq({<<p[1], p[2], Side(p, a)>> : p \in RandomSubset(12, GridPts)})])
ReadEllipsoid == T(W) <= 16 /\ UNCHANGED <<W, locs>> /\
    \/ \E c \in RandomSubset(1, C) : CovNum(c, c) > 0 /\ Rec(
         [op |-> "pce", cols |-> <<c>>, pts |-> SetToSeq({<<x, Maha1(c, x)>> : x \in -5..6})])
    \/ D > 1 /\ \E c \in {RandomSubset(2, C)} : \E a, b \in c : a < b /\ DetOf(a, b) > 0 /\ Rec(
         [op |-> "pce", cols |-> <<a, b>>, pts |-> SetToSeq({<<p[1], p[2], Maha2(a, b, p)>> : p \in RandomSubset(10, GridPts)})])
ReadClusters == \E G \in {SetToSeq(Clusters)} : (\A k \in DOMAIN G : GW(G[k]) > 0) /\ UNCHANGED <<W, locs>> /\ Rec(
    [op |-> "clusters", groups |-> [k \in DOMAIN G |-> [members |-> SetToSeq(G[k]), w |-> Red(GW(G[k]), T(W)),
          mean |-> [c \in C |-> Red(GM(G[k], c), GW(G[k]))], cov |-> [c \in C |-> [d \in C |-> GCov(G[k], c, d)]]]],
     within |-> [c \in C |-> [d \in C |-> Within(G, c, d)]], between |-> [c \in C |-> [d \in C |-> Between(G, c, d)]],
     total |-> [c \in C |-> [d \in C |-> Cov(c, d)]]])
Sample == UNCHANGED <<W, locs>> /\ Rec([op |-> "sample", probs |-> [i \in I |-> Red(W[i], T(W))]])
Reweight == \E w \in RandomSubset(1, Weights) : W' = w /\ UNCHANGED locs /\ Rec([op |-> "reweight", W2 |-> w])
Relocate == \E l \in RandomSubset(1, Points) : locs' = l /\ UNCHANGED W /\ Rec([op |-> "relocate", locs2 |-> l])
Next == Len(h) < DEPTH /\ (ReadMoments \/ ReadRegion \/ ReadHull \/ ReadEllipsoid \/ ReadClusters \/ Sample \/ Reweight \/ Relocate)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
EssBounds == RLe(<<1, 1>>, ESS) /\ RLe(ESS, <<NP, 1>>)
CovPSD == \A c, d \in C : /\ CovNum(c, c) >= 0
                          /\ CovNum(c, d) = CovNum(d, c)
                          /\ CovNum(c, c) * CovNum(d, d) >= CovNum(c, d) * CovNum(c, d)
MeanInHull == \A c \in C : \E i, j \in I : /\ W[i] > 0 /\ W[j] > 0
                                           /\ RLe(<<locs[i][c], 1>>, Mean(c)) /\ RLe(Mean(c), <<locs[j][c], 1>>)
RegionLaws == \A a \in 0..16 :
    /\ Bind(RegionSize(a), LAMBDA k : (k < NP => Exceeds(k, a)) /\ (k > 1 => ~Exceeds(k - 1, a)))
    /\ a > 0 => RegionSize(a) >= RegionSize(a - 1)
    /\ Cardinality(Inside(a)) < RegionSize(a) /\ RegionSize(a) <= Cardinality(Inside(a)) + Cardinality(Boundary(a))
\* law of total covariance
TotalCovariance == Bind(SetToSeq(Clusters), LAMBDA G : (\A k \in DOMAIN G : GW(G[k]) > 0) =>
   \A c, d \in C : RAdd(Within(G, c, d), Between(G, c, d)) = Cov(c, d))
ClustersPartition == UNION Clusters = I /\ \A g, k \in Clusters : g = k \/ g \cap k = {}
Emit == Len(h) < DEPTH \/ PrintT("@@" \o ToJson([NP |-> NP, D |-> D, steps |-> h]))
=============================================================================
