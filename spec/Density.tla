------------------------------ MODULE Density ------------------------------
(***************************************************************************)
(* What is told about a cloud of weighted particles (C24): its clusters of  *)
(* dense points and their moments, distances between clouds, the marginal   *)
(* and joint densities of a posterior, the divergence of one cloud from     *)
(* another.  Points are integer vectors, weights integers over their sum.   *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANT SIM
VARIABLES c, f
vars == <<c, f>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
One(S) == CHOOSE v \in RandomSubset(1, S) : TRUE
Vecs(n, d, lo, hi) == IF SIM THEN {[i \in 1..n |-> [j \in 1..d |-> One(lo..hi)]]} ELSE {[i \in 1..n |-> [j \in 1..d |-> lo + ((i * a + j * b) % (hi - lo + 1))]] : a \in 1..2, b \in {0, 2}}
Wts(n, lo, hi) == {w \in (IF SIM THEN {[i \in 1..n |-> One(lo..hi)]} ELSE {[i \in 1..n |-> IF i % m = 0 THEN hi ELSE lo] : m \in 1..2}) : SumSeq(w) > 0}
Sq(x) == x * x
MaxSet(S) == CHOOSE m \in S : \A x \in S : x <= m

(* ---------------------------------------------------------- clusters     *)
Dist2(metric, u, v) == IF metric = "euclidean" THEN SumSeq([j \in DOMAIN u |-> Sq(u[j] - v[j])])
                       ELSE IF metric = "manhattan" THEN Sq(SumSeq([j \in DOMAIN u |-> Abs(u[j] - v[j])])) ELSE Sq(MaxSet({Abs(u[j] - v[j]) : j \in DOMAIN u}))
\* d(i,j) / (w_i w_j N^2)^p against eps / 10, both squared: p = 0 (unweighted), 1/2 or 1 (given doubled)
Left(cl, i, j) == LET K == SumSeq(cl.w) IN 100 * Dist2(cl.metric, cl.x[i], cl.x[j]) * (IF cl.pow = 0 THEN 1 ELSE IF cl.pow = 1 THEN K * K ELSE K * K * K * K)
Right(cl, i, j) == LET W == cl.w[i] * cl.w[j] * Len(cl.x) * Len(cl.x) IN cl.eps * cl.eps * (IF cl.pow = 0 THEN 1 ELSE IF cl.pow = 1 THEN W ELSE W * W)
Close(cl) == [i \in DOMAIN cl.x |-> {j \in DOMAIN cl.x : Left(cl, i, j) < Right(cl, i, j)}]
Cores(cl, near) == {i \in DOMAIN cl.x : Cardinality(near[i]) >= cl.min}
RECURSIVE Grow(_, _, _, _)
Grow(S, near, core, n) == IF n = 0 THEN S ELSE CHOOSE r \in {Grow(T, near, core, n - 1) : T \in {S \cup {j \in core : \E i \in S : j \in near[i]}}} : TRUE
Component(i, near, core) == Grow({i}, near, core, Cardinality(core))
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
\* for each particle the clusters it may be reported in, a cluster named by its first core point; none: noise
Homes(cl, near, core) == [i \in DOMAIN cl.x |-> IF i \in core THEN {MinOf(Component(i, near, core))} ELSE {MinOf(Component(k, near, core)) : k \in near[i] \cap core}]
\* moments of a group of particles: the share of the weight, the sums of w x and of w x x'
Share(w, G) == FoldLeft(LAMBDA a, i : a + w[i], 0, SetToSeq(G))
First(w, x, G, a) == FoldLeft(LAMBDA s, i : s + w[i] * x[i][a], 0, SetToSeq(G))
Second(w, x, G, a, b) == FoldLeft(LAMBDA s, i : s + w[i] * x[i][a] * x[i][b], 0, SetToSeq(G))
Mean(w, x, G, a) == Red(First(w, x, G, a), Share(w, G))
Cov(w, x, G, a, b) == RSub(Red(Second(w, x, G, a, b), Share(w, G)), RMul(Mean(w, x, G, a), Mean(w, x, G, b)))
Moments(w, x, Gs, d) == LET all == DOMAIN x  K == SumSeq(w)  gs == SetToSeq({G \in Gs : Share(w, G) > 0}) IN
    [groups |-> [k \in DOMAIN gs |-> [set |-> gs[k], weight |-> Red(Share(w, gs[k]), K), mean |-> [a \in 1..d |-> Mean(w, x, gs[k], a)], cov |-> [a \in 1..d |-> [b \in 1..d |-> Cov(w, x, gs[k], a, b)]]]],
     within |-> [a \in 1..d |-> [b \in 1..d |-> RSumSeq([k \in DOMAIN gs |-> RMul(Red(Share(w, gs[k]), K), Cov(w, x, gs[k], a, b))])]],
     between |-> [a \in 1..d |-> [b \in 1..d |-> RSub(RSumSeq([k \in DOMAIN gs |-> RMul(Red(Share(w, gs[k]), K), RMul(Mean(w, x, gs[k], a), Mean(w, x, gs[k], b)))]), RMul(Mean(w, x, all, a), Mean(w, x, all, b)))]],
     total |-> [a \in 1..d |-> [b \in 1..d |-> Cov(w, x, all, a, b)]]]
Clusters == \E m \in Pick(IF SIM THEN 1..14 ELSE 2..4), d \in Pick(1..3), metric \in Pick({"euclidean", "manhattan", "chebyshev"}), eps \in Pick(IF SIM THEN {5, 7, 11, 17, 23} ELSE {11, 23}), mn \in Pick(IF SIM THEN 1..5 ELSE 2..3), pow \in Pick(0..2) :
    \E n \in {IF m > 10 THEN 10 ELSE m} :
    \E x \in Vecs(n, d, -2, 2), w \in Wts(n, IF pow = 0 THEN 0 ELSE 1, 3) :
      LET cl == [x |-> x, w |-> w, metric |-> metric, eps |-> eps, min |-> mn, pow |-> pow] IN
      /\ pow = 2 => n <= 6
      /\ \A i, j \in 1..n : Left(cl, i, j) # Right(cl, i, j)
      /\ \E near \in {Close(cl)} : \E core \in {Cores(cl, near)} : \E homes \in {Homes(cl, near, core)} :
         LET sure == \A i \in 1..n : Cardinality(homes[i]) <= 1
             groups == {{j \in 1..n : homes[j] = homes[i]} : i \in 1..n} IN
         /\ c' = [what |-> "clusters", n |-> n, d |-> d, x |-> x, w |-> w, metric |-> metric, eps |-> eps, min |-> mn, pow |-> pow]
         /\ f' = [homes |-> homes, core |-> core, near |-> near, sure |-> sure, noise |-> Cardinality({i \in 1..n : homes[i] = {}}), moments |-> IF sure /\ n < 10 THEN Moments(w, x, groups, d) ELSE [none |-> TRUE]]

(* ---------------------------------------------------------- distances    *)
Distances == \E d \in Pick(1..3), n \in Pick(1..4), m \in Pick(1..4), kp \in Pick({"array", "cloud", "updater"}), kq \in Pick({"array", "cloud", "updater"}) :
    \E x \in Vecs(n, d, -4, 4), y \in Vecs(m, d, -4, 4), q \in (IF SIM THEN {[j \in 1..d |-> One(0..3)]} ELSE {[j \in 1..d |-> j]}) :
      \* the scale matrix is the first one's model's
      /\ c' = [what |-> "distances", d |-> d, x |-> x, y |-> y, kinds |-> <<kp, kq>>, roots |-> q]
      /\ f' = [d2 |-> [i \in 1..n |-> [j \in 1..m |-> SumSeq([k \in 1..d |-> (IF kp = "updater" THEN Sq(q[k]) ELSE 1) * Sq(x[i][k] - y[j][k])])]]]
\* distances of features, heavy ones closer to each other (given squared)
Heavy == \E d \in Pick(1..3), n \in Pick(1..6), metric \in Pick({"euclidean", "manhattan", "chebyshev"}), pow \in Pick({1, 2}) :
    \E x \in Vecs(n, d, -3, 3), w \in Wts(n, 1, 3) :
      /\ c' = [what |-> "heavy", x |-> x, w |-> w, metric |-> metric, pow |-> pow]
      /\ f' = [d2 |-> [i \in 1..n |-> [j \in 1..n |-> LET r == Red(SumSeq(w) * SumSeq(w), w[i] * w[j] * n * n) IN RMul(RInt(Dist2(metric, x[i], x[j])), IF pow = 1 THEN r ELSE RMul(r, r))]]]

(* ---------------------------------------------------------- marginals    *)
\* the distribution function: straight between particles, nothing before the first, everything after the last
RECURSIVE CumTo(_, _, _)
CumTo(p, w, v) == SumSeq([i \in DOMAIN p |-> IF p[i] <= v THEN w[i] ELSE 0])
Below(p, x) == {p[i] : i \in {k \in DOMAIN p : RLe(RInt(p[k]), x)}}
Above(p, x) == {p[i] : i \in {k \in DOMAIN p : RLt(x, RInt(p[k]))}}
Cdf(p, w, x) == IF Below(p, x) = {} THEN <<0, 1>> ELSE IF Above(p, x) = {} THEN <<1, 1>>
                ELSE LET a == MaxSet(Below(p, x))  b == MinOf(Above(p, x))  K == SumSeq(w) IN
                     RAdd(Red(CumTo(p, w, a), K), RMul(Red(CumTo(p, w, b) - CumTo(p, w, a), K * (b - a)), RSub(x, RInt(a))))
Marginal == \E n \in Pick(2..6), idx \in Pick(1..3), res \in Pick({2, 3, 4, 5, 9}), rng \in Pick({"none", "min", "max", "both"}), lo \in Pick(IF SIM THEN -16..2 ELSE {-9, 0}), len \in Pick(IF SIM THEN 1..20 ELSE {5}) :
    \E x \in Vecs(n, 3, -12, 12), w \in Wts(n, 0, 4) :
      LET p == [i \in 1..n |-> x[i][idx]]
          r0 == IF rng \in {"min", "both"} THEN Red(lo, 2) ELSE RInt(MinOf(RangeOf(p)))
          r1 == IF rng = "both" THEN RAdd(r0, Red(len, 2)) ELSE IF rng = "max" THEN RAdd(r0, Red(len, 2)) ELSE RInt(MaxSet(RangeOf(p))) IN
      /\ Cardinality(RangeOf(p)) = n /\ RLt(r0, r1)
      /\ \E h \in {RDiv(RSub(r1, r0), RInt(res - 1))} : \E g \in {[k \in 1..res |-> RAdd(r0, RMul(RInt(k - 1), h))]} :
         \E F \in {[k \in 1..res |-> Cdf(p, w, g[k])]} :
         LET slope(a, b) == RDiv(RSub(F[b], F[a]), RMul(RInt(b - a), h)) IN
         /\ c' = [what |-> "marginal", x |-> x, w |-> w, idx |-> idx, res |-> res, range |-> rng, r0 |-> r0, r1 |-> r1]
         \* grid points on a particle, where rounding may take either side of a jump, are marked
         /\ f' = [grid |-> g, F |-> F, pr |-> [k \in 1..res |-> slope(Max2(1, k - 1), Min2(res, k + 1))], jump |-> {k \in 1..res : REq(g[k], RInt(MinOf(RangeOf(p)))) /\ rng # "none" /\ rng # "max"}]
(* ------------------------------------------------------- joint densities *)
Mesh == \E n \in Pick(1..4), i1 \in Pick(1..3), i2 \in Pick(1..3), res1 \in Pick(2..4), res2 \in Pick(IF SIM THEN 2..4 ELSE {3}), s \in Pick(IF SIM THEN {1, 2} ELSE {1}) :
    \E x \in Vecs(n, 3, -3, 3), w \in Wts(n, 0, 3) :
      LET lo(a) == MinOf({x[i][a] : i \in 1..n})  hi(a) == MaxSet({x[i][a] : i \in 1..n})
          gr(a, r) == [k \in 1..r |-> RAdd(RInt(lo(a)), Red((hi(a) - lo(a)) * (k - 1), r - 1))] IN
      /\ i1 # i2
      /\ c' = [what |-> "mesh", x |-> x, w |-> w, i1 |-> i1, i2 |-> i2, res1 |-> res1, res2 |-> res2, width |-> s]
      /\ f' = [g1 |-> gr(i1, res1), g2 |-> gr(i2, res2),
               \* squared distances over twice the squared width: rows by the second parameter, columns by the first
               e |-> [k \in 1..res2 |-> [l \in 1..res1 |-> [i \in 1..n |-> LET a == RSub(gr(i1, res1)[l], RInt(x[i][i1]))  b == RSub(gr(i2, res2)[k], RInt(x[i][i2])) IN RMul(RAdd(RMul(a, a), RMul(b, b)), <<1, 2 * s * s>>)]]]]
(* ----------------------------------------------------------- divergence  *)
\* the other cloud smoothed by the kernel 1 / (1 + d^2) at each of this one's particles
Diverge == \E d \in Pick(1..2), n \in Pick(1..4), m \in Pick(1..3) :
    \E x \in Vecs(n, d, 0, 2), y \in Vecs(m, d, 0, 2), w \in Wts(n, 0, 3), v \in Wts(m, 0, 3), sh \in Pick(IF SIM THEN 1..4 ELSE {1}) :
      LET at(u, z) == RSumSeq([j \in 1..m |-> Red(v[j], SumSeq(v) * (1 + Dist2("euclidean", u, z[j])))]) IN
      /\ c' = [what |-> "diverge", x |-> x, y |-> y, w |-> w, v |-> v, shift |-> sh]
      /\ f' = [smooth |-> [i \in 1..n |-> at(x[i], y)], far |-> [i \in 1..n |-> at(x[i], [j \in 1..m |-> [k \in 1..d |-> y[j][k] + 4 + sh]])]]
Init == c = <<>> /\ f = <<>>
Next == c = <<>> /\ (Clusters \/ Clusters \/ Distances \/ Heavy \/ Marginal \/ Mesh \/ Diverge)
Spec == Init /\ [][Next]_vars

Is(w) == c # <<>> /\ c.what = w
\* core points of one cluster are connected, no two clusters have close core points, noise is close to no core point
Dense == Is("clusters") => /\ \A i, j \in f.core : j \in f.near[i] => f.homes[i] = f.homes[j]
                           /\ \A i \in DOMAIN f.homes : f.homes[i] = {} <=> f.near[i] \cap f.core = {}
                           /\ \A i \in DOMAIN f.homes : i \in f.near[i] /\ \A j \in f.near[i] : i \in f.near[j]
TotalVariance == Is("clusters") /\ f.sure /\ "total" \in DOMAIN f.moments => \A a, b \in 1..c.d : f.moments.total[a][b] = RAdd(f.moments.within[a][b], f.moments.between[a][b])
WeightsAdd == Is("clusters") /\ f.sure /\ "total" \in DOMAIN f.moments => RSumSeq([k \in DOMAIN f.moments.groups |-> f.moments.groups[k].weight]) = <<1, 1>>
Rising == Is("marginal") => \A k \in DOMAIN f.F : RLe(<<0, 1>>, f.F[k]) /\ RLe(f.F[k], <<1, 1>>) /\ (k > 1 => RLe(f.F[k - 1], f.F[k]))
Farther == Is("diverge") => \A i \in DOMAIN f.smooth : RLt(f.far[i], f.smooth[i])
Emit == c = <<>> \/ PrintT("@@" \o ToJson([c |-> c, f |-> f]))
=============================================================================
