------------------------------ MODULE TomoDraw ------------------------------
(***************************************************************************)
(* Random states, channels and measurements (C22): priors over density      *)
(* operators as trees of distributions, with what every one of their draws  *)
(* has to be; measurements chosen at random, with the set they come from;   *)
(* and the best of several measurements.                                    *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANT SIM
VARIABLES c, f
vars == <<c, f>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
One(S) == CHOOSE v \in RandomSubset(1, S) : TRUE

(* ---------------------------------------------------------------- priors *)
Leaf(k, d, r) == [k |-> k, d |-> d, rank |-> r, kids |-> <<>>, mean |-> <<>>]
Ranks(d) == 0..d                     \* 0: not given
\* spectra of informative means, in sixteenths, in decreasing order along the axes: full rank, not the maximally mixed state
Means(d) == {m \in [1..d -> 1..15] : SumSeq(m) = 16 /\ \E i \in 1..d : m[i] * d < 16}
RECURSIVE Mult(_)
Mult(q) == IF q = <<>> THEN 1 ELSE Head(q) * Mult(Tail(q))
Channel == {"bcsz-tp", "bcsz-any"}
\* dimension of what is drawn: a channel on d levels is a state of d * d
RECURSIVE Dim(_)
Dim(t) == IF t.k = "product" THEN Mult([i \in DOMAIN t.kids |-> Dim(t.kids[i])])
          ELSE IF t.k = "gadfli" THEN Dim(t.kids[1]) ELSE IF t.k \in Channel THEN t.d * t.d ELSE t.d
RECURSIVE Rank(_)
Rank(t) == IF t.k = "product" THEN Mult([i \in DOMAIN t.kids |-> Rank(t.kids[i])]) ELSE IF t.k = "gadfli" \/ t.rank = 0 THEN Dim(t) ELSE t.rank
RECURSIVE IsReal(_)
IsReal(t) == IF t.kids # <<>> THEN \A i \in DOMAIN t.kids : IsReal(t.kids[i]) ELSE t.k = "redit"
\* the mean, as the diagonal of a matrix, in units of 1/scale; <<>> where it is not claimed
RECURSIVE Mean(_)
Mean(t) == IF t.k = "gadfli" THEN [i \in DOMAIN t.mean |-> Red(t.mean[i], 16)]
           ELSE IF t.k = "product" THEN
               (IF \E i \in DOMAIN t.kids : Mean(t.kids[i]) = <<>> THEN <<>>
                ELSE LET join(a, b) == [n \in 1..(Len(a) * Len(b)) |-> RMul(a[((n - 1) \div Len(b)) + 1], b[((n - 1) % Len(b)) + 1])]
                     IN FoldLeft(LAMBDA a, b : join(a, b), <<<<1, 1>>>>, [i \in DOMAIN t.kids |-> Mean(t.kids[i])]))
           ELSE IF t.k = "bcsz-any" THEN <<>> ELSE [i \in 1..Dim(t) |-> <<1, Dim(t)>>]
\* what each draw of the tree is
Facts(t) == [dim |-> Dim(t), rvs |-> Dim(t) * Dim(t), rank |-> Rank(t), real |-> IsReal(t), tp |-> t.k = "bcsz-tp", half |-> IF t.k \in Channel THEN t.d ELSE 0,
             parts |-> IF t.k = "product" THEN [i \in DOMAIN t.kids |-> [dim |-> Dim(t.kids[i]), rank |-> Rank(t.kids[i]), real |-> IsReal(t.kids[i])]] ELSE <<>>, mean |-> Mean(t), exc |-> IF t.k = "ginibre" /\ t.rank > t.d THEN "ValueError" ELSE ""]
Leaves(ks, ds) == UNION {UNION {{Leaf(k, d, r) : r \in Ranks(d)} : d \in ds} : k \in ks}
Gadflis == UNION {{[Leaf("gadfli", l.d, 0) EXCEPT !.kids = <<l>>, !.mean = m] : m \in Means(l.d)} : l \in {Leaf("ginibre", 2, 0), Leaf("redit", 2, 0), Leaf("ginibre", 3, 0), Leaf("ginibre", 3, 1), Leaf("redit", 3, 2)}}
           \cup {[Leaf("gadfli", 2, 0) EXCEPT !.kids = <<Leaf("bcsz-tp", 2, 0)>>, !.mean = m] : m \in {<<4, 3, 4, 5>>, <<1, 5, 7, 3>>}}
Simple == Leaves({"ginibre", "redit"}, {2, 3, 4}) \cup Leaves(Channel, {2, 3}) \cup {Leaf("ginibre", d, d + 1) : d \in {2, 3}}
Twos == Leaves({"ginibre", "redit"}, {2})
Products == {[Leaf("product", 0, 0) EXCEPT !.kids = k] : k \in {<<a, b>> : a \in Twos, b \in Twos \cup Leaves({"ginibre"}, {3})} \cup {<<a, Leaf("ginibre", 2, 1), b>> : a \in Twos, b \in Twos}}
            \cup {[Leaf("product", 0, 0) EXCEPT !.kids = <<a, [Leaf("gadfli", 2, 0) EXCEPT !.kids = <<Leaf("ginibre", 2, 0)>>, !.mean = m]>>] : a \in Twos, m \in {<<3, 13>>, <<15, 1>>}}
Init == c = <<>> /\ f = <<>>
Prior == \E g \in Pick({1, 2, 3}) : \E t \in Pick(IF g = 1 THEN Simple ELSE IF g = 2 THEN Gadflis ELSE Products), b \in Pick({"pauli", "gm", "int"}), n \in Pick({0, 1, 2, 5}) :
    c' = [what |-> "prior", tree |-> t, basis |-> b, n |-> n] /\ f' = Facts(t)

(* ---------------------------------------------------------- measurements *)
\* by their coordinates in the Pauli basis (identity first, then x, y, z; the last qubit runs fastest)
\* Pauli measurements: half the identity plus any other Pauli operator; stabilizer states of one qubit: the six poles
Poles == {[a |-> a, s |-> s] : a \in 1..3, s \in {-1, 1}}
Heuristic == \E h \in Pick({"pauli", "stabilizer", "product-ss", "product-sp", "product-ps", "product-pp"}), n \in Pick({1, 2, 3}), d \in Pick({2, 3, 4, 5}), other \in Pick({0, 7, 40}), own \in Pick(BOOLEAN) :
    /\ c' = [what |-> "heuristic", h |-> h, nq |-> n, d |-> IF h = "stabilizer" THEN d ELSE IF h = "pauli" THEN 2 ^ n ELSE 2, other |-> other, own |-> own]
    /\ f' = [kinds |-> CASE h = "product-ss" -> <<"s", "s">> [] h = "product-sp" -> <<"s", "p">> [] h = "product-ps" -> <<"p", "s">> [] h = "product-pp" -> <<"p", "p">> [] h = "pauli" -> <<"p">> [] OTHER -> <<"s">>,
             n |-> IF h = "pauli" THEN 4 ^ n - 1 ELSE 0]
\* Pauli measurements of systems that are not made of qubits, and informative means that are no states
Refused == \E h \in Pick({"pauli", "gadfli"}), d \in Pick({3, 6}), m \in Pick({<<17, -1>>, <<-2, 18>>, <<9, -1, 8>>}) :
    c' = [what |-> "refused", h |-> h, d |-> IF h = "pauli" THEN d ELSE Len(m), nq |-> 0, other |-> 0, own |-> FALSE, mean |-> m] /\ f' = [exc |-> "ValueError"]

(* --------------------------------------- the best of several measurements *)
Vecs == [1..4 -> -2..2]
\* covariance of a random linear image of independent unit variances: positive semidefinite
Cov(A) == [i \in 1..4 |-> [j \in 1..4 |-> SumSeq([k \in DOMAIN A |-> A[k][i] * A[k][j]])]]
Var(C, v) == SumSeq([i \in 1..4 |-> SumSeq([j \in 1..4 |-> v[i] * C[i][j] * v[j]])])
RVec(n) == CHOOSE v \in {[i \in 1..4 |-> One(-2..2)]} : TRUE
Best(C, vs) == {i \in DOMAIN vs : \A j \in DOMAIN vs : Var(C, vs[j]) <= Var(C, vs[i])}
BestOf == \E k \in Pick(1..6), m \in Pick({1, 2, 4}), other \in Pick({0, 7}) :
    \E A \in (IF SIM THEN {[i \in 1..m |-> RVec(i)]} ELSE {<<<<1, 0, 0, 0>>, <<0, 1, 1, 0>>>>}),
       vs \in (IF SIM THEN {[i \in 1..k |-> RVec(i)]} ELSE {[i \in 1..k |-> <<0, i % 3, 1, 0>>]}) :
       c' = [what |-> "best", k |-> k, cov |-> Cov(A), cands |-> vs, other |-> other] /\ f' = [best |-> Best(Cov(A), vs)]
Next == c = <<>> /\ (Prior \/ Heuristic \/ BestOf \/ Refused)
Spec == Init /\ [][Next]_vars

Drawn == c # <<>> /\ c.what = "prior"
RankFits == (Drawn /\ f.exc = "") => f.rank \in 1..f.dim
MeanIsState == (Drawn /\ f.mean # <<>>) => (RSumSeq(f.mean) = <<1, 1>> /\ Len(f.mean) = f.dim)
PartsMultiply == (Drawn /\ f.parts # <<>>) => (Mult([i \in DOMAIN f.parts |-> f.parts[i].dim]) = f.dim /\ Mult([i \in DOMAIN f.parts |-> f.parts[i].rank]) = f.rank)
VarPositive == (c # <<>> /\ c.what = "best") => (f.best # {} /\ \A i \in DOMAIN c.cands : Var(c.cov, c.cands[i]) >= 0)
Emit == c = <<>> \/ PrintT("@@" \o ToJson([c |-> c, f |-> f]))
=============================================================================
