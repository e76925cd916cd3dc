-------------------------------- MODULE Counts --------------------------------
(***************************************************************************)
(* Repeated-measurement models (C12): n shots of a K-outcome model per      *)
(* experiment, reported as counts.  A cloud of particles (integer weights W *)
(* over the rows of the single-shot table) is updated with counts; the      *)
(* same shots one at a time, in any order, give the same weights.           *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS KIND, DEPTH, K, NMAX      \* KIND: "binomial" (K = 2) or "multinomial"
NX == 4
NE == 3
Q == 4
Rows == {v \in [1..K -> 0..Q] : SumSeq(v) = Q}
VARIABLES w, W, h
vars == <<w, W, h>>
Pick(S) == RandomSubset(1, S)
Init == w = <<>> /\ W = <<>> /\ h = <<>>
Choose == /\ w = <<>> /\ h' = <<>>
          /\ \E ns \in Pick([1..NE -> 0..NMAX]), u \in Pick([1..NX -> BOOLEAN]) :
             w' = [ns |-> ns, valid |-> u,
                   t |-> [e \in 1..NE |-> [x \in 1..NX |-> Bind(0, LAMBDA z : CHOOSE r \in Pick(Rows) : TRUE)]]]
          /\ \E v \in Pick({v \in [1..NX -> 0..3] : SumSeq(v) > 0}) : W' = RedSeq(v)

RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
CountVecs(n) == {v \in [1..K -> 0..n] : SumSeq(v) = n}
Ways(v) == FoldLeft(LAMBDA a, b : a \div Fact(b), Fact(SumSeq(v)), v)
\* unnormalised probability of one particular sequence of shots with these counts
Seq1(v, row) == FoldLeft(LAMBDA a, b : a * b, 1, [i \in 1..K |-> IPow(row[i], v[i])])
Prob(v, x, e) == IF SumSeq(v) # w.ns[e] THEN <<0, 1>> ELSE Red(Ways(v) * Seq1(v, w.t[e][x]), IPow(Q, w.ns[e]))
\* posterior weights after the counts, and after the shots
CountPost(U, v, e) == [i \in 1..NX |-> U[i] * Seq1(v, w.t[e][i])]
ShotPost(U, sh, e) == FoldLeft(LAMBDA V, o : [i \in 1..NX |-> V[i] * w.t[e][i][o]], U, sh)
Shots(v) == {s \in [1..SumSeq(v) -> 1..K] : \A k \in 1..K : Cardinality({i \in DOMAIN s : s[i] = k}) = v[k]}

Seqs(S, lo, hi) == UNION {[1..m -> S] : m \in lo..hi}
\* batches of likelihoods: outcomes, particles, experiments; counts beyond the number of shots are impossible
Same(e) == {f \in 1..NE : w.ns[f] = w.ns[e]}
Lik == \E e \in Pick(1..NE) :
       \E es \in Pick(IF KIND = "binomial" THEN Seqs(1..NE, 1, 3) ELSE Seqs(Same(e), 1, 3)), xs \in Pick(Seqs(1..NX, 1, 3)) :
       \E os \in Pick(Seqs(IF KIND = "binomial" THEN {<<NMAX - k, k>> : k \in 0..NMAX} ELSE CountVecs(w.ns[e]), 1, 3)) :
         /\ UNCHANGED <<w, W>>
         /\ h' = Append(h, [op |-> "lik", os |-> os, xs |-> xs, es |-> es,
              p |-> [a \in DOMAIN os |-> [j \in DOMAIN xs |-> [b \in DOMAIN es |->
                 IF KIND = "binomial" THEN (IF os[a][2] > w.ns[es[b]] THEN <<0, 1>> ELSE Prob(<<w.ns[es[b]] - os[a][2], os[a][2]>>, xs[j], es[b]))
                 ELSE Prob(os[a], xs[j], es[b])]]]])
Domains == \E es \in Pick(Seqs(1..NE, 1, 3)) :
         /\ UNCHANGED <<w, W>>
         /\ h' = Append(h, [op |-> "domain", es |-> es, members |-> [b \in DOMAIN es |-> CountVecs(w.ns[es[b]])]])
Facets == \E es \in Pick(Seqs(1..NE, 1, 3)), xs \in Pick(Seqs(1..NX, 1, 3)) :
         /\ UNCHANGED <<w, W>>
         /\ h' = Append(h, [op |-> "facets", es |-> es, xs |-> xs, valid |-> [j \in DOMAIN xs |-> w.valid[xs[j]]],
                            \* the stub model's own time step: shift the particle by the experiment's index
                            step |-> [j \in DOMAIN xs |-> [b \in DOMAIN es |-> xs[j] + 10 * es[b]]]])
Update == \E e \in Pick(1..NE) : \E v \in Pick(CountVecs(w.ns[e])) : \E sh \in Pick(Shots(v)) :
         \E u \in {CountPost(W, v, e)} :
         /\ SumSeq(u) > 0 /\ SumSeq(RedSeq(u)) < 100000
         /\ W' = RedSeq(u) /\ w' = w
         /\ h' = Append(h, [op |-> "update", e |-> e, v |-> v, pre |-> W, shots |-> sh, W |-> RedSeq(u),
              norm |-> Red(Ways(v) * SumSeq(u), SumSeq(W) * IPow(Q, w.ns[e]))])
Next == Choose \/ (w # <<>> /\ Len(h) < DEPTH /\ (Lik \/ Domains \/ Facets \/ Update \/ Update))
Spec == Init /\ [][Next]_vars

Fresh == h = <<>> /\ w # <<>>
\* the counts' probabilities sum to one over the domain
Lawful == Fresh => \A x \in 1..NX, e \in 1..NE :
    Bind(SetToSeq(CountVecs(w.ns[e])), LAMBDA s : RSumSeq([i \in DOMAIN s |-> Prob(s[i], x, e)])) = <<1, 1>>
\* every order of the single shots gives the counts' posterior
OrderFree == Fresh => \A e \in 1..NE : \A v \in CountVecs(w.ns[e]) : \A s \in Shots(v) : ShotPost(W, s, e) = CountPost(W, v, e)
DomainSize == Fresh => \A e \in 1..NE : Cardinality(CountVecs(w.ns[e])) = Fact(w.ns[e] + K - 1) \div (Fact(K - 1) * Fact(w.ns[e]))
Emit == Len(h) < DEPTH \/ PrintT("@@" \o ToJson([kind |-> KIND, k |-> K, w |-> w, steps |-> h]))
=============================================================================
