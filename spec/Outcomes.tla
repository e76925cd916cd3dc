------------------------------- MODULE Outcomes -------------------------------
(***************************************************************************)
(* What simulating an experiment may return (C11), for models over finite   *)
(* domains given by a table of single-shot probabilities, directly or       *)
(* through a decorator.                                                     *)
(*   const    K outcomes for every experiment, numbered from 0              *)
(*   shift    K outcomes numbered from SHIFT (the domain is overridden)     *)
(*   struct   outcomes are count vectors (the domain is overridden)         *)
(*   vary     the number of outcomes depends on the experiment              *)
(*   varyc    the same, but the experiments in use all have K outcomes      *)
(*   binomial, multinomial   counts of n shots of the K-outcome table       *)
(*   poison, mle, walk, grw  decorators that leave the outcomes alone       *)
(*   hyper    a Gaussian readout of a two-outcome table                     *)
(* State: the table, and how many simulations have been counted.            *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS KIND, DEPTH
NX == 4
NE == 4
Q == 4          \* probabilities are multiples of 1/4
SHIFT == 3
Decorated == {"poison", "mle", "walk", "grw"}
Counts == {"binomial", "multinomial"}
KK == CASE KIND \in {"binomial", "hyper"} \cup Decorated -> {2} [] KIND = "struct" -> {3} [] OTHER -> 1..4
Rows(k) == {v \in [1..k -> 0..Q] : SumSeq(v) = Q}
\* a world: number of outcomes per experiment, single-shot table, shots per experiment
VARIABLES w, sims, h
vars == <<w, sims, h>>
Pick(S) == RandomSubset(1, S)
Init == sims = 0 /\ h = <<>> /\ w = <<>>
\* the world is chosen in the first step (TLC's simulator computes the initial states only once)
Choose == /\ w = <<>> /\ UNCHANGED <<sims, h>>
          /\ \E ks \in Pick({s \in [1..NE -> KK] : KIND = "vary" \/ \A e \in 1..NE : s[e] = s[1]}), ns \in Pick([1..NE -> 0..4]) :
             w' = [ks |-> ks, ns |-> ns,
                   t |-> [e \in 1..NE |-> [x \in 1..NX |-> Bind(0, LAMBDA z : CHOOSE r \in RandomSubset(1, Rows(ks[e])) : TRUE)]]]

Fact(n) == CASE n <= 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 6 [] n = 4 -> 24
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE a * IPow(a, n - 1)
CountVecs(k, n) == {v \in [1..k -> 0..n] : SumSeq(v) = n}
Multi(v, row) == Bind(Fact(SumSeq(v)), LAMBDA nf :
    Red((nf \div FoldLeft(LAMBDA a, b : a * Fact(b), 1, v)) * FoldLeft(LAMBDA a, b : a * b, 1, [i \in DOMAIN v |-> IPow(row[i], v[i])]),
        IPow(Q, SumSeq(v))))
\* the law of one simulated datum: a set of <<outcome, probability>> (outcomes of probability zero left out)
Law(x, e) == CASE KIND = "binomial" -> {<<k, Multi(<<w.ns[e] - k, k>>, w.t[e][x])>> : k \in 0..w.ns[e]}
             [] KIND = "multinomial" -> {<<v, Multi(v, w.t[e][x])>> : v \in CountVecs(w.ks[e], w.ns[e])}
             [] KIND = "shift" -> {<<k - 1 + SHIFT, Red(w.t[e][x][k], Q)>> : k \in 1..w.ks[e]}
             [] KIND = "struct" -> {<< <<3 - k, k - 1>>, Red(w.t[e][x][k], Q)>> : k \in 1..3}
             [] OTHER -> {<<k - 1, Red(w.t[e][x][k], Q)>> : k \in 1..w.ks[e]}
Support(x, e) == {p \in Law(x, e) : p[2][1] > 0}

Seqs(n, lo, hi) == UNION {[1..m -> 1..n] : m \in lo..hi}
Simulate == w # <<>> /\ \E xs \in Pick(Seqs(NX, 1, 3)), es \in Pick(Seqs(NE, 1, 3)), r \in Pick({1, 1, 2, 3, 6}) :
    /\ sims' = sims + r * Len(xs) * Len(es)
    /\ h' = Append(h, [xs |-> xs, es |-> es, repeat |-> r, sims |-> sims',
                       law |-> [j \in DOMAIN xs |-> [k \in DOMAIN es |-> Support(xs[j], es[k])]]])
    /\ UNCHANGED w
Next == Choose \/ (Len(h) < DEPTH /\ Simulate)
Spec == Init /\ [][Next]_vars

\* the laws are probability distributions
Lawful == (h = <<>> /\ w # <<>>) => \A x \in 1..NX, e \in 1..NE :
    RSumSeq([i \in 1..Cardinality(Law(x, e)) |-> SetToSeq(Law(x, e))[i][2]]) = <<1, 1>>
\* the mean count of each outcome is the number of shots times its single-shot probability
MeanCount == (h = <<>> /\ w # <<>> /\ KIND = "multinomial") => \A x \in 1..NX, e \in 1..NE : \A i \in 1..w.ks[e] :
    Bind(SetToSeq(Law(x, e)), LAMBDA s : RSumSeq([j \in DOMAIN s |-> RMul(RInt(s[j][1][i]), s[j][2])])) = Red(w.ns[e] * w.t[e][x][i], Q)
Emit == Len(h) < DEPTH \/ PrintT("@@" \o ToJson([kind |-> KIND, w |-> w, steps |-> h, shift |-> SHIFT]))
=============================================================================
