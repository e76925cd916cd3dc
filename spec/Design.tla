------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* Hypothetical updates, Bayes risk and expected information gain of the   *)
(* updater (C05), over arbitrary histories of real updates.  Particles are *)
(* <<x, y>>; the probability of outcome o of experiment kind k for a       *)
(* particle is P[k][o][x]/4.  Weights are reduced integer vectors.         *)
(* Queries never change the state; each is returned with its exact value.  *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS NP, KINDSET, QX, QY, DEPTH

P == << << <<4,2,1>>, <<0,2,3>> >>,                                    \* 1
        << <<1,1,2>>, <<1,2,0>>, <<2,1,2>> >>,                         \* 2
        << <<4,4,4>>, <<0,0,0>> >>,                                    \* 3  nothing to learn
        << <<0,0,0>>, <<2,0,4>>, <<2,4,0>> >>,                         \* 4
        << <<1,1,1>>, <<0,1,2>>, <<3,1,0>>, <<0,1,1>> >>,              \* 5
        << <<1,3,2>>, <<3,1,2>> >>,                                    \* 6
        << <<0,0,0>>, <<4,4,4>> >>,                                    \* 7  first outcome impossible
        << <<2,1,4>>, <<2,3,0>>, <<0,0,0>> >> >>                       \* 8  last outcome impossible
NOut(k) == Len(P[k])

VARIABLES W, locs, h
vars == <<W, locs, h>>

\* (TLC's simulator computes the initial states once: offer it enough of them)
Some(n, S) == RandomSubset(Min2(n, Cardinality(S)), S)
Init == /\ \E w \in Some(25, {v \in [1..NP -> 0..2] : \E i \in 1..NP : v[i] > 0}) : W = RedSeq(w)
        /\ \E l \in Some(12, [1..NP -> {<<0,1>>, <<1,0>>, <<1,2>>, <<2,-1>>, <<0,3>>, <<2,2>>}]) : locs = l
        /\ h = <<>>

Hyp(k, o) == [i \in 1..NP |-> W[i] * P[k][o][locs[i][1] + 1]]
\* probability of the outcome
Pr(k, o) == Red(SumSeq(Hyp(k, o)), 4 * SumSeq(W))
\* normalised posterior (all zero if the outcome is impossible)
Post(k, o) == Bind(Hyp(k, o), LAMBDA v : Bind(SumSeq(v), LAMBDA t :
                 [i \in 1..NP |-> IF t = 0 THEN <<0, 1>> ELSE Red(v[i], t)]))

\* N_o * (posterior variance of coordinate c)
VarPart(k, o, c) == Bind(Hyp(k, o), LAMBDA v :
    Bind(<<SumSeq(v), SumSeq([i \in 1..NP |-> v[i] * locs[i][c]]),
           SumSeq([i \in 1..NP |-> v[i] * locs[i][c] * locs[i][c]])>>, LAMBDA m :
      IF m[1] = 0 THEN <<0, 1>>
      ELSE Red(m[1] * m[3] - m[2] * m[2], m[1] * 4 * SumSeq(W))))
Risk(k) == RSumSeq([o \in 1..NOut(k) |->
              RAdd(RMul(<<QX, 1>>, VarPart(k, o, 1)), RMul(<<QY, 1>>, VarPart(k, o, 2)))])
\* the gain is the sum over terms <<weight, ratio>> of weight * log(ratio)
Terms(k) == {<<i, o>> \in (1..NP) \X (1..NOut(k)) : Hyp(k, o)[i] # 0}
Gain(k) == SetToSeq({<<io[1], io[2], Red(Hyp(k, io[2])[io[1]], 4 * SumSeq(W)),
                       RDiv(Red(P[k][io[2]][locs[io[1]][1] + 1], 4), Pr(k, io[2]))>> : io \in Terms(k)})

Snap == [W |-> W, locs |-> locs]
EpLists == {<<a>> : a \in KINDSET} \cup {<<a, b>> : a, b \in KINDSET} \cup {<<a, b, c>> : a, b, c \in KINDSET}
MinOut(eps) == CHOOSE m \in 1..4 : (\E i \in DOMAIN eps : NOut(eps[i]) = m) /\ \A i \in DOMAIN eps : NOut(eps[i]) >= m

HypQuery == \E eps \in RandomSubset(2, EpLists) :
            \E os \in RandomSubset(2, UNION {[1..n -> 0..(MinOut(eps) - 1)] : n \in 1..3}) :
              /\ UNCHANGED <<W, locs>>
              /\ h' = Append(h, [op |-> "hyp", eps |-> eps, os |-> os, pre |-> Snap,
                     w |-> [a \in DOMAIN os |-> [e \in DOMAIN eps |-> Post(eps[e], os[a] + 1)]],
                     n |-> [a \in DOMAIN os |-> [e \in DOMAIN eps |-> Pr(eps[e], os[a] + 1)]],
                     lik |-> [a \in DOMAIN os |-> [e \in DOMAIN eps |-> [i \in 1..NP |-> P[eps[e]][os[a] + 1][locs[i][1] + 1]]]]])
RiskQuery == \E eps \in RandomSubset(3, EpLists) :
              /\ UNCHANGED <<W, locs>>
              /\ h' = Append(h, [op |-> "risk", eps |-> eps, pre |-> Snap, val |-> [e \in DOMAIN eps |-> Risk(eps[e])]])
GainQuery == \E eps \in RandomSubset(3, EpLists) :
              /\ UNCHANGED <<W, locs>>
              /\ h' = Append(h, [op |-> "gain", eps |-> eps, pre |-> Snap, val |-> [e \in DOMAIN eps |-> Gain(eps[e])]])
\* a real datum: after it the cloud is the hypothetical posterior
Datum == \E k \in RandomSubset(2, KINDSET) : \E o \in 1..NOut(k) : \E v \in {Hyp(k, o)} :
              /\ SumSeq(v) > 0 /\ SumSeq(RedSeq(v)) <= 40
              /\ W' = RedSeq(v) /\ UNCHANGED locs
              /\ h' = Append(h, [op |-> "update", kind |-> k, o |-> o - 1, pre |-> Snap, post |-> RedSeq(v)])
(* An experiment one of whose two outcomes is rare: its probability is t/4 of some eps, the other outcome's what remains.  The values are exact functions of eps:        *)
(*   risk = Q . (eps rv + (m2 - eps a2) - (m1 - eps a1)^2 / (1 - eps a0)),    gain = eps sum_i g_i log(t_i/4 / a0) + sum_i (w_i - eps g_i) log((1 - eps t_i/4) / (1 - eps a0)). *)
(* eps is sent as its exponent of ten.                                                                                                                               *)
RareHyp(tab) == [i \in 1..NP |-> W[i] * tab[locs[i][1] + 1]]
RareQuery == 2 \in {NOut(k) : k \in KINDSET} /\
   \E tab \in RandomSubset(2, {f \in [1..3 -> 0..4] : \E i \in 1..NP : W[i] * f[locs[i][1] + 1] > 0}), e \in RandomSubset(1, 2..6), first \in BOOLEAN :
      /\ UNCHANGED <<W, locs>>
      /\ \E v \in {RareHyp(tab)} : \E s \in {SumSeq(v)}, tot \in {SumSeq(W)} :
           h' = Append(h, [op |-> "rare", eps |-> e, first |-> first, tab |-> tab, pre |-> Snap, a0 |-> Red(s, 4 * tot),
              post |-> [i \in 1..NP |-> Red(v[i], s)], w |-> [i \in 1..NP |-> Red(W[i], tot)],
              parts |-> [c \in 1..2 |-> [a1 |-> Red(SumSeq([i \in 1..NP |-> v[i] * locs[i][c]]), 4 * tot), a2 |-> Red(SumSeq([i \in 1..NP |-> v[i] * locs[i][c] * locs[i][c]]), 4 * tot),
                 m1 |-> Red(SumSeq([i \in 1..NP |-> W[i] * locs[i][c]]), tot), m2 |-> Red(SumSeq([i \in 1..NP |-> W[i] * locs[i][c] * locs[i][c]]), tot),
                 rv |-> Bind(<<SumSeq([i \in 1..NP |-> v[i] * locs[i][c]]), SumSeq([i \in 1..NP |-> v[i] * locs[i][c] * locs[i][c]])>>, LAMBDA m : Red(s * m[2] - m[1] * m[1], s * 4 * tot))]]])
Next == Len(h) < DEPTH /\ (RareQuery \/ HypQuery \/ RiskQuery \/ GainQuery \/ Datum)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the law of total probability, and of total variance: data never increase the expected risk
TotalProbability == \A k \in KINDSET : RSumSeq([o \in 1..NOut(k) |-> Pr(k, o)]) = <<1, 1>>
PriorVar(c) == Bind(<<SumSeq(W), SumSeq([i \in 1..NP |-> W[i] * locs[i][c]]),
                      SumSeq([i \in 1..NP |-> W[i] * locs[i][c] * locs[i][c]])>>, LAMBDA m :
                 Red(m[1] * m[3] - m[2] * m[2], m[1] * m[1]))
PriorRisk == RAdd(RMul(<<QX, 1>>, PriorVar(1)), RMul(<<QY, 1>>, PriorVar(2)))
RiskBounds == \A k \in KINDSET : RLe(<<0, 1>>, Risk(k)) /\ RLe(Risk(k), PriorRisk)
PosteriorsAverageToPrior == \A k \in KINDSET : \A i \in 1..NP :
      RSumSeq([o \in 1..NOut(k) |-> RMul(Pr(k, o), Post(k, o)[i])]) = Red(W[i], SumSeq(W))
Emit == Len(h) < DEPTH \/ PrintT("@@" \o ToJson([NP |-> NP, Q |-> <<QX, QY>>, steps |-> h]))
=============================================================================
