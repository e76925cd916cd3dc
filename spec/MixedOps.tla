-------------------------------- MODULE MixedOps --------------------------------
(***************************************************************************)
(* Mixed approximate updating (C08): every update first splits the         *)
(* particles between a good and an approximate model by their weights, then *)
(* applies Bayes' rule with each particle's own model.  The split is        *)
(* nondeterministic only where weights tie or the ratio is met exactly.     *)
(* Model tables: probability of outcome o of experiment k at x is T/8.      *)
(***************************************************************************)
EXTENDS Rat
GOOD == << << <<8,4,1>>, <<0,4,7>> >>, << <<2,6,0>>, <<3,1,8>>, <<3,1,0>> >>, << <<0,0,0>>, <<8,8,8>> >> >>
APX  == << << <<6,4,2>>, <<2,4,6>> >>, << <<4,4,4>>, <<2,2,2>>, <<2,2,2>> >>, << <<0,1,0>>, <<8,7,8>> >> >>

\* number of particles strictly heavier than / at least as heavy as i; total weight of a set
Wt(W, S) == SumSeq([i \in DOMAIN W |-> IF i \in S THEN W[i] ELSE 0])
\* S is a set of heaviest particles
Heaviest(W, S) == \A i \in S, j \in DOMAIN W \ S : W[i] >= W[j]
Tot(W) == SumSeq(W)
\* carries(S): S carries at least the fraction r = <<num, den>> of the weight; Needed: no smaller set of heaviest does
Carries(W, S, r) == Wt(W, S) * r[2] >= r[1] * Tot(W)
CarriesMore(W, S, r) == Wt(W, S) * r[2] > r[1] * Tot(W)
\* "needed": without its lightest member (and all members as light as it, up to one) the set would not exceed the fraction
Lightest(W, S) == CHOOSE i \in S : \A j \in S : W[i] <= W[j]
Needed(W, S, r) == /\ Heaviest(W, S)
                   /\ Carries(W, S, r)
                   /\ S # {} => ~CarriesMore(W, S \ {Lightest(W, S)}, r)
\* particles whose own weight reaches the threshold t
Heavy(W, t) == {i \in DOMAIN W : W[i] * t[2] >= t[1] * Tot(W)}
SplitH(W, S, r, H, m) ==
   \/ \E B \in SUBSET DOMAIN W : Needed(W, B, r) /\ S = B \cup H /\ Cardinality(S) >= Min2(m, Len(W))
   \/ /\ \E B \in SUBSET DOMAIN W : Needed(W, B, r) /\ Cardinality(B \cup H) < m
      /\ Heaviest(W, S) /\ Cardinality(S) = Min2(m, Len(W))
Split(W, S, r, t, m) == SplitH(W, S, r, Heavy(W, t), m)
\* when the weight is only known up to rounding, particles exactly at the threshold may go either way
AtThresh(W, t) == {i \in DOMAIN W : W[i] * t[2] = t[1] * Tot(W)}
SplitRounded(W, S, r, t, m) == \E E \in SUBSET AtThresh(W, t) : SplitH(W, S, r, Heavy(W, t) \ E, m)

(* The same by sizes alone, for clouds too large to enumerate subsets of: a set of heaviest particles is known by its size, up to ties.  Mixed.tla checks   *)
(* exhaustively on small clouds that this says the same.                                                                                                    *)
RECURSIVE SumTop(_, _)   \* the weight of the k heaviest, W in descending order
SumTop(D, k) == IF k = 0 THEN 0 ELSE D[k] + SumTop(D, k - 1)
NeededSizes(W, r) == Bind(SortSeq(W, LAMBDA a, b : a > b), LAMBDA D :
    {k \in 0..Len(W) : /\ SumTop(D, k) * r[2] >= r[1] * Tot(W)
                       /\ k > 0 => SumTop(D, k - 1) * r[2] <= r[1] * Tot(W)})
SplitSizes(W, r, heavy, m) == UNION {{IF Max2(k, h) >= Min2(m, Len(W)) THEN Max2(k, h) ELSE Min2(m, Len(W)) : k \in NeededSizes(W, r)} : h \in heavy}
SplitBySize(W, S, r, t, m, exact) == /\ Heaviest(W, S)
    /\ Bind(<<Cardinality(Heavy(W, t)), Cardinality(AtThresh(W, t))>>, LAMBDA n : Cardinality(S) \in SplitSizes(W, r, (n[1] - (IF exact THEN 0 ELSE n[2]))..n[1], m))
Lik(x, S, k, o) == [i \in DOMAIN x |-> IF i \in S THEN GOOD[k][o][x[i]] ELSE APX[k][o][x[i]]]
Bayes(W, x, S, k, o) == Bind(Lik(x, S, k, o), LAMBDA l : [i \in DOMAIN W |-> W[i] * l[i]])

=============================================================================
