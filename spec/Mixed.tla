-------------------------------- MODULE Mixed --------------------------------
EXTENDS MixedOps
CONSTANTS NP
I == 1..NP
-----------------------------------------------------------------------------
(* Design model: all clouds with small weights, all configurations, all    *)
(* admissible splits.                                                      *)
CONSTANTS WMAX, DEPTH
VARIABLES W, x, r, t, m, S, steps
vars == <<W, x, r, t, m, S, steps>>
Ratios == {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<2, 3>>, <<1, 1>>}
Init == /\ W \in {RedSeq(w) : w \in {v \in [I -> 0..WMAX] : \E i \in I : v[i] > 0}}
        /\ x \in {[i \in I |-> ((i + s) % 3) + 1] : s \in 0..2}
        /\ r \in Ratios /\ t \in {<<0, 1>>, <<1, 3>>, <<1, 1>>, <<2, 1>>} /\ m \in 0..(NP + 1)
        /\ S = {} /\ steps = 0
Next == /\ steps < DEPTH
        /\ \E B \in SUBSET I : /\ Split(W, B, r, t, m)
                               /\ \E k \in 1..3 : \E o \in 1..Len(GOOD[k]) :
                                    \E v \in {Bayes(W, x, B, k, o)} : SumSeq(v) > 0 /\ W' = RedSeq(v)
                               /\ S' = B
        /\ steps' = steps + 1 /\ UNCHANGED <<x, r, t, m>>
Spec == Init /\ [][Next]_vars

SplitExists == \E B \in SUBSET I : Split(W, B, r, t, m)
SizesSuffice == \A B \in SUBSET I : /\ Split(W, B, r, t, m) <=> SplitBySize(W, B, r, t, m, TRUE)
                                   /\ SplitRounded(W, B, r, t, m) <=> SplitBySize(W, B, r, t, m, FALSE)
SplitLaws == \A B \in SUBSET I : Split(W, B, r, t, m) =>
    /\ Heaviest(W, B) /\ Heavy(W, t) \subseteq B /\ Cardinality(B) >= Min2(m, NP) /\ Carries(W, B, r)
    /\ (m = 0 /\ t = <<2, 1>> /\ r = <<0, 1>>) => Cardinality({i \in B : W[i] > 0}) <= 1
    /\ r = <<1, 1>> => \A i \in I : W[i] > 0 => i \in B
=============================================================================
