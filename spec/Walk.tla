-------------------------------- MODULE Walk ---------------------------------
(***************************************************************************)
(* Random walks of model parameters (C14).                                  *)
(* A configuration says which coordinates walk (idx), how the covariance is *)
(* given (mode), how experiments scale it and whether the walk happens in   *)
(* transformed coordinates:                                                 *)
(*   rw       RandomWalkModel: every coordinate moves by a drawn step       *)
(*   diag     deviations carried by each particle   dense  Cholesky factor  *)
(*   fixdiag, fixdense   the same for all particles, given at construction  *)
(* The noise is a free symbol per (particle, coordinate, experiment): the   *)
(* specification gives the factor F with   new = old + F z   for each       *)
(* particle and experiment, and which coordinates stay as they are.         *)
(* mag: numbers are powers of 2^60 given by their exponents (None = zero),  *)
(* so that a factor in the wrong place is seen in a single step.            *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS DEPTH, MODES, NP, MAG
VARIABLES c, t, cov, h
vars == <<c, t, cov, h>>
Pick(S) == RandomSubset(1, S)
Moved == 999
None == -9
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Idxs(n) == {s \in UNION {[1..k -> 1..n] : k \in 1..n} : Distinct(s)}
Init == c = <<>> /\ t = <<>> /\ cov = <<>> /\ h = <<>>

\* transformed coordinates of a row
T(x) == IF Len(x) = 1 THEN <<2 * x[1] + 1>>
        ELSE [i \in DOMAIN x |-> IF i = 1 THEN x[1] + x[2] ELSE IF i = 2 THEN x[2] ELSE 2 * x[i] - 1]
NTri(r) == (r * (r + 1)) \div 2
\* entry (i, k) of the lower triangle is number (i(i-1))/2 + k
Tri(v, r) == [i \in 1..r |-> [k \in 1..r |-> IF k <= i THEN v[((i * (i - 1)) \div 2) + k] ELSE 0]]
Diag(v) == [i \in DOMAIN v |-> [k \in DOMAIN v |-> IF i = k THEN v[i] ELSE 0]]
DiagVals == IF MAG THEN {None, -1, 0, 1} ELSE {0, 1, 2, 3}
\* a factor with positive diagonal is the one of a positive definite covariance
Covs(m, r) == CASE m \in {"diag", "fixdiag"} -> [1..r -> DiagVals]
                [] m = "dense" -> [1..NTri(r) -> -2..2]
                [] m = "fixdense" -> {v \in [1..NTri(r) -> -1..2] : \A i \in 1..r : Tri(v, r)[i][i] > 0}
                [] OTHER -> {<<>>}
Learned(m) == m \in {"diag", "dense"}
BaseVals(walking) == IF MAG /\ walking THEN {0} ELSE -3..3

Choose == /\ c = <<>>
  /\ \E n \in Pick(1..NP), m \in Pick(MODES), tr \in Pick({FALSE, TRUE}), sc \in Pick({"none", "field", "call"}), np \in Pick(1..3) :
     \E ix \in Pick(Idxs(n)) : \E form \in Pick(IF ix = [i \in 1..n |-> i] THEN {"all", "list"} ELSE {"list"}) :
     /\ c' = [n |-> n, mode |-> m, tr |-> tr /\ ~MAG /\ m # "rw", scale |-> IF m = "rw" THEN "none" ELSE sc,
              idx |-> IF m = "rw" THEN [i \in 1..n |-> i] ELSE ix, form |-> form]
     /\ \E xs \in {[j \in 1..np |-> [i \in 1..n |-> CHOOSE v \in Pick(BaseVals(\E k \in DOMAIN c'.idx : c'.idx[k] = i)) : TRUE]]} :
        \E v0 \in Pick(Covs(m, Len(c'.idx))) : \E cs \in {[j \in 1..np |-> IF Learned(m) THEN CHOOSE v \in Pick(Covs(m, Len(c'.idx))) : j > 0 ELSE v0]} :
          /\ t' = [j \in 1..np |-> IF c'.tr THEN T(xs[j]) ELSE xs[j]]
          /\ cov' = cs
          /\ h' = <<[op |-> "start", xs |-> xs]>>

R == Len(c.idx)
Factor(j) == IF c.mode = "rw" THEN <<>> ELSE IF c.mode \in {"dense", "fixdense"} THEN Tri(cov[j], R) ELSE Diag(cov[j])
Times(s, j) == [i \in 1..R |-> [k \in 1..R |-> s * Factor(j)[i][k]]]
MTimes(s, j) == [i \in 1..R |-> IF s = None \/ cov[j][i] = None THEN None ELSE s + cov[j][i]]
ScaleVals == IF MAG THEN {None, -1, 0, 1} ELSE {0, 1, 2, 3}
One == IF MAG THEN 0 ELSE 1
Walks(i) == \E k \in DOMAIN c.idx : c.idx[k] = i
\* a time step for several experiments; the walk continues from the result for one of them
Step == \E m \in Pick(1..3) : \E ss \in Pick([1..m -> ScaleVals]), go \in Pick(1..m) :
    LET s == [k \in 1..m |-> IF c.scale = "none" THEN One ELSE ss[k]] IN
    /\ t' = [j \in DOMAIN t |-> [i \in 1..c.n |-> IF Walks(i) THEN Moved ELSE t[j][i]]]
    /\ UNCHANGED <<c, cov>>
    /\ h' = Append(h, [op |-> "step", ss |-> ss, go |-> go, t |-> t',
          F |-> IF c.mode = "rw" THEN <<>>
                ELSE [j \in DOMAIN t |-> [k \in 1..m |-> IF MAG THEN MTimes(s[k], j) ELSE Times(s[k], j)]]])
\* mean over the particles of the covariance of a step of unit scale
RECURSIVE Dot(_, _, _)
Dot(a, b, k) == IF k = 0 THEN 0 ELSE a[k] * b[k] + Dot(a, b, k - 1)
UnitCov == [i \in 1..R |-> [k \in 1..R |-> Red(SumSeq([j \in DOMAIN t |-> Bind(Factor(j), LAMBDA f : Dot(f[i], f[k], R))]), Len(t))]]
Estimate == /\ c.mode # "rw" /\ ~MAG /\ UNCHANGED <<c, t, cov>>
            /\ h' = Append(h, [op |-> "cov", cov |-> UnitCov])
Next == Choose \/ (c # <<>> /\ Len(h) <= DEPTH /\ (Step \/ Estimate))
Spec == Init /\ [][Next]_vars

\* nothing but the walking coordinates ever moves
Stays == c # <<>> => \A j \in DOMAIN t : \A i \in 1..c.n : (t[j][i] = Moved => Walks(i))
Symmetric == (c # <<>> /\ c.mode # "rw" /\ ~MAG) => Bind(UnitCov, LAMBDA u : \A i, k \in 1..R : u[i][k] = u[k][i] /\ u[i][i][1] >= 0)
Emit == Len(h) <= DEPTH \/ PrintT("@@" \o ToJson([c |-> c, cov |-> cov, steps |-> h]))
=============================================================================
