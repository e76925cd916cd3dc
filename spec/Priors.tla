------------------------------- MODULE Priors --------------------------------
(***************************************************************************)
(* Simple priors (C19): shape, support, and the moments that go with each   *)
(* parametrisation.  A case is a distribution with rational parameters; the *)
(* machine goes from one parametrisation to the other and back.             *)
(*   p    [fam, a, b, n]  shape parameters (of those families that have them)*)
(*   m    [mean, var]     the moments, per column                           *)
(***************************************************************************)
EXTENDS Rat, Json
CONSTANTS WIDE
VARIABLES p, m, back, step
vars == <<p, m, back, step>>
H == <<1, 2>>
Sh == IF WIDE THEN {<<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<5, 1>>, <<7, 3>>} ELSE {<<1, 2>>, <<1, 1>>, <<2, 1>>, <<5, 1>>}
Sq(x) == RMul(x, x)
One == <<1, 1>>
Inv(x) == RDiv(One, x)
N0 == <<0, 1>>
C(fam, a, b, n) == [fam |-> fam, a |-> a, b |-> b, n |-> n]
Cases == {C("beta", a, b, 1) : a, b \in Sh} \cup {C("gamma", a, b, 1) : a, b \in Sh} \cup {C("betabinom", a, b, n) : a, b \in Sh, n \in {1, 3, 10}}
    \cup {C("uniform", RInt(a), RInt(b), 1) : a \in {-2, 0, 1}, b \in {-1, 0, 3, 5}} \cup {C("normal", RInt(a), b, 1) : a \in {-1, 0, 4}, b \in Sh}
    \cup {C("discrete", N0, N0, n) : n \in 1..6} \cup {C("const", a, b, 1) : a, b \in Sh} \cup {C("dirichlet", a, b, 3) : a, b \in Sh}
    \cup {C("mvn", a, b, 2) : a, b \in Sh} \cup {C("slanted", RInt(a), b, 1) : a \in {0, 2}, b \in Sh} \cup {C("trunc", a, b, 1) : a, b \in Sh}
    \cup {C("mvuniform", N0, N0, n) : n \in 2..4}
\* <<means, variances>> per column; <<>> where the family has no simple ones
Moments(q) == LET s == RAdd(q.a, q.b)  n == RInt(q.n) IN
    CASE q.fam = "beta" -> << <<RDiv(q.a, s)>>, <<RDiv(RMul(q.a, q.b), RMul(Sq(s), RAdd(s, One)))>> >>
      [] q.fam = "gamma" -> << <<RDiv(q.a, q.b)>>, <<RDiv(q.a, Sq(q.b))>> >>
      [] q.fam = "betabinom" -> << <<RMul(n, RDiv(q.a, s))>>, <<RMul(RMul(n, RDiv(RMul(q.a, q.b), Sq(s))), RDiv(RAdd(s, n), RAdd(s, One)))>> >>
      [] q.fam = "uniform" -> << <<RMul(H, s), RAdd(RMul(H, s), One)>>, <<RDiv(Sq(RSub(q.b, q.a)), RInt(12)), RDiv(Sq(RSub(q.b, q.a)), RInt(12))>> >>
      [] q.fam = "normal" -> << <<q.a>>, <<q.b>> >>
      [] q.fam = "discrete" -> << <<Red(Pow2(q.n) - 1, 2)>>, <<Red(Pow2(q.n) * Pow2(q.n) - 1, 12)>> >>
      [] q.fam = "const" -> << <<q.a, q.b>>, <<N0, N0>> >>
      [] q.fam = "dirichlet" -> \* alpha = (a, b, 1)
           LET t == RAdd(s, One)  v(x) == RDiv(RMul(x, RSub(t, x)), RMul(Sq(t), RAdd(t, One))) IN
           << <<RDiv(q.a, t), RDiv(q.b, t), RDiv(One, t)>>, <<v(q.a), v(q.b), v(One)>> >>
      [] q.fam = "mvn" -> \* mean (a, -b), covariance ((a + b, b), (b, b + 1))
           << <<q.a, RNeg(q.b)>>, <<s, RAdd(q.b, One)>> >>
      [] q.fam = "slanted" -> << <<RAdd(q.a, H)>>, <<RAdd(Red(1, 12), Sq(q.b))>> >>
      [] q.fam = "mvuniform" -> << [j \in 1..q.n |-> Inv(n)], [j \in 1..q.n |-> Red(q.n - 1, q.n * q.n * (q.n + 1))] >>
      [] OTHER -> << <<>>, <<>> >>
\* <<lowest, highest>> of each column (<<1, 0>> is infinity), whether values are integers, and the columns
Support(q) == CASE q.fam \in {"beta", "dirichlet", "mvuniform"} -> <<N0, One>>
      [] q.fam = "gamma" -> <<N0, RInf>>
      [] q.fam = "betabinom" -> <<N0, RInt(q.n)>>
      [] q.fam = "uniform" -> <<q.a, RAdd(q.b, One)>>
      [] q.fam = "discrete" -> <<N0, RInt(Pow2(q.n) - 1)>>
      [] q.fam = "trunc" -> <<RNeg(q.a), q.b>>
      [] OTHER -> <<<<-1, 0>>, RInf>>
Cols(q) == CASE q.fam \in {"uniform", "const", "mvn"} -> 2 [] q.fam \in {"dirichlet", "mvuniform"} -> q.n [] OTHER -> 1
\* from moments back to shapes
Shapes(f, mu, v, n) == CASE f = "beta" -> LET k == RSub(RDiv(RMul(mu, RSub(One, mu)), v), One) IN <<RMul(mu, k), RMul(RSub(One, mu), k)>>
      [] f = "gamma" -> <<RDiv(Sq(mu), v), RDiv(mu, v)>>
      [] f = "betabinom" -> LET pr == RDiv(mu, RInt(n))  base == RMul(RMul(RInt(n), pr), RSub(One, pr))  r == RDiv(v, base)
                                k == RDiv(RSub(RInt(n), r), RSub(r, One)) IN <<RMul(pr, k), RMul(RSub(One, pr), k)>>
      [] OTHER -> <<>>
HasBack == p.fam \in {"beta", "gamma"} \/ (p.fam = "betabinom" /\ p.n > 1)
Init == p \in {q \in Cases : q.fam = "uniform" => RLt(q.a, q.b)} /\ m = <<>> /\ back = <<>> /\ step = 0
Forth == step = 0 /\ m' = Moments(p) /\ step' = 1 /\ UNCHANGED <<p, back>>
Back == step = 1 /\ back' = (IF HasBack THEN Shapes(p.fam, m[1][1], m[2][1], p.n) ELSE <<>>) /\ step' = 2 /\ UNCHANGED <<p, m>>
Spec == Init /\ [][Forth \/ Back]_vars
RoundTrip == (step = 2 /\ HasBack) => back = <<p.a, p.b>>
Positive == step > 0 => \A i \in DOMAIN m[2] : m[2][i][1] >= 0
Inside == step > 0 => \A i \in DOMAIN m[1] : (Support(p)[1][2] > 0 => RLe(Support(p)[1], m[1][i])) /\ RLe(m[1][i], Support(p)[2])
Emit == step < 2 \/ PrintT("@@" \o ToJson([p |-> p, mean |-> m[1], var |-> m[2], lo |-> Support(p)[1], hi |-> Support(p)[2],
    int |-> p.fam \in {"betabinom", "discrete"}, cols |-> Cols(p), back |-> HasBack]))
=============================================================================
