-------------------------------- MODULE Models --------------------------------
(***************************************************************************)
(* The bundled likelihood models on lattices where their documented        *)
(* formulas are rational (C10), and the outcomes that simulating them may   *)
(* return (C11).  Parameter vectors and experiments are integer tuples:     *)
(*  inversion   x=<<a>> (w = a pi/3)          e=<<b,c>> (t=b, w_=c pi/3)    *)
(*  precession  x=<<a>>                       e=<<b>>                       *)
(*  t2          x=<<a,d>> (1/T2 = d ln 2)     e=<<b>>                       *)
(*  coin        x=<<p>>/4                     e=<<>>                        *)
(*  noisycoin   x=<<p>>/4                     e=<<alpha,beta>>/4            *)
(*  ndieK       x=<<p1..pK>>/8                e=<<n>>                       *)
(*  rb          x=<<p/4,A/8,B/8>>             e=<<m>>                       *)
(*  rbi         x=<<ptilde/4,p/4,A/8,B/8>>    e=<<m,reference>>             *)
(*  vary        x=<<p1,p2>>/8                 e=<<number of outcomes>>      *)
(*              (not bundled: a differentiable model of the caller's whose  *)
(*              number of outcomes depends on the experiment)               *)
(*  tomo        x=Bloch vector/5              e=<<c,nx,ny,nz>>/5            *)
(* The model instance's state is its two counters.                         *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS MODEL, DEPTH, OPS

C2 == << <<1,1>>, <<3,4>>, <<1,4>>, <<0,1>>, <<1,4>>, <<3,4>> >>     \* cos^2(k pi/6)
Cos2(k) == C2[(k % 6) + 1]
RECURSIVE RPow(_, _)
RPow(r, n) == IF n = 0 THEN <<1, 1>> ELSE RMul(r, RPow(r, n - 1))
R(n, d) == Red(n, d)
One == <<1, 1>>
NOut == CASE MODEL = "ndie3" -> 3 [] MODEL = "ndie4" -> 4 [] OTHER -> 2
NoOf(e) == IF MODEL = "vary" THEN e[1] ELSE NOut     \* of one experiment; NOut is the least number
Clip01(r) == IF r[1] < 0 THEN <<0, 1>> ELSE IF r[1] > r[2] THEN <<1, 1>> ELSE r

\* probability of outcome 0 (two-outcome models)
P0(x, e) == CASE MODEL = "inversion" -> Cos2(e[1] * (x[1] - e[2]))
            [] MODEL = "precession" -> Cos2(e[1] * x[1])
            [] MODEL = "t2" -> Bind(<<1, Pow2(e[1] * x[2])>>, LAMBDA v :
                                RAdd(RMul(v, Cos2(e[1] * x[1])), RMul(RSub(One, v), <<1, 2>>)))
            [] MODEL = "coin" -> R(x[1], 4)
            [] MODEL = "noisycoin" -> R(x[1] * e[1] + (4 - x[1]) * e[2], 16)
            [] MODEL = "rb" -> RSub(One, RAdd(RMul(R(x[2], 8), RPow(R(x[1], 4), e[1])), R(x[3], 8)))
            [] MODEL = "rbi" -> RSub(One, RAdd(RMul(R(x[3], 8), RPow(IF e[2] = 1 THEN R(x[2], 4) ELSE R(x[1] * x[2], 16), e[1])), R(x[4], 8)))
            [] MODEL = "tomo" -> RSub(One, Clip01(R(5 * e[1] + e[2] * x[1] + e[3] * x[2] + e[4] * x[3], 50)))
PVary(o, x, n) == IF o = 0 THEN R(x[1], 8) ELSE IF n = 2 THEN R(8 - x[1], 8)
                  ELSE IF o = 1 THEN R(x[2], 8) ELSE R(8 - x[1] - x[2], 8 * (n - 2))
Prob(o, x, e) == IF MODEL = "vary" THEN PVary(o, x, e[1]) ELSE IF MODEL \in {"ndie3", "ndie4"} THEN R(x[o + 1], 8)
                 ELSE IF o = 0 THEN P0(x, e) ELSE RSub(One, P0(x, e))

ValidX(x) == CASE MODEL \in {"inversion", "precession"} -> x[1] > 0
             [] MODEL = "t2" -> x[1] >= 0 /\ x[2] >= 0
             [] MODEL \in {"coin", "noisycoin"} -> 0 <= x[1] /\ x[1] <= 4
             [] MODEL \in {"ndie3", "ndie4"} -> SumSeq(x) = 8 /\ \A i \in DOMAIN x : 0 <= x[i]
             [] MODEL = "rb" -> /\ 0 <= x[1] /\ x[1] <= 4 /\ 0 <= x[2] /\ x[2] <= 8 /\ 0 <= x[3] /\ x[3] <= 8 /\ x[2] + x[3] <= 8
             [] MODEL = "rbi" -> /\ 0 <= x[1] /\ x[1] <= 4 /\ 0 <= x[2] /\ x[2] <= 4 /\ 0 <= x[3] /\ x[3] <= 8
                                 /\ 0 <= x[4] /\ x[4] <= 8 /\ x[3] + x[4] <= 8
             [] MODEL = "vary" -> x[1] + x[2] <= 8 /\ x[1] >= 0 /\ x[2] >= 0
             [] MODEL = "tomo" -> TRUE
\* candidate parameter vectors, valid or not
XAny == CASE MODEL \in {"inversion", "precession"} -> {<<a>> : a \in -2..9}
        [] MODEL = "t2" -> (-1..7) \X (-1..2)
        [] MODEL \in {"coin", "noisycoin"} -> {<<a>> : a \in -1..5}
        [] MODEL = "ndie3" -> {<<a, b, c>> \in (-1..8) \X (-1..8) \X (-1..8) : a + b + c \in 7..9}
        [] MODEL = "ndie4" -> {<<a, b, c, d>> \in (-1..8) \X (0..8) \X (-1..4) \X (0..4) : a + b + c + d \in 7..9}
        [] MODEL = "rb" -> (-1..5) \X (-1..9) \X (-1..9)
        [] MODEL = "rbi" -> (-1..5) \X (-1..5) \X {0, 1, 3, 5, 8, 9, -1} \X {0, 1, 3, 4, -1, 9}
        [] MODEL = "vary" -> (-1..8) \X (-1..8)
        [] MODEL = "tomo" -> {<<a, b, c>> \in (-5..5) \X (-5..5) \X (-5..5) : a * a + b * b + c * c <= 25}
X == {x \in XAny : ValidX(x)}
E == CASE MODEL = "inversion" -> (0..5) \X (-2..4)
     [] MODEL = "precession" -> {<<b>> : b \in 0..9}
     [] MODEL = "t2" -> {<<b>> : b \in 0..4}
     [] MODEL = "coin" -> {<<>>}
     [] MODEL = "noisycoin" -> (0..4) \X (0..4)
     [] MODEL \in {"ndie3", "ndie4"} -> {<<b>> : b \in 0..2}
     [] MODEL = "rb" -> {<<m>> : m \in 0..5}
     [] MODEL = "rbi" -> (0..4) \X (0..1)
     [] MODEL = "vary" -> {<<n>> : n \in 2..5}
     [] MODEL = "tomo" -> {5} \X {-5, -4, -3, 0, 3, 4, 5} \X {-5, -4, -3, 0, 3, 4, 5} \X {-5, 0, 5, -3, 4}

\* score: derivatives of log Prob for each parameter (only where Prob > 0)
Sgn(o) == IF o = 1 THEN 1 ELSE -1
Dp(p, n) == IF n = 0 THEN <<0, 1>> ELSE RMul(<<n, 1>>, RPow(p, n - 1))
Sc6 == << <<0,1>>, <<1,4>>, <<1,4>>, <<0,1>>, <<-1,4>>, <<-1,4>> >>     \* sin cos (k pi/6), over the root of 3
Sc(k) == Sc6[(k % 6) + 1]
Surd == IF MODEL \in {"inversion", "precession"} THEN 3 ELSE 1     \* derivatives and scores are given over the root of Surd
Deriv(x, e) == \* of the probability of outcome 1
    CASE MODEL = "coin" -> << <<-1, 1>> >>
    [] MODEL = "noisycoin" -> << R(e[2] - e[1], 4) >>
    [] MODEL = "inversion" -> << RMul(<<e[1], 1>>, Sc(e[1] * (x[1] - e[2]))) >>
    [] MODEL = "precession" -> << RMul(<<e[1], 1>>, Sc(e[1] * x[1])) >>
    [] MODEL = "rb" -> << RMul(R(x[2], 8), Dp(R(x[1], 4), e[1])), RPow(R(x[1], 4), e[1]), One >>
    [] MODEL = "rbi" -> Bind(<<R(x[1], 4), R(x[2], 4)>>, LAMBDA p :
         << IF e[2] = 1 THEN <<0, 1>> ELSE RMul(R(x[3], 8), RMul(Dp(p[1], e[1]), RPow(p[2], e[1]))),
            RMul(R(x[3], 8), IF e[2] = 1 THEN Dp(p[2], e[1]) ELSE RMul(Dp(p[2], e[1]), RPow(p[1], e[1]))),
            RPow(IF e[2] = 1 THEN p[2] ELSE RMul(p[1], p[2]), e[1]), One >>)
\* derivative of log PVary
SVary(o, x, n) == IF o = 0 THEN << R(8, x[1]), <<0, 1>> >> ELSE IF n = 2 THEN << R(-8, 8 - x[1]), <<0, 1>> >>
                  ELSE IF o = 1 THEN << <<0, 1>>, R(8, x[2]) >> ELSE << R(-8, 8 - x[1] - x[2]), R(-8, 8 - x[1] - x[2]) >>
FVary(x, n) == IF n = 2 THEN << << RAdd(R(8, x[1]), R(8, 8 - x[1])), <<0, 1>> >>, << <<0, 1>>, <<0, 1>> >> >>
               ELSE Bind(R(8, 8 - x[1] - x[2]), LAMBDA r : << << RAdd(R(8, x[1]), r), r >>, << r, RAdd(R(8, x[2]), r) >> >>)
Score(o, x, e) == IF MODEL = "vary" THEN SVary(o, x, e[1]) ELSE IF MODEL \in {"ndie3", "ndie4"} THEN [i \in DOMAIN x |-> IF i = o + 1 THEN R(8, x[i]) ELSE <<0, 1>>] ELSE Bind(Deriv(x, e), LAMBDA d : Bind(Prob(o, x, e), LAMBDA p : [i \in DOMAIN d |-> RDiv(RMul(<<Sgn(o), 1>>, d[i]), p)]))
\* score arithmetic is kept within TLC's 32-bit integers
Low(e) == MODEL \in {"rb", "rbi"} => e[1] <= IF MODEL = "rb" THEN 3 ELSE 2
VeryLow(e) == MODEL \in {"rb", "rbi"} => e[1] <= 1
ScoreE == {e \in E : Low(e)}
HasScore == MODEL # "t2" /\ MODEL # "tomo"
Interior(x, e) == \A o \in 0..(NoOf(e) - 1) : Prob(o, x, e)[1] > 0
Fisher(x, e) == IF MODEL = "vary" THEN FVary(x, e[1]) ELSE IF MODEL = "inversion" \/ MODEL = "precession" THEN << << <<e[1] * e[1], 1>> >> >>
                ELSE Bind(Deriv(x, e), LAMBDA d : Bind(RMul(Prob(0, x, e), Prob(1, x, e)), LAMBDA pq :
                        [i \in DOMAIN d |-> [j \in DOMAIN d |-> RDiv(RMul(d[i], d[j]), pq)]]))
HasFisher == MODEL \in {"coin", "noisycoin", "rb", "rbi", "inversion", "precession", "vary"}

-----------------------------------------------------------------------------
VARIABLES calls, sims, h
vars == <<calls, sims, h>>
Init == calls = 0 /\ sims = 0 /\ h = <<>>
Rec(r) == h' = Append(h, r)
Seqs(S, lo, hi) == UNION {[1..n -> RandomSubset(Min2(5, Cardinality(S)), S)] : n \in lo..hi}
Pick1(S) == RandomSubset(1, S)
Table(os, xs, es) == [i \in DOMAIN os |-> [j \in DOMAIN xs |-> [k \in DOMAIN es |-> Prob(os[i], xs[j], es[k])]]]
Likelihood == /\ "lik" \in OPS
              /\ \E os \in Pick1(Seqs(0..(NOut - 1), 1, 4)), xs \in Pick1(Seqs(X, 1, 4)), es \in Pick1(Seqs(E, 1, 4)) :
                 /\ calls' = calls + Len(os) * Len(xs) * Len(es) /\ UNCHANGED sims
                 /\ Rec([op |-> "lik", os |-> os, xs |-> xs, es |-> es, p |-> Table(os, xs, es)])
Validity == /\ "lik" \in OPS
            /\ \E xs \in Pick1(Seqs(XAny, 1, 5)) : /\ UNCHANGED <<calls, sims>>
                 /\ Rec([op |-> "valid", xs |-> xs, v |-> [j \in DOMAIN xs |-> ValidX(xs[j])]])
Outcomes == /\ "lik" \in OPS
            /\ \E es \in Pick1(Seqs(E, 1, 3)) : UNCHANGED <<calls, sims>> /\ Rec([op |-> "nout", es |-> es, n |-> [k \in DOMAIN es |-> NoOf(es[k])]])
Scores == /\ "score" \in OPS /\ HasScore
          /\ \E os \in Pick1(Seqs(0..(NOut - 1), 1, 3)), xs \in Pick1(Seqs(X, 1, 3)), es \in Pick1(Seqs(ScoreE, 1, 3)) :
              /\ \A j \in DOMAIN xs, k \in DOMAIN es : Interior(xs[j], es[k])
              /\ UNCHANGED <<calls, sims>>
              /\ Rec([op |-> "score", os |-> os, xs |-> xs, es |-> es,
                      s |-> [i \in DOMAIN os |-> [j \in DOMAIN xs |-> [k \in DOMAIN es |-> Score(os[i], xs[j], es[k])]]]])
FisherInfo == /\ "score" \in OPS /\ HasFisher
          /\ \E xs \in Pick1(Seqs(X, 1, 3)), es \in Pick1(Seqs(ScoreE, 1, 3)) :
              /\ \A j \in DOMAIN xs, k \in DOMAIN es : Interior(xs[j], es[k])
              /\ UNCHANGED <<calls, sims>>
              /\ Rec([op |-> "fisher", xs |-> xs, es |-> es, f |-> [j \in DOMAIN xs |-> [k \in DOMAIN es |-> Fisher(xs[j], es[k])]]])
Simulate == /\ "sim" \in OPS
            /\ \E xs \in Pick1(Seqs(X, 1, 4)), es \in Pick1(Seqs(E, 1, 3)), r \in Pick1({1, 1, 2, 3, 5}) :
                /\ sims' = sims + r * Len(xs) * Len(es) /\ UNCHANGED calls
                /\ Rec([op |-> "sim", xs |-> xs, es |-> es, repeat |-> r,
                        p |-> Table([o \in 1..NOut |-> o - 1], xs, es)])
\* what a model says about itself: names, distances (the 1-norm of Q (a - b)), costs, and parameters that stay as they are
NPar == CASE MODEL \in {"inversion", "precession", "coin", "noisycoin"} -> 1 [] MODEL \in {"t2", "vary"} -> 2
        [] MODEL \in {"ndie3", "rb"} -> 3 [] OTHER -> 4
Scales == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 4>>, <<5, 1>>}
Describe == /\ "lik" \in OPS
            /\ \E n \in Pick1(1..4) : \E xs \in Pick1([1..n -> RandomSubset(Min2(5, Cardinality(XAny)), XAny)]), ys \in Pick1([1..n -> RandomSubset(Min2(6, Cardinality(XAny)), XAny)]),
                  qs \in Pick1([1..NPar -> Scales]), es \in Pick1(Seqs(E, 1, 3)) :
                 /\ UNCHANGED <<calls, sims>>
                 /\ Rec([op |-> "describe", xs |-> xs, ys |-> ys, es |-> es, q |-> qs, npar |-> NPar,
                         d |-> [j \in 1..n |-> [i \in DOMAIN xs[j] |-> RMul(qs[i + (NPar - Len(xs[j]))], <<Abs(xs[j][i] - ys[j][i]), 1>>)]]])
\* fidelity and depolarising rate of a gate on d levels
RateOf(f, d) == RDiv(RSub(RMul(<<d, 1>>, f), One), <<d - 1, 1>>)
FidOf(p, d) == RSub(One, RMul(RSub(One, p), R(d - 1, d)))
Rates == /\ "lik" \in OPS /\ MODEL \in {"rb", "rbi"}
         /\ \E d \in Pick1({2, 2, 3, 4, 8}), k \in Pick1(0..8) : UNCHANGED <<calls, sims>>
              /\ Rec([op |-> "rates", dim |-> d, x |-> R(k, 8), p |-> RateOf(R(k, 8), d), f |-> FidOf(R(k, 8), d)])
RatesInvert == h = <<>> => \A d \in {2, 3, 4, 8}, k \in 0..8 : FidOf(RateOf(R(k, 8), d), d) = R(k, 8) /\ RateOf(FidOf(R(k, 8), d), d) = R(k, 8)
Next == Len(h) < DEPTH /\ (Describe \/ Rates \/ Likelihood \/ Validity \/ Outcomes \/ Scores \/ FisherInfo \/ Simulate)
Spec == Init /\ [][Next]_vars

\* every model is a probability distribution on its whole lattice
Distribution(xs) == \A x \in xs, e \in E :
    /\ \A o \in 0..(NoOf(e) - 1) : Bind(Prob(o, x, e), LAMBDA p : 0 <= p[1] /\ p[1] <= p[2])
    /\ RSumSeq([o \in 1..NoOf(e) |-> Prob(o - 1, x, e)]) = One
SampledDistribution == h = <<>> => Distribution(RandomSubset(Min2(60, Cardinality(X)), X))
\* the Fisher information is the outcome average of the outer product of scores
ScoresMatchFisher == (h = <<>> /\ HasFisher) => \A x \in RandomSubset(Min2(12, Cardinality(X)), X), e \in {f \in E : VeryLow(f)} : Interior(x, e) =>
    Bind(Fisher(x, e), LAMBDA f : \A i, j \in DOMAIN f :
      f[i][j] = RSumSeq([o \in 1..NoOf(e) |-> RMul(<<Surd, 1>>, RMul(Prob(o - 1, x, e), RMul(Score(o - 1, x, e)[i], Score(o - 1, x, e)[j])))]))
Emit == Len(h) < DEPTH \/ PrintT("@@" \o ToJson([model |-> MODEL, surd |-> Surd, steps |-> h, calls |-> calls, sims |-> sims]))
=============================================================================
