-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The laws simple priors draw from (C25).  A case is a prior with rational *)
(* parameters; the machine tabulates its law as statistics of a row:        *)
(*   s    <<statistic, ...>>, each                                          *)
(*          kind   "lin" (coef . (row - off)), "ratio" (x1/(x1+x2)),        *)
(*                 "log" (log of coef . (row - off)), "int" (the value)     *)
(*          cuts   increasing rationals                                     *)
(*          cdf    P(statistic <= cut), exact, or to 10^-6 from the tables  *)
(*   ind  the pairs of statistics that are independent of each other        *)
(* Rows are independent of each other, whichever call they came from.       *)
(***************************************************************************)
EXTENDS Rat, Json
CONSTANTS WIDE
VARIABLES q, law, step
vars == <<q, law, step>>
One == <<1, 1>>
Zero == <<0, 1>>
Half == <<1, 2>>
M == 1000000
RDot(a, b) == RSumSeq([i \in 1..Len(a) |-> RMul(a[i], b[i])])
\* ------------------------------------------------------------------ tables
\* the standard normal distribution function and density at k/4, k = 0..20, and exp(-k/4), k = 0..60, in units of 10^-6
PhiT == << 500000, 598706, 691462, 773373, 841345, 894350, 933193, 959941, 977250, 987776, 993790, 997020, 998650, 999423, 999767, 999912, 999968,
            999989, 999997, 999999, 1000000 >>
DenT == << 398942, 386668, 352065, 301137, 241971, 182649, 129518, 86277, 53991, 31740, 17528, 9094, 4432, 2029, 873, 353, 134, 48, 16, 5, 1 >>
ExpT == << 1000000, 778801, 606531, 472367, 367879, 286505, 223130, 173774, 135335, 105399, 82085, 63928, 49787, 38774, 30197, 23518, 18316, 14264,
            11109, 8652, 6738, 5248, 4087, 3183, 2479, 1930, 1503, 1171, 912, 710, 553, 431, 335, 261, 203, 158, 123, 96, 75, 58, 45, 35, 28, 21, 17,
            13, 10, 8, 6, 5, 4, 3, 2, 2, 1, 1, 1, 1, 1, 0, 0 >>
Phi4(k) == IF k < -20 THEN 0 ELSE IF k > 20 THEN M ELSE IF k < 0 THEN M - PhiT[1 - k] ELSE PhiT[k + 1]
Den4(k) == IF Abs(k) > 20 THEN 0 ELSE DenT[Abs(k) + 1]
\* the antiderivative of the normal distribution function at k/4
Anti(k) == (k * Phi4(k)) \div 4 + Den4(k)
\* -------------------------------------------------------- exact distribution functions
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE RPow(_, _)
RPow(x, k) == IF k = 0 THEN One ELSE RMul(x, RPow(x, k - 1))
BetaCdf(a, b, x) == LET n == a + b - 1 IN
    RSumSeq([j \in 1..b |-> RMul(RInt(Binom(n, a + j - 1)), RMul(RPow(x, a + j - 1), RPow(RSub(One, x), n - (a + j - 1))))])
RECURSIVE Rise(_, _)
Rise(a, k) == IF k = 0 THEN 1 ELSE Rise(a, k - 1) * (a + k - 1)
\* the beta-binomial law for whole-numbered shapes
BBPmf(n, a, b, k) == RMul(RInt(Binom(n, k)), RDiv(RMul(RInt(Rise(a, k)), RInt(Rise(b, n - k))), RInt(Rise(a + b, n))))
\* the gamma law with whole-numbered shape at k/4 rate units, to about 10^-5
GammaCdf(a, k) == LET x == <<k, 4>>
                      t[i \in 0..a - 1] == IF i = 0 THEN ExpT[k + 1] ELSE (t[i - 1] * k) \div (4 * i) IN
    Red(M - FoldLeft(LAMBDA u, v : u + v, 0, [i \in 1..a |-> t[i - 1]]), M)
\* ------------------------------------------------------------------- the laws
St(kind, coef, off, cuts, cdf) == [kind |-> kind, coef |-> coef, off |-> off, cuts |-> cuts, cdf |-> cdf]
Quarter == << <<1, 4>>, <<1, 2>>, <<3, 4>> >>
Fifths == << <<1, 5>>, <<2, 5>>, <<1, 2>>, <<4, 5>> >>
BetaSt(kind, coef, off, a, b) == St(kind, coef, off, Quarter, [i \in 1..3 |-> BetaCdf(a, b, Quarter[i])])
NormCuts == << -6, -4, -2, 0, 1, 3, 5 >>
\* sc is the scale: coef . (row - off) / sc would be standard normal
NormSt(kind, coef, off, sc) == St(kind, coef, off, [i \in 1..7 |-> RMul(sc, <<NormCuts[i], 4>>)], [i \in 1..7 |-> Red(Phi4(NormCuts[i]), M)])
UnitSt(coef, off) == St("lin", coef, off, Fifths, Fifths)
E1 == << One >>
E(n, j) == [i \in 1..n |-> IF i = j THEN One ELSE Zero]
C(f, a, b, n) == [fam |-> f, a |-> a, b |-> b, n |-> n]
Sh == IF WIDE THEN 1..5 ELSE 1..3
Sc == IF WIDE THEN {<<1, 2>>, <<1, 1>>, <<3, 1>>, <<7, 4>>} ELSE {<<1, 2>>, <<3, 1>>}
Lo == {<<-2, 1>>, <<0, 1>>, <<5, 2>>}
Cases ==
    {C("beta", RInt(a), RInt(b), 1) : a, b \in Sh} \cup {C("gamma", RInt(a), b, 1) : a \in Sh, b \in Sc} \cup {C("betabinom", RInt(a), RInt(b), n) : a, b \in Sh, n \in {1, 2, 5}}
    \cup {C("uniform", a, b, 1) : a \in Lo, b \in Sc} \cup {C("normal", a, b, 1) : a \in Lo, b \in Sc} \cup {C("trunc", a, b, n) : a \in Lo, b \in Sc, n \in 1..3}
    \cup {C("discrete", Zero, Zero, n) : n \in 1..4} \cup {C("dirichlet", RInt(a), RInt(b), n) : a, b \in Sh, n \in 1..2} \cup {C("mvuniform", Zero, Zero, n) : n \in {2, 3, 4, 6}}
    \cup {C("mvn", a, b, n) : a \in {<<1, 1>>, <<2, 1>>}, b \in {<<-1, 2>>, <<1, 1>>, <<2, 1>>}, n \in 1..2} \cup {C("slanted", a, b, 1) : a \in Lo, b \in {<<1, 4>>, <<1, 2>>, <<1, 1>>}} \cup {C("lognormal", a, b, 1) : a \in Lo, b \in Sc \cup {One}}
    \cup {C("haar", Zero, Zero, 1)} \cup {C("hs", Zero, Zero, n) : n \in {2, 4}} \cup {C("ginibre", Zero, Zero, k) : k \in 1..(IF WIDE THEN 5 ELSE 3)}
    \cup {C("normtable", a, b, 1) : a \in Lo, b \in Sc} \cup {C("tent", a, b, 1) : a \in {<<0, 1>>}, b \in Sc}
\* mvn: the lower triangular root of the covariance and its inverse
Root(c) == << <<c.a, Zero>>, <<c.b, RInt(c.n)>> >>
Cov(c) == LET r == Root(c) IN [i \in 1..2 |-> [j \in 1..2 |-> RDot(r[i], r[j])]]
Unmix(c) == << <<RDiv(One, c.a), Zero>>, <<RNeg(RDiv(c.b, RMul(c.a, RInt(c.n)))), Red(1, c.n)>> >>
\* truncation at the mean plus and minus n quarters of a deviation, on unequal sides
TLow(c) == -(c.n + 1)
THigh(c) == 2 * c.n + 1
Trunc(c) == LET w == Phi4(THigh(c)) - Phi4(TLow(c)) IN
    St("lin", E1, <<c.a>>, [i \in 1..(THigh(c) - TLow(c) + 1) |-> RMul(c.b, <<TLow(c) + i - 1, 4>>)],
       [i \in 1..(THigh(c) - TLow(c) + 1) |-> Red((Phi4(TLow(c) + i - 1) - Phi4(TLow(c))), w)])
\* uniform on [a, a + 1] plus noise of deviation b: b of the antiderivative; cuts at the ends and in between
SlCuts == <<-2, -1, 0, 2, 3, 4, 5>>                     \* quarters of a deviation from the lower end ...
Slanted(c) == LET inv == RDiv(One, c.b)                \* one in deviations
                  k4 == RMul(RInt(4), inv) IN          \* in quarters of them
    St("lin", E1, <<c.a>>, [i \in 1..7 |-> RMul(c.b, <<SlCuts[i], 4>>)],
       [i \in 1..7 |-> RMul(c.b, Red(Anti(SlCuts[i]) - (IF k4[2] = 1 THEN Anti(SlCuts[i] - k4[1]) ELSE 0), M))])
\* the density 1 - |x| on [-1, 1]
TentCdf(x) == IF x[1] <= 0 THEN RMul(Half, RPow(RAdd(One, x), 2)) ELSE RSub(One, RMul(Half, RPow(RSub(One, x), 2)))
DirTotal(c) == c.a[1] + c.b[1] + c.n
Law(c) ==
    CASE c.fam = "beta" -> [s |-> << BetaSt("lin", E1, <<Zero>>, c.a[1], c.b[1]) >>, ind |-> {}]
      [] c.fam = "gamma" -> \* b is the rate
           [s |-> << St("lin", <<c.b>>, <<Zero>>, [i \in 1..6 |-> <<2 * i, 4>>], [i \in 1..6 |-> GammaCdf(c.a[1], 2 * i)]) >>, ind |-> {}]
      [] c.fam = "betabinom" ->
           [s |-> << St("int", E1, <<Zero>>, [k \in 1..c.n |-> RInt(k - 1)],
                        [k \in 1..c.n |-> RSumSeq([j \in 1..k |-> BBPmf(c.n, c.a[1], c.b[1], j - 1)])]) >>, ind |-> {}]
      [] c.fam = "discrete" ->
           [s |-> << St("int", E1, <<Zero>>, [k \in 1..(Pow2(c.n) - 1) |-> RInt(k - 1)], [k \in 1..(Pow2(c.n) - 1) |-> Red(k, Pow2(c.n))]) >>, ind |-> {}]
      [] c.fam = "uniform" -> \* [a, a + b] and [-b, 0] and [0, 1]
           [s |-> << UnitSt(<<RDiv(One, c.b), Zero, Zero>>, <<c.a, Zero, Zero>>), UnitSt(<<Zero, RDiv(One, c.b), Zero>>, <<Zero, RNeg(c.b), Zero>>), UnitSt(E(3, 3), <<Zero, Zero, Zero>>) >>,
            ind |-> {<<1, 2>>, <<1, 3>>, <<2, 3>>}]
      [] c.fam = "normal" -> [s |-> << NormSt("lin", E1, <<c.a>>, c.b) >>, ind |-> {}]
      [] c.fam = "normtable" -> [s |-> << NormSt("lin", E1, <<c.a>>, c.b) >>, ind |-> {}]
      [] c.fam = "tent" -> LET cuts == << <<-1, 2>>, <<-1, 4>>, <<0, 1>>, <<1, 4>>, <<2, 3>> >> IN
           [s |-> << St("lin", <<RDiv(One, c.b)>>, <<Zero>>, cuts, [i \in 1..5 |-> TentCdf(cuts[i])]) >>, ind |-> {}]
      [] c.fam = "lognormal" -> [s |-> << NormSt("log", <<RDiv(One, c.b)>>, <<c.a>>, One) >>, ind |-> {}]
      [] c.fam = "trunc" -> [s |-> << Trunc(c) >>, ind |-> {}]
      [] c.fam = "slanted" -> [s |-> << Slanted(c) >>, ind |-> {}]
      [] c.fam = "mvn" -> [s |-> << NormSt("lin", Unmix(c)[1], <<c.a, c.b>>, One), NormSt("lin", Unmix(c)[2], <<c.a, c.b>>, One) >>, ind |-> {<<1, 2>>}]
      [] c.fam = "dirichlet" -> \* alpha = (a, b, n)
           [s |-> << BetaSt("ratio", E(3, 1), [i \in 1..3 |-> Zero], c.a[1], c.b[1]),
                     BetaSt("lin", <<One, One, Zero>>, [i \in 1..3 |-> Zero], c.a[1] + c.b[1], c.n),
                     BetaSt("lin", E(3, 2), [i \in 1..3 |-> Zero], c.b[1], c.a[1] + c.n) >>, ind |-> {<<1, 2>>}]
      [] c.fam = "mvuniform" ->
           [s |-> << BetaSt("ratio", E(c.n, 1), [i \in 1..c.n |-> Zero], 1, 1) >>
                  \o [j \in 1..c.n |-> BetaSt("lin", E(c.n, j), [i \in 1..c.n |-> Zero], 1, c.n - 1)], ind |-> {}]
      [] c.fam \in {"haar", "ginibre"} -> \* half of one plus any coordinate of the Bloch vector is Beta(k, k)
           LET k == IF c.fam = "haar" THEN 1 ELSE c.n
               d == << <<Half, Zero, Zero>>, <<Zero, Half, Zero>>, <<Zero, Zero, Half>>, <<<<3, 10>>, <<2, 5>>, Zero>>, <<Zero, <<-2, 5>>, <<3, 10>>>> >> IN
           [s |-> [j \in 1..5 |-> St("lin", d[j], [i \in 1..3 |-> Zero], << <<-1, 4>>, <<0, 1>>, <<1, 4>>, <<2, 5>> >>, [i \in 1..4 |-> BetaCdf(k, k, << <<1, 4>>, <<1, 2>>, <<3, 4>>, <<9, 10>> >>[i])])], ind |-> {}]
      [] c.fam = "hs" -> \* the share of half of the levels of an n by n Ginibre matrix is Beta(n n / 2, n n / 2)
           LET h == (c.n * c.n) \div 2  D == c.n * c.n - 1 IN
           [s |-> [j \in 1..D |-> St("lin", [i \in 1..D |-> IF i = j THEN Half ELSE Zero], [i \in 1..D |-> Zero], << <<-1, 4>>, <<0, 1>>, <<1, 4>> >>, [i \in 1..3 |-> BetaCdf(h, h, Quarter[i])])], ind |-> {}]
\* ---------------------------------------------------- gradients of the log density
Points(c) == IF c.fam = "trunc" THEN << <<c.a>>, <<RAdd(c.a, RMul(c.b, <<1, 8>>))>>, <<RSub(c.a, RMul(c.b, <<1, 8>>))>> >> ELSE << << <<1, 2>>, <<-3, 1>> >>, << Zero, Zero >>, << <<7, 4>>, <<5, 2>> >> >>
Det(c) == RSub(RMul(Cov(c)[1][1], Cov(c)[2][2]), RMul(Cov(c)[1][2], Cov(c)[2][1]))
Inv(c) == LET v == Cov(c)  d == Det(c) IN << <<RDiv(v[2][2], d), RNeg(RDiv(v[1][2], d))>>, <<RNeg(RDiv(v[2][1], d)), RDiv(v[1][1], d)>> >>
Grad(c) == CASE c.fam \in {"normal", "trunc"} -> [i \in 1..3 |-> << RNeg(RDiv(RSub(Points(c)[i][1], c.a), RMul(c.b, c.b))) >>]
             [] c.fam = "mvn" -> [i \in 1..3 |-> LET d == <<RSub(Points(c)[i][1], c.a), RSub(Points(c)[i][2], c.b)>> IN << RNeg(RDot(Inv(c)[1], d)), RNeg(RDot(Inv(c)[2], d)) >>]
             [] OTHER -> <<>>
Init == q \in Cases /\ law = [s |-> <<>>, ind |-> {}] /\ step = 0
Tabulate == step = 0 /\ law' = Law(q) /\ step' = 1 /\ UNCHANGED q
Spec == Init /\ [][Tabulate]_vars
\* ------------------------------------------------------------------ properties
Rising == \A k \in DOMAIN law.s : LET t == law.s[k] IN
    /\ Len(t.cdf) = Len(t.cuts)
    /\ \A i \in DOMAIN t.cdf : RLe(Zero, t.cdf[i]) /\ RLe(t.cdf[i], One)
    /\ \A i \in 1..(Len(t.cdf) - 1) : RLt(t.cuts[i], t.cuts[i + 1]) /\ RLe(t.cdf[i], t.cdf[i + 1])
\* exchanging the shapes of a beta law mirrors it
Mirror == q.fam = "beta" => \A i \in 1..3 : REq(RAdd(BetaCdf(q.a[1], q.b[1], Quarter[i]), BetaCdf(q.b[1], q.a[1], RSub(One, Quarter[i]))), One)
\* one shot of a beta-binomial has the mean of the beta; all counts together have probability one
Counts1 == q.fam = "betabinom" => /\ REq(RSumSeq([k \in 1..(q.n + 1) |-> BBPmf(q.n, q.a[1], q.b[1], k - 1)]), One)
                                 /\ REq(RSumSeq([k \in 1..(q.n + 1) |-> RMul(RInt(k - 1), BBPmf(q.n, q.a[1], q.b[1], k - 1))]), RMul(RInt(q.n), RDiv(q.a, RAdd(q.a, q.b))))
\* the statistics of the multivariate normal are uncorrelated, with unit variance; its covariance is undone by the inverse
White == q.fam = "mvn" => \A i, j \in 1..2 : /\ REq(RDot(Unmix(q)[i], [k \in 1..2 |-> RDot(Cov(q)[k], Unmix(q)[j])]), IF i = j THEN One ELSE Zero)
                                            /\ REq(RDot(Inv(q)[i], [k \in 1..2 |-> Cov(q)[k][j]]), IF i = j THEN One ELSE Zero)
\* the noise of a slanted normal moves no probability across the middle
Middle == (q.fam = "slanted" /\ step = 1) => LET k == RDiv(RInt(2), q.b)[1]  f == RMul(q.b, Red(Anti(k) - Anti(-k), M)) IN
    Abs(2 * f[1] - f[2]) <= 1 + f[2] \div 1000
Emit == step = 0 \/ PrintT("@@" \o ToJson([c |-> q, s |-> law.s, ind |-> law.ind, cov |-> IF q.fam = "mvn" THEN Cov(q) ELSE <<>>,
    lo |-> IF q.fam = "trunc" THEN <<TLow(q), THigh(q)>> ELSE <<>>, grad |-> Grad(q), points |-> Points(q)]))
=============================================================================
