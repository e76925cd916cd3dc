-------------------------------- MODULE Decor --------------------------------
(***************************************************************************)
(* Stacks of model decorators over a two-outcome base model (C13).          *)
(* base: parameters <<a, b>>, experiments e in 0..2;                        *)
(*   Pr(1) = 1/2, a/4, (4-a)/4 for e = 0, 1, 2; valid iff 0 <= a <= 4;      *)
(*   canonical form <<a, |b|>>; time step <<a + e, b - e>>; cost 2e+1;      *)
(*   Q = <<3, 2>>.                                                          *)
(* layers, innermost first:                                                 *)
(*   plain     changes nothing           poison  noise of strength zero     *)
(*   mle       squares likelihoods (raises to the power pw when outermost)  *)
(*   walk      adds i to column i       grwdense  3 extra (zero) entries    *)
(*   hyper     4 extra columns           grw     2 extra (zero) deviations  *)
(*   grwfix    fixed zero covariance     binom, multi  n shots              *)
(*   par       parallel (below its serial threshold)                        *)
(* State: the stack, and the outermost layer's two counters.                *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS DEPTH, LAYERS, NLMAX
VARIABLES st, pw, calls, sims, h
vars == <<st, pw, calls, sims, h>>
Pick(S) == RandomSubset(1, S)

Has(s, k) == \E i \in DOMAIN s : s[i] = k
Count(s, k) == Cardinality({i \in DOMAIN s : s[i] = k})
IsCount(k) == k \in {"binom", "multi"}
\* sensible stacks: one of hyper / binom / multi, at most two squarings
Stacks == {s \in UNION {[1..n -> LAYERS] : n \in 1..NLMAX} :
             /\ Cardinality({i \in DOMAIN s : IsCount(s[i]) \/ s[i] = "hyper"}) <= 1 /\ Count(s, "mle") <= 2}
Below(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == s[Len(s)]
Extra(k) == CASE k = "hyper" -> 4 [] k = "grw" -> 2 [] k = "grwdense" -> 3 [] OTHER -> 0
Width(s) == 2 + SumSeq([i \in DOMAIN s |-> Extra(s[i])])
\* number of columns of the layer below layer i
WidthBelow(s, i) == Width(SubSeq(s, 1, i - 1))

ValidRow(s, x) == /\ 0 <= x[1] /\ x[1] <= 4
                  /\ \A i \in DOMAIN s : Bind(WidthBelow(s, i), LAMBDA n :
                       CASE s[i] = "hyper" -> x[n + 3] > 0 /\ x[n + 4] > 0
                       [] s[i] = "grw" -> x[n + 1] >= 0 /\ x[n + 2] >= 0 [] OTHER -> TRUE)
Canon(x) == [i \in DOMAIN x |-> IF i = 2 THEN Abs(x[2]) ELSE x[i]]
\* what the time step does is decided by the outermost layer that has one of its own
RECURSIVE Step(_, _, _)
Step(s, x, e) == IF Len(s) = 0 THEN <<x[1] + e, x[2] - e>>
                 ELSE IF Top(s) = "walk" THEN [i \in DOMAIN x |-> x[i] + i]
                 ELSE IF Top(s) \in {"grw", "grwfix", "grwdense"} THEN x
                 ELSE Bind(Width(Below(s)), LAMBDA n : Step(Below(s), SubSeq(x, 1, n), e) \o SubSeq(x, n + 1, Len(x)))
P1(x, e) == CASE e[1] = 0 -> <<1, 2>> [] e[1] = 1 -> Red(x[1], 4) [] e[1] = 2 -> Red(4 - x[1], 4)
RECURSIVE RPow(_, _)
RPow(r, n) == IF n = 0 THEN <<1, 1>> ELSE RMul(r, RPow(r, n - 1))
Ch(n, k) == IF n = 2 /\ k = 1 THEN 2 ELSE 1
\* e = <<setting, shots>>; for counts o is the number of ones
RECURSIVE L(_, _, _, _)
L(s, o, x, e) == IF Len(s) = 0 THEN (IF o = 1 THEN P1(x, e) ELSE RSub(<<1, 1>>, P1(x, e)))
                 ELSE IF Top(s) = "mle" THEN Bind(L(Below(s), o, x, e), LAMBDA v : RMul(v, v))
                 ELSE IF Top(s) = "binom" THEN Bind(L(Below(s), 1, x, e), LAMBDA p :
                    IF o > e[2] THEN <<0, 1>>
                    ELSE RMul(RInt(Ch(e[2], o)), RMul(RPow(p, o), RPow(RSub(<<1, 1>>, p), e[2] - o))))
                 ELSE IF Top(s) = "multi" THEN Bind(L(Below(s), 0, x, e), LAMBDA p :
                    RMul(RInt(Ch(e[2], o)), RMul(RPow(RSub(<<1, 1>>, p), o), RPow(p, e[2] - o))))
                 ELSE L(Below(s), o, x, e)
\* under a Gaussian readout only the two mixture weights and the power on top are rational
HyperAt(s) == CHOOSE i \in DOMAIN s : s[i] = "hyper"
Mix(s, x, e) == Bind(SubSeq(s, 1, HyperAt(s) - 1), LAMBDA b : <<L(b, 0, x, e), L(b, 1, x, e)>>)
PowAbove(s) == Pow2(Cardinality({i \in DOMAIN s : s[i] = "mle" /\ i > HyperAt(s)}))
\* what the innermost simulator may return under layers that pass simulation through
SimLaw(s, x, e) == IF Has(s, "binom") \/ Has(s, "multi")
                   THEN Bind(CHOOSE i \in DOMAIN s : IsCount(s[i]), LAMBDA i : {o \in 0..e[2] : L(SubSeq(s, 1, i), o, x, e)[1] > 0})
                   ELSE {o \in 0..1 : L(<<>>, o, x, e)[1] > 0}

\* rows: the base columns, then each layer's own
Cols(s) == [i \in 1..Width(s) |-> IF i = 1 THEN -1..5 ELSE IF i = 2 THEN -2..2
            ELSE Bind(CHOOSE j \in DOMAIN s : WidthBelow(s, j) < i /\ i <= WidthBelow(s, j) + Extra(s[j]), LAMBDA j :
                   Bind(i - WidthBelow(s, j), LAMBDA c :
                     IF s[j] = "grw" THEN {0, 0, -1} ELSE IF s[j] = "grwdense" THEN {0, -1, 2} ELSE IF c <= 2 THEN -3..3 ELSE {1, 4, 9, 0}))]
Row(s) == [i \in 1..Width(s) |-> CHOOSE v \in Pick(Cols(s)[i]) : TRUE]
Fix(s, x) == [i \in DOMAIN x |-> IF i = 1 THEN Max2(0, Min2(4, x[1])) ELSE IF i > 2 /\ \E j \in DOMAIN s : s[j] \in {"grw", "grwdense"} /\ i \in (WidthBelow(s, j) + 1)..(WidthBelow(s, j) + Extra(s[j])) THEN 0
              ELSE IF i > 2 /\ \E j \in DOMAIN s : s[j] = "hyper" /\ i \in (WidthBelow(s, j) + 3)..(WidthBelow(s, j) + 4) THEN Max2(1, x[i]) ELSE x[i]]
Rows(s, n) == [k \in 1..n |-> Bind(k, LAMBDA z : Row(s))]
GoodRows(s, n) == [k \in 1..n |-> Bind(k, LAMBDA z : Fix(s, Row(s)))]
Exps(n) == Pick([1..n -> (0..2) \X (0..2)])
\* a multinomial call needs one shot number
LExps(n) == IF Has(st, "multi") THEN {[i \in 1..n |-> <<f[i], m>>] : f \in Pick([1..n -> 0..2]), m \in Pick(0..2)} ELSE Exps(n)
Outs(n, es) == IF Has(st, "multi") THEN Pick([1..n -> 0..es[1][2]]) ELSE IF Has(st, "binom") THEN Pick([1..n -> 0..2]) ELSE Pick([1..n -> 0..1])
Powers == {<<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<5, 2>>, <<3, 1>>}
\* the stack whose likelihoods are rational, and the power left to apply to them
Inner == IF Top(st) = "mle" THEN Below(st) ELSE st
Rec(r) == h' = Append(h, r)

Init == st = <<>> /\ pw = <<2, 1>> /\ calls = 0 /\ sims = 0 /\ h = <<>>
Choose == st = <<>> /\ UNCHANGED <<calls, sims, h>> /\ \E s \in Pick(Stacks), r \in Pick(Powers) : st' = s /\ pw' = IF Top(s) = "mle" THEN r ELSE <<1, 1>>
N3 == 1..3
Facets == \E n \in Pick(N3), m \in Pick(N3) : \E xs \in {Rows(st, n)}, es \in Exps(m) :
    /\ UNCHANGED <<st, pw, calls, sims>>
    /\ Rec([op |-> "facets", xs |-> xs, es |-> es, width |-> Width(st), valid |-> [k \in 1..n |-> ValidRow(st, xs[k])],
            canon |-> [k \in 1..n |-> Canon(xs[k])], cost |-> [k \in 1..m |-> 2 * es[k][1] + 1]])
TimeStep == \E n \in Pick(N3), m \in Pick(N3) : \E xs \in {GoodRows(st, n)}, es \in Exps(m) :
    /\ UNCHANGED <<st, pw, calls, sims>>
    /\ Rec([op |-> "step", xs |-> xs, es |-> es, out |-> [j \in 1..n |-> [k \in 1..m |-> Step(st, xs[j], es[k][1])]]])
Lik == \E n \in Pick(N3), m \in Pick(N3), p \in Pick(N3) : \E xs \in {GoodRows(st, n)}, es \in LExps(m) : \E os \in Outs(p, es) :
    /\ calls' = calls + n * m * p /\ UNCHANGED <<st, pw, sims>>
    /\ Rec([op |-> "lik", xs |-> xs, es |-> es, os |-> os, calls |-> calls'] @@
           (IF Has(st, "hyper") THEN [mix |-> [j \in 1..n |-> [k \in 1..m |-> Mix(st, xs[j], es[k])]], pow |-> RMul(RInt(PowAbove(Inner)), pw),
                                      at |-> WidthBelow(st, HyperAt(st))]
            ELSE [p |-> [i \in 1..p |-> [j \in 1..n |-> [k \in 1..m |-> L(Inner, os[i], xs[j], es[k])]]], pow |-> pw]))
Sim == \E n \in Pick(N3), m \in Pick(N3), r \in Pick(N3) : \E xs \in {GoodRows(st, n)}, es \in Exps(m) :
    /\ sims' = sims + n * m * r /\ UNCHANGED <<st, pw, calls>>
    /\ Rec([op |-> "sim", xs |-> xs, es |-> es, repeat |-> r, sims |-> sims',
            law |-> [j \in 1..n |-> [k \in 1..m |-> SimLaw(st, xs[j], es[k])]]])
Clear == UNCHANGED <<st, pw, calls, sims>> /\ Rec([op |-> "clear"])
Next == Choose \/ (st # <<>> /\ Len(h) < DEPTH /\ (Facets \/ TimeStep \/ Lik \/ Sim \/ Clear))
Spec == Init /\ [][Next]_vars

\* canonical form is idempotent and keeps validity; the extra columns are nobody else's business
CanonLaws == st # <<>> => Bind(GoodRows(st, 1)[1], LAMBDA x :
    Canon(Canon(x)) = Canon(x) /\ ValidRow(st, Canon(x)) /\ Len(Step(st, x, 1)) = Width(st))
Emit == Len(h) < DEPTH \/ PrintT("@@" \o ToJson([stack |-> st, pw |-> pw, steps |-> h]))
=============================================================================
