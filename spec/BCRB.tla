-------------------------------- MODULE BCRB --------------------------------
(***************************************************************************)
(* Bayesian information matrices (C09).  A particle's parameter is x in     *)
(* 0..2; experiment kind k has outcomes with probability P[k][o][x]/8 and    *)
(* score vectors SC[k][o][x]; the prior's gradient at x is GR[x].            *)
(***************************************************************************)
EXTENDS Rat
P  == << << <<8,4,1>>, <<0,4,7>> >>, << <<2,6,1>>, <<3,1,6>>, <<3,1,1>> >>, << <<4,4,4>>, <<4,4,4>> >> >>
SC == << << <<<<1,0>>, <<2,1>>, <<0,3>>>>, <<<<5,5>>, <<-2,1>>, <<1,-1>>>> >>,
         << <<<<0,1>>, <<1,1>>, <<2,-1>>>>, <<<<1,2>>, <<0,0>>, <<-1,0>>>>, <<<<3,0>>, <<1,-2>>, <<0,2>>>> >>,
         << <<<<0,0>>, <<0,0>>, <<0,0>>>>, <<<<0,0>>, <<0,0>>, <<0,0>>>> >> >>
GR == << <<1, -2>>, <<0, 3>>, <<2, 2>> >>
\* 8 * Fisher information of kind k at x
FI(k, xx, a, b) == SumSeq([o \in 1..Len(P[k]) |-> P[k][o][xx + 1] * SC[k][o][xx + 1][a] * SC[k][o][xx + 1][b]])
\* average over a weighted sequence of parameters
Avg(k, w, q, a, b) == Bind(SumSeq([i \in DOMAIN q |-> w[i] * FI(k, q[i], a, b)]), LAMBDA s : Red(s, 8 * SumSeq(w)))
Ones(n) == [i \in 1..n |-> 1]
GradAvg(q, a, b) == Bind(SumSeq([i \in DOMAIN q |-> GR[q[i] + 1][a] * GR[q[i] + 1][b]]), LAMBDA s : Red(s, Len(q)))
StepX(q, d) == [i \in DOMAIN q |-> (q[i] + d) % 3]
Posterior(w, q, k, o) == Bind([i \in DOMAIN q |-> w[i] * P[k][o][q[i] + 1]], LAMBDA v : RedSeq(v))
AB == {<<a, b>> : a \in 1..2, b \in 1..2}
=============================================================================
