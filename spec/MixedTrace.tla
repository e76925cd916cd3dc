----------------------------- MODULE MixedTrace -----------------------------
(* Recorded histories of the real mixed updater judged against Mixed.tla.    *)
(* Each step lists, for every outcome and experiment, which particles each   *)
(* model was evaluated on, and the resulting numbers in units of 1/100000.   *)
EXTENDS MixedOps, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, bad, W,
          dy   \* all weights so far are exact binary fractions
tvars == <<t, l, bad, W, dy>>
T == Traces[t]
N == Len(T.w0)
Sum(q) == SumSeq(q)
Scale == 100000
AbsV(v) == IF v < 0 THEN -v ELSE v
\* value v (in 1/Scale) equals a/b (b > 0) up to rounding
Eq(v, a, b) == AbsV(v * b - a * Scale) <= 2 * b

JudgeCell(st, oi, ei) ==
    LET k == st.eps[ei]  o == st.outs[oi]
        g == st.good[oi][ei]  a == st.apx[oi][ei]
        G == {g[i] : i \in DOMAIN g}  A == {a[i] : i \in DOMAIN a} IN
    IF Cardinality(G) # Len(g) \/ Cardinality(A) # Len(a) \/ G \cap A # {} \/ G \cup A # 1..N
    THEN {"each_particle_one_model"}
    ELSE (IF ~SplitBySize(W, G, T.r, T.th, T.m, dy) THEN {"split"} ELSE {})
         \cup Bind(<<Lik(T.x, G, k, o), Bayes(W, T.x, G, k, o)>>, LAMBDA p :
              (IF st.lik # <<>> /\ st.lik[oi][ei] # p[1] THEN {"likelihoods"} ELSE {})
              \cup (IF st.wt # <<>> /\ (\E i \in 1..N : ~Eq(st.wt[oi][ei][i], p[2][i], IF Sum(p[2]) = 0 THEN 1 ELSE Sum(p[2])))
                    THEN {"weights"} ELSE {})
              \cup (IF st.norm # <<>> /\ ~Eq(st.norm[oi][ei], Sum(p[2]), 8 * Sum(W)) THEN {"normalization"} ELSE {}))
Post(st) == Bayes(W, T.x, {st.good[1][1][i] : i \in DOMAIN st.good[1][1]}, st.eps[1], st.outs[1])
Judge(st) ==
    LET cells == UNION {JudgeCell(st, oi, ei) : oi \in DOMAIN st.outs, ei \in DOMAIN st.eps}
        dead == st.op = "update" /\ cells = {} /\ Sum(Post(st)) = 0 IN
    cells
    \cup (IF st.op = "hyp" /\ st.exn # "" THEN {"exception"} ELSE {})
    \cup (IF st.op = "update" /\ ~dead /\ st.exn # "" THEN {"exception"} ELSE {})
    \cup (IF dead /\ st.exn # "RuntimeError" THEN {"zero_weight_error"} ELSE {})
    \* what the updater holds afterwards
    \cup (IF \E i \in 1..N : ~(IF st.op = "update" /\ ~dead /\ cells = {}
                               THEN Eq(st.after[i], Post(st)[i], Sum(Post(st))) ELSE cells # {} \/ Eq(st.after[i], W[i], Sum(W)))
          THEN {"state_after"} ELSE {})
    \cup (IF ~st.same THEN {"locations_or_arguments_modified"} ELSE {})
TraceInit == t \in DOMAIN Traces /\ l = 1 /\ bad = {} /\ W = T.w0 /\ dy = IsPow2(SumSeq(T.w0))
TraceNext == /\ bad = {} /\ l <= Len(T.steps)
             /\ \E b \in {IF l = 0 THEN {} ELSE Judge(T.steps[l])} :
                  /\ bad' = b
                  /\ W' = IF b = {} /\ T.steps[l].op = "update" /\ T.steps[l].exn = ""
                          THEN RedSeq(Post(T.steps[l])) ELSE W
             /\ dy' = (dy /\ IsPow2(Sum(W')))
             /\ l' = l + 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Done == bad # {} \/ l > Len(T.steps)
Verdict == ~Done \/ PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, l |-> l, bad |-> bad]))
=============================================================================
