----------------------------- MODULE BCRBTrace -----------------------------
(* Recorded histories of the real SMCUpdaterBCRB judged against BCRB.tla.     *)
(* Matrices are recorded in units of 1/10000.                                *)
EXTENDS BCRB, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, bad, W, x, cur, ada
tvars == <<t, l, bad, W, x, cur, ada>>
T == Traces[t]
Scale == 10000
\* recorded v equals base u plus the rational r
Near(v, u, r) == Abs((v - u) * r[2] - r[1] * Scale) <= 3 * r[2]
EqM(m, r(_, _)) == \A p \in AB : Near(m[p[1]][p[2]], 0, r(p[1], p[2]))
Zero == <<0, 1>>
Same(m, u) == \A p \in AB : Abs(m[p[1]][p[2]] - u[p[1]][p[2]]) <= 1

JudgeInit == LET i == T.init IN
    (IF i.exn # "" THEN {"init.exception"} ELSE
     (IF T.given /\ ~Same(i.cur, i.want) THEN {"initial_matrix"} ELSE {})
     \cup (IF ~T.given /\ ~EqM(i.cur, LAMBDA a, b : GradAvg(T.x0, a, b)) THEN {"initial_from_gradients"} ELSE {})
     \cup (IF T.adaptive /\ ~Same(i.ada, i.cur) THEN {"initial_adaptive"} ELSE {}))
Judge(st) ==
    (IF st.exn # "" THEN {"exception." \o st.op} ELSE
     (IF st.op = "update" THEN
        (IF \E p \in AB : ~Near(st.cur[p[1]][p[2]], cur[p[1]][p[2]], Avg(st.k, Ones(Len(st.draws)), st.draws, p[1], p[2]))
         THEN {"current_bim"} ELSE {})
        \cup (IF T.adaptive /\ (\E p \in AB : ~Near(st.ada[p[1]][p[2]], ada[p[1]][p[2]], Avg(st.k, W, x, p[1], p[2])))
              THEN {"adaptive_bim"} ELSE {})
        \cup (IF Len(st.draws) = 0 THEN {"prior_not_sampled"} ELSE {})
      ELSE (IF ~Same(st.cur, cur) THEN {"current_bim.changed_by." \o st.op} ELSE {})
           \cup (IF T.adaptive /\ ~Same(st.ada, ada) THEN {"adaptive_bim.changed_by." \o st.op} ELSE {}))
     \cup (IF st.op = "posterior_info" /\ (\E e \in DOMAIN st.ks : ~EqM(st.res[e], LAMBDA a, b : Avg(st.ks[e], W, x, a, b)))
           THEN {"posterior_information"} ELSE {})
     \cup (IF st.op = "prior_info" /\ (\E e \in DOMAIN st.ks : ~EqM(st.res[e], LAMBDA a, b : Avg(st.ks[e], Ones(Len(st.draws)), st.draws, a, b)))
           THEN {"prior_information"} ELSE {})
     \cup (IF st.op = "prior_info" /\ st.n > 0 /\ Len(st.draws) # st.n THEN {"prior_information.samples"} ELSE {}))
    \cup (IF ~st.caller THEN {"caller_matrix_modified"} ELSE {})
W2(st) == IF st.op = "update" THEN Posterior(W, x, st.k, st.o) ELSE IF st.op = "resample" THEN Ones(Len(st.x)) ELSE W
X2(st) == IF st.op = "update" THEN StepX(x, st.d) ELSE IF st.op = "resample" THEN st.x ELSE x
TraceInit == t \in DOMAIN Traces /\ l = 0 /\ bad = {} /\ W = T.w0 /\ x = T.x0 /\ cur = T.init.cur /\ ada = T.init.ada
TraceNext == /\ bad = {} /\ l <= Len(T.steps)
             /\ IF l = 0 THEN bad' = JudgeInit /\ UNCHANGED <<W, x, cur, ada>>
                ELSE \E st \in {T.steps[l]} : /\ bad' = Judge(st) /\ W' = W2(st) /\ x' = X2(st)
                                              /\ cur' = st.cur /\ ada' = st.ada
             /\ l' = l + 1 /\ UNCHANGED t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Done == bad # {} \/ l > Len(T.steps)
Verdict == ~Done \/ PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, l |-> l, bad |-> bad]))
\* Fisher matrices are symmetric and positive semidefinite
ASSUME \A k \in 1..3, xx \in 0..2 : /\ FI(k, xx, 1, 2) = FI(k, xx, 2, 1) /\ FI(k, xx, 1, 1) >= 0
                                    /\ FI(k, xx, 1, 1) * FI(k, xx, 2, 2) >= FI(k, xx, 1, 2) * FI(k, xx, 1, 2)
=============================================================================
