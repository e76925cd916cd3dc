------------------------------ MODULE SMCTrace ------------------------------
(* Recorded executions of the real SMCUpdater with the library's own models,  *)
(* priors and resamplers, checked step by step against the update law and the *)
(* resampling discipline of SMC.tla.  Real numbers are fixed-point integers   *)
(* (scale S); every clause carries the rounding slack this implies.  The      *)
(* verdict is total: it names the clauses that fail at the first bad step.    *)
EXTENDS Rat, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
S == 10000
VARIABLES t, l, bad
tvars == <<t, l, bad>>

Near(a, b, tol) == Abs(a - b) <= tol
Ev == Traces[t].ev
Conf == Traces[t].conf
Pre == IF l = 1 THEN Traces[t].init ELSE Ev[l - 1].post
Cur == Ev[l]

\* unnormalised posterior of the recorded prior weights and likelihoods
Hyp(e) == [i \in DOMAIN e.W0 |-> (e.W0[i] * e.L[i]) \div S]
Slack(e) == 2 * Len(e.W0) + 2
EssOf(W) == LET q == SumSeq([i \in DOMAIN W |-> W[i] * W[i]]) IN
            IF q = 0 THEN 1000000 ELSE (SumSeq(W) * SumSeq(W) * 1) \div Max2(1, q \div 10)   \* tenths

UpdateClauses(p, e) ==
    Bind(Hyp(e), LAMBDA hyp : Bind(SumSeq(hyp), LAMBDA norm :
    LET x == e.post
        resampled == x.rc > p.rc
        thr == (Len(e.W0) * 10 * Conf.tn) \div Conf.td    \* tenths of a particle
        ess == EssOf(hyp)
        usable == norm > 500      \* else fixed-point rounding dominates: not judged
    IN
    (IF x.nd # p.nd + 1 \/ ~e.dataok THEN {"data"} ELSE {})
    \cup (IF x.nn # p.nn + 1 THEN {"norms.length"} ELSE {})
    \cup (IF ~Near(e.norm, norm, Slack(e)) THEN {"norms.value"} ELSE {})
    \cup (IF ~resampled /\ usable /\ \E i \in DOMAIN hyp :
               ~Near(x.W[i] * (norm \div 10), hyp[i] * (S \div 10), 2500 + 40 * (Slack(e) + x.W[i])) THEN {"bayes"} ELSE {})
    \cup (IF ~resampled /\ ~e.moved THEN {"timestep"} ELSE {})
    \cup (IF resampled # x.jr THEN {"just_resampled"} ELSE {})
    \cup (IF x.rc - p.rc > 1 \/ x.rc < p.rc THEN {"resample_count"} ELSE {})
    \cup (IF resampled /\ ~e.check THEN {"unrequested_resample"} ELSE {})
    \cup (IF usable /\ e.check /\ ess * 100 < 96 * thr /\ ~resampled THEN {"missing_resample"} ELSE {})
    \cup (IF usable /\ e.check /\ ess * 100 > 104 * thr /\ resampled THEN {"early_resample"} ELSE {})
    \cup (IF usable /\ x.miness > Min2(p.miness, ess) + 2 + (ess \div 25) THEN {"min_n_ess"} ELSE {})
    \cup (IF x.miness > p.miness THEN {"min_n_ess.monotone"} ELSE {})
    \cup (IF x.miness < p.miness /\ usable /\ ~Near(x.miness, ess, 2 + (ess \div 25)) THEN {"min_n_ess.value"} ELSE {})
    \cup (IF resampled THEN
            (IF \E i \in DOMAIN x.W : ~Near(x.W[i] * Len(x.W), S, 2 * Len(x.W)) THEN {"resampled.weights"} ELSE {})
            \cup (IF Len(x.W) # Conf.np THEN {"resampled.n"} ELSE {})
            \cup (IF ~e.canon THEN {"resampled.canonical"} ELSE {})
          ELSE IF Len(x.W) # Len(e.W0) THEN {"n"} ELSE {})))

ResampleClauses(p, e) ==
    LET x == e.post IN
    (IF x.rc # p.rc + 1 THEN {"resample_count"} ELSE {})
    \cup (IF ~x.jr THEN {"just_resampled"} ELSE {})
    \cup (IF e.warned # p.jr THEN {"resampler_warning"} ELSE {})
    \cup (IF x.nd # p.nd \/ x.nn # p.nn THEN {"data"} ELSE {})
    \cup (IF Len(x.W) # Conf.np THEN {"resampled.n"} ELSE {})
    \cup (IF \E i \in DOMAIN x.W : ~Near(x.W[i] * Len(x.W), S, 2 * Len(x.W)) THEN {"resampled.weights"} ELSE {})
    \cup (IF ~e.canon THEN {"resampled.canonical"} ELSE {})
    \cup (IF x.miness # p.miness THEN {"min_n_ess"} ELSE {})

ResetClauses(p, e) ==
    LET x == e.post IN
    (IF x.nd # p.nd \/ x.nn # p.nn \/ x.rc # p.rc THEN {"reset.records"} ELSE {})
    \cup (IF Len(x.W) # e.n THEN {"reset.n"} ELSE {})
    \cup (IF \E i \in DOMAIN x.W : ~Near(x.W[i] * Len(x.W), S, 2 * Len(x.W)) THEN {"reset.weights"} ELSE {})
    \cup (IF ~e.canon THEN {"reset.canonical"} ELSE {})

\* a batch is judged on the projections before and after it
BatchClauses(p, e) ==
    LET x == e.post IN
    (IF x.nd # p.nd + e.n \/ ~e.dataok THEN {"batch.data"} ELSE {})
    \cup (IF x.nn # p.nn + e.n THEN {"batch.norms"} ELSE {})
    \cup (IF x.rc < p.rc \/ x.rc - p.rc > e.n \div e.interval THEN {"batch.resample_count"} ELSE {})
    \cup (IF x.miness > p.miness THEN {"min_n_ess.monotone"} ELSE {})

Judge(p, e) ==
    IF e.exn # "" THEN {"exception." \o e.exn}
    ELSE IF ~Near(SumSeq(e.post.W), S, Len(e.post.W) + 1) THEN {"normalised"}
    ELSE CASE e.op = "update" -> UpdateClauses(p, e)
           [] e.op = "resample" -> ResampleClauses(p, e)
           [] e.op = "reset" -> ResetClauses(p, e)
           [] e.op = "batch" -> BatchClauses(p, e)
           [] OTHER -> {"unknown op"}

TraceInit == t \in DOMAIN Traces /\ l = 1 /\ bad = {}
TraceNext == /\ bad = {} /\ l <= Len(Ev)
             /\ \E b \in {Judge(Pre, Cur)} : bad' = b /\ l' = (IF b = {} THEN l + 1 ELSE l) /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (bad = {} /\ l <= Len(Ev)) \/
           PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, l |-> l, bad |-> SetToSeq(bad)]))
=============================================================================
