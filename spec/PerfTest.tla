------------------------------ MODULE PerfTest -------------------------------
(***************************************************************************)
(* Performance tests (C17): trials that alternate choosing an experiment,   *)
(* simulating it on a true model, updating and letting the truth evolve,    *)
(* run side by side in any interleaving, and failing anywhere.              *)
(*   c     configuration: nt, ne (dimensions of truth and estimate), kt, ke *)
(*         (how they evolve), same (the estimated model is also the true    *)
(*         one), rs (resample after every update), q (loss weights), steps, *)
(*         trials, np, the source of the truth, and the planned failures    *)
(*   tr    the trials: pc, k (data so far), truth, x, w (particles), o      *)
(*         (last outcome), e (experiment), rsc (resamplings), rows, err     *)
(*   sched the trials in the order in which they took their turns           *)
(* A turn runs from the choice of an experiment to the next one.            *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS DEPTH, TRIALS, DIMS, SIM
VARIABLES c, tr, sched, cur
vars == <<c, tr, sched, cur>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
Kinds == {"none", "setup", "heuristic", "simulate", "update", "divide", "zero", "evolve"}
\* exception each kind of failure ends in (divisions by zero are errors during a multiple run)
Exc(kind) == CASE kind = "divide" -> "FloatingPointError" [] kind = "zero" -> "RuntimeError" [] OTHER -> "Planned"
Q0 == <<2, 3, 5>>

\* the truth a trial starts from: the given one, or a draw that depends on the trial
Truth0(i) == [j \in 1..c.nt |-> IF c.src = "mps" THEN j + 1 ELSE j + 2 * i]
\* a draw of the true prior when there is one, else of the prior
X0(i) == [p \in 1..c.np |-> [j \in 1..c.ne |-> p + (2 * j) - 2]]
Evolve(v, k, e) == [j \in DOMAIN v |-> k * v[j] + e]
Lik(o, x, e) == 1 + ((x[1] + e * (o + 1)) % 3)
Outcome(t, e) == (FoldLeft(LAMBDA a, b : a + b, 0, t) + e) % 2
Mean(x, w) == [j \in 1..c.ne |-> Red(SumSeq([p \in 1..c.np |-> w[p] * x[p][j]]), SumSeq(w))]
\* the last components are compared, each square weighted
Loss(m, t) == LET n == Min2(c.ne, c.nt) IN
    RSumSeq([j \in 1..n |-> LET d == RSub(m[c.ne - n + j], RInt(t[c.nt - n + j])) IN RMul(RInt(c.q[c.ne - n + j]), RMul(d, d))])

Fail(i, k) == IF c.fail[i].at = k THEN c.fail[i].kind ELSE "none"
New(i) == [pc |-> "choose", k |-> 0, truth |-> Truth0(i), x |-> X0(i), w |-> [p \in 1..c.np |-> 1],
           o |-> 0, e |-> 0, rsc |-> 0, rows |-> <<>>, err |-> ""]

Init == c = <<>> /\ tr = <<>> /\ sched = <<>> /\ cur = 0
MaxT == CHOOSE t \in TRIALS : \A u \in TRIALS : u <= t
Choose == /\ c = <<>> /\ UNCHANGED <<tr, sched, cur>>
    /\ \E nt \in Pick(DIMS), ne \in Pick(DIMS), kt \in Pick({1, 2, -1}), ke \in Pick({1, -1}), same \in Pick(BOOLEAN), rs \in Pick(BOOLEAN),
          n \in Pick(0..DEPTH), t \in Pick(TRIALS), np \in Pick(IF SIM THEN {2, 3} ELSE {2}), src \in Pick({"mps", "true_prior", "prior"}), allow \in Pick(BOOLEAN) :
       \E f \in (IF SIM THEN {[i \in 1..t |-> CHOOSE r \in {[at |-> a, kind |-> kd] : a \in RandomSubset(1, 0..(n + 1)), kd \in RandomSubset(1, Kinds)} : TRUE]}
                        ELSE [1..t -> [at : 1..n, kind : {"none", "update", "divide"}]]) :
       c' = [nt |-> IF same THEN ne ELSE nt, ne |-> ne, kt |-> IF same THEN ke ELSE kt, ke |-> ke, same |-> same, rs |-> rs, q |-> SubSeq(Q0, 1, ne),
             steps |-> n, trials |-> t, np |-> np, src |-> src, allow |-> allow,
             fail |-> [i \in 1..t |-> IF f[i].at = 0 THEN (IF f[i].kind = "setup" THEN [at |-> 0, kind |-> "setup"] ELSE [at |-> 0, kind |-> "none"])
                                      ELSE IF f[i].kind = "setup" \/ f[i].at > n THEN [at |-> 0, kind |-> "none"] ELSE f[i]]]
Start == c # <<>> /\ tr = <<>> /\ UNCHANGED <<c, sched, cur>> /\ tr' = [i \in 1..c.trials |-> New(i)]

Over(t) == t.pc \in {"done", "failed"}
Open == {i \in 1..Len(tr) : ~Over(tr[i])}
\* a turn of trial i begins (its next experiment is about to be chosen)
Turn == /\ tr # <<>> /\ cur = 0 /\ \E i \in Pick(Open) : cur' = i /\ sched' = Append(sched, i) /\ UNCHANGED <<c, tr>>
Err(t, kind) == [t EXCEPT !.pc = "failed", !.err = Exc(kind)]
Heuristic(t, f, i) ==
    IF f \in {"setup", "heuristic"} THEN Err(t, f)
    ELSE [t EXCEPT !.pc = "simulate", !.e = (t.k + t.o + i) % 4,
                   !.rows = Append(@, [true |-> t.truth, prior |-> Mean(t.x, t.w)])]
Simulate(t, f) == IF f = "simulate" THEN Err(t, f) ELSE [t EXCEPT !.pc = "update", !.o = Outcome(t.truth, t.e)]
Update(t, f) ==
    IF f \in {"update", "divide", "zero"} THEN Err(t, f)
    ELSE LET w == RedSeq([p \in 1..c.np |-> t.w[p] * Lik(t.o, t.x[p], t.e)])
             x == [p \in 1..c.np |-> Evolve(t.x[p], c.ke, t.e)] IN
         [t EXCEPT !.pc = "evolve", !.w = IF c.rs THEN [p \in 1..c.np |-> 1] ELSE w,
                   !.x = IF c.rs THEN [p \in 1..c.np |-> Evolve(x[p], 1, 1)] ELSE x, !.rsc = @ + (IF c.rs THEN 1 ELSE 0)]
Drift(t, f) ==
    IF f = "evolve" THEN Err(t, f)
    ELSE LET u == Evolve(t.truth, c.kt, t.e)  m == Mean(t.x, t.w)  n == Len(t.rows) IN
         [t EXCEPT !.pc = "choose", !.k = @ + 1, !.truth = u,
                   !.rows[n] = @ @@ [o |-> t.o, e |-> t.e, est |-> m, loss |-> Loss(m, u), rsc |-> t.rsc]]
Step == /\ cur # 0 /\ UNCHANGED <<c, sched>>
        /\ LET t == tr[cur]  f == Fail(cur, t.k + 1)  start == Fail(cur, 0) = "setup" IN
           CASE t.pc = "choose" -> /\ (IF t.k = c.steps /\ ~start THEN tr' = [tr EXCEPT ![cur].pc = "done"] /\ cur' = 0
                                       ELSE tr' = [tr EXCEPT ![cur] = Heuristic(t, IF start THEN "setup" ELSE f, cur)] /\ cur' = IF Over(tr'[cur]) THEN 0 ELSE cur)
             [] t.pc = "simulate" -> tr' = [tr EXCEPT ![cur] = Simulate(t, f)] /\ cur' = IF Over(tr'[cur]) THEN 0 ELSE cur
             [] t.pc = "update" -> tr' = [tr EXCEPT ![cur] = Update(t, f)] /\ cur' = IF Over(tr'[cur]) THEN 0 ELSE cur
             [] t.pc = "evolve" -> tr' = [tr EXCEPT ![cur] = Drift(t, f)] /\ cur' = 0
             [] OTHER -> tr' = tr /\ cur' = 0
Next == Choose \/ Start \/ Turn \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Turn) /\ WF_vars(Step)

Finished == tr # <<>> /\ Open = {} /\ cur = 0
Failed == {i \in 1..Len(tr) : tr[i].pc = "failed"}
\* what a trial does depends on nothing but itself: not on the interleaving nor on the others' failures
RECURSIVE Alone(_, _)
Alone(i, t) == IF Over(t) THEN t ELSE LET f == Fail(i, t.k + 1)  start == Fail(i, 0) = "setup" IN
    CHOOSE r \in {Alone(i, u) : u \in {CASE t.pc = "choose" -> IF t.k = c.steps /\ ~start THEN [t EXCEPT !.pc = "done"] ELSE Heuristic(t, IF start THEN "setup" ELSE f, i)
                                        [] t.pc = "simulate" -> Simulate(t, f) [] t.pc = "update" -> Update(t, f) [] OTHER -> Drift(t, f)}} : TRUE
Independent == Finished => \A i \in 1..Len(tr) : tr[i] = Alone(i, New(i))
FailsAsPlanned == Finished => \A i \in 1..Len(tr) : (tr[i].pc = "failed") <=> (c.fail[i].kind # "none")
RowsFull == \A i \in 1..Len(tr) : tr[i].pc = "done" => Len(tr[i].rows) = c.steps
\* the true value in row k+1 is the one in row k evolved under the experiment of row k
TruthChain == Finished => \A i \in 1..Len(tr) : \A k \in 1..(Len(tr[i].rows) - 1) :
    tr[i].rows[k + 1].true = Evolve(tr[i].rows[k].true, c.kt, tr[i].rows[k].e)
Terminates == (tr # <<>>) ~> Finished
Emit == ~Finished \/ PrintT("@@" \o ToJson([c |-> c, sched |-> sched,
            tr |-> [i \in 1..Len(tr) |-> [rows |-> tr[i].rows, err |-> tr[i].err]]]))
=============================================================================
