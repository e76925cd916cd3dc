-------------------------------- MODULE SMC --------------------------------
(***************************************************************************)
(* The sequential Monte Carlo updater (src/qinfer/smc.py, SMCUpdater) as a *)
(* state machine.  One action per public call; a batch update is the       *)
(* composition of its updates and checks.                                  *)
(*                                                                         *)
(* The environment is a small lattice world shared with the conformance    *)
(* harness (checks/smcworld.py): a particle is a pair <<x, y>>, likelihoods*)
(* are multiples of 1/4 that depend on x, the outcome and the kind of the  *)
(* experiment; the model's time step, canonical form, the prior's draws    *)
(* and the resampler are the functions below.  Weights are kept as reduced *)
(* integer vectors W; the weight of particle i is W[i] / sum(W).           *)
(***************************************************************************)
EXTENDS Rat

CONSTANTS
    NP,         \* number of particles the updater is built with
    TN, TD,     \* resampling threshold TN/TD
    POLICY,     \* zero-weight policy
    CANON,      \* does the updater canonicalise?
    CACHEFAIL,  \* does the model's clear_cache raise?
    RESMODE,    \* "same" | "grow": which resampler is plugged in
    KINDS, OUTS, DTS,   \* experiment kinds, outcomes and durations explored
    MAXLEN      \* bound on the number of data

VARIABLE s      \* the updater
vars == <<s>>

-----------------------------------------------------------------------------
(* the world *)

\* likelihood of outcome o for a particle with first coordinate x, in quarters
LQ == << << <<4,2,1>>, <<0,2,3>> >>,
         << <<0,1,4>>, <<4,3,0>> >>,
         << <<2,2,2>>, <<2,2,2>> >>,
         << <<0,0,0>>, <<4,4,4>> >>,
         << <<0,0,0>>, <<4,4,4>> >>,    \* kind 4: in the code, outcome 0 has likelihoods below 2^-58
         << <<-1,2,4>>, <<4,2,-1>> >>,
         << <<4,2,1>>, <<4,4,4>> >> >>  \* kind 6, outcome 0: rare, all likelihoods times 2^-RareExp
RareExp == 30
Scale(kind, o) == IF kind = 6 /\ o = 0 THEN RareExp ELSE 0
Lik(kind, o, x) == LQ[kind + 1][o + 1][x + 1]

Step(loc, kind, dt) == <<(loc[1] + dt) % 3, loc[2] + dt * (1000 + 100 * kind)>>
Canon1(loc) == <<loc[1], Abs(loc[2])>>
CanonAll(l0) == IF CANON THEN Bind(l0, LAMBDA ls : [i \in DOMAIN ls |-> Canon1(ls[i])]) ELSE l0
\* k-th call of prior.sample, n particles
PriorDraw(k, n) == [i \in 1..n |-> <<(i * k + k) % 3, (IF i % 2 = 0 THEN -1 ELSE 1) * (10 * k + i)>>]
\* k-th resampling of the cloud ls
ResampleTo(k, ls) ==
    LET n == Len(ls)
        m == IF RESMODE = "grow" THEN (IF n <= NP THEN n + 1 ELSE n - 2) ELSE n
    IN [locs |-> [i \in 1..m |-> LET j == ((i - 1) % n) + 1 IN
                     <<(ls[j][1] + 1) % 3, -(100 * k + i)>>],
        W    |-> [i \in 1..m |-> IF RESMODE = "grow" /\ i = 1 THEN 2 ELSE 1]]

-----------------------------------------------------------------------------
(* the updater *)

N(st) == Len(st.locs)
Zero(st) == \A i \in 1..Len(st.W) : st.W[i] = 0
Ess(st) == IF Zero(st) THEN RInf
           ELSE Bind(SumSeq(st.W), LAMBDA t :
                     Red(t * t, SumSeq([i \in 1..Len(st.W) |-> st.W[i] * st.W[i]])))
Below(st) == Bind(Ess(st), LAMBDA e : RLt(e, Red(N(st) * TN, TD)))
AtThresh(st) == Bind(Ess(st), LAMBDA e : REq(e, Red(N(st) * TN, TD)))

\* per-call observations are cleared at the start of every call
Fresh(st) == [st EXCEPT !.exn = "", !.approx = FALSE, !.reswarn = FALSE, !.amb = FALSE]

DoReset(st, n) ==
    [st EXCEPT !.pc = @ + 1,
               !.W = [i \in 1..n |-> 1],
               !.locs = CanonAll(PriorDraw(st.pc + 1, n)),
               !.G = [i \in 1..n |-> 1], !.dyadic = TRUE]

\* cols \subseteq {1,2}: the columns to redraw
DoPartialReset(st, cols, rw) ==
    Bind(PriorDraw(st.pc + 1, N(st)), LAMBDA d :
    [st EXCEPT !.pc = @ + 1,
               !.W = IF rw THEN [i \in 1..N(st) |-> 1] ELSE @,
               !.G = IF rw THEN [i \in 1..N(st) |-> 1] ELSE @,
               !.dyadic = @ \/ rw,
               !.locs = CanonAll([i \in 1..N(st) |->
                           <<IF 1 \in cols THEN d[i][1] ELSE st.locs[i][1],
                             IF 2 \in cols THEN d[i][2] ELSE st.locs[i][2]>>])])

DoResample(st) ==
    Bind(ResampleTo(st.rc + 1, st.locs), LAMBDA r :
    [st EXCEPT !.reswarn = @ \/ st.jr,
               !.jr = TRUE, !.rc = @ + 1,
               !.W = RedSeq(r.W), !.locs = CanonAll(r.locs),
               !.cc = @ + 1,
               !.G = RedSeq(r.W)])

MaybeResample(st) ==
    Bind([st EXCEPT !.approx = @ \/ RLe(Ess(st), RInt(10)),
                        \* equality of floats is only decided for dyadic weights
                    !.amb = @ \/ (AtThresh(st) /\ ~(IsPow2(SumSeq(st.W)) /\ st.dyadic))],
         LAMBDA a : IF Below(a) THEN DoResample(a) ELSE a)

HypW(st, kind, o) == [i \in 1..N(st) |-> st.W[i] * Lik(kind, o, st.locs[i][1])]

\* weights after the data, as one record of intermediate values
UpdInfo(st, kind, o) ==
    Bind(HypW(st, kind, o), LAMBDA hyp :
      [tot  |-> SumSeq(hyp),
       pos  |-> [i \in 1..Len(hyp) |-> Max2(hyp[i], 0)],
       neg  |-> \E i \in 1..Len(hyp) : hyp[i] < 0,
       zero |-> \A i \in 1..Len(hyp) : hyp[i] <= 0,
       wsum |-> SumSeq(st.W)])

RecordMinEss(x) == Bind(x, LAMBDA a : Bind(Ess(a), LAMBDA e : IF RLe(e, a.miness) THEN [a EXCEPT !.miness = e] ELSE a))

Commit(st, u, kind, o, dt, check) ==
    Bind(RecordMinEss([st EXCEPT
            !.W = IF u.zero THEN [i \in 1..Len(u.pos) |-> 0] ELSE RedSeq(u.pos),
            !.norms = Append(@, 
                          \* numerator, denominator, binary exponent
                          (IF u.wsum = 0 THEN <<0, 1>> ELSE Red(u.tot, 4 * u.wsum)) \o <<Scale(kind, o)>>),
            !.locs = [i \in 1..N(st) |-> Step(st.locs[i], kind, dt)],
            !.approx = @ \/ u.neg \/ (u.zero /\ POLICY = "warn"),
            !.dyadic = @ /\ IsPow2(u.wsum) /\ (u.tot = 0 \/ IsPow2(Abs(u.tot))),
            !.G = RedSeq([i \in 1..Len(st.G) |-> st.G[i] * Max2(Lik(kind, o, st.locs[i][1]), 0)])]),
         LAMBDA b : IF check THEN MaybeResample(b) ELSE b)

DoUpdate(st0, kind, o, dt, check) ==
    Bind([st0 EXCEPT !.data = Append(@, o), !.jr = FALSE,
                     \* not specified: negative likelihoods outweighing the positive ones
                     !.amb = @ \/ Bind(HypW(st0, kind, o), LAMBDA h :
                             (\E i \in 1..Len(h) : h[i] < 0) /\ SumSeq(h) <= 0)], LAMBDA st :
    Bind(UpdInfo(st, kind, o), LAMBDA u :
       IF ~u.zero THEN Commit(st, u, kind, o, dt, check)
       ELSE CASE POLICY \in {"ignore", "warn"} -> Commit(st, u, kind, o, dt, check)
              [] POLICY = "skip"  -> st
              [] POLICY = "error" -> [st EXCEPT !.exn = "RuntimeError"]
              [] POLICY = "reset" -> DoReset([st EXCEPT !.approx = TRUE], N(st))
              [] OTHER            -> [st EXCEPT !.exn = "ValueError"]))

BatchItem(st, item, k, interval) ==
    IF st.exn # "" THEN st
    ELSE Bind(DoUpdate(st, item.kind, item.o, item.dt, FALSE), LAMBDA u :
              IF u.exn = "" /\ k % interval = 0 THEN MaybeResample(u) ELSE u)
\* the updates of a batch in order, with a resampling check after every interval-th datum
DoBatch(st, items, interval) ==
    FoldLeft(LAMBDA a, k : BatchItem(a, items[k], k, interval), st, [k \in 1..Len(items) |-> k])

\* generic dispatcher: op is a record with field "op"
Apply(st0, op) ==
    Bind(Fresh(st0), LAMBDA st :
    CASE op.op = "update"   -> DoUpdate(st, op.kind, op.o, op.dt, op.check)
      [] op.op = "batch"    -> DoBatch(st, op.items, op.interval)
      [] op.op = "badbatch" -> [st EXCEPT !.exn = "ValueError"]
      [] op.op = "resample" -> DoResample(st)
      [] op.op = "reset"    -> DoReset(st, op.n)
      [] op.op = "preset"   -> DoPartialReset(st, op.cols, op.rw)
      [] op.op = "badreset" -> [st EXCEPT !.exn = "ValueError"]
      [] op.op = "peek"     -> st       \* hypothetical_update, bayes_risk, gain, estimators, records
      [] OTHER              -> [st EXCEPT !.exn = "?"])

InitState ==
    [W |-> [i \in 1..NP |-> 1], locs |-> CanonAll(PriorDraw(1, NP)),
     data |-> <<>>, norms |-> <<>>, rc |-> 0, jr |-> FALSE, miness |-> RInt(NP),
     pc |-> 1, cc |-> 0, exn |-> "", approx |-> FALSE, reswarn |-> FALSE,
     amb |-> FALSE,
     G |-> [i \in 1..NP |-> 1], dyadic |-> TRUE]
\* G is a ghost: product of initial weight and likelihoods since the last resample/reset

-----------------------------------------------------------------------------
(* the explored operations *)

Items == [kind : KINDS, o : OUTS, dt : DTS]
UpdateOps == {[op |-> "update", kind |-> i.kind, o |-> i.o, dt |-> i.dt, check |-> c] :
                 i \in Items, c \in BOOLEAN}
BatchOps == {[op |-> "batch", items |-> <<a, b, [a EXCEPT !.o = b.o]>>, interval |-> k] :
                 a \in Items, b \in {i \in Items : i.dt = 1}, k \in {1, 2}}
BadOps == {[op |-> "badbatch"], [op |-> "badreset"]}
ResetOps == {[op |-> "reset", n |-> n] : n \in {NP, NP + 1}}
PResetOps == {[op |-> "preset", cols |-> c, rw |-> r] : c \in {{1}, {2}, {1, 2}}, r \in BOOLEAN}

Good(st) == ~st.amb
\* bounds: the number of data, and weights small enough for TLC's 32-bit integers
Room(k) == Len(s.data) + k <= MAXLEN /\ (k = 0 \/ SumSeq(s.W) * 4 ^ k <= 20000)

Update       == Room(1) /\ \E op \in UpdateOps : \E t \in {Apply(s, op)} : Good(t) /\ s' = t
BatchUpdate  == Room(3) /\ \E op \in BatchOps  : \E t \in {Apply(s, op)} : Good(t) /\ s' = t
Resample     == s.rc < 3 /\ s' = Apply(s, [op |-> "resample"])
Reset        == s.pc < 3 /\ \E op \in ResetOps : s' = Apply(s, op)
PartialReset == s.pc < 3 /\ \E op \in PResetOps : s' = Apply(s, op)
BadCall      == \E op \in BadOps : s' = Apply(s, op)

Init == s = InitState
Next == Update \/ BatchUpdate \/ Resample \/ Reset \/ PartialReset \/ BadCall
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* properties of the specification *)

\* C01: the weights are Bayes' rule since the last resampling or reset
BayesRule == \A i, j \in 1..N(s) : s.W[i] * s.G[j] = s.W[j] * s.G[i]
WellFormed == /\ Len(s.W) = N(s) /\ Len(s.G) = N(s)
              /\ \A i \in 1..N(s) : s.W[i] >= 0
              /\ Zero(s) => POLICY \in {"ignore", "warn"}
NormsAreProbabilities == \A k \in 1..Len(s.norms) :
      (5 \notin KINDS) => LET r == SubSeq(s.norms[k], 1, 2) IN RLe(<<0, 1>>, r) /\ RLe(r, <<1, 1>>)
\* C02
RecordBound == Len(s.norms) <= Len(s.data)
RecordTight == (POLICY \in {"ignore", "warn"}) => Len(s.norms) = Len(s.data)
\* C03
MinEssBound == ~Zero(s) => TRUE
CanonicalInv == CANON => \A i \in 1..N(s) : s.locs[i][2] >= 0
CountsCoupled == s.cc = s.rc

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
DataAppendOnly == [][Prefix(s.data, s'.data) /\ Prefix(s.norms, s'.norms)]_vars
MinEssMonotone == [][RLe(s'.miness, s.miness)]_vars
CountMonotone == [][s'.rc >= s.rc]_vars
FailureIsAtomic == [][(s'.exn = "ValueError" /\ POLICY # "bogus") =>
                        s'.W = s.W /\ s'.locs = s.locs /\ s'.data = s.data /\ s'.norms = s.norms]_vars
NoSilentResample == [][(s'.rc > s.rc /\ Len(s'.data) = Len(s.data) + 1 /\ s.pc = s'.pc) =>
                          s'.jr]_vars
ResetTouchesOnlyCloud == [][s'.pc > s.pc /\ Len(s'.data) = Len(s.data) =>
                        /\ s'.norms = s.norms /\ s'.rc = s.rc /\ s'.miness = s.miness]_vars
=============================================================================
