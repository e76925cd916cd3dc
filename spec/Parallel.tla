------------------------------ MODULE Parallel -------------------------------
(***************************************************************************)
(* A model whose evaluation is spread over the engines of a direct view     *)
(* (C15).  Items are parameter vectors (or experiments, when a simulation   *)
(* is split that way).  A call above the serial threshold cuts its items    *)
(* into at most eng blocks; engines finish in any order; the call returns   *)
(* when all have, with the item results in item order.                      *)
(*   eng   engines of the view          thr   serial threshold, -1: default *)
(*   view  FALSE once restored from a pickle (engines are gone)             *)
(*   cur   the call in progress: its blocks, the blocks still running and   *)
(*         the order in which the others finished                           *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS DEPTH, ENG, ITEMS, SIM
VARIABLES c, view, cur, calls, sims, got, h
vars == <<c, view, cur, calls, sims, got, h>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
Idle == [op |-> "idle"]
Thr == IF c.thr = -1 THEN 10 * c.eng ELSE c.thr
\* cuts of 1..n into k non-empty consecutive blocks: the positions of the block ends
Ends(n, k) == {e \in [1..k -> 1..n] : e[k] = n /\ \A i \in 1..(k - 1) : e[i] < e[i + 1]}
\* in simulation one balanced cut is enough: the ends do not show in results
Cuts(n, k) == IF SIM THEN {[i \in 1..k |-> (n * i) \div k]} ELSE Ends(n, k)
Block(e, i) == ((IF i = 1 THEN 0 ELSE e[i - 1]) + 1)..e[i]

Init == c = <<>> /\ view = TRUE /\ cur = Idle /\ calls = 0 /\ sims = 0 /\ got = <<>> /\ h = <<>>
Choose == /\ c = <<>> /\ UNCHANGED <<view, cur, calls, sims, got, h>>
          /\ \E n \in Pick(ENG), t \in Pick({-1, 0, 1, 3}), p \in Pick(BOOLEAN) : c' = [eng |-> n, thr |-> t, purge |-> p]
Small == IF SIM THEN {1, 2, 3} ELSE {1}
Fail == {FALSE, FALSE, TRUE}
\* a call: op "lik" / "sim"; n items to split, m of the other kind, r outcomes or repetitions
Call == \E op \in Pick({"lik", "sim", "simexp"}), n \in Pick(ITEMS), m \in Pick(Small), r \in Pick(Small) :
    LET par == n > Thr  serialok == ~par
        rec == [op |-> op, n |-> n, m |-> m, r |-> r, par |-> par, exc |-> IF par /\ ~view THEN "RuntimeError" ELSE "",
                calls |-> calls + (IF op = "lik" THEN n * m * r ELSE 0), sims |-> sims + (IF op = "lik" THEN 0 ELSE n * m * r)] IN
    /\ calls' = rec.calls /\ sims' = rec.sims /\ UNCHANGED <<c, view>>
    /\ IF par /\ view
       THEN \E k \in Pick(1..Min2(c.eng, n)) : \E e \in Cuts(n, k) :
              /\ cur' = [op |-> op, rec |-> rec, e |-> e, run |-> 1..k, order |-> <<>>] /\ got' = [i \in 1..k |-> <<>>] /\ UNCHANGED h
       ELSE cur' = Idle /\ got' = <<>> /\ h' = Append(h, rec @@ [order |-> <<>>])
\* some engine finishes its block
Running == cur.op \notin {"idle", "done"}
Finish == Running /\ \E i \in cur.run :
    /\ cur' = [cur EXCEPT !.run = @ \ {i}, !.order = Append(@, i)]
    /\ got' = [got EXCEPT ![i] = [x \in 1..Cardinality(Block(cur.e, i)) |-> (IF i = 1 THEN 0 ELSE cur.e[i - 1]) + x]]
    /\ UNCHANGED <<c, view, calls, sims, h>>
Gather == /\ Running /\ cur.run = {} /\ h' = Append(h, cur.rec @@ [order |-> cur.order])
          /\ cur' = [op |-> "done", n |-> cur.rec.n] /\ UNCHANGED <<c, view, calls, sims, got>>
Rest == /\ UNCHANGED <<c, calls, sims, got>> /\ cur' = Idle
        /\ \/ view' = FALSE /\ h' = Append(h, [op |-> "pickle", calls |-> calls, sims |-> sims])
           \/ \E f \in Pick(Fail) : UNCHANGED view /\ h' = Append(h, [op |-> "clear", fail |-> f, purge |-> view, client |-> view /\ c.purge /\ ~f])
Next == Choose \/ (c # <<>> /\ IF cur.op \in {"idle", "done"} THEN Len(h) < DEPTH /\ (Call \/ Call \/ Call \/ Rest)
                               ELSE IF cur.run # {} THEN Finish ELSE Gather)
Spec == Init /\ [][Next]_vars /\ WF_vars(Finish) /\ WF_vars(Gather)

\* whatever the cut and the order of completion, the blocks put together are the items in order
Assembled == cur.op = "done" => FlattenSeq(got) = [x \in 1..cur.n |-> x]
Completes == (cur.op \notin {"idle", "done"}) ~> (cur.op \in {"idle", "done"})
NoEngineBelow == (c # <<>> /\ cur.op \notin {"idle", "done"}) => (view /\ cur.rec.n > Thr)
Emit == Len(h) < DEPTH \/ cur.op \notin {"idle", "done"} \/ PrintT("@@" \o ToJson([c |-> c, steps |-> h]))
=============================================================================
