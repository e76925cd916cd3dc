-------------------------------- MODULE Ale ----------------------------------
(***************************************************************************)
(* Adaptive likelihood estimation (C20).  The simulator's outcomes for      *)
(* model i and experiment j are the periodic sequence pat[i][j]; pos[i][j]  *)
(* of them have been drawn.                                                 *)
(*   c     error tolerance, least number of samples, step, hedging of the   *)
(*         estimate and of the stopping rule                                *)
(*   cur   the likelihood call in progress: models, experiments, outcomes,  *)
(*         samples N drawn for every entry and successes n                  *)
(*   sims, calls   what the model's counters must read                      *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS SIM, DEPTH, MAXSAMP
VARIABLES c, pat, pos, cur, sims, calls, h
vars == <<c, pat, pos, cur, sims, calls, h>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
Idle == [on |-> FALSE, ms |-> <<>>, es |-> <<>>, os |-> <<>>, N |-> 0, n |-> <<>>]
NM == 3
NE == 2
Out(i, j, k) == LET p == pat[i][j] IN p[((k - 1) % Len(p)) + 1]
Est(n, N, hd) == RDiv(RAdd(RInt(n), hd), RAdd(RInt(N), RMul(<<2, 1>>, hd)))
\* the squared error of an estimate
Err2(n, N) == LET p == Est(n, N, c.ah) IN RDiv(RMul(p, RSub(<<1, 1>>, p)), RAdd(RInt(N + 1), RMul(<<2, 1>>, c.ah)))
Tol2 == RMul(c.tol, c.tol)
Below(n, N) == RLt(Err2(n, N), Tol2)
Enough == \A i \in DOMAIN cur.n, j \in DOMAIN cur.es : Below(cur.n[i][j], cur.N)
\* comparisons too close to call in floating point (an estimate of one half against a power of two is exact)
Tie(n, N) == REq(Err2(n, N), Tol2) /\ ~(Est(n, N, c.ah) = <<1, 2>> /\ c.tol \in {<<1, 4>>, <<1, 8>>})
NoTie == SIM => \A i \in DOMAIN cur.n, j \in DOMAIN cur.es : ~Tie(cur.n[i][j], cur.N)

Init == c = <<>> /\ pat = <<>> /\ pos = [i \in 1..NM |-> [j \in 1..NE |-> 0]] /\ cur = Idle /\ sims = 0 /\ calls = 0 /\ h = <<>>
Tols == IF SIM THEN {<<1, 4>>, <<1, 8>>, <<3, 10>>, <<1, 5>>, <<3, 20>>, <<1, 7>>, <<1, 3>>, <<1, 1>>} ELSE {<<1, 4>>, <<3, 10>>}
Hedges == IF SIM THEN {<<0, 1>>, <<1, 2>>, <<1, 1>>, <<2, 1>>, <<1, 4>>} ELSE {<<0, 1>>, <<1, 2>>}
Bits(z) == CHOOSE s \in {[k \in 1..m |-> CHOOSE b \in RandomSubset(1, 0..1) : TRUE] : m \in RandomSubset(1, {1, 1, 2, 3, 5, 7, 11})} : TRUE
Setup == /\ c = <<>> /\ UNCHANGED <<pos, cur, sims, calls, h>>
    /\ \E t \in Pick(Tols), mn \in Pick(IF SIM THEN 1..12 ELSE {1, 3}), st \in Pick(IF SIM THEN 1..9 ELSE {1, 2}), eh \in Pick(Hedges), ah \in Pick(Hedges) :
         c' = [tol |-> t, mn |-> mn, st |-> st, eh |-> eh, ah |-> ah]
    /\ \E p \in (IF SIM THEN {[i \in 1..NM |-> [j \in 1..NE |-> Bits(<<i, j>>)]]}
                 ELSE {[i \in 1..NM |-> [j \in 1..NE |-> IF i = 1 /\ j = 1 THEN x ELSE IF i = 1 THEN y ELSE <<0>>]] : x \in {<<0>>, <<0, 1>>, <<1, 1, 0>>}, y \in {<<1>>, <<1, 0>>}}) : pat' = p
Lists(S, m) == {q \in UNION {[1..k -> S] : k \in 1..m} : \A a, b \in DOMAIN q : a # b => q[a] # q[b]}
Begin == /\ c # <<>> /\ ~cur.on /\ Len(h) < DEPTH
         /\ \E ms \in Pick(IF SIM THEN Lists(1..NM, 3) ELSE {<<1>>, <<1, 2>>}), es \in Pick(IF SIM THEN Lists(1..NE, 2) ELSE {<<1>>, <<2, 1>>}),
               os \in Pick(IF SIM THEN {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<1, 1, 0>>} ELSE {<<0, 1>>}) :
            cur' = [on |-> TRUE, ms |-> ms, es |-> es, os |-> os, N |-> 0, n |-> [i \in DOMAIN ms |-> [j \in DOMAIN es |-> 0]]]
         /\ UNCHANGED <<c, pat, pos, sims, calls, h>>
Drawn(i, j, k) == SumSeq([r \in 1..k |-> Out(i, j, pos[i][j] + r)])
Advance(ms, es, k) == [i \in 1..NM |-> [j \in 1..NE |-> pos[i][j] + IF i \in RangeOf(ms) /\ j \in RangeOf(es) THEN k ELSE 0]]
Round == /\ cur.on /\ (cur.N = 0 \/ (NoTie /\ ~Enough)) /\ cur.N < MAXSAMP
         /\ \E k \in {IF cur.N = 0 THEN c.mn ELSE c.st} :
            /\ cur' = [cur EXCEPT !.N = @ + k, !.n = [i \in DOMAIN cur.ms |-> [j \in DOMAIN cur.es |-> @[i][j] + Drawn(cur.ms[i], cur.es[j], k)]]]
            /\ pos' = Advance(cur.ms, cur.es, k) /\ sims' = sims + Len(cur.ms) * Len(cur.es) * k
         /\ UNCHANGED <<c, pat, calls, h>>
Lik(o, i, j) == LET p == Est(cur.n[i][j], cur.N, c.eh) IN IF o = 0 THEN RSub(<<1, 1>>, p) ELSE p
Finish == /\ cur.on /\ cur.N > 0 /\ NoTie /\ Enough
          /\ calls' = calls + Len(cur.os) * Len(cur.ms) * Len(cur.es)
          /\ h' = Append(h, [op |-> "lik", ms |-> cur.ms, es |-> cur.es, os |-> cur.os, N |-> cur.N, n |-> cur.n, sims |-> sims, calls |-> calls', pos |-> pos,
                             L |-> [o \in DOMAIN cur.os |-> [i \in DOMAIN cur.ms |-> [j \in DOMAIN cur.es |-> Lik(cur.os[o], i, j)]]]])
          /\ cur' = Idle /\ UNCHANGED <<c, pat, pos, sims>>
Simulate == /\ c # <<>> /\ ~cur.on /\ Len(h) < DEPTH
    /\ \E ms \in Pick(IF SIM THEN Lists(1..NM, 3) ELSE {<<2>>}), es \in Pick(IF SIM THEN Lists(1..NE, 2) ELSE {<<1>>}), k \in Pick(IF SIM THEN 1..3 ELSE {2}) :
       /\ pos' = Advance(ms, es, k) /\ sims' = sims + Len(ms) * Len(es) * k
       /\ h' = Append(h, [op |-> "sim", pos |-> pos', ms |-> ms, es |-> es, k |-> k, sims |-> sims', calls |-> calls,
                          out |-> [r \in 1..k |-> [i \in DOMAIN ms |-> [j \in DOMAIN es |-> Out(ms[i], es[j], pos[ms[i]][es[j]] + r)]]]])
    /\ UNCHANGED <<c, pat, cur, calls>>
Next == Setup \/ Begin \/ Round \/ Finish \/ Simulate
Spec == Init /\ [][Next]_vars /\ WF_vars(Round \/ Finish)

Counts == cur.on => /\ cur.N \in {0} \cup {c.mn + k * c.st : k \in 0..MAXSAMP}
                    /\ \A i \in DOMAIN cur.n, j \in DOMAIN cur.es : cur.n[i][j] \in 0..cur.N
Normal == \A k \in DOMAIN h : h[k].op = "lik" => \A i \in DOMAIN h[k].ms, j \in DOMAIN h[k].es :
    /\ \A o \in DOMAIN h[k].os : RLe(<<0, 1>>, h[k].L[o][i][j]) /\ RLe(h[k].L[o][i][j], <<1, 1>>)
    /\ \A o, u \in DOMAIN h[k].os : h[k].os[o] # h[k].os[u] => RAdd(h[k].L[o][i][j], h[k].L[u][i][j]) = <<1, 1>>
\* no sample too many: either the least number, or one step earlier was not enough
NotLonger == \A k \in DOMAIN h : h[k].op = "lik" => \/ h[k].N = c.mn
    \/ \E i \in DOMAIN h[k].ms, j \in DOMAIN h[k].es :
          ~Below(h[k].n[i][j] - SumSeq([r \in 1..c.st |-> Out(h[k].ms[i], h[k].es[j], h[k].pos[h[k].ms[i]][h[k].es[j]] - r + 1)]), h[k].N - c.st)
LongEnough == \A k \in DOMAIN h : h[k].op = "lik" => \A i \in DOMAIN h[k].ms, j \in DOMAIN h[k].es : Below(h[k].n[i][j], h[k].N)
Tally == sims = SumSeq([i \in 1..NM |-> SumSeq(pos[i])])
Stops == cur.on ~> ~cur.on
Emit == Len(h) < DEPTH \/ PrintT("@@" \o ToJson([c |-> c, pat |-> pat, steps |-> h]))
=============================================================================
