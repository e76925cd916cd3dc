----------------------------- MODULE Heuristics ------------------------------
(***************************************************************************)
(* Experiment heuristics and the experiment designer (C18), all attached    *)
(* to one updater.                                                          *)
(*   c     configuration: the sparse heuristic's scale, base and form, the  *)
(*         PGH's iteration limit, the objective's coefficients              *)
(*   nd    data seen by the updater                                         *)
(*   x     its particles (integer points; draws name them by index)         *)
(*   best  designs of least objective since the last new experiment, with   *)
(*         that objective: [v, es], v = <<1,0>> (infinity) when there is none *)
(*   seen  every stored design since then (history)                         *)
(* Experiments are records [t, v, k]; the objective is                      *)
(*   (t - t0)^2 + (v1 - 1)^2 + (v2 + 2)^2 + R[k]   with cost c0 + c1 t      *)
(*   added ks times, or multiplied ks times                                 *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS DEPTH, SIM
VARIABLES c, nd, x, best, seen, h
vars == <<c, nd, x, best, seen, h>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
Bases == {<<1, 1>>, <<2, 1>>, <<3, 2>>, <<9, 8>>, <<5, 4>>, <<1, 2>>}
Scales == {<<1, 1>>, <<1, 2>>, <<3, 1>>}
None == [v |-> <<1, 0>>, es |-> {}]
R == <<0, 1, 3>>
\* half of the designers keep their guesses (NULL)
Algos == IF SIM THEN {"NULL", "keep", "keep2", "CG", "NCG", "NELDER_MEAD"} ELSE {"NULL", "CG"}
Keeps == {"NULL", "keep", "keep2"}

RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN <<1, 1>> ELSE RMul(a, RPow(a, n - 1))
Sq(a) == RMul(a, a)
Risk(e) == RAdd(RAdd(Sq(RSub(e.t, RInt(c.t0))), RAdd(Sq(RSub(e.v[1], <<1, 1>>)), Sq(RSub(e.v[2], <<-2, 1>>)))), RInt(R[e.k + 1]))
Cost(e) == RAdd(RInt(c.c0), RMul(RInt(c.c1), e.t))
Objective(e, mult, ks) == IF mult THEN RMul(Risk(e), RPow(Cost(e), ks)) ELSE RAdd(Risk(e), RMul(RInt(ks), Cost(e)))
\* where an optimiser that succeeds ends up (with multiplied costs the cost is constant)
Opt(e, field, mult, ks) == CASE field = "v" -> [e EXCEPT !.v = << <<1, 1>>, <<-2, 1>> >>]
    [] OTHER -> [e EXCEPT !.t = IF mult THEN RInt(c.t0) ELSE RSub(RInt(c.t0), <<ks * c.c1, 2>>)]
Better(b, e, o) == IF RLt(o, b.v) THEN [v |-> o, es |-> {e}] ELSE IF REq(o, b.v) THEN [v |-> o, es |-> b.es \cup {e}] ELSE b

Init == c = <<>> /\ nd = 0 /\ x = <<>> /\ best = None /\ seen = <<>> /\ h = <<>>
Setup == /\ c = <<>> /\ UNCHANGED <<nd, best, seen, h>>
    /\ \E sc \in Pick(IF SIM THEN Scales ELSE {<<3, 1>>}), ba \in Pick(IF SIM THEN Bases ELSE {<<3, 2>>}), fm \in Pick(IF SIM THEN {"scalar", "field", "others"} ELSE {"others"}),
          mi \in Pick(1..(IF SIM THEN 4 ELSE 2)), t0 \in Pick(IF SIM THEN -3..3 ELSE {1}), c0 \in Pick(IF SIM THEN 1..3 ELSE {2}), c1 \in Pick(IF SIM THEN -1..2 ELSE {1}), d \in Pick(IF SIM THEN 1..2 ELSE {1}), al \in Pick(Algos),
          n \in Pick(IF SIM THEN 2..4 ELSE {2}) :
       /\ c' = [scale |-> sc, base |-> ba, form |-> fm, maxiters |-> mi, t0 |-> t0, c0 |-> c0, c1 |-> c1, dim |-> d, algo |-> al]
       /\ \E p \in (IF SIM THEN {[i \in 1..n |-> CHOOSE q \in {[j \in 1..d |-> CHOOSE r \in RandomSubset(1, 0..2) : TRUE]} : TRUE]} ELSE {<<<<0>>, <<2>>>>, <<<<1>>, <<1>>>>}) : x' = p
Update == \E m \in Pick(IF SIM THEN 1..2 ELSE {1}) : /\ nd' = nd + m /\ nd' <= 6 /\ h' = Append(h, [op |-> "update", n |-> m]) /\ UNCHANGED <<c, x, best, seen>>
Sparse == h' = Append(h, [op |-> "sparse", t |-> RMul(c.scale, RPow(c.base, nd))]) /\ UNCHANGED <<c, nd, x, best, seen>>
\* a guess from the particles: pairs are drawn until two differ, at most maxiters pairs
D2(a, b) == SumSeq([j \in DOMAIN a |-> (a[j] - b[j]) * (a[j] - b[j])])
Streams == IF SIM THEN {[i \in 1..(2 * c.maxiters) |-> CHOOSE r \in RandomSubset(1, 1..Len(x)) : TRUE]} ELSE [1..(2 * c.maxiters) -> 1..Len(x)]
Pgh == \E s \in Streams :
    LET diff == {p \in 1..c.maxiters : D2(x[s[2 * p - 1]], x[s[2 * p]]) > 0}
        p == IF diff = {} THEN 0 ELSE CHOOSE p \in diff : \A q \in diff : p <= q IN
    /\ h' = Append(h, [op |-> "pgh", draws |-> s, used |-> IF p = 0 THEN 2 * c.maxiters ELSE 2 * p, ok |-> p > 0,
                       x |-> IF p = 0 THEN <<>> ELSE x[s[2 * p - 1]], xp |-> IF p = 0 THEN <<>> ELSE x[s[2 * p]], d2 |-> IF p = 0 THEN 0 ELSE D2(x[s[2 * p - 1]], x[s[2 * p]])])
    /\ UNCHANGED <<c, nd, x, best, seen>>
Ens == \E a \in Pick(0..2), b \in Pick(0..2), d \in Pick(0..2) : /\ a + b + d > 0 /\ h' = Append(h, [op |-> "ens", pr |-> <<a, b, d>>, support |-> {i \in 1..3 : <<a, b, d>>[i] > 0}])
                                   /\ UNCHANGED <<c, nd, x, best, seen>>
\* a design from a guess: the algorithms in Keeps return the guess
Guess == IF SIM THEN {[t |-> Red(CHOOSE a \in RandomSubset(1, -6..6) : TRUE, CHOOSE b \in RandomSubset(1, {1, 1, 2, 16}) : TRUE),
                       v |-> [j \in 1..2 |-> RInt(CHOOSE a \in RandomSubset(1, -2..2) : TRUE)], k |-> CHOOSE a \in RandomSubset(1, 0..2) : TRUE]}
         ELSE {[t |-> RInt(a), v |-> <<RInt(1), RInt(b)>>, k |-> 0] : a \in {1, 2}, b \in {-2, 0}}
\* (the simplex search may stall away from the optimum in two dimensions)
Design == \E f \in Pick(IF c.algo = "NELDER_MEAD" THEN {"t"} ELSE {"t", "v"}), st \in Pick(BOOLEAN),
             mult \in Pick(BOOLEAN), ks \in Pick(IF SIM THEN 0..2 ELSE {1}), fn \in Pick(IF SIM THEN {"array", "callable", "alias"} ELSE {"array"}) : \E g \in Guess :
    LET mu == mult /\ c.c1 = 0
        e == IF c.algo \in Keeps THEN g ELSE Opt(g, f, mu, ks)
        o == Objective(e, mu, ks)
        b == IF st THEN Better(best, e, o) ELSE best IN
    /\ best' = b /\ seen' = (IF st THEN Append(seen, [e |-> e, o |-> o]) ELSE seen)
    /\ h' = Append(h, [op |-> "design", field |-> f, store |-> st, mult |-> mu, ks |-> ks, form |-> fn, guess |-> g,
                       out |-> IF st THEN SetToSeq(b.es) ELSE <<e>>, nd |-> nd])
    /\ UNCHANGED <<c, nd, x>>
NewExp == best' = None /\ seen' = <<>> /\ h' = Append(h, [op |-> "new_exp"]) /\ UNCHANGED <<c, nd, x>>
\* the caller overwrites the array that the last design returned
Scribble == Len(h) > 0 /\ h[Len(h)].op = "design" /\ h' = Append(h, [op |-> "scribble"]) /\ UNCHANGED <<c, nd, x, best, seen>>
Next == Setup \/ (c # <<>> /\ Len(h) < DEPTH /\ (Update \/ Sparse \/ Pgh \/ Ens \/ Design \/ Design \/ Design \/ Design \/ NewExp \/ Scribble))
Spec == Init /\ [][Next]_vars

\* the best design is one that was seen since the last new experiment, and none seen is better
BestIsSeen == \A e \in best.es : \E i \in DOMAIN seen : seen[i].e = e /\ REq(seen[i].o, best.v)
BestIsLeast == \A i \in DOMAIN seen : RLe(best.v, seen[i].o)
Forgotten == seen = <<>> => best = None
\* within one experiment the best objective never rises
NeverWorse == [][(c # <<>> /\ h'[Len(h')].op # "new_exp") => RLe(best'.v, best.v)]_vars
\* of the designs made, every field but the designed one is as guessed
OthersKept == \A i \in DOMAIN h : (h[i].op = "design" /\ ~h[i].store) =>
    LET e == h[i].out[1]  g == h[i].guess IN e.k = g.k /\ (IF h[i].field = "t" THEN e.v = g.v ELSE e.t = g.t)
SparseGrows == \A i, j \in DOMAIN h : (i < j /\ h[i].op = "sparse" /\ h[j].op = "sparse" /\ RLe(<<1, 1>>, c.base)) => RLe(h[i].t, h[j].t)
DistinctOrFail == \A i \in DOMAIN h : h[i].op = "pgh" => (h[i].ok <=> h[i].d2 > 0) /\ (~h[i].ok => h[i].used = 2 * c.maxiters)
Emit == Len(h) < DEPTH \/ PrintT("@@" \o ToJson([c |-> c, x |-> x, steps |-> h]))
=============================================================================
