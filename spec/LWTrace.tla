------------------------------ MODULE LWTrace ------------------------------
(* Recorded calls of the real resampler, judged against LiuWest.tla.  Slots  *)
(* are anonymous in the trace, so a round is a bag of candidates; a candidate*)
(* is <<ancestor, noise token, ...>> decoded from its location.              *)
EXTENDS Rat, Json, IOUtils, Bags
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, bad
tvars == <<t, l, bad>>
T == Traces[t]
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
AsBag(q) == [x \in RangeOf(q) |-> Count(q, x)]
Anc(c) == c[1]
Rejected(r) == SelectSeq([i \in DOMAIN r.cands |-> <<r.cands[i], r.valid[i]>>], LAMBDA p : ~p[2])
Accepted(r) == SelectSeq([i \in DOMAIN r.cands |-> <<r.cands[i], r.valid[i]>>], LAMBDA p : p[2])
Ancs(q) == [i \in DOMAIN q |-> q[i][1]]          \* of a sequence of candidates
Firsts(q) == [i \in DOMAIN q |-> q[i][1]]        \* of a sequence of <<candidate, valid>>
Tokens(c) == {c[i] : i \in 2..Len(c)}

\* judge one round against the candidates that were pending before it
JudgeRound(k) ==
    LET r == T.rounds[k] IN
    (IF \E i \in DOMAIN r.cands : Anc(r.cands[i]) = 0 THEN {"undecodable_candidate"} ELSE
    (IF \E i \in DOMAIN r.cands : T.weights[Anc(r.cands[i])] = 0 THEN {"weightless_ancestor"} ELSE {})
    \cup (IF k = 1 THEN (IF Len(r.cands) # T.n THEN {"first_round_size"} ELSE {})
          ELSE Bind(Firsts(Rejected(T.rounds[k - 1])), LAMBDA pq :
               (IF Len(r.cands) # Len(pq) THEN {"redraws_more_or_less_than_rejected"}
                ELSE IF AsBag(Ancs(r.cands)) # AsBag(Ancs(pq)) THEN {"redrawn_around_other_ancestor"} ELSE {})))
    \cup (IF \E i, j \in DOMAIN r.cands : i < j /\ Tokens(r.cands[i]) \cap Tokens(r.cands[j]) # {} THEN {"noise_shared"} ELSE {})
    \cup (IF \E k2 \in 1..(k - 1) : \E i \in DOMAIN r.cands, j \in DOMAIN T.rounds[k2].cands :
              Tokens(r.cands[i]) \cap Tokens(T.rounds[k2].cands[j]) # {} THEN {"noise_reused"} ELSE {})
    \cup (IF k > T.maxiter THEN {"iteration_limit"} ELSE {}))

AllAccepted == FoldLeft(LAMBDA a, r : a \o Firsts(Accepted(r)), <<>>, T.rounds)
JudgeEnd ==
    LET R == Len(T.rounds)
        left == IF R = 0 THEN <<>> ELSE Firsts(Rejected(T.rounds[R]))
    IN
    (IF T.exn # "" THEN {"exception." \o T.exn} ELSE
    (IF Len(T.final) # T.n THEN {"particle_number"} ELSE {})
    \cup (IF ~T.uniform THEN {"weights_not_uniform"} ELSE {})
    \cup (IF ~T.unchanged THEN {"input_modified"} ELSE {})
    \cup (IF T.post /\ R = 0 THEN {"validity_not_consulted"} ELSE {})
    \cup (IF ~T.post /\ R > 0 THEN {"validity_consulted"} ELSE {})
    \cup (IF T.post /\ AsBag(T.final) # AsBag(AllAccepted \o left) THEN {"final_particles"} ELSE {})
    \cup (IF ~T.post /\ (\E i \in DOMAIN T.final : Anc(T.final[i]) = 0) THEN {"undecodable_candidate"} ELSE {})
    \cup (IF ~T.post /\ (\E i \in DOMAIN T.final : Anc(T.final[i]) > 0 /\ T.weights[Anc(T.final[i])] = 0) THEN {"weightless_ancestor"} ELSE {})
    \cup (IF ~T.post /\ (\E i, j \in DOMAIN T.final : i < j /\ Tokens(T.final[i]) \cap Tokens(T.final[j]) # {}) THEN {"noise_shared"} ELSE {})
    \cup (IF Len(left) > 0 /\ (R # T.maxiter \/ ~T.warned) THEN {"gave_up_without_warning"} ELSE {})
    \cup (IF Len(left) = 0 /\ T.warned THEN {"spurious_warning"} ELSE {})
    \* proportional ancestry on large runs: six standard deviations
    \cup (IF T.stat THEN
            LET tot == SumSeq(T.weights) IN
            IF \E j \in DOMAIN T.weights :
                 LET c == T.counts[j]  w == T.weights[j]  d == c * tot - T.n0 * w IN
                 d * d > 40 * T.n0 * w * (tot - w) THEN {"ancestor_frequencies"} ELSE {}
          ELSE {}))

TraceInit == t \in DOMAIN Traces /\ l = 1 /\ bad = {}
TraceNext == /\ bad = {} /\ l <= Len(T.rounds) + 1
             /\ \E b \in {IF l <= Len(T.rounds) THEN JudgeRound(l) ELSE JudgeEnd} :
                   bad' = b /\ l' = (IF b = {} THEN l + 1 ELSE l) /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Verdict == (bad = {} /\ l <= Len(T.rounds) + 1) \/
           PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {}, l |-> l, bad |-> SetToSeq(bad)]))
=============================================================================
