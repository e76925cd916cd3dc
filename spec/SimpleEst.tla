------------------------------ MODULE SimpleEst ------------------------------
(***************************************************************************)
(* The one-call estimators (C21): a data source is read, each of its rows   *)
(* becomes one update, and the posterior is summarised.                     *)
(*   q     the call: estimator, form of the data, order of its columns,     *)
(*         prior limits, number of particles, whether the updater is wanted *)
(*   rows  the table: [n (counts), x (time or length), k (shots), r]        *)
(*   fed   the updates made                                                 *)
(*   ret   what came back                                                   *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS SIM, MAXROWS
VARIABLES q, rows, fed, ret
vars == <<q, rows, fed, ret>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
Ests == {"prec", "rb", "irb"}
Tables == {"float", "int", "record", "recarray", "path", "file", "text"}
Unsupported == {"list", "dict", "none", "number", "tuple"}
Cols(e) == IF e = "prec" THEN <<"counts", "t", "n_shots">> ELSE IF e = "rb" THEN <<"counts", "m", "n_shots">> ELSE <<"counts", "m", "n_shots", "reference">>
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
\* columns of a record may come in any order among others; those of a plain table are told by position
Orders(e, f) == IF f \in {"record", "recarray"} THEN Perms(RangeOf(Cols(e))) ELSE {Cols(e)}
Lows == {<<0, 1>>, <<1, 4>>, <<1, 2>>}
Highs == {<<3, 4>>, <<1, 1>>}
\* box of the prior, parameter by parameter; of randomized benchmarking, A + B must not exceed one
Box(e, lo, hi) == IF e = "prec" THEN <<<<lo, hi>>>>
    ELSE (IF e = "irb" THEN <<<<lo, hi>>>> ELSE <<>>) \o <<<<lo, hi>>, <<<<0, 1>>, <<1, 1>>>>, <<<<0, 1>>, <<1, 1>>>>>>
Row(e, f) == CHOOSE r \in {[n |-> CHOOSE n \in RandomSubset(1, 0..k) : TRUE,
                            x |-> IF e = "prec" THEN (IF f = "int" THEN RInt(CHOOSE a \in RandomSubset(1, 0..9) : TRUE) ELSE Red(CHOOSE a \in RandomSubset(1, 0..40) : TRUE, 8))
                                  ELSE RInt(CHOOSE a \in RandomSubset(1, {1, 2, 3, 5, 10, 40}) : TRUE),
                            k |-> k, r |-> CHOOSE b \in RandomSubset(1, BOOLEAN) : TRUE] : k \in RandomSubset(1, {0, 1, 2, 3, 5, 12, 40, 300})} : TRUE
Init == q = <<>> /\ rows = <<>> /\ fed = <<>> /\ ret = <<>>
Setup == /\ q = <<>> /\ UNCHANGED <<fed, ret>>
    /\ \E e \in Pick(Ests), f \in (IF SIM THEN {CHOOSE x \in RandomSubset(1, IF 1 \in RandomSubset(1, 1..12) THEN Unsupported ELSE Tables) : TRUE} ELSE {"float", "record", "list"}),
          lo \in Pick(IF SIM THEN Lows ELSE {<<1, 4>>}), hi \in Pick(IF SIM THEN Highs ELSE {<<1, 1>>}), np \in Pick(IF SIM THEN {0, 30, 80, 200} ELSE {30}), all \in Pick(BOOLEAN),
          m \in Pick(IF SIM THEN {0, 1, 1, 2, 2, 3, 4, MAXROWS} ELSE 0..2), given \in Pick(IF SIM THEN 0..3 ELSE {3}), extra \in Pick(BOOLEAN) :
       /\ \E o \in Pick(Orders(e, f)) :
            q' = [est |-> e, form |-> f, order |-> o, extra |-> extra /\ f \in {"record", "recarray"}, lo |-> IF given \in {1, 3} THEN lo ELSE <<0, 1>>, hi |-> IF given \in {2, 3} THEN hi ELSE <<1, 1>>,
                  given |-> given, np |-> np, all |-> all]
       /\ \E rs \in (IF SIM THEN {[i \in 1..m |-> Row(e, f)]} ELSE [1..m -> {[n |-> 1, x |-> <<3, 1>>, k |-> 2, r |-> TRUE], [n |-> 0, x |-> <<1, 1>>, k |-> 1, r |-> FALSE]}]) : rows' = rs
Field(r, c) == CASE c = "counts" -> RInt(r.n) [] c \in {"t", "m"} -> r.x [] c = "n_shots" -> RInt(r.k) [] OTHER -> IF r.r THEN <<1, 1>> ELSE <<0, 1>>
\* an empty file has no table
Readable == q.form \in Tables
Reject == q # <<>> /\ ret = <<>> /\ ~Readable /\ ret' = [exc |-> "TypeError"] /\ UNCHANGED <<q, rows, fed>>
Feed == /\ q # <<>> /\ ret = <<>> /\ Readable /\ Len(fed) < Len(rows)
        /\ LET r == rows[Len(fed) + 1] IN fed' = Append(fed, [o |-> r.n, x |-> r.x, n |-> r.k, ref |-> q.est = "irb" /\ r.r])
        /\ UNCHANGED <<q, rows, ret>>
NPar(e) == Len(Box(e, <<0, 1>>, <<1, 1>>))
Default(e) == IF e = "prec" THEN 6000 ELSE 8000
Return == /\ q # <<>> /\ ret = <<>> /\ Readable /\ Len(fed) = Len(rows)
          /\ ret' = [exc |-> "", scalar |-> NPar(q.est) = 1, n |-> IF q.all THEN 3 ELSE 2, np |-> IF q.np = 0 THEN Default(q.est) ELSE q.np, box |-> Box(q.est, q.lo, q.hi)]
          /\ UNCHANGED <<q, rows, fed>>
Next == Setup \/ Reject \/ Feed \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Reject \/ Feed \/ Return)

\* every row once, in order, whatever the order of the columns
InOrder == \A i \in DOMAIN fed : fed[i].o = rows[i].n /\ fed[i].x = rows[i].x /\ fed[i].n = rows[i].k
AllFed == (ret # <<>> /\ ret.exc = "") => Len(fed) = Len(rows)
NoneFed == (ret # <<>> /\ ret.exc # "") => fed = <<>>
Answered == (q # <<>>) ~> (ret # <<>>)
Emit == ret = <<>> \/ PrintT("@@" \o ToJson([q |-> q, rows |-> rows, fed |-> fed, ret |-> ret,
            table |-> [i \in DOMAIN rows |-> [j \in DOMAIN q.order |-> Field(rows[i], q.order[j])]]]))
=============================================================================
