------------------------------- MODULE Domains -------------------------------
(***************************************************************************)
(* Outcome domains (C16) as expressions                                     *)
(*   [k |-> "int",  lo, hi]      integers from lo to hi (NegInf / PosInf)    *)
(*   [k |-> "real", lo, hi]      real interval                              *)
(*   [k |-> "mult", n, m]        m-tuples of naturals with sum n            *)
(*   [k |-> "prod", ds, form]    Cartesian product, factors passed one by   *)
(*                               one or as a list                           *)
(* A point is the flat tuple of its components.  Components are counted in  *)
(* halves so that 3 stands for 3/2; Nan, Inf and Cplx stand for themselves. *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS DEPTH, BIG
VARIABLES d, h
vars == <<d, h>>
Pick(S) == RandomSubset(1, S)
One(S) == CHOOSE v \in Pick(S) : TRUE
NegInf == -1000
PosInf == 1000
Nan == 901
Inf == 902
Cplx == 903

RECURSIVE Compositions(_, _)
\* m-tuples of naturals with sum n
Compositions(n, m) == IF m = 1 THEN {<<n>>} ELSE UNION {{<<i>> \o t : t \in Compositions(n - i, m - 1)} : i \in 0..n}
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN 1 ELSE (Binom(n - 1, k - 1) * n) \div k

RECURSIVE Width(_)
Width(x) == CASE x.k \in {"int", "real"} -> 1 [] x.k = "mult" -> x.m [] x.k = "prod" -> SumSeq([i \in DOMAIN x.ds |-> Width(x.ds[i])])
RECURSIVE Finite(_)
Finite(x) == CASE x.k = "int" -> x.lo # NegInf /\ x.hi # PosInf [] x.k = "real" -> FALSE [] x.k = "mult" -> TRUE
               [] x.k = "prod" -> \A i \in DOMAIN x.ds : Finite(x.ds[i])
RECURSIVE Continuous(_)
Continuous(x) == CASE x.k = "real" -> TRUE [] x.k = "prod" -> \E i \in DOMAIN x.ds : Continuous(x.ds[i]) [] OTHER -> FALSE
RECURSIVE Count(_)
Count(x) == CASE x.k = "int" -> x.hi - x.lo + 1 [] x.k = "mult" -> Binom(x.n + x.m - 1, x.m - 1)
              [] x.k = "prod" -> FoldLeft(LAMBDA a, b : a * b, 1, [i \in DOMAIN x.ds |-> Count(x.ds[i])])
\* all members of a finite domain, in whole numbers
RECURSIVE Members(_)
Members(x) == CASE x.k = "int" -> {<<v>> : v \in x.lo..x.hi} [] x.k = "mult" -> Compositions(x.n, x.m)
                [] x.k = "prod" -> FoldLeft(LAMBDA A, B : {a \o b : a \in A, b \in B}, {<<>>}, [i \in DOMAIN x.ds |-> Members(x.ds[i])])
\* is the point p (in halves) a member?
RECURSIVE In(_, _)
In(x, p) == CASE x.k = "int" -> p[1] < 900 /\ p[1] % 2 = 0 /\ (x.lo = NegInf \/ p[1] >= 2 * x.lo) /\ (x.hi = PosInf \/ p[1] <= 2 * x.hi)
              [] x.k = "real" -> p[1] < 900 /\ (x.lo = NegInf \/ p[1] >= 2 * x.lo) /\ (x.hi = PosInf \/ p[1] <= 2 * x.hi)
              [] x.k = "mult" -> (\A i \in DOMAIN p : p[i] >= 0) /\ SumSeq(p) = 2 * x.n
              [] x.k = "prod" -> \A i \in DOMAIN x.ds :
                     Bind(SumSeq([j \in 1..(i - 1) |-> Width(x.ds[j])]), LAMBDA o : In(x.ds[i], SubSeq(p, o + 1, o + Width(x.ds[i]))))
\* domains to choose from
\* (the parameter keeps TLC from evaluating this once and for all)
Leaf(z) == Bind(One({"int", "int", "real", "mult", "inf"}), LAMBDA k :
          CASE k = "int" -> Bind(One(-3..3), LAMBDA lo : [k |-> "int", lo |-> lo, hi |-> lo + One(0..3)])
            [] k = "inf" -> One({[k |-> "int", lo |-> 0, hi |-> PosInf], [k |-> "int", lo |-> NegInf, hi |-> 2], [k |-> "int", lo |-> NegInf, hi |-> PosInf], [k |-> "int", lo |-> -2, hi |-> PosInf], [k |-> "int", lo |-> 3, hi |-> PosInf], [k |-> "int", lo |-> NegInf, hi |-> -2]})
            [] k = "real" -> One({[k |-> "real", lo |-> a, hi |-> b] : a \in {NegInf, -2, 0}, b \in {PosInf, 0, 1, 3}} \cup {[k |-> "real", lo |-> 2, hi |-> PosInf], [k |-> "real", lo |-> NegInf, hi |-> -1], [k |-> "real", lo |-> 3, hi |-> 3]})
            [] k = "mult" -> [k |-> "mult", n |-> One(0..3), m |-> One(1..3)])
FinLeaf(z) == Bind(One({"int", "mult"}), LAMBDA k :
          IF k = "int" THEN Bind(One(-3..3), LAMBDA lo : [k |-> "int", lo |-> lo, hi |-> lo + One(0..2)])
          ELSE [k |-> "mult", n |-> One(0..2), m |-> One(1..3)])
Atom(fin) == IF fin THEN FinLeaf(fin) ELSE Leaf(fin)
Prod(fin) == [k |-> "prod", form |-> One({"args", "list"}), ds |-> [i \in 1..One({1, 2, 2, 3}) |-> Bind(i, LAMBDA z : Atom(fin))]]
Nest(fin) == [k |-> "prod", form |-> One({"args", "list"}), ds |-> [i \in 1..2 |-> IF One(1..2) + i > 2 THEN Prod(fin) ELSE Atom(fin)]]
Gen(depth, fin) == CASE depth = 0 -> Atom(fin) [] depth = 1 -> Prod(fin) [] OTHER -> Nest(fin)
\* some member (in halves), and something close to it
RECURSIVE Point(_)
Point(x) == CASE x.k = "int" -> <<2 * (IF x.lo # NegInf THEN x.lo + (IF x.hi = PosInf THEN One(0..4) ELSE One(0..(x.hi - x.lo)))
                                       ELSE IF x.hi # PosInf THEN x.hi - One(0..4) ELSE One(-4..4))>>
              [] x.k = "real" -> <<(IF x.lo # NegInf THEN 2 * x.lo + (IF x.hi = PosInf THEN One(0..9) ELSE One(0..(2 * (x.hi - x.lo))))
                                       ELSE IF x.hi # PosInf THEN 2 * x.hi - One(0..9) ELSE One(-9..9))>>
              [] x.k = "mult" -> Bind(One(Compositions(x.n, x.m)), LAMBDA t : [i \in DOMAIN t |-> 2 * t[i]])
              [] x.k = "prod" -> FlattenSeq([i \in DOMAIN x.ds |-> Bind(x.ds[i], LAMBDA y : Point(y))])
\* integer components only take integers, unless the domain is a single interval
Nudge(x, p) == Bind(One(DOMAIN p), LAMBDA i :
      IF x.k \in {"int", "real"} THEN <<One({p[1] + 1, p[1] - 1, p[1] + 8, p[1] - 8, Nan, Cplx} \cup (IF x.k = "int" THEN {Inf} ELSE {}))>>
      ELSE IF x.k = "mult" /\ Len(p) > 1 /\ One(BOOLEAN) THEN Bind(One(DOMAIN p \ {i}), LAMBDA j : [p EXCEPT ![i] = p[i] + 2 * One(1..4), ![j] = -2])
      ELSE [p EXCEPT ![i] = p[i] + One({-2, 2, 4, -8, 8})])
Shapes == {<<1>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<2, 1, 3>>, <<>>, <<4>>}
Size(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Layouts == {"C", "C", "F", "strided", "reversed", "swapped"}

Init == d = <<>> /\ h = <<>>
Choose == /\ d = <<>> /\ UNCHANGED h
          /\ \E n \in Pick(0..2), fin \in Pick(BOOLEAN) : \E x \in {Gen(n, fin)} : (IF Finite(x) THEN Count(x) <= 150 ELSE TRUE) /\ d' = x
Look == h' = Append(h, [op |-> "look", finite |-> Finite(d), continuous |-> Continuous(d), count |-> IF Finite(d) THEN Count(d) ELSE -1,
                        members |-> IF Finite(d) THEN Members(d) ELSE {}])
Probe == \E s \in Pick(Shapes), bad \in Pick({0, 0, 1, 1, 2}), lay \in Pick(Layouts) :
    \E ps \in {[i \in 1..Size(s) |-> Bind(i, LAMBDA z : Point(d))]} :
    \E qs \in {[i \in 1..Size(s) |-> IF bad > 0 /\ (i = Size(s) \/ One(1..3) = 1) THEN Nudge(d, ps[i]) ELSE ps[i]]} :
    h' = Append(h, [op |-> "probe", shape |-> s, layout |-> lay, points |-> qs, in |-> \A i \in DOMAIN qs : In(d, qs[i])])
\* tuples of another length belong to no multinomial domain, whatever they add up to
Alien == /\ d.k = "mult"
         /\ \E m2 \in Pick((1..4) \ {d.m}) : \E ps \in {[i \in 1..2 |-> Bind(One(Compositions(d.n, m2)), LAMBDA t : [j \in DOMAIN t |-> 2 * t[j]])]} :
            h' = Append(h, [op |-> "alien", m2 |-> m2, points |-> ps])
Convert == /\ d.k \in {"mult", "prod"}
           /\ \E s \in Pick(Shapes), lay \in Pick(Layouts), lay2 \in Pick(Layouts) : \E ps \in {[i \in 1..Size(s) |-> Bind(i, LAMBDA z : Point(d))]} :
              h' = Append(h, [op |-> "convert", shape |-> s, layout |-> lay, layout2 |-> lay2, points |-> ps,
                              split |-> IF d.k = "prod" THEN [i \in DOMAIN d.ds |-> Width(d.ds[i])] ELSE <<d.m>>])
Next == (UNCHANGED d /\ d # <<>> /\ Len(h) < DEPTH /\ (Look \/ Probe \/ Probe \/ Convert \/ Alien)) \/ Choose
Spec == Init /\ [][Next]_vars

\* exactly the members pass, and there are as many as counted
Consistent == (d # <<>> /\ Finite(d)) => Bind(Members(d), LAMBDA M :
                 Cardinality(M) = Count(d) /\ \A p \in M : In(d, [i \in DOMAIN p |-> 2 * p[i]]))
ASSUME BIG => \A n \in 0..6, m \in 1..4 : Cardinality(Compositions(n, m)) = Binom(n + m - 1, m - 1)
Emit == Len(h) < DEPTH \/ PrintT("@@" \o ToJson([d |-> d, steps |-> h]))
=============================================================================
