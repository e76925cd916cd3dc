-------------------------------- MODULE Bases --------------------------------
(***************************************************************************)
(* Bases of Hermitian operators (C22) as trees: named bases, bases given by *)
(* their elements and labels, and tensor products of bases.  For every tree *)
(* its dimensions, what each element is called, of which elements of which  *)
(* leaves it is the product, and what an index picks.                       *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS SIM, MAXDIM
VARIABLES c, f
vars == <<c, f>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
Leaf(k, d, l) == [k |-> k, d |-> d, l |-> l, kids |-> <<>>]
Named == {Leaf("gm", d, "") : d \in {2, 3, 4}} \cup {Leaf("pauli", n, "") : n \in {1, 2}}
Given == {Leaf("given", d, l) : d \in {2, 3}, l \in {"", "Q", "list"}}
Leaves == Named \cup Given
Node(q) == [k |-> "product", d |-> 0, l |-> "", kids |-> q]
\* products of leaves, and of products
Ones == {Node(<<a>>) : a \in Leaves}
Twos == {Node(<<a, b>>) : a, b \in Leaves}
Deep == {Node(<<a, Node(<<b, x>>)>>) : a, b, x \in Named \cup {Leaf("given", 2, "Q")}} \cup {Node(<<Node(<<b, x>>), a>>) : a, b, x \in Given}
         \cup {Node(<<a, b, x>>) : a, b, x \in Leaves}

RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
RECURSIVE Dims(_)
Dims(t) == IF t.k = "product" THEN FoldLeft(LAMBDA a, b : a \o b, <<>>, [i \in DOMAIN t.kids |-> Dims(t.kids[i])])
           ELSE IF t.k = "pauli" THEN [i \in 1..t.d |-> 2] ELSE <<t.d>>
Dim(t) == Prod(Dims(t))
\* words over two alphabets: the names of elements, and of the leaves' elements they multiply
Join(A, B, op(_, _)) == [n \in 1..(Len(A) * Len(B)) |-> op(A[((n - 1) \div Len(B)) + 1], B[((n - 1) % Len(B)) + 1])]
JoinAll(Q, op(_, _)) == FoldLeft(LAMBDA a, b : Join(a, b, op), Head(Q), Tail(Q))
Times(a, b) == a \o "\\otimes" \o b
Sub(s, n) == [i \in 1..n |-> s \o "_" \o ToString(i - 1)]
Sigma == <<"<one>", "\\sigma_x", "\\sigma_y", "\\sigma_z">>
RECURSIVE Labels(_)
Labels(t) == CASE t.k = "product" -> JoinAll([i \in DOMAIN t.kids |-> Labels(t.kids[i])], Times)
    [] t.k = "pauli" -> JoinAll([i \in 1..t.d |-> Sigma], Times)
    [] t.k = "gm" -> Sub("\\gamma", t.d * t.d)
    [] t.l = "" -> Sub("B", t.d * t.d)
    [] t.l = "list" -> [i \in 1..(t.d * t.d) |-> "op" \o ToString(i * i)]
    [] OTHER -> Sub(t.l, t.d * t.d)
\* the leaves from left to right; an element is one element of each
RECURSIVE Flat(_)
Flat(t) == IF t.k = "product" THEN FoldLeft(LAMBDA a, b : a \o b, <<>>, [i \in DOMAIN t.kids |-> Flat(t.kids[i])]) ELSE <<t>>
Elements(t) == LET F == Flat(t) IN JoinAll([i \in DOMAIN F |-> [j \in 1..(Dim(F[i]) * Dim(F[i])) |-> <<j>>]], LAMBDA a, b : a \o b)

(* What an index picks: positions, or a refusal *)
Picked(n, i) == CASE i.k = "int" -> <<IF i.v[1] < 0 THEN n + i.v[1] + 1 ELSE i.v[1] + 1>>
                  [] i.k = "list" -> [j \in DOMAIN i.v |-> IF i.v[j] < 0 THEN n + i.v[j] + 1 ELSE i.v[j] + 1]
                  [] OTHER -> <<>>
Indices == {[k |-> "int", v |-> <<j>>] : j \in {0, 1, 3, -1, -2}} \cup {[k |-> "list", v |-> v] : v \in {<<>>, <<2, 0>>, <<1, 1, -1>>, <<3>>}} \cup {[k |-> k, v |-> <<>>] : k \in {"str", "none", "float"}}
Init == c = <<>> /\ f = <<>>
Build == \E g \in Pick(1..4) : \E t \in Pick({x \in (CASE g = 1 -> Leaves [] g = 2 -> Ones [] g = 3 -> Twos [] OTHER -> Deep) : Dim(x) <= MAXDIM}), i \in Pick(Indices) :
    /\ c' = [tree |-> t, i |-> i]
    /\ f' = [dims |-> Dims(t), labels |-> Labels(t), leaves |-> Flat(t), elements |-> Elements(t), picked |-> Picked(Dim(t) * Dim(t), i), refused |-> i.k \in {"str", "none", "float"}]
Next == c = <<>> /\ Build
Spec == Init /\ [][Next]_vars
Sizes == c = <<>> \/ (LET n == Dim(c.tree) * Dim(c.tree) IN Len(f.labels) = n /\ Len(f.elements) = n /\ Prod(f.dims) = Dim(c.tree) /\ \A j \in DOMAIN f.picked : f.picked[j] \in 1..n)
\* every element is one of its own, and starts from the identities
Apart == c = <<>> \/ (Cardinality({f.elements[j] : j \in DOMAIN f.elements}) = Len(f.elements) /\ Cardinality({f.labels[j] : j \in DOMAIN f.labels}) = Len(f.labels)
                      /\ \A j \in DOMAIN f.leaves : f.elements[1][j] = 1)
Emit == c = <<>> \/ PrintT("@@" \o ToJson([c |-> c, f |-> f]))
=============================================================================
