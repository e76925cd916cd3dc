------------------------------ MODULE Composite ------------------------------
(***************************************************************************)
(* Composite prior distributions (C19) as a machine that answers sample(n)  *)
(* by calling its constituents.                                             *)
(*   tree  nodes, children before parents, the root last:                   *)
(*         leaf   a primitive distribution: its j-th row is a function of j *)
(*         prod   kids side by side                                         *)
(*         mix    kids with weights w; shuf, and the form of construction   *)
(*         post   the kid's rows that satisfy rule, within maxit rounds     *)
(*         csum   the kid's rows rescaled to the total tot                  *)
(*   st    the stack of unfinished calls: node, its position among its      *)
(*         parent's kids (which may be one object), rows asked for, what    *)
(*         its kids have delivered so far                                   *)
(*   ser   rows drawn from primitive distributions so far                   *)
(*   exc   a failure that is on its way up                                  *)
(* A row is a sequence of rationals; answers are right up to the order of   *)
(* their rows (a mixture that does not shuffle keeps its components apart   *)
(* and in order).                                                           *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS SIM, NODES, MAXN
VARIABLES tree, roots, ns, st, ser, exc, h
vars == <<tree, roots, ns, st, ser, exc, h>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S

Node(k, kids, cols) == [k |-> k, kids |-> kids, cols |-> cols, sign |-> 1, w |-> <<>>, shuf |-> FALSE, form |-> "list",
                        maxit |-> 0, rule |-> [op |-> "all", m |-> 1, r |-> 0, col |-> 1], tot |-> <<1, 1>>]
RECURSIVE Has(_, _, _)
Has(tr, i, k) == tr[i].k = k \/ \E j \in RangeOf(tr[i].kids) : Has(tr, j, k)
RECURSIVE Under(_, _)
Under(tr, i) == {i} \cup UNION {Under(tr, j) : j \in RangeOf(tr[i].kids)}

(***************************** the rows *********************************)
\* the s-th primitive row: sign 0 alternates
LeafRow(nd, s) == LET g == IF nd.sign = 0 THEN (IF s % 2 = 0 THEN 1 ELSE -1) ELSE nd.sign IN
    [j \in 1..nd.cols |-> RInt(g * (IF j = 1 THEN s ELSE 2 * s + 1))]
LeafRows(nd, s, n) == [j \in 1..n |-> LeafRow(nd, s + j)]
Valid(rule, row) == LET v == Abs(row[rule.col][1]) IN
    CASE rule.op = "all" -> TRUE [] rule.op = "none" -> FALSE
      [] rule.op = "mod" -> v % rule.m # rule.r
      [] rule.op = "only" -> v % rule.m = rule.r
      [] OTHER -> v > rule.m
Total(row) == RSumSeq(row)
Scaled(tot, row) == LET t == Total(row) IN IF t[1] = 0 THEN row ELSE [j \in DOMAIN row |-> RDiv(RMul(tot, row[j]), t)]

(************************* a call in progress ****************************)
Frame(i, pos, n) == [i |-> i, pos |-> pos, n |-> n, got |-> <<>>]
Cat(q) == FoldLeft(LAMBDA a, b : a \o b, <<>>, q)
Kid(f, k) == Cat([j \in DOMAIN f.got |-> IF f.got[j].k = k THEN f.got[j].rows ELSE <<>>])
All(f) == Cat([j \in DOMAIN f.got |-> f.got[j].rows])
Rounds(f) == Cardinality({j \in DOMAIN f.got : Len(f.got[j].rows) > 0})
Accepted(nd, f) == SelectSeq(All(f), LAMBDA r : Valid(nd.rule, r))
Pending(nd, f) == f.n - Len(Accepted(nd, f))
\* may the node ask its k-th kid for m rows now?
CanCall(nd, f, k, m) == IF m = 0 THEN TRUE ELSE
    CASE nd.k = "prod" -> Len(Kid(f, k)) + m <= f.n
      [] nd.k = "mix" -> nd.w[k] > 0 /\ Len(All(f)) + m <= f.n
      [] nd.k = "post" -> m = Pending(nd, f) /\ Rounds(f) < nd.maxit
      [] nd.k = "csum" -> Len(All(f)) + m <= f.n
      [] OTHER -> FALSE
\* has it all it needs?
Complete(nd, f) == CASE nd.k = "leaf" -> TRUE
      [] nd.k = "prod" -> \A k \in DOMAIN nd.kids : Len(Kid(f, k)) = f.n
      [] nd.k = "post" -> Pending(nd, f) = 0
      [] OTHER -> Len(All(f)) = f.n
CanFail(nd, f) == nd.k = "post" /\ Pending(nd, f) > 0 /\ Rounds(f) = nd.maxit
Count(q, r) == Cardinality({j \in DOMAIN q : q[j] = r})
SameBag(a, b) == Len(a) = Len(b) /\ \A r \in RangeOf(a) : Count(a, r) = Count(b, r)
Offset(tr, nd, k) == SumSeq([j \in 1..(k - 1) |-> tr[nd.kids[j]].cols])
Slice(tr, nd, k, row) == SubSeq(row, Offset(tr, nd, k) + 1, Offset(tr, nd, k) + tr[nd.kids[k]].cols)
\* rows delivered by the mixture's components before the k-th
Ahead(f, k) == SumSeq([j \in 1..(k - 1) |-> Len(Kid(f, j))])
Right(tr, s, f, rows) == LET nd == tr[f.i] IN
    /\ Complete(nd, f) /\ Len(rows) = f.n /\ \A j \in DOMAIN rows : Len(rows[j]) = nd.cols
    /\ CASE nd.k = "leaf" -> rows = LeafRows(nd, s, f.n)
         [] nd.k = "prod" -> \A k \in DOMAIN nd.kids : SameBag([j \in DOMAIN rows |-> Slice(tr, nd, k, rows[j])], Kid(f, k))
         [] nd.k = "mix" -> IF nd.shuf THEN SameBag(rows, All(f))
                            ELSE \A k \in DOMAIN nd.kids : SameBag(SubSeq(rows, Ahead(f, k) + 1, Ahead(f, k) + Len(Kid(f, k))), Kid(f, k))
         [] nd.k = "post" -> SameBag(rows, Accepted(nd, f))
         [] OTHER -> SameBag(rows, LET a == All(f) IN [j \in DOMAIN a |-> Scaled(nd.tot, a[j])])
\* one right answer
Answer(tr, s, f) == LET nd == tr[f.i] IN
    CASE nd.k = "leaf" -> LeafRows(nd, s, f.n)
      [] nd.k = "prod" -> [j \in 1..f.n |-> Cat([k \in DOMAIN nd.kids |-> Kid(f, k)[j]])]
      [] nd.k = "mix" -> Cat([k \in DOMAIN nd.kids |-> Kid(f, k)])
      [] nd.k = "post" -> Accepted(nd, f)
      [] OTHER -> LET a == All(f) IN [j \in DOMAIN a |-> Scaled(nd.tot, a[j])]

(**************************** the machine ********************************)
Top == st[Len(st)]
Pop == SubSeq(st, 1, Len(st) - 1)
Deliver(rows) == IF Len(st) = 1 THEN <<>> ELSE
    [Pop EXCEPT ![Len(st) - 1].got = Append(@, [k |-> Top.pos, rows |-> rows])]

LeafNode == \E c \in Pick(1..2), s \in Pick({-1, 0, 1}) : tree' = Append(tree, [Node("leaf", <<>>, c) EXCEPT !.sign = s]) /\ roots' = Append(roots, Len(tree) + 1)
Take(m) == SubSeq(roots, Len(roots) - m + 1, Len(roots))
Put(m, nd) == tree' = Append(tree, nd) /\ roots' = Append(SubSeq(roots, 1, Len(roots) - m), Len(tree) + 1)
\* the same object in two places
TwinNode == Len(roots) > 0 /\ LET k == roots[Len(roots)] IN tree[k].cols <= 2 /\
    (\/ Put(1, Node("prod", <<k, k>>, 2 * tree[k].cols))
     \/ \E sh \in Pick(BOOLEAN), fm \in Pick({"list", "args"}) : Put(1, [Node("mix", <<k, k>>, tree[k].cols) EXCEPT !.w = <<1, 2>>, !.shuf = sh, !.form = fm]))
ProdNode == \E m \in {k \in Pick(1..3) : k <= Len(roots)} :
    LET cs == SumSeq([j \in 1..m |-> tree[Take(m)[j]].cols]) IN cs <= 4 /\ Put(m, Node("prod", Take(m), cs))
Weights == {<<1>>, <<1, 1>>, <<1, 0>>, <<0, 1>>, <<3, 1>>, <<1, 1, 2>>, <<0, 1, 1>>, <<2, 0, 1>>, <<0, 0, 1>>, <<1, 0, 0>>, <<8, 0, 8>>}
MixNode == \E m \in {k \in Pick(1..3) : k <= Len(roots)}, sh \in Pick(BOOLEAN), fm \in Pick({"list", "args", "kw", "argskw"}) :
    \E w \in Pick({v \in Weights : Len(v) = m}) :
    /\ \A j \in 1..m : tree[Take(m)[j]].cols = tree[Take(m)[1]].cols
    /\ Put(m, [Node("mix", Take(m), tree[Take(m)[1]].cols) EXCEPT !.w = w, !.shuf = sh, !.form = fm])
Rules(c) == {[op |-> o, m |-> m, r |-> r, col |-> cc] : o \in {"mod", "only", "all", "none", "from"}, m \in 2..4, r \in 0..1, cc \in 1..c}
PostNode == Len(roots) > 0 /\ LET k == roots[Len(roots)] IN ~Has(tree, k, "csum") /\
    \E mi \in Pick(0..4), ru \in Pick(Rules(tree[k].cols)) : Put(1, [Node("post", <<k>>, tree[k].cols) EXCEPT !.maxit = mi, !.rule = ru])
\* totals that cannot be zero: no products of rows of either sign, no sums of different rescalings
CsumNode == Len(roots) > 0 /\ LET k == roots[Len(roots)] IN
    /\ Has(tree, k, "prod") => ~Has(tree, k, "csum") /\ \E s \in {-1, 1} : \A i \in Under(tree, k) : tree[i].k = "leaf" => tree[i].sign = s
    /\ \E t \in Pick({<<1, 1>>, <<3, 1>>, <<-2, 1>>, <<1, 2>>, <<5, 1>>}) : Put(1, [Node("csum", <<k>>, tree[k].cols) EXCEPT !.tot = t])
Build == ns = <<>> /\ UNCHANGED <<ns, st, ser, exc, h>> /\ Len(tree) < NODES /\ (LeafNode \/ LeafNode \/ ProdNode \/ TwinNode \/ MixNode \/ MixNode \/ PostNode \/ CsumNode)
\* the small instance: a handful of trees
L(c, s) == [Node("leaf", <<>>, c) EXCEPT !.sign = s]
MixT(kids, w, sh) == [Node("mix", kids, 1) EXCEPT !.w = w, !.shuf = sh]
PostT(k, mi, ru) == [Node("post", <<k>>, 1) EXCEPT !.maxit = mi, !.rule = ru]
Only(m, r) == [op |-> "only", m |-> m, r |-> r, col |-> 1]
Small == {<<L(1, 1), Node("prod", <<1, 1>>, 2)>>, <<L(1, 1), L(2, 0), Node("prod", <<1, 2>>, 3)>>,
          <<L(1, 1), L(1, -1), L(1, 0), MixT(<<1, 2, 3>>, <<1, 0, 1>>, TRUE)>>,
          <<L(1, 1), L(1, -1), MixT(<<1, 2>>, <<1, 1>>, FALSE), PostT(3, 2, Only(2, 1))>>,
          <<L(1, 1), PostT(1, 3, Only(3, 0)), L(1, 0), PostT(3, 1, Only(2, 0)), MixT(<<2, 4>>, <<1, 1>>, FALSE)>>,
          <<L(2, 0), [Node("csum", <<1>>, 2) EXCEPT !.tot = <<-2, 1>>], L(1, 1), PostT(3, 2, Only(2, 0)), Node("prod", <<2, 4>>, 3)>>}
BuildSmall == ns = <<>> /\ tree = <<>> /\ UNCHANGED <<ns, st, ser, exc, h>> /\ \E t \in Small : tree' = t /\ roots' = <<Len(t)>>
\* the calls from outside, one after another
Go == /\ ns = <<>> /\ Len(roots) = 1 /\ Len(tree) > 1 /\ (SIM => Len(tree) = NODES \/ 1 \in Pick(1..5))
      /\ \E a \in Pick(0..MAXN), b \in Pick(0..MAXN), c \in Pick(0..MAXN) : ns' = (IF SIM THEN <<a, b, c>> ELSE <<a>>)
      /\ UNCHANGED <<tree, roots, st, ser, exc, h>>
Asked == Cardinality({j \in DOMAIN h : h[j].e = "start"})
Start == /\ ns # <<>> /\ st = <<>> /\ Asked < Len(ns)
         /\ st' = <<Frame(Len(tree), 1, ns[Asked + 1])>> /\ h' = Append(h, [e |-> "start", n |-> ns[Asked + 1]]) /\ UNCHANGED <<tree, roots, ns, ser, exc>>
CallKid == st # <<>> /\ exc = "" /\ LET f == Top  nd == tree[f.i] IN
    \E k \in DOMAIN nd.kids : \E m \in (IF nd.k = "post" THEN {Pending(nd, f)} ELSE IF nd.k = "mix" THEN 1..f.n ELSE {f.n}) :
       /\ m > 0 /\ CanCall(nd, f, k, m) /\ st' = Append(st, Frame(nd.kids[k], k, m)) /\ UNCHANGED <<tree, roots, ns, ser, exc, h>>
Return == st # <<>> /\ exc = "" /\ LET f == Top  nd == tree[f.i] IN
    /\ Complete(nd, f)
    /\ \E rows \in {Answer(tree, ser, f)} :
        /\ Assert(Right(tree, ser, f, rows), "an answer that is not right")
        /\ st' = Deliver(rows) /\ ser' = (IF nd.k = "leaf" THEN ser + f.n ELSE ser)
        /\ h' = (IF Len(st) = 1 THEN Append(h, [e |-> "ret", n |-> f.n, rows |-> rows]) ELSE h)
    /\ UNCHANGED <<tree, roots, ns, exc>>
Fail == /\ st # <<>> /\ (exc # "" \/ CanFail(tree[Top.i], Top))
        /\ st' = Pop /\ exc' = (IF Len(st) = 1 THEN "" ELSE "RuntimeError")
        /\ h' = (IF Len(st) = 1 THEN Append(h, [e |-> "raise", n |-> Top.n, rows |-> <<>>]) ELSE h) /\ UNCHANGED <<tree, roots, ns, ser>>
Init == tree = <<>> /\ roots = <<>> /\ ns = <<>> /\ st = <<>> /\ ser = 0 /\ exc = "" /\ h = <<>>
Next == (IF SIM THEN Build ELSE BuildSmall) \/ Go \/ Start \/ CallKid \/ Return \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ CallKid \/ Return \/ Fail)

Outs == [j \in DOMAIN h |-> IF h[j].e = "ret" THEN h[j].rows ELSE <<>>]
\* every answer has the rows and columns asked for
Shape == \A j \in DOMAIN h : h[j].e = "ret" => Len(h[j].rows) = h[j].n /\ \A i \in DOMAIN h[j].rows : Len(h[j].rows[i]) = tree[Len(tree)].cols
\* no primitive row is used twice (told by its absolute value, where rows are not rescaled)
AllRows == Cat([j \in DOMAIN Outs |-> Outs[j]])
Firsts == [j \in DOMAIN AllRows |-> Abs(AllRows[j][1][1])]
NoReuse == (tree # <<>> /\ roots # <<>> /\ ~Has(tree, roots[1], "csum")) => \A i, j \in DOMAIN Firsts : i # j => Firsts[i] # Firsts[j]
\* postselected rows are valid; a postselection within its limit has never asked for more rounds than that
PostOk == ns # <<>> => LET nd == tree[Len(tree)] IN nd.k = "post" => \A j \in DOMAIN AllRows : Valid(nd.rule, AllRows[j])
Limit == \A j \in DOMAIN st : tree[st[j].i].k = "post" => Rounds(st[j]) <= tree[st[j].i].maxit
\* rescaled rows have the total
Sums == ns # <<>> => LET nd == tree[Len(tree)] IN nd.k = "csum" => \A j \in DOMAIN AllRows : Total(AllRows[j]) = nd.tot
\* only components of positive weight are drawn from
Positive == \A j \in DOMAIN st : LET nd == tree[st[j].i] IN nd.k = "mix" => \A g \in DOMAIN st[j].got : nd.w[st[j].got[g].k] > 0
\* every call is answered
Answered == \A j \in 1..3 : (ns # <<>> /\ Len(ns) >= j) ~> (Cardinality({g \in DOMAIN h : h[g].e \in {"ret", "raise"}}) >= j)
Done == ns # <<>> /\ Asked = Len(ns) /\ st = <<>>
Emit == ~Done \/ PrintT("@@" \o ToJson([tree |-> tree, ns |-> ns]))
=============================================================================
