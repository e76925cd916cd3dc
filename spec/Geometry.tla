------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Numerical routines (C23) on inputs whose answers are known exactly:      *)
(* hulls whose minimum-volume enclosing ellipsoid is that of an affine      *)
(* image of a regular body, points in and out of ellipsoids, volumes,       *)
(* square roots of matrices with square spectra, stick breaking with        *)
(* rational odds, difference quotients of polynomials, multinomial          *)
(* probabilities, compactified grids.                                       *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANT SIM
VARIABLES c, f
vars == <<c, f>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
One(S) == CHOOSE v \in RandomSubset(1, S) : TRUE

(* -------------------------------------------------- integer matrices     *)
Dot(u, v) == SumSeq([i \in DOMAIN u |-> u[i] * v[i]])
MV(M, v) == [i \in DOMAIN M |-> Dot(M[i], v)]
T(M) == [i \in 1..Len(M[1]) |-> [j \in 1..Len(M) |-> M[j][i]]]
MM(A, B) == LET C == T(B) IN [i \in DOMAIN A |-> [j \in DOMAIN C |-> Dot(A[i], C[j])]]
Minor(M, r, k) == [i \in 1..(Len(M) - 1) |-> [j \in 1..(Len(M) - 1) |-> M[IF i < r THEN i ELSE i + 1][IF j < k THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1 ELSE IF Len(M) = 1 THEN M[1][1] ELSE SumSeq([j \in 1..Len(M) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, 1, j))])
Adj(M) == [i \in DOMAIN M |-> [j \in DOMAIN M |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(M, j, i))]]
Eye(d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 1 ELSE 0]]
Plus(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
Mats(d, lo, hi) == IF SIM THEN {[i \in 1..d |-> [j \in 1..d |-> One(lo..hi)]]} ELSE {M \in [1..d -> [1..d -> {0, 1}]] : d < 3 \/ \A i, j \in 1..d : i > j => M[i][j] = (i + j) % 2}

(* ------------------------------------------- enclosing ellipsoids        *)
\* vertices of regular bodies, of circumradius squared Rad2
Unit(d, i, s) == [j \in 1..d |-> IF j = i THEN s ELSE 0]
Cross(d) == [k \in 1..(2 * d) |-> IF k <= d THEN Unit(d, k, 1) ELSE Unit(d, k - d, -1)]
Cube(d) == SetToSeq([1..d -> {-1, 1}])
Body(b, d) == IF b = "cross" THEN Cross(d) ELSE Cube(d)
Rad2(b, d) == IF b = "cross" THEN 1 ELSE d
\* points of the image L body + s, and more points inside it: midpoints of vertices (all doubled, to stay integer)
Hull(b, L, s) == [k \in DOMAIN Body(b, Len(L)) |-> [i \in DOMAIN L |-> 2 * (MV(L, Body(b, Len(L))[k])[i] + s[i])]]
Mid(u, v) == [i \in DOMAIN u |-> (u[i] + v[i]) \div 2]
\* (x - c)' (L L')^-1 (x - c), over 4 det^2 for doubled points
Quad(L, y) == LET z == MV(Adj(L), y) IN Dot(z, z)
Mvee == \E d \in Pick(1..3), b \in Pick({"cross", "cube"}), n \in Pick(IF SIM THEN 0..6 ELSE 0..1), sc \in Pick({1, 16, 64}) :
    \E L \in Mats(d, -2, 3), s \in (IF SIM THEN {[i \in 1..d |-> One(-9..9)]} ELSE {[i \in 1..d |-> 1]}) :
      /\ Det(L) # 0
      /\ \E H \in {Hull(b, L, s)} : \E ins \in (IF SIM THEN {[k \in 1..n |-> Mid(One(RangeOf(H)), One(RangeOf(H)))]} ELSE [1..n -> {Mid(H[i], H[j]) : i, j \in DOMAIN H}]) :
        /\ c' = [what |-> "mvee", d |-> d, hull |-> H, inside |-> ins, scale |-> sc]
        \* the ellipsoid has the matrix (R L L')^-1 / 4 and the centre 2 s, before scaling by 1/sc
        /\ f' = [LLt |-> MM(L, T(L)), rad2 |-> Rad2(b, d), centre |-> [i \in 1..d |-> 2 * s[i]], det |-> Det(L),
                 reach |-> [k \in 1..(Len(H) + n) |-> Red(Quad(L, [i \in 1..d |-> (IF k <= Len(H) THEN H[k] ELSE ins[k - Len(H)])[i] - 2 * s[i]]), 4 * Det(L) * Det(L) * Rad2(b, d))]]

(* --------------------------------------------- points and ellipsoids     *)
\* y' A^-1 y against 1, for A = L L' and y = L w / 8: many of the points are close to the surface
Near(d) == LET w == [i \in 1..d |-> One(-8..8)] IN IF Dot(w, w) \in 44..92 THEN w ELSE [i \in 1..d |-> IF i = 1 + (Abs(w[1]) % d) THEN One({-9, -8, -7, 7, 8, 9}) ELSE One(-3..3)]
InOut == \E d \in Pick(1..3), n \in Pick(1..6) : \E L \in Mats(d, -3, 4), s \in (IF SIM THEN {[i \in 1..d |-> One(-3..3)]} ELSE {[i \in 1..d |-> 0]}) :
    /\ Det(L) # 0
    /\ \E ws \in (IF SIM THEN {[k \in 1..n |-> IF One(1..3) = 1 THEN [i \in 1..d |-> One(-14..14)] ELSE Near(d)]} ELSE {[k \in 1..n |-> [i \in 1..d |-> 4 * (k - 2)]]}) :
       /\ c' = [what |-> "inout", d |-> d, A |-> MM(L, T(L)), centre |-> s, points |-> [k \in 1..n |-> LET v == MV(L, ws[k]) IN [i \in 1..d |-> 8 * s[i] + v[i]]]]
       /\ f' = [cmp |-> [k \in 1..n |-> LET q == Dot(ws[k], ws[k]) IN IF q < 64 THEN -1 ELSE IF q = 64 THEN 0 ELSE 1],
                quad |-> [k \in 1..n |-> <<Quad(L, MV(L, ws[k])), 64 * Det(L) * Det(L)>>]]
Volume == \E d \in Pick(1..4) : \E L \in Mats(d, -2, 3) : Det(L) # 0 /\ c' = [what |-> "volume", d |-> d, invA |-> MM(L, T(L))] /\ f' = [det |-> Abs(Det(L))]

(* -------------------------------------------------- square roots         *)
\* spectra of squares (negative ones are cut off) on orthogonal columns of a rotation by a quaternion, with phases
Rot(a, b, e, g) == <<<<a*a + b*b - e*e - g*g, 2*(b*e + a*g), 2*(b*g - a*e)>>, <<2*(b*e - a*g), a*a - b*b + e*e - g*g, 2*(e*g + a*b)>>, <<2*(b*g + a*e), 2*(e*g - a*b), a*a - b*b - e*e + g*g>>>>
Quat(a, b, e, g) == <<<<a, b, e, g>>, <<-b, a, -g, e>>, <<-e, g, a, -b>>, <<-g, -e, b, a>>>>
Root == \E d \in Pick({1, 2, 3, 4}), z \in Pick({1, 2, 4}) : \E q \in (IF SIM THEN RandomSubset(1, {x \in (-2..2) \X (-2..2) \X (-2..2) \X (-2..2) : x # <<0, 0, 0, 0>> /\ (x[1] # 0 \/ x[2] # 0)}) ELSE {<<1, 1, 0, 0>>, <<1, 2, 0, -1>>}) :
    \E sp \in (IF SIM THEN {[i \in 1..d |-> One({-5, -2, 0, 0, 1, 2, 3, 4, 7})]} ELSE [1..d -> {-1, 0, 2}]), ph \in (IF SIM THEN {[i \in 1..d |-> One(0..3)]} ELSE {[i \in 1..d |-> i % 4]}) :
       /\ c' = [what |-> "root", d |-> d, roots |-> sp, scale |-> z, phase |-> ph,
                frame |-> IF d = 1 THEN <<<<1>>>> ELSE IF d = 2 THEN <<<<q[1], q[2]>>, <<-q[2], q[1]>>>> ELSE IF d = 3 THEN Rot(q[1], q[2], q[3], q[4]) ELSE Quat(q[1], q[2], q[3], q[4])]
       \* what the square root's square misses: the squares of the negative ones, each spectrum value r standing for r |r|
       /\ f' = [roots |-> [i \in 1..d |-> Max2(sp[i], 0)], lost |-> SumSeq([i \in 1..d |-> IF sp[i] < 0 THEN sp[i] * sp[i] * sp[i] * sp[i] ELSE 0])]

(* ------------------------------------------------- stick breaking        *)
\* odds[k] = exp(y_k): the stick is broken at z_k = odds / (odds + K - k)
Z(o, k, K) == IF k = K THEN <<1, 1>> ELSE RDiv(o, RAdd(o, RInt(K - k)))
RECURSIVE Left(_, _)
Left(os, k) == IF k = 0 THEN <<1, 1>> ELSE RMul(Left(os, k - 1), RSub(<<1, 1>>, Z(os[k], k, Len(os))))
Sticks(os) == [k \in DOMAIN os |-> RMul(Z(os[k], k, Len(os)), Left(os, k - 1))]
Stick == \E K \in Pick(2..5), m \in Pick(IF SIM THEN 1..4 ELSE {1}) :
    \E rows \in (IF SIM THEN {[r \in 1..m |-> [k \in 1..K |-> IF k = K THEN <<1, 1>> ELSE IF One(1..3) = 1 THEN <<1, 1>> ELSE Red(One(1..6), One(1..6))]]} ELSE [1..m -> {[k \in 1..K |-> <<1, 1>>], [k \in 1..K |-> IF k = 1 THEN <<3, 1>> ELSE <<1, 1>>]}]) :
       c' = [what |-> "stick", K |-> K, odds |-> rows] /\ f' = [x |-> [r \in 1..m |-> Sticks(rows[r])]]

(* ---------------------------------------------- difference quotients     *)
\* a polynomial as monomials [k |-> coefficient, e |-> exponents]
Mono(d) == [k : {-3, -1, 1, 2}, e : [1..d -> 0..3]]
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN <<1, 1>> ELSE RMul(a, RPow(a, n - 1))
RProd(q) == FoldLeft(LAMBDA a, b : RMul(a, b), <<1, 1>>, q)
Value(p, x) == RSumSeq([m \in DOMAIN p |-> RMul(RInt(p[m].k), RProd([i \in DOMAIN x |-> RPow(x[i], p[m].e[i])]))])
Partial(p, x, i) == RSumSeq([m \in DOMAIN p |-> IF p[m].e[i] = 0 THEN <<0, 1>> ELSE RMul(RInt(p[m].k * p[m].e[i]), RProd([j \in DOMAIN x |-> RPow(x[j], IF j = i THEN p[m].e[j] - 1 ELSE p[m].e[j])]))])
Quotient(p, x, i, h) == LET mv(s) == [x EXCEPT ![i] = RAdd(@, RMul(h, s))] IN RDiv(RSub(Value(p, mv(<<1, 2>>)), Value(p, mv(<<-1, 2>>))), h)
Degree(p, i) == LET S == {p[m].e[i] : m \in DOMAIN p} IN CHOOSE n \in S : \A k \in S : k <= n
Diff == \E d \in Pick(1..3), m \in Pick(1..3), same \in Pick(BOOLEAN) :
    \E p \in (IF SIM THEN {[i \in 1..m |-> [k |-> One({-3, -1, 1, 2}), e |-> [j \in 1..d |-> One(0..3)]]]} ELSE {[i \in 1..m |-> [k |-> 2, e |-> [j \in 1..d |-> (i + j) % 4]]]}),
       x \in (IF SIM THEN {[j \in 1..d |-> Red(One(-8..8), 4)]} ELSE {[j \in 1..d |-> <<1, 2>>]}),
       hs \in (IF SIM THEN {[j \in 1..d |-> Red(1, One({1, 2, 4, 8}))]} ELSE {[j \in 1..d |-> <<1, 2>>]}) :
       LET h == IF same THEN [j \in 1..d |-> hs[1]] ELSE hs IN
       c' = [what |-> "diff", d |-> d, poly |-> p, x |-> x, h |-> h, same |-> same]
       /\ f' = [grad |-> [j \in 1..d |-> Partial(p, x, j)], quot |-> [j \in 1..d |-> Quotient(p, x, j, h[j])], exact |-> [j \in 1..d |-> Degree(p, j) <= 2]]

(* ------------------------------------------------- probabilities         *)
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
Multinomial(n, p) == RMul(RInt(Fact(SumSeq(n)) \div FoldLeft(LAMBDA a, b : a * b, 1, [i \in DOMAIN n |-> Fact(n[i])])), RProd([i \in DOMAIN n |-> RPow(p[i], n[i])]))
Multi == \E k \in Pick(2..4), m \in Pick(IF SIM THEN 1..4 ELSE {1}), last \in Pick(BOOLEAN) :
    \E cols \in (IF SIM THEN {[j \in 1..m |-> [n |-> [i \in 1..k |-> One(0..2)], w |-> [i \in 1..k |-> IF i = 1 THEN One(1..3) ELSE One(0..3)]]]} ELSE [1..m -> [n : [1..k -> 0..1], w : {[i \in 1..k |-> i % 2]}]]) :
       LET p(j) == [i \in 1..k |-> Red(cols[j].w[i], SumSeq(cols[j].w))] IN
       c' = [what |-> "multi", k |-> k, ns |-> [j \in 1..m |-> cols[j].n], ps |-> [j \in 1..m |-> p(j)], last |-> last] /\ f' = [pr |-> [j \in 1..m |-> Multinomial(cols[j].n, p(j))]]
Draws == \E k \in Pick(2..4), m \in Pick(1..3), N \in Pick({0, 1, 5, 12}), size \in Pick({<<>>, <<4>>, <<2, 3>>}) :
    \E ws \in (IF SIM THEN {[j \in 1..m |-> [i \in 1..k |-> IF i = 1 THEN One(1..3) ELSE One(0..2)]]} ELSE {[j \in 1..m |-> [i \in 1..k |-> i % 2]]}) :
       c' = [what |-> "draws", k |-> k, N |-> N, size |-> size, ps |-> [j \in 1..m |-> [i \in 1..k |-> Red(ws[j][i], SumSeq(ws[j]))]]] /\ f' = [shape |-> <<k, m>> \o size, never |-> {<<i, j>> \in (1..k) \X (1..m) : ws[j][i] = 0}]
\* a grid of n points at equal steps of the logistic distribution function
Compact == \E n \in Pick(1..9), s \in Pick({<<1, 2>>, <<1, 1>>, <<4, 1>>}) : c' = [what |-> "compact", n |-> n, scale |-> s] /\ f' = [odds |-> [k \in 1..n |-> <<k, n + 1 - k>>]]
Init == c = <<>> /\ f = <<>>
Next == c = <<>> /\ (Mvee \/ InOut \/ Volume \/ Root \/ Stick \/ Diff \/ Multi \/ Draws \/ Compact)
Spec == Init /\ [][Next]_vars

Is(w) == c # <<>> /\ c.what = w
\* the ellipsoid touches the vertices and contains everything else
Encloses == Is("mvee") => \A k \in DOMAIN f.reach : RLe(f.reach[k], <<1, 1>>) /\ (k <= Len(c.hull) => f.reach[k] = <<1, 1>>)
Simplex == Is("stick") => \A r \in DOMAIN f.x : RSumSeq(f.x[r]) = <<1, 1>> /\ (\A k \in DOMAIN f.x[r] : f.x[r][k][1] > 0)
                              /\ ((\A k \in DOMAIN f.x[r] : c.odds[r][k] = <<1, 1>>) => \A k \in DOMAIN f.x[r] : f.x[r][k] = <<1, c.K>>)
\* central differences are exact up to the second degree, and within the square of the step beyond
Central == Is("diff") => \A j \in 1..c.d : f.exact[j] => f.quot[j] = f.grad[j]
Probable == Is("multi") => \A j \in DOMAIN f.pr : RLe(<<0, 1>>, f.pr[j]) /\ RLe(f.pr[j], <<1, 1>>)
Frame == Is("root") => \A i, j \in 1..c.d : i # j => Dot(c.frame[i], c.frame[j]) = 0
\* the comparison is that of the quadratic form
Form == Is("inout") => \A k \in DOMAIN f.cmp : LET q == f.quad[k] IN f.cmp[k] = IF q[1] < q[2] THEN -1 ELSE IF q[1] = q[2] THEN 0 ELSE 1
Emit == c = <<>> \/ PrintT("@@" \o ToJson([c |-> c, f |-> f]))
=============================================================================
