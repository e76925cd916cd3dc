-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on reduced pairs <<num, den>> (den >= 0; <<1,0>> *)
(* is +infinity), and a few helpers shared by the specifications.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* Bind(x, F): F applied to the *value* of x (TLC passes operator arguments lazily and
\* re-evaluates them in actions, which is exponential in nested definitions).
Bind(x, F(_)) == CHOOSE r \in {F(v) : v \in {x}} : TRUE

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RangeOf(f) == {f[i] : i \in DOMAIN f}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdP(_)
GcdP(p) == IF p[2] = 0 THEN p[1]
           ELSE CHOOSE r \in {GcdP(q) : q \in {<<p[2], p[1] % p[2]>>}} : TRUE
\* TLC's % needs a positive divisor
GcdA(a, b) == CHOOSE r \in {GcdP(q) : q \in {<<Abs(a), Abs(b)>>}} : TRUE

QuotT(n, g) == IF n < 0 THEN -((-n) \div g) ELSE n \div g
Red1(p) == CHOOSE r \in {IF g = 0 THEN <<0, 1>>
                         ELSE IF p[2] < 0 THEN <<-QuotT(p[1], g), (-p[2]) \div g>>
                         ELSE <<QuotT(p[1], g), p[2] \div g>> : g \in {GcdA(p[1], p[2])}} : TRUE
Red(n, d) == CHOOSE r \in {Red1(p) : p \in {<<n, d>>}} : TRUE
RInt(n) == <<n, 1>>
RInf == <<1, 0>>
RAdd2(q) == LET a == q[1]  b == q[2] IN
            CHOOSE r \in {Red(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g)) :
                             g \in {GcdA(a[2], b[2])}} : TRUE
RAdd(a, b) == CHOOSE r \in {RAdd2(q) : q \in {<<a, b>>}} : TRUE
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul2(q) == LET a == q[1]  b == q[2] IN
            CHOOSE r \in {Red(QuotT(a[1], g[1]) * QuotT(b[1], g[2]),
                              (a[2] \div g[2]) * (b[2] \div g[1])) :
                 g \in {<<Max2(1, GcdA(a[1], b[2])), Max2(1, GcdA(b[1], a[2]))>>}} : TRUE
RMul(a, b) == CHOOSE r \in {RMul2(q) : q \in {<<a, b>>}} : TRUE
RDiv(a, b) == RMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
\* three-way comparison of non-negative rationals by continued fractions (no products)
RECURSIVE CmpPos(_)
CmpPos(p) ==
    LET a == p[1]  b == p[2]  c == p[3]  d == p[4] IN
    IF b = 0 \/ d = 0 THEN (IF b = 0 /\ d = 0 THEN 0 ELSE IF b = 0 THEN 1 ELSE -1)
    ELSE IF a \div b # c \div d THEN (IF a \div b < c \div d THEN -1 ELSE 1)
    ELSE CHOOSE r \in {CmpPos(q) : q \in {<<d, c % d, b, a % b>>}} : TRUE
RCmp(a, b) == IF a[1] < 0 /\ b[1] >= 0 THEN -1
              ELSE IF a[1] >= 0 /\ b[1] < 0 THEN 1
              ELSE IF a[1] >= 0 THEN CHOOSE r \in {CmpPos(q) : q \in {<<a[1], a[2], b[1], b[2]>>}} : TRUE
              ELSE CHOOSE r \in {CmpPos(q) : q \in {<<-b[1], b[2], -a[1], a[2]>>}} : TRUE
RLt(a, b) == RCmp(a, b) = -1
RLe(a, b) == RCmp(a, b) # 1
REq(a, b) == RCmp(a, b) = 0

SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
RSumSeq(q) == FoldLeft(LAMBDA a, b : RAdd(a, b), <<0, 1>>, q)
GcdSeq(q) == FoldLeft(LAMBDA a, b : GcdA(a, b), 0, q)
\* divide an integer vector by its greatest common divisor
RedSeq(q) == CHOOSE r \in {IF p[2] <= 1 THEN p[1] ELSE [i \in 1..Len(p[1]) |-> p[1][i] \div p[2]] :
                             p \in {<<v, GcdSeq(v)>> : v \in {q}}} : TRUE
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
P2 == {Pow2(k) : k \in 0..29}
IsPow2(x) == x \in P2
=============================================================================
