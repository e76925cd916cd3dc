-------------------------------- MODULE Tomo --------------------------------
(***************************************************************************)
(* Tomographic models (C22).  A state (or an effect) is a spectrum on a     *)
(* frame: a sequence of mutually orthogonal vectors of Gaussian integers.   *)
(*   w     the world: dimension, kind of basis, whether subnormalised       *)
(*         states are allowed, whether the states diffuse                   *)
(*   rows  one state per parameter row, with its diffusion parameter        *)
(*   hist  what has been done, and what came of it                          *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANTS SIM, MAXOPS, MAXROWS
VARIABLES w, rows, hist
vars == <<w, rows, hist>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
One(S) == CHOOSE v \in RandomSubset(1, S) : TRUE

(* ------------------------------------------------ Gaussian integers      *)
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GConj(a) == <<a[1], -a[2]>>
GNeg(a) == <<-a[1], -a[2]>>
GSum(q) == FoldLeft(LAMBDA a, b : <<a[1] + b[1], a[2] + b[2]>>, <<0, 0>>, q)
Inner(u, v) == GSum([i \in DOMAIN u |-> GMul(GConj(u[i]), v[i])])
Norm2(u) == Inner(u, u)[1]
\* |<u|v>|^2 of the directions of u and v
Overlap(u, v) == LET z == Inner(u, v) IN Red(z[1] * z[1] + z[2] * z[2], Norm2(u) * Norm2(v))
Kron(u, v) == [k \in 1..(Len(u) * Len(v)) |-> GMul(u[((k - 1) \div Len(v)) + 1], v[((k - 1) % Len(v)) + 1])]
KronFrame(f, g) == [k \in 1..(Len(f) * Len(g)) |-> Kron(f[((k - 1) \div Len(g)) + 1], g[((k - 1) % Len(g)) + 1])]
I4 == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>
Phased(f, p) == [k \in DOMAIN f |-> [i \in DOMAIN f[k] |-> GMul(f[k][i], I4[p[i]])]]
Real(m) == [k \in DOMAIN m |-> [i \in DOMAIN m[k] |-> <<m[k][i], 0>>]]

(* ------------------------------------------------------------- frames    *)
Small == -2..2
Frame2(a, b) == <<<<a, b>>, <<GNeg(GConj(b)), GConj(a)>>>>
\* rotation of a quaternion, not normalised: its columns are orthogonal
Rot(a, b, c, d) == Real(<<<<a*a + b*b - c*c - d*d, 2*(b*c + a*d), 2*(b*d - a*c)>>, <<2*(b*c - a*d), a*a - b*b + c*c - d*d, 2*(c*d + a*b)>>, <<2*(b*d + a*c), 2*(c*d - a*b), a*a - b*b - c*c + d*d>>>>)
Quat(a, b, c, d) == Real(<<<<a, b, c, d>>, <<-b, a, -d, c>>, <<-c, d, a, -b>>, <<-d, -c, b, a>>>>)
\* (the argument keeps TLC from computing a frame once and for all)
RFrame2(n) == CHOOSE f \in {Frame2(<<t[1], t[2]>>, <<t[3], t[4]>>) : t \in RandomSubset(1, {x \in Small \X Small \X Small \X Small : x # <<0, 0, 0, 0>>})} : TRUE
RQuat(n) == CHOOSE t \in RandomSubset(1, {x \in (-1..2) \X (-1..2) \X (-1..1) \X (-2..1) : x # <<0, 0, 0, 0>>}) : TRUE
RPhase(d) == CHOOSE p \in RandomSubset(1, [1..d -> 1..4]) : TRUE
RFrame(d) == CASE d = 2 -> RFrame2(d)
    [] d = 3 -> (CHOOSE f \in {Phased(Rot(t[1], t[2], t[3], t[4]), p) : t \in {RQuat(d)}, p \in {RPhase(3)}} : TRUE)
    [] d = 4 -> (CHOOSE f \in {IF c THEN KronFrame(u, v) ELSE Phased(Quat(t[1], t[2], t[3], t[4]), p) : c \in RandomSubset(1, BOOLEAN), u \in {RFrame2(d)}, v \in {RFrame2(d)}, t \in {RQuat(d)}, p \in {RPhase(4)}} : TRUE)
    [] OTHER -> (CHOOSE f \in {KronFrame(u, Phased(Rot(t[1], t[2], t[3], t[4]), p)) : u \in {RFrame2(d)}, t \in {RQuat(d)}, p \in {RPhase(3)}} : TRUE)
Frames(d) == IF SIM THEN {RFrame(d)} ELSE {Frame2(<<1, 0>>, <<0, 0>>), Frame2(<<1, 0>>, <<0, 1>>), Frame2(<<2, 0>>, <<1, 0>>)}

(* ------------------------------------------------------------ spectra    *)
Eighths(q) == [i \in DOMAIN q |-> Red(q[i], 8)]
\* a draw of d numbers that sum to 8
RECURSIVE Split(_, _)
Split(d, n) == IF d = 1 THEN <<n>> ELSE CHOOSE r \in {<<k>> \o Split(d - 1, n - k) : k \in RandomSubset(1, 0..n)} : TRUE
RSpec(d) == CHOOSE q \in {CASE c \in 1..3 -> Split(d, 8) [] c = 4 -> [i \in 1..d |-> IF i = 1 THEN 8 ELSE 0] [] c = 5 -> Split(d, 5) [] c = 6 -> [i \in 1..d |-> IF i <= d \div 2 THEN -2 ELSE 5]
                            [] c = 7 -> [i \in 1..d |-> IF i = d THEN 12 ELSE -1] [] c = 8 -> [i \in 1..d |-> 3]
                            [] OTHER -> [i \in 1..d |-> IF i = 2 THEN p ELSE One(-4..7)]
                          : c \in RandomSubset(1, 1..12), p \in RandomSubset(1, 1..9)} : TRUE
Specs(d) == IF SIM THEN {Eighths(RSpec(d))} ELSE {Eighths(q) : q \in {<<8, 0>>, <<4, 4>>, <<5, 2>>, <<10, -2>>, <<-1, 3>>}}
\* effects: projectors, positive operators, and operators that ask for clipping
REff(d) == CHOOSE q \in {CASE c = 1 -> [i \in 1..d |-> IF i = 1 THEN 8 ELSE 0] [] c = 2 -> [i \in 1..d |-> IF 2 * i <= d THEN 8 ELSE 0] [] c = 3 -> [i \in 1..d |-> One(-4..12)] [] OTHER -> [i \in 1..d |-> One(0..8)] : c \in RandomSubset(1, 1..4)} : TRUE
EffSpecs(d) == IF SIM THEN {Eighths(REff(d))} ELSE {Eighths(q) : q \in {<<8, 0>>, <<3, 6>>, <<12, -4>>}}

Half == <<1, 2>>
RPos(a) == IF RLt(a, <<0, 1>>) THEN <<0, 1>> ELSE a
Clip01(a) == IF RLt(a, <<0, 1>>) THEN <<0, 1>> ELSE IF RLt(<<1, 1>>, a) THEN <<1, 1>> ELSE a
Total(s) == RSumSeq(s)
Canon(s, sub) == CHOOSE r \in {IF sub THEN t ELSE [i \in DOMAIN t |-> RDiv(t[i], n)] : t \in {[i \in DOMAIN s |-> RPos(s[i])]}, n \in {Total([i \in DOMAIN s |-> RPos(s[i])])}} : TRUE
Phys(s, sub) == (\A i \in DOMAIN s : s[i][1] >= 0) /\ (sub \/ Total(s) = <<1, 1>>)
\* Born's rule, before and after clipping
Born(e, r) == RSumSeq([i \in DOMAIN e.s |-> RMul(e.s[i], RSumSeq([j \in DOMAIN r.s |-> RMul(r.s[j], Overlap(e.f[i], r.f[j]))]))])
Pr(e, r) == Clip01(Born(e, r))

(* ---------------------------------------------------------- behaviour    *)
Init == w = <<>> /\ rows = <<>> /\ hist = <<>>
Bases(d) == IF d = 2 THEN {"pauli", "gm"} ELSE IF d = 4 THEN {"pauli", "gm", "product"} ELSE IF d = 3 THEN {"gm"} ELSE {"product"}
Dims == IF SIM THEN {2, 3, 4, 6} ELSE {2}
Epss == IF SIM THEN {<<1, 1000>>, <<1, 100>>, <<1, 20>>, <<1, 2>>} ELSE {<<1, 100>>}
RRow(d) == CHOOSE r \in {[f |-> f, s |-> s, eps |-> e] : f \in {RFrame(d)}, s \in {Eighths(RSpec(d))}, e \in RandomSubset(1, Epss)} : TRUE
REffect(d) == CHOOSE r \in {[f |-> f, s |-> s] : f \in {RFrame(d)}, s \in {Eighths(REff(d))}} : TRUE
Setup == /\ w = <<>> /\ UNCHANGED hist
    /\ \E d \in Pick(Dims) : \E b \in Pick(Bases(d)), sub \in Pick(BOOLEAN), dif \in Pick(BOOLEAN), m \in (IF SIM THEN RandomSubset(1, 1..MAXROWS) ELSE 1..MAXROWS) :
        /\ w' = [d |-> d, basis |-> b, sub |-> sub, dif |-> dif]
        /\ IF SIM THEN \E rs \in {[i \in 1..m |-> RRow(d)]} : rows' = rs
           ELSE \E rs \in [1..m -> {[f |-> f, s |-> s, eps |-> e] : f \in Frames(d), s \in Specs(d), e \in Epss}] : rows' = rs
Open == w # <<>> /\ Len(hist) < MAXOPS /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "drift")
Keep(h) == IF SIM THEN hist' = Append(hist, h) ELSE hist' = <<h>>
Canonicalize == /\ Open /\ UNCHANGED w
    /\ \E rs \in {[i \in DOMAIN rows |-> [rows[i] EXCEPT !.s = Canon(rows[i].s, w.sub)]]} :
          rows' = rs /\ Keep([op |-> "canon", was |-> rows, rows |-> rs])
Measure == /\ Open /\ UNCHANGED <<w, rows>>
    /\ \E m \in (IF SIM THEN RandomSubset(1, 1..4) ELSE {1}) :
       \E es \in (IF SIM THEN {[i \in 1..m |-> REffect(w.d)]} ELSE [1..m -> {[f |-> f, s |-> s] : f \in Frames(w.d), s \in EffSpecs(w.d)}]) :
          Keep([op |-> "measure", rows |-> rows, effects |-> es, pr |-> [i \in DOMAIN rows |-> [j \in DOMAIN es |-> Pr(es[j], rows[i])]]])
\* the states of a diffusive model wander for a time of each experiment's own; what a time of zero leaves is known
Times == {<<0, 1>>, <<1, 4>>, <<1, 1>>, <<4, 1>>, <<9, 1>>}
Drift == /\ Open /\ w.dif /\ UNCHANGED <<w, rows>>
    /\ \E m \in (IF SIM THEN RandomSubset(1, 1..4) ELSE {1}) : \E ts \in (IF SIM THEN {[i \in 1..m |-> One(Times)]} ELSE [1..m -> {<<0, 1>>, <<1, 1>>}]) :
          Keep([op |-> "drift", rows |-> rows, ts |-> ts, still |-> [i \in DOMAIN rows |-> Canon(rows[i].s, w.sub)]])
Next == Setup \/ Canonicalize \/ Measure \/ Drift
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------- properties   *)
Orthogonal == \A k \in DOMAIN rows : LET f == rows[k].f IN \A i, j \in DOMAIN f : IF i = j THEN Norm2(f[i]) > 0 ELSE Inner(f[i], f[j]) = <<0, 0>>
Latest == hist[Len(hist)]
AfterCanon == (hist # <<>> /\ Latest.op = "canon") => \A i \in DOMAIN rows : Phys(rows[i].s, w.sub)
OnceIsEnough == \A i \in DOMAIN rows : LET c == Canon(rows[i].s, w.sub) IN Canon(c, w.sub) = c
PhysicalStays == \A i \in DOMAIN rows : Phys(rows[i].s, w.sub) => Canon(rows[i].s, w.sub) = rows[i].s
OrderKept == \A i \in DOMAIN rows : LET s == rows[i].s  c == Canon(s, w.sub) IN \A j, k \in DOMAIN s : RLe(s[j], s[k]) => RLe(c[j], c[k])
Effect(e) == \A i \in DOMAIN e.s : e.s[i][1] >= 0 /\ RLe(e.s[i], <<1, 1>>)
Not(e) == [e EXCEPT !.s = [i \in DOMAIN e.s |-> RSub(<<1, 1>>, e.s[i])]]
\* states and effects need no clipping, and an effect and its complement exhaust the possibilities
BornRule == (hist # <<>> /\ Latest.op = "measure") => \A i \in DOMAIN rows, j \in DOMAIN Latest.effects :
    (Phys(rows[i].s, FALSE) /\ Effect(Latest.effects[j])) => /\ Born(Latest.effects[j], rows[i]) = Latest.pr[i][j]
                                                          /\ RAdd(Latest.pr[i][j], Pr(Not(Latest.effects[j]), rows[i])) = <<1, 1>>
Probs == (hist # <<>> /\ Latest.op = "measure") => \A i \in DOMAIN rows, j \in DOMAIN Latest.effects : RLe(<<0, 1>>, Latest.pr[i][j]) /\ RLe(Latest.pr[i][j], <<1, 1>>)
EpsKept == [][w # <<>> => \A i \in DOMAIN rows : rows'[i].eps = rows[i].eps /\ rows'[i].f = rows[i].f]_vars
Emit == Open \/ w = <<>> \/ PrintT("@@" \o ToJson([w |-> w, hist |-> hist]))
=============================================================================
