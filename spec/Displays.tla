------------------------------ MODULE Displays ------------------------------
(***************************************************************************)
(* Displayed times and significant figures (C24).  A duration is days,      *)
(* hours, minutes and seconds, and is read back as itself; numbers agree to *)
(* some figures relative to their own magnitude, all of an array or none.   *)
(***************************************************************************)
EXTENDS Rat, Json, Randomization
CONSTANT SIM
VARIABLES c, f
vars == <<c, f>>
Pick(S) == IF SIM THEN RandomSubset(1, S) ELSE S
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
MS(t) == Two(t \div 60) \o ":" \o Two(t % 60)
HMS(t) == ToString(t \div 3600) \o ":" \o MS(t % 3600)
DHMS(t) == ToString(t \div 86400) \o " days, " \o HMS(t % 86400)
Plain(t) == ToString(t \div 60) \o ":" \o Two(t % 60)
Secs(t) == ToString(t) \o ".00 seconds"
\* at the very boundary either unit will do
Texts(t, force) == CASE t > 86400 -> {DHMS(t)}
    [] t = 86400 -> {DHMS(t), HMS(t)}
    [] force = "h" \/ t > 3600 -> {HMS(t)}
    [] t = 3600 -> {HMS(t), Plain(t)}
    [] force = "m" -> {MS(t)}
    [] t > 60 -> {Plain(t)}
    [] t = 60 -> {Plain(t), Secs(t)}
    [] OTHER -> {Secs(t)}
Units == {<<d, h, m, s>> : d \in {0, 1, 2, 31}, h \in {0, 1, 9, 10, 23}, m \in {0, 1, 9, 10, 59}, s \in {0, 1, 9, 10, 59}}
Total(u) == u[1] * 86400 + u[2] * 3600 + u[3] * 60 + u[4]
Time == \E u \in Pick(Units), force \in Pick({"", "h", "m"}) :
    /\ c' = [what |-> "time", secs |-> Total(u), force |-> force, unit |-> u] /\ f' = [texts |-> Texts(Total(u), force)]

\* x = m / 1000 * 10 ^ e, y = (m + k / 10^(figs) * 1000 / 4) / 1000 * 10 ^ e: off by k quarters of the last figure asked for
Off(m, figs, k) == <<k, 4 * (10 ^ figs)>>
Agree(k) == IF Abs(k) < 2 THEN "same" ELSE IF Abs(k) >= 7 THEN "apart" ELSE "either"
Figs == \E figs \in Pick(1..5), n \in Pick(IF SIM THEN 1..4 ELSE {1}) :
    \E q \in (IF SIM THEN {[i \in 1..n |-> [m |-> CHOOSE m \in RandomSubset(1, {1000, 1500, 3142, 9999, 5000}) : TRUE, e |-> CHOOSE e \in RandomSubset(1, -6..6) : TRUE, k |-> IF CHOOSE b \in RandomSubset(1, {TRUE, TRUE, FALSE}) : TRUE THEN (CHOOSE k \in RandomSubset(1, -1..1) : TRUE) ELSE (CHOOSE k \in RandomSubset(1, {-30, -8, -6, 7, 9, 40, 2}) : TRUE)]]}
              ELSE [1..n -> [m : {1000, 3142}, e : {-6, 0, 5}, k : {-9, -6, -1, 0, 1, 7}]]) :
       /\ c' = [what |-> "figs", figs |-> figs, q |-> q]
       /\ f' = [off |-> [i \in DOMAIN q |-> Off(q[i].m, figs, q[i].k)],
                verdict |-> IF \E i \in DOMAIN q : Agree(q[i].k) = "apart" THEN "apart" ELSE IF \A i \in DOMAIN q : Agree(q[i].k) = "same" THEN "same" ELSE "either"]
Init == c = <<>> /\ f = <<>>
Next == c = <<>> /\ (Time \/ Figs)
Spec == Init /\ [][Next]_vars
Is(w) == c # <<>> /\ c.what = w
\* different durations are displayed differently
Injective == \A u, v \in {<<0, 0, 0, 59>>, <<0, 0, 1, 0>>, <<0, 1, 0, 0>>, <<0, 0, 59, 59>>, <<1, 0, 0, 0>>, <<0, 23, 59, 59>>, <<2, 1, 10, 9>>} :
    u # v => Texts(Total(u), "") \cap Texts(Total(v), "") = {}
ReadsBack == Is("time") => c.secs = Total(c.unit) /\ f.texts # {}
Emit == c = <<>> \/ PrintT("@@" \o ToJson([c |-> c, f |-> f]))
=============================================================================
