------------------------------- MODULE Regions ------------------------------
(***************************************************************************)
(* Credible regions with an exactly known hull and enclosing ellipsoid      *)
(* (C07): the heavy particles are the points of Geometry!Mvee, spread over  *)
(* some of the columns of a cloud that has lighter particles farther out.   *)
(*   r  [first, cols, wts, far, level, probes]                              *)
(***************************************************************************)
EXTENDS Geometry
VARIABLE r
Heavy == Len(c.hull) + Len(c.inside)
\* particles of the region at a level: the shortest prefix, heaviest first, whose share exceeds it
Prefix(ws, level) == LET S == SortSeq(ws, LAMBDA a, b : a > b)  tot == SumSeq(ws) IN
    CHOOSE k \in 1..Len(ws) : /\ (k = Len(ws) \/ RLt(level, Red(SumSeq(SubSeq(S, 1, k)), tot)))
                              /\ \A j \in 1..(k - 1) : ~RLt(level, Red(SumSeq(SubSeq(S, 1, j)), tot))
Cloud(x) ==
    \E m \in RandomSubset(1, 0..4) : \E hv \in {[k \in 1..Heavy |-> One(2..4)]}, far \in {[k \in 1..m |-> [i \in 1..c.d |-> One({-1, 1}) * One(100..200)]]},
       k \in RandomSubset(1, 0..2), e \in RandomSubset(1, 0..2), pr \in {[j \in 1..6 |-> [v |-> One(DOMAIN c.hull), t |-> One({0, 3, 8, 9, 11, 12, 20})]]} :
       LET ws == hv \o [i \in 1..m |-> 1] IN
       r' = [first |-> k, cols |-> c.d + k + e, wts |-> ws, far |-> far, level |-> Red(2 * SumSeq(hv) - FoldLeft(Min2, 9, hv), 2 * SumSeq(ws)),
             \* points of the rays from the centre through the vertices, in tenths
             probes |-> pr]
RInit == Init /\ r = <<>>
RNext == \/ c = <<>> /\ Mvee /\ c'.d > 1 /\ r' = r
         \/ c # <<>> /\ r = <<>> /\ \E x \in {c} : Cloud(x) /\ UNCHANGED <<c, f>>
RSpec == RInit /\ [][RNext]_<<c, f, r>>
\* the region of the cloud is exactly its heavy particles
Exactly == r # <<>> => Prefix(r.wts, r.level) = Heavy
REmit == r = <<>> \/ PrintT("@@" \o ToJson([c |-> c, f |-> f, r |-> r]))
=============================================================================
