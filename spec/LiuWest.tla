------------------------------ MODULE LiuWest ------------------------------
(***************************************************************************)
(* Liu-West resampling (src/qinfer/resamplers.py): every slot of the new   *)
(* cloud has an ancestor; in each round every pending slot is proposed a   *)
(* new candidate around its own ancestor with fresh noise; the candidates  *)
(* the model declares valid are final.                                     *)
(***************************************************************************)
EXTENDS Rat
CONSTANTS SLOTS,    \* number of particles to produce
          WEIGHTS,  \* one weight per particle of the old cloud
          MAXITER, POST  \* iteration limit; is validity consulted?
WTS == <<2, 0, 1>>
VARIABLES anc,      \* slot -> ancestor
          pend,     \* slots without a final candidate
          cand,     \* slot -> number of the round that produced its candidate (0: none)
          round, warned, done
lwvars == <<anc, pend, cand, round, warned, done>>

Init == /\ anc \in [1..SLOTS -> {j \in 1..Len(WEIGHTS) : WEIGHTS[j] > 0}]
        /\ pend = 1..SLOTS /\ cand = [i \in 1..SLOTS |-> 0]
        /\ round = 0 /\ warned = FALSE /\ done = FALSE
Round == /\ ~done /\ pend # {} /\ round < MAXITER
         /\ \E valid \in (IF POST THEN SUBSET pend ELSE {pend}) :
              /\ cand' = [i \in 1..SLOTS |-> IF i \in pend THEN round + 1 ELSE cand[i]]
              /\ pend' = pend \ valid
         /\ round' = round + 1 /\ UNCHANGED <<anc, warned, done>>
Finish == /\ ~done /\ (pend = {} \/ round = MAXITER)
          /\ done' = TRUE /\ warned' = (pend # {})
          /\ UNCHANGED <<anc, pend, cand, round>>
Next == Round \/ Finish
Spec == Init /\ [][Next]_lwvars /\ WF_lwvars(Next)

AncestorsPositive == \A i \in 1..SLOTS : WEIGHTS[anc[i]] > 0
EverySlotFilled == done => \A i \in 1..SLOTS : cand[i] > 0
ValidUnlessWarned == done => (pend = {} \/ (warned /\ round = MAXITER))
RoundsBounded == round <= MAXITER /\ (~POST => round <= 1)
AcceptedNeverTouched == [][\A i \in 1..SLOTS : (round > 0 /\ i \notin pend) => cand'[i] = cand[i] /\ i \notin pend']_lwvars
AncestryFixed == [][anc' = anc]_lwvars
Terminates == <>done
=============================================================================
