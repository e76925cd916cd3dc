------------------------------ MODULE SMCGen ------------------------------
(* Behaviours of SMC with the operations taken, emitted as JSON for replay *)
(* into the real updater.                                                  *)
EXTENDS SMC, Json, Randomization
CONSTANTS DEPTH, OPSET
VARIABLE h
gvars == <<s, h>>

Proj(t) == [W |-> t.W, locs |-> t.locs, data |-> t.data, norms |-> t.norms, rc |-> t.rc,
            jr |-> t.jr, miness |-> t.miness, pc |-> t.pc, cc |-> t.cc, exn |-> t.exn,
            approx |-> t.approx, reswarn |-> t.reswarn, ess |-> Ess(t)]

GInit == Init /\ h = <<>>
GNext == /\ Len(h) < DEPTH
         /\ \E c \in {d \in OPSET : Room(CASE d = "update" -> 1 [] d = "batch" -> 3 [] OTHER -> 0)} :     \* choose the class first so that simulation is balanced
            \E op \in (CASE c = "update" -> RandomSubset(Min2(4, Cardinality(UpdateOps)), UpdateOps)
                         [] c = "batch" -> RandomSubset(Min2(4, Cardinality(BatchOps)), BatchOps) [] c = "bad" -> BadOps
                         [] c = "resample" -> {[op |-> "resample"]} [] c = "reset" -> ResetOps
                         [] c = "preset" -> PResetOps [] OTHER -> {[op |-> "peek"]}) :
              \E t \in {Apply(s, op)} :
              /\ Good(t)
              /\ s' = t
              /\ h' = Append(h, [op |-> op, post |-> Proj(t)])
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(h) < DEPTH \/ PrintT("@@" \o ToJson(
           [NP |-> NP, TN |-> TN, TD |-> TD, POLICY |-> POLICY, CANON |-> CANON,
            CACHEFAIL |-> CACHEFAIL, RESMODE |-> RESMODE, init |-> Proj(InitState), steps |-> h]))
=============================================================================
