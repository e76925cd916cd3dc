-------------------------------- MODULE Tape --------------------------------
(***************************************************************************)
(* Draws are a function of NumPy's generator and of nothing else (C25).     *)
(*   tape   what has been drawn since the generator was last set: its name  *)
(*          and the calls made since                                        *)
(*   saved  generator states put aside                                      *)
(*   out    the calls so far, each with the tape it was answered from       *)
(* Two calls answered from equal tapes draw equal rows, and no others do.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DISTS, STEPS, SIM
VARIABLES tape, saved, out, ops
vars == <<tape, saved, out, ops>>
Sizes == {0, 1, 2, 7}
Init == tape = <<"seed", 0, <<>>>> /\ saved = <<>> /\ out = <<>> /\ ops = <<[op |-> "seed", x |-> 0, n |-> 0]>>
Op(o, x, n) == ops' = Append(ops, [op |-> o, x |-> x, n |-> n])
Seed(s) == tape' = <<"seed", s, <<>>>> /\ Op("seed", s, 0) /\ UNCHANGED <<saved, out>>
Draw(d, n) == /\ out' = Append(out, [t |-> tape, d |-> d, n |-> n])
              /\ tape' = <<tape[1], tape[2], Append(tape[3], <<d, n>>)>>
              /\ Op("draw", d, n) /\ UNCHANGED saved
Save == Len(saved) < 3 /\ saved' = Append(saved, tape) /\ Op("save", 0, 0) /\ UNCHANGED <<tape, out>>
Load(i) == tape' = saved[i] /\ Op("load", i, 0) /\ UNCHANGED <<saved, out>>
\* draws of an equal prior made anew
Fresh(d) == Op("fresh", d, 0) /\ UNCHANGED <<tape, saved, out>>
Busy == Len(ops) < STEPS
Next == Busy /\ (\/ \E s \in 0..1 : Seed(s)
                 \/ \E d \in 1..DISTS, n \in Sizes : Draw(d, n)
                 \/ Save \/ \E i \in DOMAIN saved : Load(i)
                 \/ \E d \in 1..DISTS : Fresh(d))
Spec == Init /\ [][Next]_vars
\* the first call answered like this one
First(i) == CHOOSE j \in 1..i : out[j] = out[i] /\ \A k \in 1..(j - 1) : out[k] # out[i]
Same == [i \in DOMAIN out |-> First(i)]
Classes == \A i \in DOMAIN out : Same[Same[i]] = Same[i] /\ Same[i] <= i
\* a tape only grows, except where the generator is set
Grows == [][ops'[Len(ops')].op \in {"seed", "load"} \/ (tape'[2] = tape[2] /\ Len(tape'[3]) >= Len(tape[3]))]_vars
Emit == (SIM => Busy) \/ PrintT("@@" \o ToJson([ops |-> ops, same |-> Same]))
=============================================================================
