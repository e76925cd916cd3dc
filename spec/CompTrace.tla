------------------------------ MODULE CompTrace ------------------------------
(* Sessions recorded from the code: every call of sample on every node of a   *)
(* tree, with its answer or failure.  A trace is [tree, ev], ev a sequence of *)
(* [e |-> "call"/"ret"/"raise", i, n, rows, x]; calls nest.                   *)
EXTENDS Composite, IOUtils
VARIABLES t, l, bad
tvars == <<vars, t, l, bad>>
Traces == JsonDeserialize(IOEnv.TRACES)
TInit == /\ t \in 1..Len(Traces) /\ tree = Traces[t].tree /\ roots = <<>> /\ ns = <<>> /\ st = <<>> /\ ser = 0 /\ exc = "" /\ h = <<>>
         /\ l = 0 /\ bad = {}
Ev == Traces[t].ev[l + 1]
Kids(i) == {k \in DOMAIN tree[i].kids : tree[i].kids[k] = Ev.i}
Keep == UNCHANGED <<tree, roots, ns, h, t>>
Reject(b) == bad' = {b} /\ l' = l + 1 /\ Keep /\ UNCHANGED <<st, ser, exc>>
TCall == LET who == IF st = <<>> THEN "start" ELSE tree[Top.i].k IN
    IF IF st = <<>> THEN Ev.i = Len(tree) ELSE exc = "" /\ \E k \in Kids(Top.i) : CanCall(tree[Top.i], Top, k, Ev.n)
    THEN (\E k \in (IF st = <<>> THEN {1} ELSE {j \in Kids(Top.i) : CanCall(tree[Top.i], Top, j, Ev.n)}) : st' = Append(st, Frame(Ev.i, k, Ev.n))) /\ l' = l + 1 /\ Keep /\ UNCHANGED <<ser, exc, bad>>
    ELSE Reject("call-" \o who)
TRet == IF st # <<>> /\ Top.i = Ev.i /\ exc = "" /\ Right(tree, ser, Top, Ev.rows)
    THEN st' = Deliver(Ev.rows) /\ ser' = (IF tree[Ev.i].k = "leaf" THEN ser + Top.n ELSE ser) /\ l' = l + 1 /\ Keep /\ UNCHANGED <<exc, bad>>
    ELSE Reject("rows-" \o tree[Ev.i].k)
TRaise == IF st # <<>> /\ Top.i = Ev.i /\ Ev.x = "RuntimeError" /\ (exc # "" \/ CanFail(tree[Top.i], Top))
    THEN st' = Pop /\ exc' = (IF Len(st) = 1 THEN "" ELSE Ev.x) /\ l' = l + 1 /\ Keep /\ UNCHANGED <<ser, bad>>
    ELSE Reject("raise-" \o tree[Ev.i].k)
TStep == bad = {} /\ l < Len(Traces[t].ev) /\ (CASE Ev.e = "call" -> TCall [] Ev.e = "ret" -> TRet [] OTHER -> TRaise)
TraceSpec == TInit /\ [][TStep]_tvars
Fin == bad # {} \/ l = Len(Traces[t].ev)
Verdict == ~Fin \/ PrintT("@@" \o ToJson([t |-> t, ok |-> bad = {} /\ st = <<>>, l |-> l, bad |-> SetToSeq(bad)]))
=============================================================================
