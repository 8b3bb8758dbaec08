------------------------------ MODULE EvalModel ------------------------------
(* Repeated evaluation: a finder keeps the points it sent out last and reuses them when every process gives the same
   ones again; a search throws them away.  Whatever the processes give, whenever the fields change, the values returned
   are those of the current field at the current points, and all processes take part in the same exchanges.
   All histories of MaxOps searches and evaluations are explored, and printed for replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP, Args, MaxOps, Gen
VARIABLES hist, kept, have, pc, args, same, field, out, moved
evars == <<hist, kept, have, pc, args, same, field, out, moved>>
Procs == 1..NP
Init == /\ hist = <<>> /\ kept = [p \in Procs |-> 0] /\ have = [p \in Procs |-> FALSE] /\ pc = [p \in Procs |-> "idle"]
        /\ args = [p \in Procs |-> 0] /\ same = [p \in Procs |-> FALSE] /\ field = 0 /\ out = [p \in Procs |-> <<0, 0>>] /\ moved = [p \in Procs |-> 0]
Idle == \A p \in Procs : pc[p] = "idle"
Find == /\ Idle /\ Len(hist) < MaxOps /\ hist' = Append(hist, <<>>) /\ have' = [p \in Procs |-> FALSE] /\ moved' = [p \in Procs |-> 0]
        /\ UNCHANGED <<kept, pc, args, same, field, out>>
Call == /\ Idle /\ Len(hist) < MaxOps /\ args' \in [Procs -> Args] /\ field' = field + 1 /\ hist' = Append(hist, args')
        /\ pc' = [p \in Procs |-> "start"] /\ UNCHANGED <<kept, have, same, out, moved>>
\* each process by itself
Compare(p) == /\ pc[p] = "start" /\ have[p] /\ same' = [same EXCEPT ![p] = kept[p] = args[p]] /\ pc' = [pc EXCEPT ![p] = "agree"] /\ UNCHANGED <<hist, kept, have, args, field, out, moved>>
Agree == /\ \A p \in Procs : pc[p] = "agree"
         /\ pc' = [p \in Procs |-> IF \A q \in Procs : same[q] THEN "eval" ELSE "send"] /\ UNCHANGED <<hist, kept, have, args, same, field, out, moved>>
Fresh(p) == pc[p] = "start" /\ ~have[p] /\ pc' = [pc EXCEPT ![p] = "send"] /\ UNCHANGED <<hist, kept, have, args, same, field, out, moved>>
Send == /\ \A p \in Procs : pc[p] = "send"       \* a collective exchange
        /\ kept' = args /\ have' = [p \in Procs |-> TRUE] /\ moved' = args /\ pc' = [p \in Procs |-> "eval"] /\ UNCHANGED <<hist, args, same, field, out>>
Eval == /\ \A p \in Procs : pc[p] = "eval"       \* values of the points held are sent back to where the points came from
        /\ out' = [p \in Procs |-> <<moved[p], field>>] /\ pc' = [p \in Procs |-> "idle"] /\ UNCHANGED <<hist, kept, have, args, same, field, moved>>
Done == Idle /\ Len(hist) = MaxOps /\ UNCHANGED evars
Next == Find \/ Call \/ (\E p \in Procs : Compare(p) \/ Fresh(p)) \/ Agree \/ Send \/ Eval \/ Done
Spec == Init /\ [][Next]_evars
\* deadlock freedom is checked as well
Current == (Idle /\ field > 0 /\ hist[Len(hist)] # <<>>) => \A p \in Procs : out[p] = <<args[p], field>>
Together == \A p, q \in Procs : have[p] = have[q]
Emit == (Gen /\ Idle /\ Len(hist) = MaxOps) => PrintT("GEN" \o ToJson(hist))
=============================================================================
