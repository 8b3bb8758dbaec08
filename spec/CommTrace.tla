------------------------------ MODULE CommTrace ------------------------------
(* traces with communicator creation and user messages, among collective operations and routing *)
EXTENDS Communicators, MVActions
VARIABLE np
CRun(e) == Run(e) /\ UNCHANGED <<caps, np>>
CInit == TInit /\ CMInit /\ np = 0
CScn == /\ TScn /\ np' = Ev.np /\ mk' = <<>> /\ mcnt' = <<>> /\ making' = <<>> /\ lab' = <<>> /\ chan' = <<>> /\ reqs' = <<>>
CEnd == /\ TEnd /\ UNCHANGED <<cmv, np>> /\ reqs = <<>> /\ making = <<>>
        /\ \A x \in DOMAIN chan : Len(chan[x].s) = chan[x].n
LiveComms(r) == Cardinality({c \in DOMAIN comms : r \in DOMAIN comms[c].who \ comms[c].gone}) + Cardinality({k \in DOMAIN objs : Get(objs[k].st, r, "n") \in {"b", "r"}})
CLive == CRun("live") /\ Ev.comms \in {-1, LiveComms(Ev.r)} /\ UNCHANGED <<mvv, cmv>>
CMB == CRun("mB") /\ CreateBegin(Ev.r, Ev.p, Ev.kind, Ev.col, Ev.key, np) /\ UNCHANGED mvv
CME == CRun("mE") /\ CreateEnd(Ev.r, Ev.c, Ev.id, Ev.np, np)
CPS == CRun("ps") /\ PostSend(Ev.r, Ev.w, Ev.c, Ev.q, Ev.tag, Ev.x) /\ UNCHANGED mvv
CPR == CRun("pr") /\ PostRecv(Ev.r, Ev.w, Ev.c, Ev.q, Ev.tag) /\ UNCHANGED mvv
CDS == CRun("ds") /\ DoneSend(Ev.r, Ev.w) /\ UNCHANGED mvv
CDR == CRun("dr") /\ Ev.gap = 1 /\ DoneRecv(Ev.r, Ev.w, Ev.x) /\ UNCHANGED mvv
\* the library compiled without MPI is complete in itself: it needs no routine of a message-passing library
CNeeds == CRun("needs") /\ Ev.x = <<>> /\ UNCHANGED <<mvv, cmv>>
CMove == /\ (TDrop \/ TCrB \/ TCrE \/ TCrF \/ TRB \/ TRE \/ TTB \/ TTE \/ TAB \/ TAE \/ TRaw \/ TExit) /\ UNCHANGED <<cmv, np>>
CNext == CScn \/ CEnd \/ CLive \/ CMB \/ CME \/ CPS \/ CPR \/ CDS \/ CDR \/ CNeeds \/ CMove
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
TSpec == CInit /\ [][CNext]_<<mvv, cmv, l, ph, caps, np>>
=============================================================================
