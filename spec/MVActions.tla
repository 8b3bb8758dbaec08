----------------------------- MODULE MVActions -----------------------------
(* trace events as actions of Movement *)
EXTENDS Movement, Json, IOUtils
CONSTANT Counting
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ph, caps      \* caps: capacities announced for the transfer instance in progress
tv == <<comms, objs, inst, cnt, open, l, ph>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* a doomed call stops the program, but what others were doing may still be seen
Run(e) == Is(e) /\ ph \in {"run", "bad"} /\ ph' = ph
TInit == MVInit /\ l = 1 /\ ph = "over" /\ caps = <<>>
TScn == /\ Is("scn") /\ ph \in {"over", "exit"} /\ ph' = "run" /\ caps' = <<>>
        /\ comms' = <<>> /\ objs' = <<>> /\ inst' = <<>> /\ cnt' = <<>> /\ open' = <<>>
Live == UNION {{<<k, r>> : r \in {q \in DOMAIN objs[k].st : objs[k].st[q] # "g"}} : k \in DOMAIN objs}
Held == UNION {{<<c, r>> : r \in DOMAIN comms[c].who \ comms[c].gone} : c \in DOMAIN comms}
TEnd == /\ Is("end") /\ ph = "run" /\ ph' = "over" /\ UNCHANGED <<mvv, caps>>
        /\ Ev.unmatched = 0 /\ Ev.rcv = 0 /\ Ev.reqs = 0 /\ open = <<>>
        /\ Ev.comms \in {-1, Cardinality(Held) + Cardinality(Live)}  \* -1: a library without MPI has none to count
TComm == Run("comm") /\ NewComm(Ev.r, Ev.c, Ev.id, Ev.np) /\ UNCHANGED caps
TDrop == Run("cfree") /\ DropComm(Ev.r, Ev.c) /\ UNCHANGED caps
TCrB == Run("crB") /\ RouterBegin(Ev.r, Ev.k, Ev.c) /\ UNCHANGED caps
TCrE == Run("crE") /\ RouterEnd(Ev.r, Ev.k, Ev.hv, Ev.k >= 64*32) /\ UNCHANGED caps
TCrF == Run("crF") /\ RouterFree(Ev.r, Ev.k) /\ UNCHANGED caps
Usable(r, k) == Get(objs[k].st, r, "n") = "r"
TRB == Run("rB") /\ Usable(Ev.r, Ev.k) /\ Begin(Ev.r, <<"r", Ev.k>>, <<"r", Ev.k>>, "route", <<>>, Ev.in) /\ UNCHANGED caps
TRE == /\ Run("rE") /\ UNCHANGED caps
       /\ LET c == objs[Ev.k].c w == <<"r", Ev.k>> o == inst[open[<<Ev.r, w>>]] IN
            /\ o.kind = "route" /\ Ev.wf = 1 /\ RouteOK(Ev.r, c, o, Ev.out)
            /\ (Counting => RouteMsgs(c, Ev.m))
            /\ Finish(Ev.r, w, c)
\* the capacity is the caller's own; it is kept beside the instance
TTB == /\ Run("tB") /\ Usable(Ev.r, Ev.k) /\ Begin(Ev.r, <<"r", Ev.k>>, <<"r", Ev.k>>, "transfer", <<Ev.md, Ev.ss>>, Ev.in)
       /\ caps' = (<<Ev.r, Ev.k>> :> Ev.cap) @@ caps
TTE == /\ Run("tE") /\ Ev.gap = 1 /\ Ev.room = 1 /\ UNCHANGED caps
       /\ LET c == objs[Ev.k].c w == <<"r", Ev.k>> o == inst[open[<<Ev.r, w>>]] IN
            /\ o.kind = "transfer"
            /\ TransferOK(Ev.r, c, [o EXCEPT !.arg = <<o.arg[1], o.arg[2], (Ev.r :> caps[<<Ev.r, Ev.k>>])>>], Ev.n, Ev.out)
            /\ Finish(Ev.r, w, c)
TFS == Run("fs") /\ Usable(Ev.r, Ev.k) /\ SortOK(Ev.in, Ev.keys, Ev.out) /\ UNCHANGED <<mvv, caps>>
TAB == Run("aB") /\ Ev.r \in DOMAIN comms[Ev.c].who \ comms[Ev.c].gone /\ Begin(Ev.r, <<"c", Ev.c>>, <<"c", Ev.w>>, Ev.kind, <<Ev.op, Ev.en, Ev.root>>, Ev.in) /\ UNCHANGED caps
TAE == /\ Run("aE") /\ Ev.gap = 1 /\ UNCHANGED caps
       /\ LET key == open[<<Ev.r, <<"c", Ev.w>>>>] o == inst[key] c == key[1][2] IN
            /\ SameLen(o) /\ ReduceReady(Ev.r, c, o) /\ Ev.out = ReduceResult(Ev.r, c, o)
            /\ Finish(Ev.r, <<"c", Ev.w>>, c)
\* a call with a handle that is not this process's live one must stop the program
TRaw == /\ Is("raw") /\ ph \in {"run", "bad"} /\ ph' = "bad" /\ UNCHANGED <<mvv, caps>>
        /\ Ev.bad = 1 \/ ~(\E k \in DOMAIN objs : k >= 64*32 /\ Usable(Ev.r, k) /\ objs[k].hv[Ev.r] = Ev.hv)
TExit == Is("exit") /\ ph = "bad" /\ Ev.st = 1 /\ ph' = "exit" /\ UNCHANGED <<mvv, caps>>
=============================================================================
