------------------------------ MODULE GSTrace ------------------------------
(* Accepts a recorded run of the real code iff it is a behaviour of GatherScatter.
   A file holds many scenarios; "scn" starts a new one from the initial state. *)
EXTENDS GatherScatter, Json, IOUtils
CONSTANT Counting                       \* check message counts
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ph                         \* position; phase: "run", "bad" (an illegal call was made), "over"
tv == <<comms, hs, shr, inst, cnt, pend, data, uq, mc, mem, l, ph>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Run(e) == Is(e) /\ ph = "run" /\ ph' = ph
Ids(g, s) == [g |-> g, s |-> s]
Known(name) == PrintT(<<"KNOWN", name, l>>)

TInit == GSInit /\ l = 1 /\ ph = "over"
TScn == /\ Is("scn") /\ ph \in {"over", "exit"} /\ ph' = "run"
        /\ comms' = <<>> /\ hs' = <<>> /\ shr' = <<>> /\ inst' = <<>> /\ cnt' = <<>> /\ pend' = <<>>
        /\ data' = <<>> /\ uq' = <<>> /\ mc' = <<>> /\ mem' = <<>>
TEnd == /\ Is("end") /\ ph = "run" /\ ph' = "over" /\ UNCHANGED gsv
        /\ Ev.unmatched = 0 /\ Ev.rcv = 0 /\ Ev.reqs = 0 /\ DOMAIN pend = {}
        /\ (\A r \in UNION {DOMAIN hs[h].st : h \in DOMAIN hs} : LiveHandles(r) = {}) =>
             LET S == {<<c, r>> \in UNION {{c} \X DOMAIN comms[c].who : c \in DOMAIN comms} : TRUE} IN Held(Ev.comms, Cardinality(S))
TComm == Run("comm") /\ NewComm(Ev.r, Ev.c, Ev.id, Ev.np)
TDrop == Run("cfree") /\ DropComm(Ev.r, Ev.c)
TSet == Run("set") /\ SetArray(Ev.r, Ev.a, Ev.v)
TRd == Is("rd") /\ ph \in {"run", "exit"} /\ ph' = ph /\ Ev.gap = 1 /\ ReadArray(Ev.r, Ev.a, Ev.v)
TUB == Run("uB") /\ UniqueBegin(Ev.r, Ev.u, Ev.c, Ids(Ev.g, Ev.s))
TUE == Run("uE") /\ UniqueEnd(Ev.r, Ev.u, Ids(Ev.g, Ev.s))
TSB == Run("sB") /\ SetupBegin(Ev.r, Ev.h, Ev.c, Ev.u, Ev.q, Ev.me, Ev.f, Ids(Ev.g, Ev.s))
TSE == Run("sE") /\ SetupEnd(Ev.r, Ev.h, Ev.hv, Ids(Ev.g, Ev.s))
TFB == Run("fB") /\ FreeBegin(Ev.r, Ev.h)
TFE == Run("fE") /\ FreeEnd(Ev.r, Ev.h)
TOB == Run("oB") /\ Ev.gap = 1 /\ OpBegin(Ev.r, Ev.h, Ev.a, Ev.op, Ev.t, Ev.en, Ev.in)
TOE == Run("oE") /\ Ev.gap = 1 /\ OpEnd(Ev.r, Ev.h, Ev.a, Ev.out, Ev.m, Counting)
TOED == Run("oE") /\ Ev.gap = 1 /\ OpEndDeviant(Ev.r, Ev.h, Ev.a, Ev.out) /\ Known("transposed-all-flagged")
TIB == Run("iB") /\ Issue(Ev.r, Ev.w, Ev.h, Ev.a, Ev.op, Ev.t, Ev.en, Ev.in)
TIE == Run("iE") /\ IssueEnd(Ev.r, Ev.w, Ev.hv)
TWB == Run("wB") /\ WaitBegin(Ev.r, Ev.w)
TWE == Run("wE") /\ Ev.gap = 1 /\ WaitEnd(Ev.r, Ev.w, Ev.out)
TWED == Run("wE") /\ Ev.gap = 1 /\ WaitEndDeviant(Ev.r, Ev.w, Ev.out) /\ Known("transposed-all-flagged")
TLive == Run("live") /\ Live(Ev.r, Ev.comms, Ev.reqs, Ev.bytes)
TNm == Run("nm") /\ Reports(Ev.r, Ev.h, Ev.n, Ev.z)
TRaw == /\ Is("raw") /\ ph \in {"run", "bad"} /\ UNCHANGED gsv
        /\ ~RawLegal(Ev.r, Ev.fn, Ev.hk, Ev.hv, Ev.dom, Ev.op)
        /\ ph' = "bad"
TExit == Is("exit") /\ ph = "bad" /\ Ev.st = 1 /\ ph' = "exit" /\ UNCHANGED gsv
\* while one process is about to stop, the others may still move: the generator makes illegal calls on every
\* process at a point where nothing is outstanding, so the next event is the exit itself
TNext == TScn \/ TComm \/ TDrop \/ TSet \/ TRd \/ TUB \/ TUE \/ TSB \/ TSE \/ TFB \/ TFE \/ TOB \/ TOE \/ TOED
         \/ TIB \/ TIE \/ TWB \/ TWE \/ TWED \/ TLive \/ TNm \/ TRaw \/ TExit \/ TEnd
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
TSpec == TInit /\ [][TNext]_tv
=============================================================================
