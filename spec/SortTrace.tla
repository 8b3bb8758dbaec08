------------------------------ MODULE SortTrace ------------------------------
EXTENDS Sorting, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ph
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Run(e) == Is(e) /\ ph = "run" /\ ph' = ph
TInit == arr = <<>> /\ l = 1 /\ ph = "over"
TScn == Is("scn") /\ ph = "over" /\ ph' = "run" /\ arr' = <<>>
TEnd == Is("end") /\ ph = "run" /\ ph' = "over" /\ UNCHANGED arr
TSv == Run("sv") /\ Ev.same = 1 /\ Ev.gap = 1 /\ ValSorted(Ev.in, Ev.out) /\ UNCHANGED arr
TSp == Run("sp") /\ Ev.same = 1 /\ (Ev.ws = 1 => IsPerm(Ev.start, Len(Ev.in))) /\ PermSorted(Ev.in, Ev.start, Ev.out) /\ UNCHANGED arr
TRs == Run("rs") /\ Ev.ok = 1 /\ RecSorted(Ev.in, Ev.out) /\ UNCHANGED arr
TPm == Run("pm") /\ Ev.ok = 1 /\ Ev.gap = 1 /\ Ev.kept = 1 /\ IsPerm(Ev.perm, Len(Ev.perm)) /\ Permuted(Ev.perm, Ev.out) /\ UNCHANGED arr
TPi == Run("pi") /\ IsPerm(Ev.perm, Len(Ev.perm)) /\ IsPerm(Ev.out, Len(Ev.perm)) /\ (\A i \in DOMAIN Ev.perm : Ev.out[Ev.perm[i]+1] = i - 1) /\ UNCHANGED arr
TAr == /\ Run("ar")
       /\ CASE Ev.op = "init" -> ArrInit(Ev.g, Ev.sz, Ev.arg) /\ Ev.n = 0 /\ Ev.max >= Ev.arg
            [] Ev.op = "free" -> ArrFree(Ev.g)
            [] OTHER -> /\ Ev.ok = 1
                        /\ CASE Ev.op = "reserve" -> ArrReserve(Ev.g, Ev.arg, Ev.n, Ev.max, Ev.el) /\ Ev.ret = 1
                             [] Ev.op = "cat" -> ArrCat(Ev.g, Ev.add, Ev.n, Ev.max, Ev.el)
                             [] Ev.op = "resize" -> ArrResize(Ev.g, Ev.arg, Ev.n, Ev.max, Ev.el)
TNext == TScn \/ TEnd \/ TSv \/ TSp \/ TRs \/ TPm \/ TPi \/ TAr
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
TSpec == TInit /\ [][TNext]_<<arr, l, ph>>
=============================================================================
