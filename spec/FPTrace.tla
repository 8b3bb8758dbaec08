------------------------------ MODULE FPTrace ------------------------------
EXTENDS Mesh, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ph, comms, mesh, cur, nfh, base
\* comms: key -> size; mesh: finder -> process number -> its part; cur: process -> call it is in; nfh: Fortran handles ever made, per process; base: memory in use before
fv == <<comms, mesh, cur, nfh, base>>
tv == <<l, ph, comms, mesh, cur, nfh, base>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Run(e) == Is(e) /\ ph = "run" /\ ph' = ph
Put(f, k, v) == (k :> v) @@ f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
TInit == l = 1 /\ ph = "over" /\ comms = <<>> /\ mesh = <<>> /\ cur = <<>> /\ nfh = <<>> /\ base = <<>>
TScn == Is("scn") /\ ph \in {"over", "exit"} /\ ph' = "run" /\ comms' = <<>> /\ mesh' = <<>> /\ cur' = <<>> /\ nfh' = <<>> /\ base' = <<>>
TEnd == /\ Is("end") /\ ph = "run" /\ ph' = "over" /\ UNCHANGED fv
        /\ Ev.unmatched = 0 /\ Ev.rcv = 0 /\ Ev.reqs = 0 /\ \A r \in DOMAIN cur : cur[r] = <<>>
TComm == Run("comm") /\ comms' = Put(comms, Ev.c, Ev.np) /\ UNCHANGED <<mesh, cur, nfh, base>>
TDrop == Run("cfree") /\ UNCHANGED fv
Idle(r) == Get(cur, r, <<>>) = <<>>
Part(k, id) == mesh[k][id]
\* every process of the finder has given its elements
Whole(k) == k \in DOMAIN mesh /\ (\A i \in DOMAIN mesh[k] : mesh[k][i].how = "l" \/ DOMAIN mesh[k] = 0..comms[mesh[k][i].c]-1)
TFm == /\ Run("fm") /\ Idle(Ev.r)
       /\ mesh' = Put(mesh, Ev.k, Put(Get(mesh, Ev.k, <<>>), Ev.id,
            [c |-> Ev.c, how |-> Ev.how, dim |-> Ev.dim, ts |-> Ev.ts, sh |-> Ev.sh, phi |-> Ev.phi, ims |-> Ev.ims, sid |-> Ev.sid, df |-> Ev.df, els |-> Ev.els, w |-> Ev.r, live |-> FALSE, hv |-> -1]))
       /\ cur' = Put(cur, Ev.r, <<"fm", Ev.k>>) /\ UNCHANGED <<comms, nfh, base>>
Mine(k, r) == CHOOSE i \in DOMAIN mesh[k] : mesh[k][i].w = r
Parts(r) == UNION {{<<k, i>> : i \in {i \in DOMAIN mesh[k] : mesh[k][i].w = r}} : k \in DOMAIN mesh}
LiveParts(r) == {x \in Parts(r) : mesh[x[1]][x[2]].live}
TFmE == /\ Run("fmE") /\ cur[Ev.r] = <<"fm", Ev.k>> /\ cur' = Put(cur, Ev.r, <<>>)
        /\ \A x \in LiveParts(Ev.r) : mesh[x[1]][x[2]].hv = -1 \/ mesh[x[1]][x[2]].hv # Ev.hv
        /\ (Ev.hv < 0) = (mesh[Ev.k][Mine(Ev.k, Ev.r)].how # "f")
        /\ mesh' = [mesh EXCEPT ![Ev.k][Mine(Ev.k, Ev.r)].live = TRUE, ![Ev.k][Mine(Ev.k, Ev.r)].hv = Ev.hv]
        /\ nfh' = IF Ev.hv >= 0 THEN Put(nfh, Ev.r, Get(nfh, Ev.r, 0) + 1) ELSE nfh
        /\ UNCHANGED <<comms, base>>
Begin(e, b) == Run(b) /\ Idle(Ev.r) /\ mesh[Ev.k][Mine(Ev.k, Ev.r)].live /\ cur' = Put(cur, Ev.r, <<e, Ev.k, Ev.n>>) /\ UNCHANGED <<comms, mesh, nfh, base>>
Seen(k, r) == LET me == Mine(k, r) IN IF mesh[k][me].how = "l" THEN me :> mesh[k][me] ELSE mesh[k]
End(e, b) == Run(b) /\ Whole(Ev.k) /\ Ev.gap = 1 /\ cur[Ev.r] = <<e, Ev.k, Len(Ev.a)>> /\ cur' = Put(cur, Ev.r, <<>>) /\ UNCHANGED <<comms, mesh, nfh, base>>
TFqB == Begin("fq", "fqB")
TFqE == End("fq", "fqE") /\ \E M \in {Seen(Ev.k, Ev.r)} : \A i \in DOMAIN Ev.a : AnswerOK(M, Ev.a[i], Ev.q, Ev.mt)
TFeB == Begin("fe", "feB")
TFeE == End("fe", "feE") /\ \E M \in {Seen(Ev.k, Ev.r)} : \A i \in DOMAIN Ev.a : ValueOK(M, Ev.a[i], Ev.f, Ev.sh, Ev.eo)
TFs == Run("fs") /\ Idle(Ev.r) /\ UNCHANGED fv
       /\ \E m \in {mesh[Ev.k][Mine(Ev.k, Ev.r)]} : m.live /\ \A i \in DOMAIN Ev.a : ElementOK(m, m.els[Ev.el + 1], Ev.a[i], Ev.q)
TFfB == /\ Run("ffB") /\ Idle(Ev.r) /\ mesh[Ev.k][Mine(Ev.k, Ev.r)].live /\ cur' = Put(cur, Ev.r, <<"ff", Ev.k>>)
        /\ mesh' = [mesh EXCEPT ![Ev.k][Mine(Ev.k, Ev.r)].live = FALSE] /\ UNCHANGED <<comms, nfh, base>>
TFfE == Run("ffE") /\ cur[Ev.r] = <<"ff", Ev.k>> /\ cur' = Put(cur, Ev.r, <<>>) /\ UNCHANGED <<comms, mesh, nfh, base>>
\* with no finder left, memory and communicators are what they were (but for the table of Fortran handles)
TLive == /\ Run("live") /\ Idle(Ev.r) /\ UNCHANGED <<comms, mesh, cur, nfh>> /\ Ev.reqs = 0
         /\ IF Ev.r \notin DOMAIN base THEN base' = Put(base, Ev.r, <<Ev.comms, Ev.bytes>>)
            ELSE /\ UNCHANGED base
                 /\ LiveParts(Ev.r) = {} => Ev.comms = base[Ev.r][1] /\ Ev.bytes >= base[Ev.r][2] /\ Ev.bytes <= base[Ev.r][2] + 32 * Get(nfh, Ev.r, 0)
\* illegal calls stop the program
Illegal(r) == CASE Ev.fn \in {"np", "npms"} -> Ev.hv # 0
                [] Ev.fn \in {"dim", "dimms"} -> Ev.hv \notin {2, 3}
                [] OTHER -> Ev.hv < 0 \/ \A x \in LiveParts(r) : mesh[x[1]][x[2]].hv # Ev.hv
TBad == Is("fbad") /\ ph \in {"run", "bad"} /\ Illegal(Ev.r) /\ ph' = "bad" /\ UNCHANGED fv
TExit == Is("exit") /\ ph = "bad" /\ Ev.st = 1 /\ ph' = "exit" /\ UNCHANGED fv
TNext == TScn \/ TEnd \/ TComm \/ TDrop \/ TFm \/ TFmE \/ TFqB \/ TFqE \/ TFeB \/ TFeE \/ TFs \/ TFfB \/ TFfE \/ TLive \/ TBad \/ TExit
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
TSpec == TInit /\ [][TNext]_tv
=============================================================================
