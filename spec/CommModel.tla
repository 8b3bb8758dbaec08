----------------------------- MODULE CommModel -----------------------------
(* How an MPI makes communicators and matches messages, against what Communicators promises.
   what = "split": every way to colour NP processes and give them keys; the members of a part are numbered by a stable
   sort of their keys.  what = "msg": two processes, two communicators (the second numbered the other way round, as after
   a split), MaxMsg sends and receives in any order; every process keeps one list of posted receives and one of
   messages that came unexpected, for all communicators and tags, each searched from the oldest. *)
EXTENDS Communicators, Json
CONSTANTS NP, Cols, Keys, MaxMsg, Gen
VARIABLES what, plan, posted, unexp, got
mvars == <<comms, objs, inst, cnt, open, mk, mcnt, making, lab, chan, reqs, what, plan, posted, unexp, got>>
Procs == 0..NP-1
Two == (0 :> [np |-> 2, who |-> (0 :> 0 @@ 1 :> 1), gone |-> {}]) @@ (1 :> [np |-> 2, who |-> (0 :> 1 @@ 1 :> 0), gone |-> {}])
Init == /\ CMInit /\ objs = <<>> /\ inst = <<>> /\ cnt = <<>> /\ open = <<>> /\ posted = [r \in {0, 1} |-> <<>>] /\ unexp = [r \in {0, 1} |-> <<>>] /\ got = <<>>
        /\ \/ what = "split" /\ comms = <<>> /\ plan \in [Procs -> Cols \X Keys]
           \/ what = "msg" /\ comms = Two /\ plan = <<>> /\ MaxMsg > 0
rest == <<what, plan, posted, unexp, got>>
----------------------------------------------------------------------------
Must(act) == IF ENABLED act THEN act ELSE Assert(FALSE, "the wrapper's promise is broken")
BeginOne == \E r \in Procs : /\ \A q \in 0..r-1 : q \in DOMAIN making      \* orders of entry do not matter to a collective call
                             /\ r \notin DOMAIN making /\ \A q \in Procs : <<World, q>> \notin DOMAIN mcnt \/ q < r
                             /\ Must(CreateBegin(r, World, "split", plan[r][1], plan[r][2], NP)) /\ UNCHANGED <<comms, objs, inst, cnt, open>> /\ UNCHANGED rest
\* stable insertion of the members in parent order by key
RECURSIVE Sorted(_, _, _)
InsK(x, s) == LET k == Cardinality({i \in DOMAIN s : plan[s[i]][2] <= plan[x][2]}) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
Sorted(r, q, s) == IF q = NP THEN s ELSE Sorted(r, q + 1, IF plan[q][1] = plan[r][1] THEN InsK(q, s) ELSE s)
EndOne == /\ \A q \in Procs : <<World, q>> \in DOMAIN mcnt
          /\ \E r \in DOMAIN making : /\ \A q \in DOMAIN making : r <= q
             /\ \E s \in {Sorted(r, 0, <<>>)} : Must(CreateEnd(r, plan[r][1], (CHOOSE i \in DOMAIN s : s[i] = r) - 1, Len(s), NP))
          /\ UNCHANGED rest
----------------------------------------------------------------------------
\* envelopes <<comm, source, tag>>; requests are numbered by the call
Calls == Cardinality(DOMAIN got) + Cardinality(DOMAIN reqs)
First(s, env) == IF \E i \in DOMAIN s : s[i].env = env THEN CHOOSE i \in DOMAIN s : s[i].env = env /\ \A j \in 1..i-1 : s[j].env # env ELSE 0
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Send(r, c, d, tag) == LET w == Calls + 1 env == <<c, IdOf(c, r), tag>> p == RankOf(c, d) IN
  /\ Calls < MaxMsg /\ Must(PostSend(r, w, c, d, tag, w)) /\ UNCHANGED mvv /\ UNCHANGED <<what, plan>>
  /\ \E i \in {First(posted[p], env)} :
       IF i = 0 THEN unexp' = [unexp EXCEPT ![p] = Append(@, [env |-> env, x |-> w])] /\ UNCHANGED <<posted, got>>
       ELSE posted' = [posted EXCEPT ![p] = Cut(@, i)] /\ got' = (posted[p][i].w :> w) @@ got /\ UNCHANGED unexp
Recv(r, c, s, tag) == LET w == Calls + 1 env == <<c, s, tag>> IN
  /\ Calls < MaxMsg /\ Must(PostRecv(r, w, c, s, tag)) /\ UNCHANGED mvv /\ UNCHANGED <<what, plan>>
  /\ \E i \in {First(unexp[r], env)} :
       IF i = 0 THEN posted' = [posted EXCEPT ![r] = Append(@, [env |-> env, w |-> w])] /\ UNCHANGED <<unexp, got>>
       ELSE unexp' = [unexp EXCEPT ![r] = Cut(@, i)] /\ got' = (w :> unexp[r][i].x) @@ got /\ UNCHANGED posted
Post == \E r \in (IF Calls = 0 THEN {0} ELSE {0, 1}), c \in {0, 1}, q \in {0, 1}, tag \in {0, 1} : Send(r, c, q, tag) \/ Recv(r, c, q, tag)
Next == \/ what = "split" /\ (BeginOne \/ EndOne)
        \/ what = "msg" /\ Post
Spec == Init /\ [][Next]_mvars
----------------------------------------------------------------------------
\* the parts share the processes out, each numbered from 0
Parts == (what = "split" /\ making = <<>> /\ mcnt # <<>>) =>
   /\ UNION {DOMAIN comms[c].who : c \in DOMAIN comms} = Procs
   /\ \A c \in DOMAIN comms : /\ {comms[c].who[r] : r \in DOMAIN comms[c].who} = 0..comms[c].np-1
        /\ \A d \in DOMAIN comms : c # d => DOMAIN comms[c].who \cap DOMAIN comms[d].who = {}
        /\ \A a, b \in DOMAIN comms[c].who : comms[c].who[a] < comms[c].who[b] => plan[a][2] <= plan[b][2]
Matched ==   \* a receive that got a message can be completed with it and with no other
   what = "msg" => \A k \in DOMAIN reqs : reqs[k].d = "r" =>
     LET q == reqs[k] IN (k[2] \in DOMAIN got) = (Len(chan[q.ch].s) >= q.k) /\ (k[2] \in DOMAIN got => chan[q.ch].s[q.k] = got[k[2]])
Emit == (Gen /\ what = "split" /\ mcnt = <<>>) => PrintT("GEN" \o ToJson(<<[r \in 1..NP |-> plan[r-1][1]], [r \in 1..NP |-> plan[r-1][2]]>>))
=============================================================================
