------------------------------- MODULE Router -------------------------------
(* Message-level model of the crystal router and of the crystal-router gather-scatter exchange: every process
   repeatedly halves its window of processes, exchanging first the sizes and then the contents with a partner in
   the other half.  Sends are synchronous (a send completes only together with its receive), messages are matched
   by sender and tag, so what holds here holds with any amount of buffering.
   Payload: one message from every process to every process (the routing of a message does not depend on the
   others), plus, for the summing variant, one partial sum per group of processes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NP,          \* number of processes
          Groups       \* "none": no summing variant, "all": a group for every pair (contributors, receivers)
P == 0..NP-1
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)

\* the schedule of process p: a sequence of stages [targ, recvn, cut, hi (sends to the upper half)]
RECURSIVE Sched(_, _, _)
Sched(p, bl, n) ==
  IF n <= 1 THEN <<>>
  ELSE LET nl == (n + 1) \div 2
           bh == bl + nl
           t0 == n - 1 - (p - bl) + bl
           low == p < bh
       IN <<[targ |-> IF t0 = p THEN bh ELSE t0,
             recvn |-> IF t0 = p THEN 0 ELSE IF n % 2 = 1 /\ p = bh THEN 2 ELSE 1,
             cut |-> bh, hi |-> low]>>
          \o (IF low THEN Sched(p, bl, nl) ELSE Sched(p, bh, n - nl))
S == [p \in P |-> Sched(p, 0, NP) \o <<>>]
Grp == IF Groups = "none" THEN {} ELSE {g \in (SUBSET P) \X (SUBSET P) : g[1] # {} /\ g[2] # {}}

VARIABLES st,      \* st[p]: stage (1..), ph[p]: "idle" | "size" | "data"
          ph,
          pendS,   \* pendS[p]: is p's send of this phase outstanding
          pendR,   \* pendR[p]: set of senders p still waits for in this phase
          has,     \* has[p]: messages <<source, target>> held
          out,     \* out[p]: messages being sent in this phase
          sum,     \* sum[p]: group -> sequence of contributors summed so far (a bag)
          osum,    \* osum[p]: group -> partial sum being sent
          sent     \* sent[p]: number of messages sent
vars == <<st, ph, pendS, pendR, has, out, sum, osum, sent>>

Init == /\ st = [p \in P |-> 1] /\ ph = [p \in P |-> "idle"] /\ pendS = [p \in P |-> FALSE] /\ pendR = [p \in P |-> {}]
        /\ has = [p \in P |-> {<<p, t>> : t \in P}] /\ out = [p \in P |-> {}]
        /\ sum = [p \in P |-> [g \in Grp |-> IF p \in g[1] THEN <<p>> ELSE <<>>]] /\ osum = [p \in P |-> [g \in Grp |-> <<>>]]
        /\ sent = [p \in P |-> 0]
Done(p) == st[p] > Len(S[p])
Away(s, t) == IF s.hi THEN t >= s.cut ELSE t < s.cut
From(p, s) == IF s.recvn = 0 THEN {} ELSE IF s.recvn = 2 THEN {s.targ, p - 1} ELSE {s.targ}
Post(p) ==      \* start a phase: receives and the send are posted together
  /\ ~Done(p) /\ pendS[p] = FALSE /\ pendR[p] = {}
  /\ LET s == S[p][st[p]] IN
     /\ pendS' = [pendS EXCEPT ![p] = TRUE] /\ pendR' = [pendR EXCEPT ![p] = From(p, s)]
     /\ sent' = [sent EXCEPT ![p] = @ + 1]
     /\ IF ph[p] = "idle"
        THEN /\ ph' = [ph EXCEPT ![p] = "size"]
             /\ out' = [out EXCEPT ![p] = {m \in has[p] : Away(s, m[2])}]
             /\ has' = [has EXCEPT ![p] = {m \in has[p] : ~Away(s, m[2])}]
             \* a partial sum goes along if some receiver is over there; it stays if some receiver is here
             /\ osum' = [osum EXCEPT ![p] = [g \in Grp |-> IF \E t \in g[2] : Away(s, t) THEN sum[p][g] ELSE <<>>]]
             /\ sum' = [sum EXCEPT ![p] = [g \in Grp |-> IF \E t \in g[2] : ~Away(s, t) THEN sum[p][g] ELSE <<>>]]
        ELSE /\ ph' = [ph EXCEPT ![p] = "data"] /\ UNCHANGED <<out, has, osum, sum>>
  /\ UNCHANGED st
Advance(p, ps, pr) ==  \* phase and stage of p once its requests are ps, pr
  IF ps \/ pr # {} THEN <<st[p], ph[p]>> ELSE IF ph[p] = "data" THEN <<st[p] + 1, "idle">> ELSE <<st[p], "size">>
Match(q, p) ==    \* the outstanding send of q reaches p
  LET s == S[q][st[q]] IN
  /\ pendS[q] /\ s.targ = p /\ q \in pendR[p] /\ ph[q] = ph[p] /\ st[q] = st[p]
  /\ pendS' = [pendS EXCEPT ![q] = FALSE] /\ pendR' = [pendR EXCEPT ![p] = @ \ {q}]
  /\ LET a == Advance(q, FALSE, pendR'[q]) b == Advance(p, pendS'[p], pendR'[p]) IN
       /\ st' = [st EXCEPT ![q] = a[1], ![p] = b[1]] /\ ph' = [ph EXCEPT ![q] = a[2], ![p] = b[2]]
  /\ IF ph[q] = "data"
     THEN /\ has' = [has EXCEPT ![p] = @ \cup out[q]] /\ out' = [out EXCEPT ![q] = {}]
          /\ sum' = [sum EXCEPT ![p] = [g \in Grp |-> @[g] \o osum[q][g]]] /\ osum' = [osum EXCEPT ![q] = [g \in Grp |-> <<>>]]
     ELSE UNCHANGED <<has, out, sum, osum>>
  /\ UNCHANGED sent
Finished == (\A p \in P : Done(p)) /\ UNCHANGED vars
Next == (\E p \in P : Post(p)) \/ (\E p, q \in P : Match(q, p)) \/ Finished
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
NothingLost == UNION {has[p] \cup out[p] : p \in P} = P \X P
               /\ \A p, q \in P : p # q => has[p] \cap has[q] = {} /\ has[p] \cap out[q] = {} /\ out[p] \cap out[q] = {}
Logarithmic == \A p \in P : sent[p] <= 2 * CeilLog2(NP)
Delivered == (\A p \in P : Done(p)) => \A p \in P : has[p] = {<<q, p>> : q \in P}
\* every receiver of a group ends up with every contributor exactly once
Bag(s) == [x \in P |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Summed == (\A p \in P : Done(p)) => \A g \in Grp, p \in P : p \in g[2] => Bag(sum[p][g]) = [x \in P |-> IF x \in g[1] THEN 1 ELSE 0]
NoStray == (\A p \in P : Done(p)) => \A p \in P : pendR[p] = {} /\ ~pendS[p] /\ out[p] = {}
=============================================================================
