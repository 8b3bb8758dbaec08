--------------------------- MODULE GatherScatter ---------------------------
(* Gather-scatter handles as a user sees them: communicators, collective set-up over ids, blocking and
   nonblocking operations on arrays, id uniqueness, release.  One action per call begin / call end on one
   process; an operation on a handle is collective: the k-th operation a process starts on a handle belongs to
   the same instance on all processes.  An instance accumulates, per id group, the combination of the
   contributions of the processes that have started it; a process may finish once every process sharing one
   of its groups has started, and must then hold the accumulated values. *)
EXTENDS Monoids, FiniteSets, TLC

VARIABLES comms,   \* comm key -> [np, who : rank -> id]            (processes that have it)
          hs,      \* handle key -> [c, q, me, fort, hv, src : rank -> ids, eff : rank -> ids, st : rank -> "b"|"r"|"g"]
          shr,     \* handle key -> [group label -> [all, con : ranks having it / having it unflagged]] (once all have begun set-up)
          inst,    \* <<handle, k>> -> [op, t, en, k, acc : group -> Seq(value), begun, ended]
          cnt,     \* <<handle, rank>> -> number of operations begun
          pend,    \* <<rank, wait slot>> -> [h, i, a, in, hv]
          data,    \* <<rank, array>> -> contents (Seq of components, each a Seq of values)
          uq,      \* unique-call key -> [c, src, eff, done]
          mc,      \* <<handle, rank, op, t>> -> messages sent by that process in such an operation
          mem      \* rank -> Seq of heap sizes observed at successive release points
gsv == <<comms, hs, shr, inst, cnt, pend, data, uq, mc, mem>>

GSInit == /\ comms = <<>> /\ hs = <<>> /\ shr = <<>> /\ inst = <<>> /\ cnt = <<>> /\ pend = <<>>
          /\ data = <<>> /\ uq = <<>> /\ mc = <<>> /\ mem = <<>>
Empty == <<>>
Has(f, x) == x \in DOMAIN f
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Range_(s) == {s[i] : i \in DOMAIN s}
ZERO == "0"

----------------------------------------------------------------------------
(* communicators *)
NewComm(r, c, id, np) ==
  LET old == Get(comms, c, [np |-> np, who |-> Empty]) IN
  /\ old.np = np /\ id \in 0..np-1 /\ r \notin DOMAIN old.who
  /\ \A q \in DOMAIN old.who : old.who[q] # id
  /\ comms' = (c :> [old EXCEPT !.who = @ @@ (r :> id)]) @@ comms
  /\ UNCHANGED <<hs, shr, inst, cnt, pend, data, uq, mc, mem>>
DropComm(r, c) ==
  /\ comms' = (c :> [comms[c] EXCEPT !.who = Del(@, r)]) @@ comms
  /\ UNCHANGED <<hs, shr, inst, cnt, pend, data, uq, mc, mem>>

----------------------------------------------------------------------------
(* arrays *)
SetArray(r, a, v) == /\ data' = (<<r, a>> :> v) @@ data
                     /\ UNCHANGED <<comms, hs, shr, inst, cnt, pend, uq, mc, mem>>
Busy(r, a) == \E p \in DOMAIN pend : p[1] = r /\ pend[p].a = a
ReadArray(r, a, v) == /\ Busy(r, a) \/ data[<<r, a>>] = v      \* nothing else may have touched it
                      /\ UNCHANGED gsv

----------------------------------------------------------------------------
(* ids: a process contributes  [g : Seq(label), s : Seq(0..1)]  (s = 1 means flagged) *)
Members(ids, g) == {i \in DOMAIN ids.g : ids.g[i] = g}
Labels(ids) == Range_(ids.g) \ {ZERO}
Unflagged(ids) == {ids.g[i] : i \in {j \in DOMAIN ids.g : ids.s[j] = 0}} \ {ZERO}

UniqueBegin(r, u, c, ids) ==
  LET old == Get(uq, u, [c |-> c, src |-> Empty, eff |-> Empty, done |-> {}]) IN
  /\ old.c = c /\ r \notin DOMAIN old.src
  /\ uq' = (u :> [old EXCEPT !.src = @ @@ (r :> ids)]) @@ uq
  /\ UNCHANGED <<comms, hs, shr, inst, cnt, pend, data, mc, mem>>

\* labels unchanged; flagged stays flagged; when the last process returns, exactly one unflagged member remains
\* in every group that had one
UniqueLocalOK(src, eff) ==
  /\ eff.g = src.g
  /\ \A i \in DOMAIN src.g : src.g[i] # ZERO => (src.s[i] = 1 => eff.s[i] = 1)
  /\ \A i \in DOMAIN src.g : src.g[i] = ZERO => eff.s[i] = 0
OneOwner(src, eff) ==
  LET R == DOMAIN src
      L == UNION {Labels(src[q]) : q \in R}
      had(g) == \E q \in R : \E i \in Members(src[q], g) : src[q].s[i] = 0
      own(g) == UNION {{<<q, i>> : i \in {j \in Members(eff[q], g) : eff[q].s[j] = 0}} : q \in R}
  IN \A g \in L : Cardinality(own(g)) = IF had(g) THEN 1 ELSE 0
UniqueEnd(r, u, eff) ==
  LET o == uq[u] IN
  /\ r \in DOMAIN o.src /\ r \notin o.done
  /\ Cardinality(DOMAIN o.src) = comms[o.c].np            \* nobody can decide before everybody has entered
  /\ UniqueLocalOK(o.src[r], eff)
  /\ LET n == [o EXCEPT !.eff = @ @@ (r :> eff), !.done = @ \cup {r}] IN
       /\ (Cardinality(n.done) = comms[o.c].np => OneOwner(n.src, n.eff))
       /\ uq' = (u :> n) @@ uq
  /\ UNCHANGED <<comms, hs, shr, inst, cnt, pend, data, mc, mem>>

----------------------------------------------------------------------------
(* set-up and release.  A handle set up with the unique option behaves as one set up with the ids that
   gs_unique (call u, same communicator, same ids) produced. *)
SetupBegin(r, h, c, u, q, me, fort, ids) ==
  LET old == Get(hs, h, [c |-> c, q |-> q, me |-> me, fort |-> fort, hv |-> Empty, src |-> Empty, eff |-> Empty, st |-> Empty])
      eff == IF q = 0 THEN ids ELSE uq[u].eff[r]
  IN
  /\ old.c = c /\ old.q = q /\ old.me = me /\ r \notin DOMAIN old.src
  /\ q = 1 => (uq[u].c = c /\ uq[u].src[r] = ids)
  /\ LET n == [old EXCEPT !.src = @ @@ (r :> ids), !.eff = @ @@ (r :> eff), !.st = @ @@ (r :> "b")]
         full == Cardinality(DOMAIN n.src) = comms[c].np
         L == UNION {Labels(n.eff[p]) : p \in DOMAIN n.eff}
         per == [p \in DOMAIN n.eff |-> Labels(n.eff[p])]
         unf == [p \in DOMAIN n.eff |-> Unflagged(n.eff[p])]
     IN /\ hs' = (h :> n) @@ hs
        /\ shr' = IF full THEN (h :> [g \in L |-> [all |-> {p \in DOMAIN n.eff : g \in per[p]}, con |-> {p \in DOMAIN n.eff : g \in unf[p]}]]) @@ shr ELSE shr
  /\ UNCHANGED <<comms, inst, cnt, pend, data, uq, mc, mem>>
SetupEnd(r, h, hv, ids) ==
  /\ h \in DOMAIN shr                            \* everybody has entered
  /\ hs[h].st[r] = "b"
  /\ ids = hs[h].src[r]                          \* the caller's ids are untouched
  /\ hs[h].fort = 1 => /\ hv >= 0                \* a new Fortran handle differs from every live one
                       /\ \A x \in DOMAIN hs : (x # h /\ hs[x].fort = 1 /\ Get(hs[x].st, r, "n") = "r") => hs[x].hv[r] # hv
  /\ hs' = [hs EXCEPT ![h].st[r] = "r", ![h].hv = (r :> hv) @@ @]
  /\ UNCHANGED <<comms, shr, inst, cnt, pend, data, uq, mc, mem>>
\* every group of r complete in every instance r has begun
FreeBegin(r, h) ==
  /\ hs[h].st[r] = "r"
  /\ hs' = [hs EXCEPT ![h].st[r] = "f"]
  /\ UNCHANGED <<comms, shr, inst, cnt, pend, data, uq, mc, mem>>
FreeEnd(r, h) ==
  /\ hs[h].st[r] = "f"
  /\ hs' = [hs EXCEPT ![h].st[r] = "g"]
  /\ UNCHANGED <<comms, shr, inst, cnt, pend, data, uq, mc, mem>>

----------------------------------------------------------------------------
(* operations *)
Contributes(flag, t) == t = 1 \/ flag = 0
Receives(flag, t) == t = 0 \/ flag = 0

\* the contributions of one process, folded into the per-group accumulators
RECURSIVE Gather(_, _, _, _, _)
Gather(acc, ids, o, in, i) ==
  IF i > Len(ids.g) THEN acc
  ELSE LET g == ids.g[i] IN
       IF g = ZERO \/ ~Contributes(ids.s[i], o.t) THEN Gather(acc, ids, o, in, i + 1)
       ELSE Gather([acc EXCEPT ![g] = [c \in 1..o.k |-> Combine(o.op, o.en, @[c], in[c][i])]], ids, o, in, i + 1)

Result(acc, ids, o, in) ==
  [c \in 1..o.k |-> [i \in 1..Len(ids.g) |->
     IF ids.g[i] = ZERO \/ ~Receives(ids.s[i], o.t) THEN in[c][i] ELSE acc[ids.g[i]][c]]]

Begin(r, h, op, t, en, in) ==      \* r enters its next operation on h with contents in
  LET k == Get(cnt, <<h, r>>, 0) + 1
      x == <<h, k>>
      nk == Len(in)
      fresh == [op |-> op, t |-> t, en |-> en, k |-> nk, begun |-> {}, ended |-> {},
                acc |-> [g \in DOMAIN shr[h] |-> [c \in 1..nk |-> Identity(op)]]]
      o == Get(inst, x, fresh)
  IN /\ hs[h].st[r] = "r"
     /\ o.op = op /\ o.t = t /\ o.en = en /\ o.k = nk
     /\ \A c \in 1..nk : Len(in[c]) = Len(hs[h].eff[r].g)
     /\ cnt' = (<<h, r>> :> k) @@ cnt
     /\ inst' = (x :> [o EXCEPT !.acc = Gather(@, hs[h].eff[r], o, in, 1), !.begun = @ \cup {r}]) @@ inst
\* r may finish once every process whose values it needs has started
Ready(r, x) == LET h == x[1] IN
  IF inst[x].t = 0 THEN \A g \in Labels(hs[h].eff[r]) : shr[h][g].con \subseteq inst[x].begun
                   ELSE \A g \in Unflagged(hs[h].eff[r]) : shr[h][g].all \subseteq inst[x].begun
Finish(r, x) == IF inst[x].ended \cup {r} = DOMAIN hs[x[1]].src THEN Del(inst, x)
                ELSE [inst EXCEPT ![x].ended = @ \cup {r}]
Expected(r, x, in) == Result(inst[x].acc, hs[x[1]].eff[r], inst[x], in)

OpBegin(r, h, a, op, t, en, in) ==
  /\ ~Busy(r, a) /\ data[<<r, a>>] = in
  /\ Begin(r, h, op, t, en, in)
  /\ UNCHANGED <<comms, hs, shr, pend, data, uq, mc, mem>>

(* messages sent by a process in one blocking operation: the pairwise exchange sends at most one message to
   each process it shares an id with and none elsewhere, the crystal router at most one per halving step;
   for every method the number does not depend on the number of components *)
MsgsOK(r, x, sent) ==
  LET h == x[1] o == inst[x]
      sum == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE sent[i] + S(i-1) IN S(Len(sent))
      key == <<h, r, o.op, o.t>>
      share(q) == \E g \in Labels(hs[h].eff[r]) : q \in shr[h][g].all
  IN /\ hs[h].me = 1 => \A q \in 0..Len(sent)-1 : sent[q+1] <= (IF q # r /\ share(q) THEN 1 ELSE 0)
     /\ hs[h].me = 2 => sum <= CeilLog2(comms[hs[h].c].np)
     /\ (key \in DOMAIN mc) => mc[key] = sent
CountMsgs(r, x, sent) == mc' = (<<x[1], r, inst[x].op, inst[x].t>> :> sent) @@ mc

(* what a pairwise handle says about itself: one message per process that r receives from in the plain
   direction, by increasing process, each as long as the number of ids it brings *)
Reports(r, h, n, z) ==
  LET me == Labels(hs[h].eff[r])
      brings(q) == Cardinality({g \in me : q \in shr[h][g].con})
      from == {q \in DOMAIN hs[h].src \ {r} : brings(q) > 0}
  IN /\ hs[h].st[r] = "r" /\ hs[h].me = 1
     /\ n = Cardinality(from) /\ Len(z) = n
     /\ \A q \in from : z[Cardinality({p \in from : comms[hs[h].c].who[p] <= comms[hs[h].c].who[q]})] = brings(q)
     /\ UNCHANGED gsv

OpEnd(r, h, a, out, sent, counting) ==
  LET x == <<h, cnt[<<h, r>>]>> IN
  /\ x \in DOMAIN inst /\ r \in inst[x].begun /\ Ready(r, x)
  /\ out = Expected(r, x, data[<<r, a>>])
  /\ data' = [data EXCEPT ![<<r, a>>] = out]
  /\ IF counting THEN MsgsOK(r, x, sent) /\ CountMsgs(r, x, sent) ELSE UNCHANGED mc
  /\ inst' = Finish(r, x)
  /\ UNCHANGED <<comms, hs, shr, cnt, pend, uq, mem>>

Issue(r, w, h, a, op, t, en, in) ==
  /\ ~Busy(r, a) /\ data[<<r, a>>] = in /\ <<r, w>> \notin DOMAIN pend
  /\ Begin(r, h, op, t, en, in)
  /\ pend' = (<<r, w>> :> [x |-> <<h, Get(cnt, <<h, r>>, 0) + 1>>, a |-> a, hv |-> -1, st |-> "i"]) @@ pend
  /\ UNCHANGED <<comms, hs, shr, data, uq, mc, mem>>
IssueEnd(r, w, hv) ==
  /\ pend[<<r, w>>].st = "i" /\ hv >= 0
  /\ \A p \in DOMAIN pend : (p[1] = r /\ p[2] # w) => pend[p].hv # hv
  /\ pend' = [pend EXCEPT ![<<r, w>>].hv = hv, ![<<r, w>>].st = "o"]
  /\ UNCHANGED <<comms, hs, shr, inst, cnt, data, uq, mc, mem>>
WaitBegin(r, w) == /\ pend[<<r, w>>].st = "o"
                   /\ pend' = [pend EXCEPT ![<<r, w>>].st = "w"]
                   /\ UNCHANGED <<comms, hs, shr, inst, cnt, data, uq, mc, mem>>
WaitEnd(r, w, out) ==
  LET p == pend[<<r, w>>] x == p.x IN
  /\ p.st = "w" /\ Ready(r, x)
  /\ out = Expected(r, x, data[<<r, p.a>>])
  /\ data' = [data EXCEPT ![<<r, p.a>>] = out]
  /\ pend' = Del(pend, <<r, w>>)
  /\ inst' = Finish(r, x)
  /\ UNCHANGED <<comms, hs, shr, cnt, uq, mc, mem>>

----------------------------------------------------------------------------
(* Known deviation of the code (see known_findings.txt, G02): in a transposed operation, a process all of whose
   members of a group are flagged, and that has several, overwrites one of them (the first unflagged in the ids given to set-up, else the first) with the combination of
   its own members instead of leaving it alone. *)
LocalFold(ids, o, in, c, g) ==
  LET RECURSIVE F(_, _)
      F(i, acc) == IF i > Len(ids.g) THEN acc
                   ELSE F(i + 1, IF ids.g[i] = g THEN Combine(o.op, o.en, acc, in[c][i]) ELSE acc)
  IN F(1, Identity(o.op))
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Primary(src, M) == LET U == {j \in M : src.s[j] = 0} IN IF U = {} THEN First(M) ELSE First(U)
DevIndex(ids, src, o) == {i \in DOMAIN ids.g :
   /\ o.t = 1 /\ ids.g[i] # ZERO
   /\ LET M == Members(ids, ids.g[i]) IN Cardinality(M) > 1 /\ (\A j \in M : ids.s[j] = 1) /\ Primary(src, M) = i}
Deviant(r, x, in) ==
  LET ids == hs[x[1]].eff[r] o == inst[x] e == Expected(r, x, in) D == DevIndex(ids, hs[x[1]].src[r], o) IN
  [c \in 1..o.k |-> [i \in 1..Len(ids.g) |-> IF i \in D THEN LocalFold(ids, o, in, c, ids.g[i]) ELSE e[c][i]]]

OpEndDeviant(r, h, a, out) ==
  LET x == <<h, cnt[<<h, r>>]>> IN
  /\ x \in DOMAIN inst /\ r \in inst[x].begun /\ Ready(r, x)
  /\ DevIndex(hs[h].eff[r], hs[h].src[r], inst[x]) # {}
  /\ out # Expected(r, x, data[<<r, a>>])
  /\ out = Deviant(r, x, data[<<r, a>>])
  /\ data' = [data EXCEPT ![<<r, a>>] = out]
  /\ inst' = Finish(r, x)
  /\ UNCHANGED <<comms, hs, shr, cnt, pend, uq, mc, mem>>
WaitEndDeviant(r, w, out) ==
  LET p == pend[<<r, w>>] x == p.x IN
  /\ p.st = "w" /\ Ready(r, x)
  /\ DevIndex(hs[x[1]].eff[r], hs[x[1]].src[r], inst[x]) # {}
  /\ out # Expected(r, x, data[<<r, p.a>>])
  /\ out = Deviant(r, x, data[<<r, p.a>>])
  /\ data' = [data EXCEPT ![<<r, p.a>>] = out]
  /\ pend' = Del(pend, <<r, w>>)
  /\ inst' = Finish(r, x)
  /\ UNCHANGED <<comms, hs, shr, cnt, uq, mc, mem>>

----------------------------------------------------------------------------
(* resources *)
LiveHandles(r) == {h \in DOMAIN hs : Get(hs[h].st, r, "n") \in {"b", "r", "f"}}
MyComms(r) == {c \in DOMAIN comms : r \in DOMAIN comms[c].who}
MyPend(r) == {p \in DOMAIN pend : p[1] = r}
Fortrans(r) == Cardinality({h \in DOMAIN hs : hs[h].fort = 1 /\ r \in DOMAIN hs[h].st})
\* communicators held, as counted (-1: a library without MPI has none to count)
Held(nc, n) == nc \in {-1, n}
Live(r, nc, nr, bytes) ==
  /\ LiveHandles(r) = {} => Held(nc, Cardinality(MyComms(r)))
  /\ MyPend(r) = {} => nr = 0
  /\ LET s == Append(Get(mem, r, <<>>), bytes) IN
       /\ mem' = (r :> s) @@ mem
       /\ Len(s) >= 4 => bytes <= s[2] + 24 * Fortrans(r)   \* set-up/use/free cycles do not accumulate memory (but for the handle table)
  /\ UNCHANGED <<comms, hs, shr, inst, cnt, pend, data, uq, mc>>

(* a Fortran call with arbitrary arguments is legal only with a live handle, type 1..3 and operation 1..4 *)
RawLegal(r, fn, hk, hv, dom, op) ==
  IF fn \in {"setup", "unique"} THEN op = comms[dom].np
  ELSE /\ hk >= 0 => Get(hs[hk].st, r, "n") = "r" /\ hs[hk].hv[r] = hv
       /\ \E h \in DOMAIN hs : hs[h].fort = 1 /\ Get(hs[h].st, r, "n") = "r" /\ hs[h].hv[r] = hv
       /\ fn # "free" => (dom \in 1..3 /\ op \in 1..4)
=============================================================================
