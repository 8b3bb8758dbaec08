---------------------------- MODULE Communicators ----------------------------
(* Communicators as the library's wrappers present them: creation by duplication and by splitting, who is a member
   under which number, and point-to-point messages that stay within their communicator and arrive in order.
   Creations on one communicator are collective: the k-th creation of every member belongs to the same instance. *)
EXTENDS Movement
VARIABLES mk,      \* <<parent, k>> -> [kind, in : rank -> <<colour, key>>]
          mcnt,    \* <<parent, rank>> -> creations begun
          making,  \* rank -> [p, k] of the creation in progress
          lab,     \* communicator key -> <<parent, k, colour>>: what it was made by
          chan,    \* <<comm, source, destination, tag>> -> [s : sequence of contents sent, n : receives posted]
          reqs     \* <<rank, w>> -> [d, ch, k]: message request in progress
cmv == <<mk, mcnt, making, lab, chan, reqs>>
CMInit == mk = <<>> /\ mcnt = <<>> /\ making = <<>> /\ lab = <<>> /\ chan = <<>> /\ reqs = <<>>
World == -1
Parent(p, np) == IF p = World THEN [np |-> np, who |-> [r \in 0..np-1 |-> r]] ELSE comms[p]
CreateBegin(r, p, kind, col, key, np) ==
  LET k == Get(mcnt, <<p, r>>, 0) + 1 o == Get(mk, <<p, k>>, [kind |-> kind, in |-> Empty]) IN
  /\ r \in DOMAIN Parent(p, np).who /\ (p # World => r \notin comms[p].gone) /\ r \notin DOMAIN making /\ o.kind = kind
  /\ mk' = (<<p, k>> :> [o EXCEPT !.in = @ @@ (r :> <<col, key>>)]) @@ mk
  /\ mcnt' = (<<p, r>> :> k) @@ mcnt /\ making' = (r :> <<p, k>>) @@ making
  /\ UNCHANGED <<lab, chan, reqs>>
\* the members of r's part of the instance, and the number of r among them
Part(in, r) == {q \in DOMAIN in : in[q][1] = in[r][1]}
Number(who, in, r) == Cardinality({q \in Part(in, r) : in[q][2] < in[r][2] \/ (in[q][2] = in[r][2] /\ who[q] < who[r])})
CreateEnd(r, c, id, n, np) ==
  /\ r \in DOMAIN making
  /\ LET p == making[r][1] o == mk[making[r]] P == Parent(p, np) me == <<p, making[r][2], o.in[r][1]>> IN
     /\ (o.kind = "split" => Cardinality(DOMAIN o.in) = P.np)
     /\ IF o.kind = "split" THEN n = Cardinality(Part(o.in, r)) /\ id = Number(P.who, o.in, r)
                            ELSE n = P.np /\ id = P.who[r]
     /\ Get(lab, c, me) = me /\ (c \notin DOMAIN lab => \A x \in DOMAIN lab : lab[x] # me)
     /\ lab' = (c :> me) @@ lab
  /\ making' = Del(making, r) /\ UNCHANGED <<mk, mcnt, chan, reqs>>
  /\ NewComm(r, c, id, n)
----------------------------------------------------------------------------
Member(r, c) == r \in DOMAIN comms[c].who \ comms[c].gone
NoMsg == [s |-> <<>>, n |-> 0]
PostSend(r, w, c, dst, tag, x) ==
  LET ch == <<c, IdOf(c, r), dst, tag>> o == Get(chan, ch, NoMsg) IN
  /\ Member(r, c) /\ dst \in 0..comms[c].np-1 /\ <<r, w>> \notin DOMAIN reqs
  /\ chan' = (ch :> [o EXCEPT !.s = Append(@, x)]) @@ chan
  /\ reqs' = (<<r, w>> :> [d |-> "s", ch |-> ch, k |-> Len(o.s) + 1]) @@ reqs /\ UNCHANGED <<mk, mcnt, making, lab>>
PostRecv(r, w, c, src, tag) ==
  LET ch == <<c, src, IdOf(c, r), tag>> o == Get(chan, ch, NoMsg) IN
  /\ Member(r, c) /\ src \in 0..comms[c].np-1 /\ <<r, w>> \notin DOMAIN reqs
  /\ chan' = (ch :> [o EXCEPT !.n = @ + 1]) @@ chan
  /\ reqs' = (<<r, w>> :> [d |-> "r", ch |-> ch, k |-> o.n + 1]) @@ reqs /\ UNCHANGED <<mk, mcnt, making, lab>>
\* a send may complete at any time, a receive once its message was sent, with that message
DoneSend(r, w) == /\ <<r, w>> \in DOMAIN reqs /\ reqs[<<r, w>>].d = "s" /\ reqs' = Del(reqs, <<r, w>>) /\ UNCHANGED <<mk, mcnt, making, lab, chan>>
DoneRecv(r, w, x) ==
  /\ <<r, w>> \in DOMAIN reqs
  /\ LET q == reqs[<<r, w>>] IN q.d = "r" /\ Len(chan[q.ch].s) >= q.k /\ chan[q.ch].s[q.k] = x
  /\ reqs' = Del(reqs, <<r, w>>) /\ UNCHANGED <<mk, mcnt, making, lab, chan>>
=============================================================================
