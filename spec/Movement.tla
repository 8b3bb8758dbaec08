------------------------------ MODULE Movement ------------------------------
(* Data movement and reductions as a user sees them.  Routers (crystal routers, Fortran tuple handles) and
   communicators are collective objects: the k-th call a process makes on an object belongs to the same
   instance on all processes.  A call may return once every process it needs data from has made it. *)
EXTENDS Monoids, FiniteSets, TLC
VARIABLES comms,   \* comm key -> [np, who : rank -> id, gone : ranks that released it]
          objs,    \* router key -> [c, hv : rank -> handle value, st : rank -> "b"|"r"|"g"]
          inst,    \* <<"r"|"c", key, k>> -> [kind, arg, in : rank -> input, done : set of ranks]
          cnt,     \* <<"r"|"c", key, rank>> -> calls begun
          open     \* <<rank, w>> -> instance of the call in progress
mvv == <<comms, objs, inst, cnt, open>>
MVInit == comms = <<>> /\ objs = <<>> /\ inst = <<>> /\ cnt = <<>> /\ open = <<>>
Empty == <<>>
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Range_(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
BagEq(a, b) == Len(a) = Len(b) /\ LET R == Range_(a) IN R = Range_(b) /\ (Cardinality(R) = Len(a) \/ \A x \in R : Count(a, x) = Count(b, x))
BagSub(a, b) == \A x \in Range_(a) : Count(a, x) <= Count(b, x)
SumSeq(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i-1) IN S(Len(s))
Pick(s, P(_)) == LET RECURSIVE S(_) S(i) == IF i > Len(s) THEN <<>> ELSE (IF P(s[i]) THEN <<s[i]>> ELSE <<>>) \o S(i+1) IN S(1)
Force(s) == s \o <<>>                              \* evaluate now
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])] \o <<>>
IdOf(c, r) == comms[c].who[r]
Ranks(c) == DOMAIN comms[c].who
RankOf(c, i) == CHOOSE r \in Ranks(c) : comms[c].who[r] = i

NewComm(r, c, id, np) ==
  LET old == Get(comms, c, [np |-> np, who |-> Empty, gone |-> {}]) IN
  /\ old.np = np /\ id \in 0..np-1 /\ r \notin DOMAIN old.who /\ \A q \in DOMAIN old.who : old.who[q] # id
  /\ comms' = (c :> [old EXCEPT !.who = @ @@ (r :> id)]) @@ comms /\ UNCHANGED <<objs, inst, cnt, open>>
DropComm(r, c) ==      \* who was in it stays known: routers made from it live on
  /\ r \in DOMAIN comms[c].who \ comms[c].gone
  /\ comms' = [comms EXCEPT ![c].gone = @ \cup {r}] /\ UNCHANGED <<objs, inst, cnt, open>>

RouterBegin(r, k, c) ==
  LET old == Get(objs, k, [c |-> c, hv |-> Empty, st |-> Empty]) IN
  /\ old.c = c /\ r \notin DOMAIN old.st
  /\ objs' = (k :> [old EXCEPT !.st = @ @@ (r :> "b")]) @@ objs /\ UNCHANGED <<comms, inst, cnt, open>>
RouterEnd(r, k, hv, fort) ==
  /\ objs[k].st[r] = "b"
  /\ fort => hv >= 0 /\ \A x \in DOMAIN objs : (x # k /\ Get(objs[x].st, r, "n") = "r") => objs[x].hv[r] # hv
  /\ objs' = [objs EXCEPT ![k].st[r] = "r", ![k].hv = @ @@ (r :> hv)] /\ UNCHANGED <<comms, inst, cnt, open>>
RouterFree(r, k) ==
  /\ objs[k].st[r] = "r"
  /\ objs' = [objs EXCEPT ![k].st[r] = "g"] /\ UNCHANGED <<comms, inst, cnt, open>>

\* begin / end of the next call of r on object x; w names the call within the process
Begin(r, x, w, kind, arg, in) ==
  LET k == Get(cnt, <<x, r>>, 0) + 1
      key == <<x, k>>
      o == Get(inst, key, [kind |-> kind, arg |-> arg, in |-> Empty, done |-> {}])
  IN /\ o.kind = kind /\ o.arg = arg /\ <<r, w>> \notin DOMAIN open
     /\ cnt' = (<<x, r>> :> k) @@ cnt
     /\ inst' = (key :> [o EXCEPT !.in = @ @@ (r :> in)]) @@ inst
     /\ open' = (<<r, w>> :> key) @@ open
     /\ UNCHANGED <<comms, objs>>
Finish(r, w, c) ==
  LET key == open[<<r, w>>] o == inst[key] IN
  /\ open' = Del(open, <<r, w>>)
  /\ inst' = IF o.done \cup {r} = Ranks(c) /\ Cardinality(Ranks(c)) = comms[c].np THEN Del(inst, key) ELSE [inst EXCEPT ![key].done = @ \cup {r}]
  /\ UNCHANGED <<comms, objs, cnt>>
All(c, o) == Cardinality(DOMAIN o.in) = comms[c].np

----------------------------------------------------------------------------
(* crystal router: messages are <<target id, length, contents>>; delivered messages <<target, source, length, contents>> *)
Addressed(c, o, id) ==      \* everything sent to id, as <<source, length, contents>>
  LET RECURSIVE F(_) F(i) == IF i = comms[c].np THEN <<>> ELSE Map(Pick(o.in[RankOf(c, i)], LAMBDA m : m[1] = id), LAMBDA m : <<i, m[2], m[3]>>) \o F(i+1) IN F(0)
RouteOK(r, c, o, out) ==
  /\ All(c, o)
  /\ \A i \in DOMAIN out : out[i][1] = IdOf(c, r)
  /\ BagEq(Map(out, LAMBDA m : <<m[2], m[3], m[4]>>), Addressed(c, o, IdOf(c, r)))
RouteMsgs(c, sent) == SumSeq(sent) <= 2 * CeilLog2(comms[c].np)

(* record transfers: records in are <<destination, tag>>; out <<process field, tag, intact>> *)
Arriving(c, o, id) ==       \* <<source, tag>> in sender order
  LET RECURSIVE F(_) F(i) == IF i = comms[c].np THEN <<>> ELSE Map(Pick(o.in[RankOf(c, i)], LAMBDA m : m[1] = id), LAMBDA m : <<i, m[2]>>) \o F(i+1) IN F(0)
\* mode "i": the process field travels in the record; "e": external destinations (no field, logged -1)
\* records of one sender arrive in the order it had them (checked when tags tell the records apart)
InOrder(arr, out) ==
  \E tags \in {Map(arr, LAMBDA a : a[2])} :
     Cardinality(Range_(tags)) # Len(tags) \/
     \E P \in {Map(out, LAMBDA m : CHOOSE i \in 1..Len(arr) : tags[i] = m[2])} :
     \A s \in Range_(Map(arr, LAMBDA a : a[1])) :
       \E Q \in {Pick(P, LAMBDA i : arr[i][1] = s)} : \A i \in 1..Len(Q)-1 : Q[i] < Q[i+1]
TransferOK(r, c, o, n, out) ==
  LET id == IdOf(c, r) md == o.arg[1] ss == o.arg[2] cap == o.arg[3][r] IN
  /\ All(c, o)
  /\ \E arr \in {Arriving(c, o, id)} :
     /\ n = Len(arr)
     /\ \A i \in DOMAIN out : out[i][3] = 1
     /\ \E want \in {Map(arr, LAMBDA a : <<IF md = "e" THEN -1 ELSE IF ss = 1 THEN a[1] ELSE id, a[2]>>)}, got \in {Map(out, LAMBDA m : <<m[1], m[2]>>)} :
          /\ IF cap < 0 \/ n <= cap THEN BagEq(got, want) ELSE Len(out) = cap /\ BagSub(got, want)
          /\ InOrder(arr, out)

(* tuple sort: a permutation of the tuples, ordered lexicographically by the keys *)
RECURSIVE LexLE(_, _, _, _)
LexLE(a, b, keys, i) == IF i > Len(keys) THEN TRUE ELSE LET k == keys[i] IN a[k] < b[k] \/ (a[k] = b[k] /\ LexLE(a, b, keys, i + 1))
SortOK(in, keys, out) == BagEq(in, out) /\ \A i \in 1..Len(out)-1 : LexLE(out[i], out[i+1], keys, 1)

----------------------------------------------------------------------------
(* reductions *)
FoldIds(c, o, op, lo, hi, n) ==     \* combination over ids lo..hi-1
  LET RECURSIVE F(_, _)
      F(i, acc) == IF i >= hi THEN acc ELSE LET v == o.in[RankOf(c, i)] IN F(i + 1, Force([j \in 1..n |-> Combine(op, o.arg[2], acc[j], v[j])]))
  IN F(lo, [j \in 1..n |-> Identity(op)])
ReduceResult(r, c, o) ==
  LET kind == o.kind op == o.arg[1] en == o.arg[2] root == o.arg[3]
      n == Len(o.in[r]) np == comms[c].np
  IN CASE kind = "allred" -> FoldIds(c, o, op, 0, np, n)
       [] kind = "scan"   -> FoldIds(c, o, op, 0, IdOf(c, r), n) \o FoldIds(c, o, op, 0, np, n)
       [] kind = "red"    -> LET RECURSIVE F(_, _) F(i, acc) == IF i = np THEN acc ELSE F(i + 1, FoldVals(op, en, acc, o.in[RankOf(c, i)])) IN <<F(0, Identity(op))>>
       [] kind = "dot"    -> LET RECURSIVE F(_, _) F(i, acc) == IF i = np THEN acc ELSE
                                 LET v == o.in[RankOf(c, i)] h == Len(v) \div 2 IN F(i + 1, acc + SumSeq([j \in 1..h |-> v[j] * v[h + j]])) IN <<F(0, 0)>>
       [] kind = "bar"    -> <<>>
       [] kind = "bcast"  -> o.in[RankOf(c, root)]
       [] kind = "gather" -> IF IdOf(c, r) # root THEN <<>> ELSE LET RECURSIVE F(_) F(i) == IF i = np THEN <<>> ELSE o.in[RankOf(c, i)] \o F(i + 1) IN F(0)
ReduceReady(r, c, o) ==
  CASE o.kind = "bcast" -> \E q \in DOMAIN o.in : comms[c].who[q] = o.arg[3]
    [] o.kind = "gather" -> IdOf(c, r) # o.arg[3] \/ All(c, o)
    [] o.kind \in {"allred", "scan"} -> All(c, o) \/ Len(o.in[r]) = 0
    [] OTHER -> All(c, o)
\* in a vector reduction everybody brings the same number of values
SameLen(o) == o.kind \in {"allred", "scan", "bcast", "gather"} => \A p, q \in DOMAIN o.in : Len(o.in[p]) = Len(o.in[q])
=============================================================================
