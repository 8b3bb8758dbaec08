---------------------------- MODULE TransferModel ----------------------------
(* Record transfers at the level of the words moved: records are sorted by destination and packed into one message per
   destination, the messages travel through the stages of the crystal router (each process splits what it holds into a
   part to keep and a part to send, and appends what arrives), and are unpacked into arrays that grow or are bounded.
   Every way to address up to MaxRec records per process is an initial state; the outcome, for every mode and every
   capacity, must be what Movement promises.  Each initial state is printed for replay on the real code.
   (Interleavings of the messages of one exchange are the subject of Router.) *)
EXTENDS Movement, Json
CONSTANTS NP, MaxRec, Gen
Procs == 0..NP-1
VARIABLES dest, data, win, pc          \* win[p] = <<first, size>> of the window p is in
tvars == <<comms, objs, inst, cnt, open, dest, data, win, pc>>
Lists == UNION {[1..k -> Procs] : k \in 0..MaxRec}
Recs(p) == [i \in 1..Len(dest[p]) |-> <<dest[p][i], p * 64 + i>>]
RECURSIVE InsR(_, _)
InsR(x, s) == IF s = <<>> THEN <<x>> ELSE IF x[1] < Head(s)[1] THEN <<x>> \o s ELSE <<Head(s)>> \o InsR(x, Tail(s))
RECURSIVE ByDest(_, _)
ByDest(s, acc) == IF s = <<>> THEN acc ELSE ByDest(Tail(s), InsR(Head(s), acc))
RECURSIVE Msgs(_, _)      \* consecutive records for one destination form one message
Msgs(p, s) == IF s = <<>> THEN <<>> ELSE
  LET k == CHOOSE j \in 1..Len(s) : (\A i \in 1..j : s[i][1] = s[1][1]) /\ (j = Len(s) \/ s[j+1][1] # s[1][1])
  IN <<[t |-> s[1][1], s |-> p, rows |-> [i \in 1..k |-> s[i][2]]]>> \o Msgs(p, SubSeq(s, k + 1, Len(s)))
TInit0 == /\ comms = (1 :> [np |-> NP, who |-> [p \in Procs |-> p], gone |-> {}]) /\ objs = <<>> /\ inst = <<>> /\ cnt = <<>> /\ open = <<>>
          /\ dest \in [Procs -> Lists] /\ data = [p \in Procs |-> <<>>] /\ win = [p \in Procs |-> <<0, NP>>] /\ pc = "pack"
Pack == /\ pc = "pack" /\ pc' = "route" /\ data' = [p \in Procs |-> Msgs(p, ByDest(Recs(p), <<>>))] /\ UNCHANGED <<mvv, dest, win>>
Cut(w) == w[1] + (w[2] + 1) \div 2
Hi(p) == p < Cut(win[p])                       \* p is in the lower half: it sends the upper part
Away(p, m) == IF Hi(p) THEN m.t >= Cut(win[p]) ELSE m.t < Cut(win[p])
Keep(p) == Pick(data[p], LAMBDA m : ~Away(p, m))
SendOf(p) == Pick(data[p], LAMBDA m : Away(p, m))
Mirror(p) == win[p][2] - 1 - (p - win[p][1]) + win[p][1]
Active(p) == win[p][2] > 1
Into(p) == (IF Mirror(p) = p THEN <<>> ELSE SendOf(Mirror(p)) \o <<>>) \o (IF (win[p][2] % 2) = 1 /\ p = Cut(win[p]) THEN SendOf(p - 1) ELSE <<>>)
Stage == /\ pc = "route" /\ \E p \in Procs : Active(p)
         /\ data' = [p \in Procs |-> IF Active(p) THEN Keep(p) \o Into(p) ELSE data[p]]
         /\ win' = [p \in Procs |-> IF ~Active(p) THEN win[p] ELSE IF Hi(p) THEN <<win[p][1], (win[p][2] + 1) \div 2>> ELSE <<Cut(win[p]), win[p][2] \div 2>>]
         /\ UNCHANGED <<mvv, dest, pc>>
Unpack == /\ pc = "route" /\ \A p \in Procs : ~Active(p) /\ pc' = "done" /\ UNCHANGED <<mvv, dest, data, win>>
TNext == Pack \/ Stage \/ Unpack \/ (pc = "done" /\ UNCHANGED tvars)
TSpec == TInit0 /\ [][TNext]_tvars
Rows(p) == LET RECURSIVE F(_) F(i) == IF i > Len(data[p]) THEN <<>> ELSE Map(data[p][i].rows, LAMBDA x : <<data[p][i].s, x>>) \o F(i + 1) IN F(1)
First(s, k) == SubSeq(s, 1, IF Len(s) < k THEN Len(s) ELSE k)
Inst(md, ss, cap) == [kind |-> "t", arg |-> <<md, ss, [p \in Procs |-> cap]>>, in |-> [p \in Procs |-> Recs(p)], done |-> {}]
\* nothing is lost or doubled on the way, and a message is only ever where it still can be routed from
Held == pc # "pack" => /\ \A p \in Procs : \A i \in DOMAIN data[p] : data[p][i].t \in win[p][1]..win[p][1] + win[p][2] - 1
                       /\ SumSeq([p \in 1..NP |-> SumSeq(Map(data[p-1], LAMBDA m : Len(m.rows)))]) = SumSeq([p \in 1..NP |-> Len(dest[p-1])])
Transferred == pc = "done" => \A p \in Procs : \E rows \in {Rows(p)} : \A cap \in {-1, 0, 1, 2, 3, NP * MaxRec} :
   LET got == IF cap < 0 THEN rows ELSE First(rows, cap) IN
   /\ \A ss \in {0, 1} : TransferOK(p, 1, Inst("i", ss, cap), Len(rows), Map(got, LAMBDA x : <<IF ss = 1 THEN x[1] ELSE p, x[2], 1>>))
   /\ TransferOK(p, 1, Inst("e", 0, cap), Len(rows), Map(got, LAMBDA x : <<-1, x[2], 1>>))
Routed == pc = "done" => \A p \in Procs :     \* every message by itself
   RouteOK(p, 1, [in |-> [q \in Procs |-> Map(Recs(q), LAMBDA x : <<x[1], 1, x[2]>>)]], Map(Rows(p), LAMBDA x : <<p, x[1], 1, x[2]>>))
Emit == (Gen /\ pc = "pack") => PrintT("GEN" \o ToJson([p \in 1..NP |-> dest[p-1]]))
=============================================================================
