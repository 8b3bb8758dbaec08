----------------------------- MODULE TreeReduce -----------------------------
(* Message-level model of the library's own scan and all-reduce over a binary tree of process ranges, with
   synchronous sends.  Values are sequences of process numbers (the free monoid): a result is right for every
   associative operation iff it is the sequence of the ranks it should combine, in order. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NP, Alg                     \* "scan" or "allreduce"
P == 0..NP-1
\* the ranges containing p, from everything down to p alone
RECURSIVE Path(_, _, _)
Path(p, b, n) == IF n = 1 THEN <<>> ELSE LET h == n \div 2 IN <<[b |-> b, n |-> n]>> \o (IF p < b + h THEN Path(p, b, h) ELSE Path(p, b + h, n - h))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* up: while p leads the range it joins with the leader of the upper half; the leader of an upper half stops there
RECURSIVE Up(_, _)
Up(p, up) == IF up = <<>> THEN <<>> ELSE LET r == Head(up) IN
  IF r.b = p THEN <<[k |-> "join", q |-> p + r.n \div 2]>> \o Up(p, Tail(up)) ELSE <<[k |-> "leave", q |-> r.b]>>
RECURSIVE Down(_, _)
Down(p, dn) == IF dn = <<>> THEN <<>> ELSE LET r == Head(dn) IN
  <<IF r.b = p THEN [k |-> "give", q |-> p + r.n \div 2] ELSE [k |-> "take", q |-> r.b]>> \o Down(p, Tail(dn))
Prog(p) == LET path == Path(p, 0, NP)
               up == Up(p, Rev(path))
               \* the down phase starts at the range where p stopped (everything if p leads it)
               stop == Len(path) - Len(up) + 1
           IN up \o Down(p, IF path = <<>> THEN <<>> ELSE IF up[Len(up)].k = "leave" THEN SubSeq(path, stop, Len(path)) ELSE path)
Pr == [p \in P |-> Prog(p)]
VARIABLES pc, scan, red, sent
vars == <<pc, scan, red, sent>>
Init == pc = [p \in P |-> 1] /\ scan = [p \in P |-> <<>>] /\ red = [p \in P |-> <<p>>] /\ sent = [p \in P |-> 0]
At(p, k, q) == pc[p] <= Len(Pr[p]) /\ Pr[p][pc[p]] = [k |-> k, q |-> q]
Step(p, q) == pc' = [pc EXCEPT ![p] = @ + 1, ![q] = @ + 1]
\* p leads the lower half, q the upper: scan swaps totals, all-reduce only sends up
Join(p, q) == /\ At(p, "join", q) /\ At(q, "leave", p) /\ Step(p, q)
              /\ red' = [red EXCEPT ![p] = @ \o red[q]]
              /\ scan' = IF Alg = "scan" THEN [scan EXCEPT ![q] = red[p]] ELSE scan
              /\ sent' = IF Alg = "scan" THEN [sent EXCEPT ![p] = @ + 1, ![q] = @ + 1] ELSE [sent EXCEPT ![q] = @ + 1]
Give(p, q) == /\ At(p, "give", q) /\ At(q, "take", p) /\ Step(p, q)
              /\ red' = [red EXCEPT ![q] = red[p]]
              /\ scan' = IF Alg = "scan" THEN [scan EXCEPT ![q] = scan[p] \o @] ELSE scan
              /\ sent' = [sent EXCEPT ![p] = @ + 1]
Over == (\A p \in P : pc[p] > Len(Pr[p])) 
Next == (\E p, q \in P : Join(p, q) \/ Give(p, q)) \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Seq0(n) == [i \in 1..n |-> i - 1]
Totals == Over => \A p \in P : red[p] = Seq0(NP)
Scans == (Over /\ Alg = "scan") => \A p \in P : scan[p] = Seq0(p)
Cheap == \A p \in P : sent[p] <= 2 * Len(Path(p, 0, NP))
=============================================================================
