------------------------------ MODULE PermModel ------------------------------
(* In-place permutation of records by following cycles, marking visited entries of the permutation by negation, one
   state per record moved; every permutation of up to MaxLen records.  Also multi-field record sorting as repeated
   stable permutation sorts from the last field to the first, for every array of up to MaxRec two-field records. *)
EXTENDS Sorting, Json
CONSTANTS MaxLen, MaxRec, K, Gen
VARIABLES kind, p0, p, r, item, i, dst, pc
pvars == <<arr, kind, p0, p, r, item, i, dst, pc>>
Perms(n) == {f \in [0..n-1 -> 0..n-1] : \A a, b \in 0..n-1 : a # b => f[a] # f[b]}
Recs == UNION {[1..n -> (0..K-1) \X (0..K-1)] : n \in 0..MaxRec}
Init == /\ arr = <<>> /\ item = -1 /\ i = 0 /\ dst = -1
        /\ \/ kind = "perm" /\ p0 \in UNION {Perms(n) : n \in 0..MaxLen} /\ p = p0 /\ r = [j \in DOMAIN p0 |-> j] /\ pc = "scan"
           \/ kind = "rec" /\ p0 \in Recs /\ p = <<>> /\ r = <<>> /\ pc = "last"
n == Cardinality(DOMAIN p0)
Scan == /\ pc = "scan" /\ UNCHANGED <<arr, kind, p0>>
        /\ IF i = n THEN pc' = "done" /\ UNCHANGED <<p, r, item, i, dst>>
           ELSE IF p[i] < 0 THEN p' = [p EXCEPT ![i] = -@ - 1] /\ i' = i + 1 /\ UNCHANGED <<r, item, dst, pc>>
           ELSE IF p[i] = i THEN i' = i + 1 /\ UNCHANGED <<p, r, item, dst, pc>>
           ELSE item' = r[i] /\ dst' = <<i, p[i]>> /\ pc' = "cycle" /\ UNCHANGED <<p, r, i>>
Cycle == /\ pc = "cycle" /\ UNCHANGED <<arr, kind, p0, item>>
         /\ LET d == dst[1] s == dst[2] next == p[s] IN
            /\ p' = [p EXCEPT ![s] = -@ - 1]
            /\ IF next = i THEN r' = [r EXCEPT ![d] = r[s], ![s] = item] /\ i' = i + 1 /\ pc' = "scan" /\ dst' = -1
               ELSE r' = [r EXCEPT ![d] = r[s]] /\ dst' = <<s, next>> /\ UNCHANGED <<i, pc>>
\* stable sort of the current order r by one field
RECURSIVE Ins(_, _, _)
Ins(x, s, f) == IF s = <<>> THEN <<x>> ELSE IF p0[x+1][f] < p0[Head(s)+1][f] THEN <<x>> \o s ELSE <<Head(s)>> \o Ins(x, Tail(s), f)
RECURSIVE SortBy(_, _, _)
SortBy(s, f, acc) == IF s = <<>> THEN acc ELSE SortBy(Tail(s), f, Ins(Head(s), acc, f))
Rec == \/ pc = "last" /\ r' = SortBy(Id0(Len(p0)), 2, <<>>) /\ pc' = "first" /\ UNCHANGED <<arr, kind, p0, p, item, i, dst>>
       \/ pc = "first" /\ r' = SortBy(r, 1, <<>>) /\ pc' = "done" /\ UNCHANGED <<arr, kind, p0, p, item, i, dst>>
Next == Scan \/ Cycle \/ Rec \/ (pc = "done" /\ UNCHANGED pvars)
Spec == Init /\ [][Next]_pvars
S1(f) == [j \in 1..n |-> f[j-1]]
Correct == pc = "done" => IF kind = "perm" THEN Permuted(S1(p0), S1(r)) /\ p = p0 ELSE RecSorted(p0, r)
Emit == (Gen /\ pc \in {"scan", "last"} /\ (kind = "perm" => i = 0 /\ p = p0 /\ r = [j \in DOMAIN p0 |-> j])) =>
          PrintT("GEN" \o ToJson(<<kind, IF kind = "perm" THEN S1(p0) ELSE p0>>))
=============================================================================
