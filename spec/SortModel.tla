------------------------------ MODULE SortModel ------------------------------
(* The library's three sorting algorithms as transition systems, one state per step of the code's loops: the
   iterative merge sort with its two alternating buffers, the heap sort of the in-place value sort, and the
   least-significant-digit radix sort with digit skipping.  Every array within the bounds (and, for the permutation
   sort, every starting permutation up to StartLen) is an initial state; a finished run must satisfy the contract in
   Sorting.  Each initial array is printed for replay on the real code. *)
EXTENDS Sorting, Json
CONSTANTS MaxLen, K, StartLen, Algs, Gen
Keys == 0..K-1
VARIABLES A, start, alg, pc, m, buf, out
svars == <<arr, A, start, alg, pc, m, buf, out>>
Perms(n) == {p \in [1..n -> 0..n-1] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Starts(n) == {<<>>} \cup (IF n \in 2..StartLen THEN Perms(n) ELSE {})
Inputs == UNION {[1..n -> Keys] : n \in 0..MaxLen}
Ent(i) == IF start = <<>> THEN [v |-> A[i+1], i |-> i] ELSE [v |-> A[start[i+1]+1], i |-> start[i+1]]
Nil == [v |-> -1, i |-> -1]
N == Len(A)
Init == /\ arr = <<>> /\ A \in Inputs /\ alg \in Algs /\ start \in (IF alg = "heap" THEN {<<>>} ELSE Starts(Len(A)))
        /\ pc = "init" /\ m = <<>> /\ buf = <<>> /\ out = <<>>
Begin == /\ pc = "init" /\ UNCHANGED <<arr, A, start, alg>>
  /\ IF N < 2 THEN pc' = "done" /\ out' = [j \in 1..N |-> Ent(j-1)] /\ UNCHANGED <<m, buf>>
     ELSE /\ pc' = alg /\ out' = <<>>
          /\ CASE alg = "merge" -> /\ m' = [i |-> 0, n |-> N, odd |-> 0, c |-> 0, b |-> 1, base |-> -N]
                                   /\ buf' = [x \in {0, 1} |-> [j \in 0..N-1 |-> Nil]]
               [] alg = "heap" -> m' = [up |-> TRUE, i |-> 1] /\ buf' = [j \in 0..N-1 |-> Ent(j)]
               [] alg = "radix" -> m' = [d |-> 0] /\ buf' = [j \in 0..N-1 |-> Ent(j)]
----------------------------------------------------------------------------
(* merge sort: the walk over the binary tree of ranges is coded in odd (a stack of remainders) and c (a stack of sides) *)
RECURSIVE Descend(_)
Descend(s) == IF s.n > 3 THEN Descend([s EXCEPT !.odd = 2 * @ + (s.n % 2), !.n = @ \div 2, !.c = 2 * @, !.b = 1 - @]) ELSE s
Walk(s) == IF s.c % 2 = 0
           THEN Descend([s EXCEPT !.base = s.base + s.n, !.n = @ + (s.odd % 2), !.c = @ + 1, !.b = 1 - @])
           ELSE LET n2 == 2 * s.n IN [s EXCEPT !.base = @ - (s.n - (s.odd % 2)), !.n = n2 - (s.odd % 2), !.odd = @ \div 2, !.c = @ \div 2]
RECURSIVE Ins(_, _)
Ins(x, s) == IF s = <<>> THEN <<x>> ELSE IF x.v < Head(s).v THEN <<x>> \o s ELSE <<Head(s)>> \o Ins(x, Tail(s))
RECURSIVE MergeTwo(_, _)
MergeTwo(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE IF Head(b).v < Head(a).v THEN <<Head(b)>> \o MergeTwo(a, Tail(b)) ELSE <<Head(a)>> \o MergeTwo(Tail(a), b)
Seg(f, lo, n) == [j \in 1..n |-> f[lo + j - 1]]
Put(f, lo, s) == [j \in DOMAIN f |-> IF j >= lo /\ j < lo + Len(s) THEN s[j - lo + 1] ELSE f[j]]
MergeStep == /\ pc = "merge" /\ UNCHANGED <<arr, A, start, alg>>
  /\ \E s \in {Walk(m)} :
     IF s.c = 0 THEN pc' = "done" /\ out' = Seg(buf[0], 0, N) /\ UNCHANGED <<m, buf>>
     ELSE /\ pc' = pc /\ UNCHANGED out
          /\ IF s.n = 2 \/ s.n = 3
             THEN /\ m' = [s EXCEPT !.i = @ + s.n]
                  /\ \E in \in {[j \in 1..s.n |-> Ent(s.i + j - 1)]} :
                     \E r \in {IF s.n = 2 THEN Ins(in[2], <<in[1]>>) ELSE Ins(in[3], Ins(in[2], <<in[1]>>))} : buf' = [buf EXCEPT ![s.b] = Put(@, s.base, r)]
             ELSE \* lower part from the other buffer, upper part already in place above it
                  /\ m' = s
                  /\ LET na == s.n \div 2 nb == (s.n + 1) \div 2 IN
                     buf' = [buf EXCEPT ![s.b] = Put(@, s.base, MergeTwo(Seg(buf[1 - s.b], s.base, na), Seg(buf[s.b], s.base + na, nb)))]
----------------------------------------------------------------------------
RECURSIVE Up(_, _, _)
Up(f, h, item) == LET p == (h - 1) \div 2 IN IF h > 0 /\ f[p].v < item.v THEN Up([f EXCEPT ![h] = f[p]], p, item) ELSE [f EXCEPT ![h] = item]
RECURSIVE Sift(_, _, _, _)
Sift(f, h, i, item) ==
  LET l == 2 * h + 1 ch == IF l + 1 < i /\ f[l].v < f[l+1].v THEN l + 1 ELSE l IN
  IF l >= i \/ item.v >= f[ch].v THEN [f EXCEPT ![h] = item] ELSE Sift([f EXCEPT ![h] = f[ch]], ch, i, item)
HeapStep == /\ pc = "heap" /\ UNCHANGED <<arr, A, start, alg>>
  /\ IF m.up THEN /\ buf' = Up(buf, m.i, buf[m.i]) /\ m' = IF m.i + 1 < N THEN [m EXCEPT !.i = @ + 1] ELSE [up |-> FALSE, i |-> N - 1]
                  /\ UNCHANGED <<pc, out>>
     ELSE IF m.i = 0 THEN pc' = "done" /\ out' = Seg(buf, 0, N) /\ UNCHANGED <<m, buf>>
     ELSE /\ buf' = Sift([buf EXCEPT ![m.i] = buf[0]], 0, m.i, buf[m.i]) /\ m' = [m EXCEPT !.i = @ - 1] /\ UNCHANGED <<pc, out>>
HeapOrder == (alg = "heap" /\ pc = "heap" /\ ~m.up) => \A j \in 1..m.i : buf[(j-1) \div 2].v >= buf[j].v
----------------------------------------------------------------------------
\* radix sort with binary digits; digit positions that are zero in every key are skipped
RECURSIVE P2(_)
P2(d) == IF d = 0 THEN 1 ELSE 2 * P2(d - 1)
Digit(x, d) == (x \div P2(d)) % 2
RECURSIVE Bits(_)
Bits(k) == IF k <= 1 THEN 0 ELSE 1 + Bits((k + 1) \div 2)
RadixStep == /\ pc = "radix" /\ UNCHANGED <<arr, A, start, alg>>
  /\ IF m.d = Bits(K) THEN pc' = "done" /\ out' = Seg(buf, 0, N) /\ UNCHANGED <<m, buf>>
     ELSE /\ m' = [m EXCEPT !.d = @ + 1] /\ UNCHANGED <<pc, out>>
          /\ LET dig(j) == Digit(buf[j].v, m.d)
                 zeros == Cardinality({j \in DOMAIN buf : dig(j) = 0})
                 pos(j) == Cardinality({k \in DOMAIN buf : k < j /\ dig(k) = dig(j)}) + IF dig(j) = 1 THEN zeros ELSE 0
             IN buf' = IF zeros = N THEN buf ELSE [q \in DOMAIN buf |-> buf[CHOOSE j \in DOMAIN buf : pos(j) = q]]
\* sorted by the digits seen so far, earlier entries first among equals
RadixPartial == (alg = "radix" /\ pc = "radix") =>
   \A j \in 0..N-2 : LET low(x) == x % P2(m.d) IN low(buf[j].v) < low(buf[j+1].v) \/
       (low(buf[j].v) = low(buf[j+1].v) /\ (start = <<>> => buf[j].i < buf[j+1].i))
----------------------------------------------------------------------------
Next == Begin \/ MergeStep \/ HeapStep \/ RadixStep \/ (pc = "done" /\ UNCHANGED svars)
Spec == Init /\ [][Next]_svars
Correct == pc = "done" => /\ ValSorted(A, [j \in 1..N |-> out[j].v])
                          /\ alg # "heap" => PermSorted(A, start, [j \in 1..N |-> out[j].i])
Emit == (Gen /\ pc = "init" /\ alg = "merge") => PrintT("GEN" \o ToJson(<<A, start>>))
=============================================================================
