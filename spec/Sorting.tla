------------------------------ MODULE Sorting ------------------------------
(* What the local sorts, record sorts, permutations and growable arrays promise.  Indices count from 0, as in the code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
IsPerm(p, n) == Len(p) = n /\ Cardinality(Rng(p)) = n /\ \A i \in DOMAIN p : p[i] \in 0..n-1
Id0(n) == [i \in 1..n |-> i - 1]
Inverse(p) == [j \in 1..Len(p) |-> CHOOSE i \in 1..Len(p) : p[i] = j - 1]
RECURSIVE LexLT(_, _, _)
LexLT(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLT(a, b, i + 1)
StablePerm(key, less(_, _), pos, out) ==
  /\ IsPerm(out, Len(key))
  /\ \A i \in 1..Len(out)-1 : IF key[out[i]+1] = key[out[i+1]+1] THEN pos[out[i]+1] < pos[out[i+1]+1] ELSE less(key[out[i]+1], key[out[i+1]+1])
LessI(a, b) == a < b
LessL(a, b) == LexLT(a, b, 1)
\* sortp: start = <<>> stands for the identity
PermSorted(in, start, out) == \E pos \in {IF start = <<>> THEN Id0(Len(in)) ELSE Inverse(start)} : StablePerm(in, LessI, pos, out)
\* sortv: same keys, in order
Occ(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \E R \in {Rng(a)} : R = Rng(b) /\ (Cardinality(R) = Len(a) \/ \A x \in R : Occ(a, x) = Occ(b, x))
ValSorted(in, out) == SameBag(in, out) /\ \A i \in 1..Len(out)-1 : out[i] <= out[i+1]
RecSorted(in, out) == StablePerm(in, LessL, Id0(Len(in)), out)
Permuted(perm, out) == out = perm               \* record perm[i] ends at position i; records are named by their old position
----------------------------------------------------------------------------
(* growable arrays: [sz, n, max, el] *)
VARIABLE arr
ArrInit(g, sz, m) == arr' = (g :> [sz |-> sz, n |-> 0, max |-> m, el |-> <<>>]) @@ arr
Shape(a, n, max, el) == a.n = n /\ Len(el) = n /\ max >= n /\ a.el = el
Grows(old, new) == new >= old /\ (new > old => 4 * new >= 5 * old)
ArrReserve(g, m, n, max, el) ==
  /\ Shape(arr[g], n, max, el) /\ max >= m /\ Grows(arr[g].max, max)
  /\ arr' = [arr EXCEPT ![g].max = max]
ArrCat(g, add, n, max, el) ==
  /\ arr' = [arr EXCEPT ![g].n = @ + Len(add), ![g].el = @ \o add, ![g].max = max]
  /\ n = arr[g].n + Len(add) /\ max >= n /\ Grows(arr[g].max, max) /\ el = arr[g].el \o add
ArrResize(g, m, n, max, el) ==
  /\ Shape(arr[g], n, max, el) /\ max = m
  /\ arr' = [arr EXCEPT ![g].max = m]
ArrFree(g) == arr' = [x \in DOMAIN arr \ {g} |-> arr[x]]
=============================================================================
