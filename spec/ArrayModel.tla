------------------------------ MODULE ArrayModel ------------------------------
(* Growable arrays: every short history of operations on one array, with the growth rule of the code, against the
   contract in Sorting (contents kept, room guaranteed, room grows geometrically).  Each history is printed. *)
EXTENDS Sorting, Json
CONSTANTS MaxOps, Gen
VARIABLES hist, cost      \* operations so far; elements copied by reallocations
avars == <<arr, hist, cost>>
a == arr[1]
New(old, want) == IF old < want THEN LET g == old + old \div 2 + 1 IN IF g < want THEN want ELSE g ELSE old
Tags(n) == [j \in 1..n |-> Len(a.el) + j]
Init == /\ hist = <<>> /\ cost = 0 /\ arr = <<>>
Start == /\ hist = <<>> /\ \E x \in {0, 1, 2, 5} : ArrInit(1, 4, x) /\ hist' = <<<<"init", x>>>> /\ cost' = 0
\* the contract's action must accept what the code's rule does
Must(act) == IF ENABLED act THEN act ELSE Assert(FALSE, <<"not allowed by Sorting", hist>>)
Reserve(k) == /\ Must(ArrReserve(1, k, a.n, New(a.max, k), a.el)) /\ hist' = Append(hist, <<"reserve", k>>)
              /\ cost' = cost + IF New(a.max, k) > a.max THEN a.n ELSE 0
Cat(k) == /\ Must(ArrCat(1, Tags(k), a.n + k, New(a.max, a.n + k), a.el \o Tags(k))) /\ hist' = Append(hist, <<"cat", k>>)
          /\ cost' = cost + IF New(a.max, a.n + k) > a.max THEN a.n ELSE 0
Resize(k) == /\ Must(ArrResize(1, k, a.n, k, a.el)) /\ hist' = Append(hist, <<"resize", k>>) /\ cost' = cost + a.n
Next == \/ Start
        \/ /\ hist # <<>> /\ Len(hist) <= MaxOps
           /\ \/ \E k \in {0, a.n, a.max, a.max + 1, 2 * a.max + 3} : Reserve(k)
              \/ \E k \in {0, 1, 2, a.max - a.n, a.max - a.n + 1} : Cat(k)
              \/ \E k \in {a.n, a.n + 1} : Resize(k)
Spec == Init /\ [][Next]_avars
Full == hist # <<>> /\ Len(hist) = MaxOps + 1
Room == hist # <<>> => a.n <= a.max /\ Len(a.el) = a.n /\ a.el = [j \in 1..a.n |-> j]
\* appending one by one costs a constant number of copies per element
Single == \A i \in 2..Len(hist) : hist[i] = <<"cat", 1>>
Amortised == (hist # <<>> /\ Single) => cost <= 3 * a.n + 3
Emit == (Gen /\ Full) => PrintT("GEN" \o ToJson(hist))
=============================================================================
