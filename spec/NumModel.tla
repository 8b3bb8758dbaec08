------------------------------ MODULE NumModel ------------------------------
(* The arithmetic the numerical properties are decided with, and the staged algorithms of the tensor kernels, checked
   against their definitions; the cases enumerated here are replayed on the real kernels.
   case "fx": products and quotients of fixed-point numbers;  "t": Chebyshev polynomial k of k < n, its values and
   derivatives at j/16;  "tn": sizes of a tensor product in three directions, applied one direction at a time to every
   one-hot array with every one-hot operator (all there is, by linearity);  "or": orientations of an element's axes. *)
EXTENDS Numerics, Json
CONSTANTS MaxN, MaxS, Gen
VARIABLES case, a, stage, u
nvars == <<case, a, stage, u>>
Sizes == [1..6 -> 1..MaxS]
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
OneHot(n, i) == [j \in 1..n |-> IF j = i THEN 1 ELSE 0]
\* sizes are <<a, b, c, e, f, g>>: out is a x c x f, u is b x e x g
Init == \/ case = "fx" /\ a \in (-9..9) \X (-9..9) \X (0..3) /\ stage = 0 /\ u = <<>>
        \/ case = "t" /\ a \in {<<n, k>> \in (1..MaxN) \X (0..MaxN-1) : k < n} /\ stage = 0 /\ u = <<>>
        \/ case = "or" /\ a \in UNION {Perms(d) \X [1..d -> {-1, 1}] : d \in {2, 3}} /\ stage = 0 /\ u = <<>>
        \/ case = "tn" /\ \E s \in Sizes : \E i \in 1..s[2]*s[4]*s[6] :
             /\ a = [s |-> s, i |-> i, x |-> OneHot(s[2]*s[4]*s[6], i), J |-> [q \in 1..s[1]*s[2] |-> 1 + ((q * q + i) % 5)], K |-> [q \in 1..s[3]*s[4] |-> 2 + ((q + i) % 3)], L |-> [q \in 1..s[5]*s[6] |-> 1 + ((3 * q) % 4)]]
             /\ stage = 0 /\ u = a.x
S == a.s
\* one direction after the other; the array is (n1 x n2 x n3)
Along1 == /\ case = "tn" /\ stage = 0 /\ stage' = 1 /\ UNCHANGED <<case, a>>          \* J u, all columns at once
          /\ u' = MxM(S[1], a.J, S[2], u, S[4] * S[6])
Along2 == /\ case = "tn" /\ stage = 1 /\ stage' = 2 /\ UNCHANGED <<case, a>>          \* slice by slice: u K^T
          /\ u' = [q \in 1..S[1]*S[3]*S[6] |-> LET i == (q-1) % S[1] j == ((q-1) \div S[1]) % S[3] k == (q-1) \div (S[1]*S[3])
                                             IN Sum(S[4], LAMBDA m : u[(k*S[4] + m-1)*S[1] + i + 1] * a.K[j*S[4] + m])]
Along3 == /\ case = "tn" /\ stage = 2 /\ stage' = 3 /\ UNCHANGED <<case, a>>
          /\ u' = MxM(S[1]*S[3], u, S[6], a.L, S[5])
Next == Along1 \/ Along2 \/ Along3 \/ ((case # "tn" \/ stage = 3) /\ UNCHANGED nvars)
Spec == Init /\ [][Next]_nvars
Staged == (case = "tn" /\ stage = 3) => u = Tensor(S[1], S[2], S[3], S[4], S[5], S[6], a.J, a.K, a.L, a.x)
Arithmetic == case = "fx" =>
  LET x == FxDyad(a[1], a[3]) y == FxDyad(a[2], 2 * a[3]) IN
  /\ FxMul(x, y) = FxDyad(a[1] * a[2], 3 * a[3]) /\ FxMulI(x, a[2]) = FxDyad(a[1] * a[2], a[3])
  /\ FxAdd(x, FxNeg(x)) = FxI(0) /\ FxAbs(x) = FxDyad(Abs(a[1]), a[3])
  /\ FxLe(x, FxI(a[2])) = (a[1] <= a[2] * 2^a[3])
  /\ a[2] > 0 => Near(FxMulI(FxDivI(x, a[2]), a[2]), x, Tol(a[2]))
Cheb(k) == [i \in 1..k+1 |-> IF i = k + 1 THEN 1 ELSE 0]
At(k, j) == Series(Cheb(k), LAMBDA t : FxDivI(FxMulI(t, j), 8), FxDyad(j, 4))
Chebyshev == case = "t" => LET k == a[2] sg == IF k % 2 = 0 THEN 1 ELSE -1 IN
  /\ At(k, 16) = <<FxI(1), FxI(k * k), FxI((k * k * (k * k - 1)) \div 3)>>
  /\ At(k, -16)[1] = FxI(sg) /\ At(k, -16)[2] = FxI(-sg * k * k)
  /\ \A j \in -15..15 : FxLe(FxAbs(At(k, j)[1]), FxAdd(FxI(1), Tol(1000)))
  \* the differential equation (1 - x^2) T'' - x T' + k^2 T = 0
  /\ k <= 12 => \A j \in {-13, -5, 0, 3, 8} : \E d \in {At(k, j)} :
       Near(FxAdd(FxSub(FxDivI(FxDivI(FxMulI(d[3], 256 - j * j), 16), 16), FxDivI(FxMulI(d[2], j), 16)), FxMulI(d[1], k * k)), FxI(0), Tol(100000))
Emit == (Gen /\ stage = 0 /\ (case = "tn" => a.i = 1) /\ case # "fx") => PrintT("GEN" \o ToJson(<<case, IF case = "tn" THEN a.s ELSE a>>))
=============================================================================
