------------------------------ MODULE Numerics ------------------------------
(* Exact meaning of the numerical kernels.  Reals are fixed-point triples <<h, m, l>> = h + m/B + l/B^2 with
   0 <= m, l < B = 2^22; everything the kernels should return is computed here exactly (or to within a few 2^-44)
   and compared within a stated tolerance. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
B == 4194304
Norm(h, m, l) == LET m1 == m + (l \div B) IN <<h + (m1 \div B), m1 % B, l % B>>
FxI(i) == <<i, 0, 0>>
FxAdd(a, b) == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
FxSub(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
FxNeg(a) == Norm(-a[1], -a[2], -a[3])
FxMulI(a, j) == Norm(a[1] * j, a[2] * j, a[3] * j)          \* |j| < 2^9
FxDivI(a, k) ==                                            \* 0 < k < 2^9
  LET m == (a[1] % k) * B + a[2] l == (m % k) * B + a[3] IN <<a[1] \div k, m \div k, l \div k>>
FxLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
FxAbs(a) == IF a[1] < 0 THEN FxNeg(a) ELSE a
Near(a, b, t) == FxLe(a, FxAdd(b, t)) /\ FxLe(b, FxAdd(a, t))
FxDyad(v, q) ==                                            \* v / 2^q, 0 <= q <= 44
  IF q <= 22 THEN <<v \div 2^q, (v % 2^q) * 2^(22 - q), 0>>
  ELSE LET a == v \div 2^(q - 22) IN <<a \div B, a % B, (v % 2^(q - 22)) * 2^(44 - q)>>
\* product of numbers below 2^10 in size, through 11-bit digits
Dig(a) == <<a[1], a[2] \div 2048, a[2] % 2048, a[3] \div 2048, a[3] % 2048>>
FxMulP(a, b) ==
  LET x == Dig(a) y == Dig(b)
      z5 == x[2]*y[5] + x[3]*y[4] + x[4]*y[3] + x[5]*y[2]
      z4 == x[1]*y[5] + x[2]*y[4] + x[3]*y[3] + x[4]*y[2] + x[5]*y[1] + (z5 \div 2048)
      z3 == x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1] + (z4 \div 2048)
      z2 == x[1]*y[3] + x[2]*y[2] + x[3]*y[1] + (z3 \div 2048)
      z1 == x[1]*y[2] + x[2]*y[1] + (z2 \div 2048)
  IN <<x[1]*y[1] + (z1 \div 2048), (z1 % 2048) * 2048 + (z2 % 2048), (z3 % 2048) * 2048 + (z4 % 2048)>>
FxMul(a, b) == LET p == FxMulP(FxAbs(a), FxAbs(b)) IN IF (a[1] < 0) = (b[1] < 0) THEN p ELSE FxNeg(p)
Tol(k) == <<0, 0, k>>                                      \* k * 2^-44
Abs(i) == IF i < 0 THEN -i ELSE i
SumAbs(c) == FoldLeft(LAMBDA s, x : s + Abs(x), 0, c)
Max2(a, b) == IF a < b THEN b ELSE a

----------------------------------------------------------------------------
(* Chebyshev series c and its first two derivatives at x, given multiplication by 2x *)
Series(c, Mul2X(_), X) ==    \* -> <<value, first, second>>
  LET st == FoldLeft(LAMBDA s, ck :
        LET TN == FxSub(Mul2X(s[2]), s[1])
            DN == FxSub(FxAdd(FxMulI(s[2], 2), Mul2X(s[4])), s[3])
            EN == FxSub(FxAdd(FxMulI(s[4], 4), Mul2X(s[6])), s[5])
        IN <<s[2], TN, s[4], DN, s[6], EN, FxAdd(s[7], FxMulI(s[2], ck)), FxAdd(s[8], FxMulI(s[4], ck)), FxAdd(s[9], FxMulI(s[6], ck))>>,
        <<FxI(1), X, FxI(0), FxI(1), FxI(0), FxI(0), FxI(c[1]), FxI(0), FxI(0)>>, Tail(c))
  IN <<st[7], st[8], st[9]>>
Value(c, Mul2X(_), X) ==
  LET st == FoldLeft(LAMBDA s, ck : <<s[2], FxSub(Mul2X(s[2]), s[1]), FxAdd(s[3], FxMulI(s[2], ck))>>, <<FxI(1), X, FxI(c[1])>>, Tail(c)) IN st[3]
\* T_0 .. T_n at x (|x| <= 1), and a sum of products of them
Chebs(n, x) == FoldLeft(LAMBDA s, k : Append(s, FxSub(FxMulI(FxMul(x, s[k+1]), 2), s[k])), <<FxI(1), x>>, [k \in 1..Max2(0, n-1) |-> k])
ChebTerms(t, X) ==
  LET mx(d) == FoldLeft(LAMBDA s, y : Max2(s, y[d+1]), 0, t) IN
  LET T == <<Chebs(mx(1), X[1]), Chebs(mx(2), X[2]), Chebs(mx(3), X[3])>>
  IN FoldLeft(LAMBDA s, y : FxAdd(s, FxMulI(FxMul(T[1][y[2]+1], FxMul(T[2][y[3]+1], T[3][y[4]+1])), y[1])), FxI(0), t)
AtJ(c, j, L) == Value(c, LAMBDA t : FxDivI(FxMulI(t, 2 * j), L), FxDivI(FxI(j), L))       \* x = j / L

(* quadrature: exact for monomials up to degree K *)
QuadOK(lob, n, z, w, q, tol) ==
  /\ Len(z) = n /\ Len(w) = n
  /\ \A i \in 1..n-1 : FxLe(z[i], z[i+1]) /\ z[i] # z[i+1]
  /\ \A i \in 1..n : Near(FxAdd(z[i], z[n+1-i]), FxI(0), Tol(4)) /\ Near(w[i], w[n+1-i], Tol(64)) /\ FxLe(<<0, 0, 1>>, w[i])
  /\ lob = 1 => z[1] = FxI(-1) /\ z[n] = FxI(1)
  /\ lob = 0 => FxLe(FxI(-1), z[1]) /\ FxLe(z[n], FxI(1))
  /\ \A k \in 1..Len(q) : Near(FxMulI(q[k], k), IF k % 2 = 1 THEN FxI(2) ELSE FxI(0), Tol(tol * k))      \* q[k] integrates x^(k-1)

(* polynomials in several variables: terms <<coef, a, b, c>>; exact value at p/2^s, times 2^(s D) where D bounds every degree *)
Pow(b, k) == IF k = 0 THEN 1 ELSE b^k
Deg(t) == FoldLeft(LAMBDA s, x : Max2(s, x[2] + x[3] + x[4]), 0, t)
PolyAt(t, p, s, D) == FoldLeft(LAMBDA v, x : v + x[1] * Pow(p[1], x[2]) * Pow(p[2], x[3]) * Pow(p[3], x[4]) * 2^(s * (D - x[2] - x[3] - x[4])), 0, t)
PolyFx(t, p, s, sh) == LET D == Deg(t) IN FxDyad(PolyAt(t, p, s, D), s * D + sh)
Affine(t) == Deg(t) <= 1
Lattice(dim, k) == (-k..k) \X (-k..k) \X (IF dim = 3 THEN -k..k ELSE {0})
Corners(dim) == {-1, 1} \X {-1, 1} \X (IF dim = 3 THEN {-1, 1} ELSE {0})
Within(lo, v, hi, tol) == FxLe(FxSub(lo, tol), v) /\ FxLe(v, FxAdd(hi, tol))

----------------------------------------------------------------------------
(* tensor kernels on integers; matrices are stored by columns *)
Sum(n, F(_)) == FoldLeft(LAMBDA s, i : s + F(i), 0, [i \in 1..n |-> i])
Dot(a, b, n) == Sum(n, LAMBDA i : a[i] * b[i])
MxV(ny, A, x, nx) == [i \in 1..ny |-> Sum(nx, LAMBDA k : A[(k-1)*ny + i] * x[k])]
MtxV(ny, A, x, nx) == [i \in 1..ny |-> Sum(nx, LAMBDA k : A[(i-1)*nx + k] * x[k])]
MxM(nc, A, na, C, nb) == [q \in 1..nc*nb |-> LET i == (q-1) % nc j == (q-1) \div nc IN Sum(na, LAMBDA k : A[(k-1)*nc + i + 1] * C[j*na + k])]
MtxM(nc, A, na, C, nb) == [q \in 1..nc*nb |-> LET i == (q-1) % nc j == (q-1) \div nc IN Sum(na, LAMBDA k : A[i*na + k] * C[j*na + k])]
\* contraction of u (a x b x c, first index fastest) with one vector per direction
Contract(x, a, y, b, z, c, u) == Sum(c, LAMBDA k : z[k] * Sum(b, LAMBDA j : y[j] * Sum(a, LAMBDA i : x[i] * u[((k-1)*b + j-1)*a + i])))
Row(s, from, n) == SubSeq(s, from + 1, from + n)
One == <<1>>
\* out (a x c x f) = apply Jr (b x a), Js (e x c), Jt (g x f) to u (b x e x g)
Tensor(a, b, c, e, f, g, Jr, Js, Jt, u) ==
  [q \in 1..a*c*f |-> LET i == (q-1) % a j == ((q-1) \div a) % c k == (q-1) \div (a*c)
                      IN Contract(Row(Jr, i*b, b), b, Row(Js, j*e, e), e, Row(Jt, k*g, g), g, u)]
=============================================================================
