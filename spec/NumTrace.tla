------------------------------ MODULE NumTrace ------------------------------
EXTENDS Numerics, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ph, wid       \* wid: polynomial -> width of its bound with the fewest points so far
tv == <<l, ph, wid>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Run(e) == Is(e) /\ ph = "run" /\ ph' = ph
TInit == l = 1 /\ ph = "over" /\ wid = <<>>
TScn == Is("scn") /\ ph = "over" /\ ph' = "run" /\ wid' = <<>>
TEnd == Is("end") /\ ph = "run" /\ ph' = "over" /\ UNCHANGED wid
TQd == Run("qd") /\ Ev.same = 1 /\ QuadOK(Ev.lob, Ev.n, Ev.z, Ev.w, Ev.q, 2000) /\ UNCHANGED wid
\* interpolation: value and derivatives of the polynomial through the nodal values; the degree is below the number of nodes
LgTol(c, n, d) == LET t == FxMulI(<<0, 0, 100 * Max2(1, SumAbs(c))>>, n) IN IF d = 0 THEN t ELSE IF d = 1 THEN FxMulI(FxMulI(t, n), n) ELSE FxMulI(FxMulI(FxMulI(t, n), n), 2 * n)
TLg == /\ Run("lg") /\ UNCHANGED wid /\ Len(Ev.c) <= Ev.n /\ Len(Ev.v) = Ev.d + 1
       /\ \E X \in {IF Ev.node >= 0 THEN Ev.xv ELSE FxDyad(Ev.x, 4)} :
          \E S \in {Series(Ev.c, LAMBDA t : IF Ev.node >= 0 THEN FxMulI(FxMul(t, Ev.xv), 2) ELSE FxDivI(FxMulI(t, Ev.x), 8), X)} :
            \A k \in 1..Ev.d+1 : Near(Ev.v[k], S[k], LgTol(Ev.c, Ev.n, k - 1))
       /\ Ev.node >= 0 => \A i \in 1..Ev.n : Near(Ev.p[i], FxI(IF i = Ev.node + 1 THEN 1 ELSE 0), Tol(2000))
       /\ Ev.gll = 1 => FxLe(Ev.df, LgTol(<<1>>, Ev.n, Ev.d))
\* bounds of a polynomial in one variable
BTol(c) == Tol(2000 * Max2(1, SumAbs(c)))
TB1 == /\ Run("b1")
       /\ \A j \in -Ev.L..Ev.L : \E v \in {AtJ(Ev.c, j, Ev.L)} :
             Within(Ev.min, v, Ev.max, BTol(Ev.c)) /\ Within(Ev.lo[j + Ev.L + 1], v, Ev.hi[j + Ev.L + 1], BTol(Ev.c))
       /\ (\A k \in 3..Len(Ev.c) : Ev.c[k] = 0) =>
            \E a \in {IF Len(Ev.c) > 1 THEN Abs(Ev.c[2]) ELSE 0} : Near(Ev.min, FxI(Ev.c[1] - a), BTol(Ev.c)) /\ Near(Ev.max, FxI(Ev.c[1] + a), BTol(Ev.c))
       \* a single Chebyshev polynomial has a known range; many points give nearly that
       /\ (Ev.m >= 8 * Ev.n /\ Cardinality({k \in 2..Len(Ev.c) : Ev.c[k] # 0}) = 1) =>
            \E a \in {SumAbs(Tail(Ev.c))} : FxLe(FxSub(Ev.max, Ev.min), FxDivI(FxMulI(FxI(2 * a), 11), 10))
       /\ \E key \in {<<Ev.n, Ev.c>>}, w \in {FxSub(Ev.max, Ev.min)} :
            /\ key \in DOMAIN wid /\ Ev.m >= 2 * wid[key][1] => FxLe(w, FxAdd(BTol(Ev.c), FxAdd(wid[key][2], FxDivI(wid[key][2], 50))))
            /\ wid' = (key :> <<Ev.m, w>>) @@ wid
TBd == /\ Run("bd") /\ UNCHANGED wid
       /\ \A p \in Lattice(Ev.dim, IF Ev.dim = 3 THEN 2 ELSE 4) :
            \E v \in {PolyFx(Ev.t, p, IF Ev.dim = 3 THEN 1 ELSE 2, 0)} : Within(Ev.min, v, Ev.max, Tol(200000))
       /\ Affine(Ev.t) => \E S \in {{PolyAt(Ev.t, p, 0, 1) : p \in Corners(Ev.dim)}} :
            /\ Near(Ev.min, FxI(CHOOSE x \in S : \A y \in S : x <= y), Tol(200000)) /\ Near(Ev.max, FxI(CHOOSE x \in S : \A y \in S : x >= y), Tol(200000))
\* piecewise linear bounds and the range taken from them, at the given points
TBl == /\ Run("bl") /\ UNCHANGED wid /\ Len(Ev.p) > 0
       /\ \E tol \in {Tol(2000 * Max2(1, FoldLeft(LAMBDA s, y : s + Abs(y[1]), 0, Ev.t)))} :
          \A i \in DOMAIN Ev.p : \E v \in {ChebTerms(Ev.t, Ev.p[i][1])} : Within(Ev.p[i][2], v, Ev.p[i][3], tol) /\ Within(Ev.min, v, Ev.max, tol)
TOb == /\ Run("ob") /\ UNCHANGED wid
       /\ \A i \in DOMAIN Ev.s : Ev.s[i] \in {0, 1}
       /\ \A d \in 1..Ev.dim :
            /\ \A p \in Lattice(Ev.dim, IF Ev.dim = 3 THEN 2 ELSE 4) :
                 \E v \in {PolyFx(Ev.t[d], p, IF Ev.dim = 3 THEN 1 ELSE 2, Ev.sh)} : Within(Ev.b[d][1], v, Ev.b[d][2], Tol(20000))
            /\ (\A e \in 1..Ev.dim : Affine(Ev.t[e])) =>        \* boxes of affine elements are exact up to the tolerance asked for
                 \E S \in {{PolyAt(Ev.t[d], p, 0, 1) : p \in Corners(Ev.dim)}} :
                 \E lo \in {FxDyad(CHOOSE x \in S : \A y \in S : x <= y, Ev.sh)}, hi \in {FxDyad(CHOOSE x \in S : \A y \in S : x >= y, Ev.sh)} :
                 \E ex \in {IF Ev.ts < 0 THEN FxI(0) ELSE FxDivI(FxSub(hi, lo), 2^(Ev.ts + 1))} :
                    Near(Ev.b[d][1], FxSub(lo, ex), Tol(20000)) /\ Near(Ev.b[d][2], FxAdd(hi, ex), Tol(20000))
TTn == /\ Run("tn") /\ UNCHANGED wid
       /\ LET a == Ev.d[1] b == Ev.d[2] c == Ev.d[3] e == Ev.d[4] f == Ev.d[5] g == Ev.d[6] A == Ev.A Bm == Ev.B IN Ev.o =
          CASE Ev.op = "dot" -> <<Dot(A, Bm, a)>>
            [] Ev.op = "mxv" -> MxV(a, A, Bm, b)
            [] Ev.op = "mtxv" -> MtxV(a, A, Bm, b)
            [] Ev.op = "mxm" -> MxM(a, A, b, Bm, c)
            [] Ev.op = "mtxm" -> MtxM(a, A, b, Bm, c)
            [] Ev.op = "i1" -> <<Contract(A, a, One, 1, One, 1, Ev.U)>>
            [] Ev.op = "i2" -> <<Contract(A, a, Bm, b, One, 1, Ev.U)>>
            [] Ev.op = "i3" -> <<Contract(A, a, Bm, b, Ev.C, c, Ev.U)>>
            [] Ev.op \in {"ig1", "ig2", "ig3"} ->
                 LET J == Row(A, 0, a) D == Row(A, a, a) Js == IF Ev.op = "ig1" THEN One ELSE Row(Bm, 0, b) Ds == IF Ev.op = "ig1" THEN One ELSE Row(Bm, b, b)
                     Jt == IF Ev.op = "ig3" THEN Row(Ev.C, 0, c) ELSE One Dt == IF Ev.op = "ig3" THEN Row(Ev.C, c, c) ELSE One
                 IN <<Contract(J, a, Js, b, Jt, c, Ev.U), Contract(D, a, Js, b, Jt, c, Ev.U)>>
                    \o (IF Ev.op = "ig1" THEN <<>> ELSE <<Contract(J, a, Ds, b, Jt, c, Ev.U)>>) \o (IF Ev.op = "ig3" THEN <<Contract(J, a, Js, b, Dt, c, Ev.U)>> ELSE <<>>)
            [] Ev.op = "2t" -> Tensor(a, b, c, e, 1, 1, A, Bm, One, Ev.U)
            [] Ev.op = "3t" -> Tensor(a, b, c, e, f, g, A, Bm, Ev.C, Ev.U)
TNext == TScn \/ TEnd \/ TQd \/ TLg \/ TB1 \/ TBd \/ TBl \/ TOb \/ TTn
Report == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
TSpec == TInit /\ [][TNext]_tv
=============================================================================
