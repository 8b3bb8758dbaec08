-------------------------------- MODULE Mesh --------------------------------
(* Point location on meshes whose elements are boxes of a logical integer lattice, carried to space by one
   polynomial map phi (a bijection of space).  A query is given by its logical coordinates P / 2^q, so which elements
   contain it, where, and how far it is from the others is integer arithmetic; what the finder answered is judged
   against that.

   element: [lo, hi |-> corners, p |-> lattice axis of each reference direction, s |-> its sign]
   part of a mesh (one process's elements): [els, dim, ts, sh, phi, ims, sid, df, how, live] *)
EXTENDS Numerics
Num(e, P, q, d) == LET a == e.p[d] IN e.s[d] * (2 * P[a] - (e.lo[a] + e.hi[a]) * 2^q)      \* reference coordinate = Num / Wid
Wid(e, q, d) == LET a == e.p[d] IN (e.hi[a] - e.lo[a]) * 2^q
Closed(e, P, q, dim) == \A a \in 1..dim : e.lo[a] * 2^q <= P[a] /\ P[a] <= e.hi[a] * 2^q
Open(e, P, q, dim) == \A a \in 1..dim : e.lo[a] * 2^q < P[a] /\ P[a] < e.hi[a] * 2^q
\* inside the element's box enlarged by the tolerance 2^-ts (exact for affine maps)
Maybe(e, P, q, dim, ts) == IF ts < 0 THEN Closed(e, P, q, dim) ELSE \A d \in 1..dim : Abs(Num(e, P, q, d)) * 2^ts <= Wid(e, q, d) * (2^ts + 1)
Surely(e, P, q, dim, ts) == IF ts < 0 THEN Open(e, P, q, dim) ELSE \A d \in 1..dim : Abs(Num(e, P, q, d)) * 2^ts < Wid(e, q, d) * (2^ts + 1)
ExpR(e, P, q, d) == LET w == Wid(e, q, d) n == Num(e, P, q, d) IN FxDivI(FxDyad(IF n > w THEN w ELSE IF n < -w THEN -w ELSE n, q), e.hi[e.p[d]] - e.lo[e.p[d]])

XiOf(e, r, dim) == [a \in 1..3 |-> IF a > dim THEN FxI(0) ELSE
   LET d == CHOOSE d \in 1..dim : e.p[d] = a IN FxDivI(FxAdd(FxI(e.lo[a] + e.hi[a]), FxMulI(r[d], e.s[d] * (e.hi[a] - e.lo[a]))), 2)] \o <<>>
FxPow(x, k) == IF k = 0 THEN FxI(1) ELSE IF k = 1 THEN x ELSE IF k = 2 THEN FxMul(x, x) ELSE FxMul(x, FxMul(x, x))
PolyXi(t, xi, sh) == FxDivI(FoldLeft(LAMBDA v, x : FxAdd(v, FxMulI(FxMul(FxPow(xi[1], x[2]), FxMul(FxPow(xi[2], x[3]), FxPow(xi[3], x[4]))), x[1])), FxI(0), t), 2^sh)
DPoly(t, a) == [i \in 1..Len(t) |-> [t[i] EXCEPT ![1] = t[i][1] * t[i][a + 1], ![a + 1] = IF t[i][a + 1] = 0 THEN 0 ELSE t[i][a + 1] - 1]]
Unit(d) == [i \in 1..3 |-> IF i = d THEN 1 ELSE 0]
IsId(m) == \A d \in 1..m.dim : m.phi[d] = << <<2^m.sh>> \o Unit(d) >>
\* so strongly curved that distance may have local minima
Bent(m) == \E d \in 1..m.dim : \E i \in DOMAIN m.phi[d] : m.phi[d][i][2] + m.phi[d][i][3] + m.phi[d][i][4] > 1 /\ Abs(m.phi[d][i][1]) >= 7
\* perhaps not even one-to-one beyond the element
Mixed(m) == \E d \in 1..m.dim : \E i \in DOMAIN m.phi[d] : \E a \in 1..3 : \E b \in a+1..3 : m.phi[d][i][a+1] > 0 /\ m.phi[d][i][b+1] > 0
IsAffine(m) == \A d \in 1..m.dim : Affine(m.phi[d])
DistId(e, P, q, dim) == LET c(a) == Max2(0, Max2(e.lo[a] * 2^q - P[a], P[a] - e.hi[a] * 2^q)) IN c(1) * c(1) + c(2) * c(2) + (IF dim = 3 THEN c(3) * c(3) ELSE 0)
OnSide(r) == \E d \in DOMAIN r : r[d] = FxI(1) \/ r[d] = FxI(-1)
InRef(r) == \A d \in DOMAIN r : FxLe(FxI(-1), r[d]) /\ FxLe(r[d], FxI(1))
RTol == Tol(2000)
DTol == Tol(64)
OTol == Tol(20000)
KTol == <<0, 64, 0>>
VTol == Tol(200000)

(* the reported point X(r) really is at the reported distance, and no feasible direction leads closer *)
FarTol(m, e, P, q, r, dd, ktol) ==
  \E xi \in {XiOf(e, r, m.dim)} :
  \E R \in {[i \in 1..m.dim |-> FxSub(PolyFx(m.phi[i], P, q, m.sh), PolyXi(m.phi[i], xi, m.sh))] \o <<>>} :
    /\ Near(dd, FoldLeft(LAMBDA s, v : FxAdd(s, FxMul(v, v)), FxI(0), R), OTol)
    /\ \A d \in 1..m.dim :
         \E g \in {FxMulI(FoldLeft(LAMBDA s, i : FxAdd(s, FxMul(R[i], PolyXi(DPoly(m.phi[i], e.p[d]), xi, m.sh))), FxI(0), [i \in 1..m.dim |-> i]), e.s[d])} :
            /\ r[d] # FxI(1) => FxLe(g, ktol)
            /\ r[d] # FxI(-1) => FxLe(FxNeg(ktol), g)
FarOK(m, e, P, q, r, dd) == FarTol(m, e, P, q, r, dd, KTol)

Adm(m, sid, match) == m.ims = 0 \/ (IF match = 1 THEN m.sid = sid ELSE m.sid # sid)
Sess(m) == IF m.ims = 1 THEN m.sid ELSE 0

(* one answer a to the query a.p, on the mesh M (a function from process number to its part) *)
AnswerOK(M, a, q, match) ==
  \E ids \in {{i \in DOMAIN M : Adm(M[i], a.s, match)}} :
  \E All \in {{<<i, j>> \in UNION {{i} \X DOMAIN M[i].els : i \in ids} : TRUE}} :
  LET m0 == M[CHOOSE i \in DOMAIN M : TRUE]
      dim == m0.dim  ts == m0.ts  aff == IsAffine(m0)  id == IsId(m0)
      El(x) == M[x[1]].els[x[2]]
      In == {x \in All : Closed(El(x), a.p, q, dim)}
  IN IF a.c = 2
     THEN /\ IF ts < 0 THEN \A x \in In : ~Open(El(x), a.p, q, dim) ELSE In = {}
          /\ aff => \A x \in All : ~Surely(El(x), a.p, q, dim, ts)
     ELSE /\ a.c \in {0, 1} /\ <<a.pr, a.el + 1>> \in All /\ Len(a.r) = dim /\ InRef(a.r)
          /\ \E m \in {M[a.pr]} : \E e \in {m.els[a.el + 1]} :
             \E here \in {{x \in In : Sess(M[x[1]]) = Sess(m)}} :
             /\ IF <<a.pr, a.el + 1>> \in In
                THEN /\ \A d \in 1..dim : Near(a.r[d], ExpR(e, a.p, q, d), RTol)
                     /\ Near(a.d, FxI(0), DTol)
                     /\ Open(e, a.p, q, dim) => a.c = 0
                ELSE /\ a.c = 1 /\ here = {} /\ (m.ims = 0 => In = {})
                     /\ OnSide(a.r) /\ FarOK(m, e, a.p, q, a.r, a.d)
                     /\ aff => Maybe(e, a.p, q, dim, ts)
                     /\ id => /\ \A d \in 1..dim : Near(a.r[d], ExpR(e, a.p, q, d), RTol)
                              /\ \A x \in All : (Sess(M[x[1]]) = Sess(m) /\ Surely(El(x), a.p, q, dim, ts)) => DistId(e, a.p, q, dim) <= DistId(El(x), a.p, q, dim)
             \* of several meshes the one with the largest supplied field
             /\ m.ims = 1 => \E v \in {PolyXi(m.df, XiOf(e, a.r, dim), 0)} :
                  \A x \in In : FxLe(PolyFx(M[x[1]].df, a.p, q, 0), FxAdd(v, VTol))
             \* the multi-session search of one process's elements also gives the field there and the mesh's number
             /\ (m.ims = 1 /\ m.how = "l") => a.si = m.sid /\ Near(a.di, PolyXi(m.df, XiOf(e, a.r, dim), 0), VTol)

(* what the search of one element by itself answers: the nearest point of the element, wherever the query lies.
   in |-> free to move in every direction; cv |-> it came to rest; o |-> first coordinate evaluated there *)
ElementOK(m, e, a, q) ==
  LET dim == m.dim  in == Closed(e, a.p, q, dim) IN
  /\ Len(a.r) = dim /\ InRef(a.r) /\ Near(a.o, PolyXi(m.phi[1], XiOf(e, a.r, dim), m.sh), VTol)
  /\ IsAffine(m) => a.cv = 1
  /\ a.in = 1 => a.cv = 1
  /\ IF Bent(m)
     THEN a.cv = 1 => /\ FarTol(m, e, a.p, q, a.r, a.d, <<0, 65536, 0>>)
                      /\ a.in = 0 => OnSide(a.r)
                      /\ (a.in = 1 /\ ~Mixed(m)) => in /\ \A d \in 1..dim : Near(a.r[d], ExpR(e, a.p, q, d), RTol)
     ELSE IF in /\ (a.cv = 1 \/ IsAffine(m))
     THEN /\ \A d \in 1..dim : Near(a.r[d], ExpR(e, a.p, q, d), RTol)
          /\ Near(a.d, FxI(0), DTol)
          /\ Open(e, a.p, q, dim) => a.in = 1
     ELSE a.cv = 1 => a.in = 0 /\ OnSide(a.r) /\ FarOK(m, e, a.p, q, a.r, a.d)
  /\ (IsId(m) /\ ~in) => /\ \A d \in 1..dim : Near(a.r[d], ExpR(e, a.p, q, d), RTol)

(* value of the field f(xi) / 2^sh + eo (1000 proc + 1) (el + 1) at a found point *)
ValueOK(M, a, f, sh, eo) ==
  IF a.c = 2 THEN a.o = FxI(-12345)
  ELSE \E e \in {M[a.pr].els[a.el + 1]} :
       Near(a.o, FxAdd(PolyXi(f, XiOf(e, a.r, M[a.pr].dim), sh), FxI(eo * (1000 * a.pr + 1) * (a.el + 1))), VTol)
=============================================================================
