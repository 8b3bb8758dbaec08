------------------------------ MODULE GSProto ------------------------------
(* How the library computes a gather-scatter: local combination onto the first entry of each group, discovery of the
   processes sharing each group, exchange (pairwise, crystal router, all-reduce) and local distribution.
   Every pattern of labels and flags within the bounds is an initial state; the invariants say that each exchange
   refines the meaning in GatherScatter (but for the deviation recorded there), that all exchanges agree, and that
   making ids unique elects one owner.  Each pattern is also printed for replay on the real code.
   Entry values are distinct powers of four, so a sum tells exactly which entries went into it and how often. *)
EXTENDS GatherScatter, Json
CONSTANTS NP, MinLen, MaxLen, Labs, Flags, Gen    \* Labs: labels used, e.g. {1, 2}; Flags: whether ids may be flagged
P == 0..NP-1
Ent == {0} \cup Labs \cup (IF Flags THEN {-x : x \in Labs} ELSE {})
Lists == UNION {[1..n -> Ent] : n \in MinLen..MaxLen}
Abs(x) == IF x < 0 THEN -x ELSE x
VARIABLE cfg                         \* rank -> sequence of signed ids
pvars == <<gsv, cfg>>
First1(c) == LET RECURSIVE F(_, _) F(p, i) == IF p = NP THEN 0 ELSE IF i > Len(c[p]) THEN F(p + 1, 1) ELSE IF c[p][i] # 0 THEN Abs(c[p][i]) ELSE F(p, i + 1) IN F(0, 1)
MinLab == CHOOSE x \in Labs : \A y \in Labs : x <= y
PInit == GSInit /\ cfg \in {c \in [P -> Lists] : First1(c) \in {0, MinLab}}      \* labels are interchangeable up to renaming: the first one met is the least
PNext == UNCHANGED pvars
PSpec == PInit /\ [][PNext]_pvars
----------------------------------------------------------------------------
IdsOf(c, p) == [g |-> [i \in DOMAIN c[p] |-> ToString(Abs(c[p][i]))], s |-> [i \in DOMAIN c[p] |-> IF c[p][i] < 0 THEN 1 ELSE 0]]
RECURSIVE P4(_)
P4(k) == IF k = 0 THEN 1 ELSE 4 * P4(k - 1)
Val(p, i) == P4(p * MaxLen + i - 1)
In(c) == TLCEval([p \in P |-> [i \in DOMAIN c[p] |-> Val(p, i)]])
\* meaning, taken from GatherScatter
Acc(c, t) == LET L == UNION {Labels(IdsOf(c, p)) : p \in P}
                 o == [op |-> OpAdd, en |-> 0, t |-> t, k |-> 1]
                 RECURSIVE F(_, _) F(p, a) == IF p = NP THEN a ELSE F(p + 1, Gather(a, IdsOf(c, p), o, <<In(c)[p]>>, 1))
             IN TLCEval(F(0, [g \in L |-> <<0>>]))
Want(c, t) == \* results under GatherScatter
  LET acc == TLCEval(Acc(c, t)) IN TLCEval([p \in P |-> Result(acc, IdsOf(c, p), [op |-> OpAdd, en |-> 0, t |-> t, k |-> 1], <<In(c)[p]>>)[1]])
Dev(c, p, t) == DevIndex(IdsOf(c, p), IdsOf(c, p), [t |-> t])
----------------------------------------------------------------------------
\* local part
Mem(c, p, g) == {i \in DOMAIN c[p] : Abs(c[p][i]) = g}
Unf(c, p, g) == {i \in DOMAIN c[p] : c[p][i] = g}
Prim(c, p, g) == IF Unf(c, p, g) # {} THEN First(Unf(c, p, g)) ELSE First(Mem(c, p, g))
LabsOn(c, p) == {Abs(c[p][i]) : i \in DOMAIN c[p]} \ {0}
PFlag(c, p, g) == Unf(c, p, g) = {}                       \* the primary entry is flagged
Primaries(c, p) == {Prim(c, p, g) : g \in LabsOn(c, p)}
RECURSIVE SumSet(_, _)
SumSet(u, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN u[i] + SumSet(u, S \ {i})
\* t = 0: unflagged entries onto the primary, then flagged primaries become neutral; t = 1: all entries onto the primary
LocalIn(c, t) == TLCEval([p \in P |-> [i \in DOMAIN c[p] |->
   IF c[p][i] = 0 \/ i \notin Primaries(c, p) THEN In(c)[p][i]
   ELSE LET g == Abs(c[p][i]) IN
        IF t = 1 THEN SumSet(In(c)[p], Mem(c, p, g)) ELSE IF PFlag(c, p, g) THEN 0 ELSE SumSet(In(c)[p], Unf(c, p, g))]])
LocalOut(c, t, u) == TLCEval([p \in P |-> [i \in DOMAIN c[p] |->
   IF c[p][i] = 0 THEN u[p][i]
   ELSE LET g == Abs(c[p][i]) j == Prim(c, p, g) IN
        IF t = 0 THEN u[p][j] ELSE IF c[p][i] > 0 THEN u[p][j] ELSE u[p][i]]])
\* sharing: both have the label and at least one of them unflagged
Shared(c, g) == {x \in P \X P : x[1] # x[2] /\ g \in LabsOn(c, x[1]) /\ g \in LabsOn(c, x[2]) /\ ~(PFlag(c, x[1], g) /\ PFlag(c, x[2], g))}
AllLabs(c) == UNION {LabsOn(c, p) : p \in P}
\* p sends to q (the other way round in the transposed operation)
Sends(c, g, t, p, q) == <<p, q>> \in Shared(c, g) /\ (IF t = 0 THEN ~PFlag(c, p, g) ELSE ~PFlag(c, q, g))
OnPrimary(c, u, F(_, _)) == TLCEval([p \in P |-> [i \in DOMAIN c[p] |-> IF c[p][i] # 0 /\ i \in Primaries(c, p) THEN F(p, Abs(c[p][i])) ELSE u[p][i]]])
RECURSIVE SumP(_, _)
SumP(S, f) == IF S = {} THEN 0 ELSE LET q == CHOOSE q \in S : TRUE IN f[q] + SumP(S \ {q}, f)
PV(c, u, g) == TLCEval([p \in {q \in P : g \in LabsOn(c, q)} |-> u[p][Prim(c, p, g)]])
Pairwise(c, t, u) == OnPrimary(c, u, LAMBDA p, g : PV(c, u, g)[p] + SumP({q \in P : Sends(c, g, t, q, p)}, PV(c, u, g)))
\* all-reduce over the shared labels
IsShared(c, g) == Shared(c, g) # {}
InShare(c, g, p) == \E q \in P : <<p, q>> \in Shared(c, g)
AllReduce(c, t, u) == OnPrimary(c, u, LAMBDA p, g :
   IF ~IsShared(c, g) \/ ~InShare(c, g, p) \/ (t = 1 /\ PFlag(c, p, g)) THEN u[p][Prim(c, p, g)]
   ELSE SumP({q \in P : InShare(c, g, q) /\ (t = 1 \/ ~PFlag(c, q, g))}, PV(c, u, g)))
\* crystal router: work items <<destination>> per label; a partial sum travels with the items it is for
RECURSIVE Stages(_, _, _)
Stages(p, bl, n) == IF n <= 1 THEN <<>> ELSE
  LET nl == (n + 1) \div 2 bh == bl + nl t0 == n - 1 - (p - bl) + bl low == p < bh IN
  <<[targ |-> IF t0 = p THEN bh ELSE t0, cut |-> bh, hi |-> low]>> \o (IF low THEN Stages(p, bl, nl) ELSE Stages(p, bh, n - nl))
SG == TLCEval([p \in P |-> Stages(p, 0, NP)])
Dest(c, g, t, p) == LET out == {q \in P : Sends(c, g, t, p, q)}
                        me == IF ~PFlag(c, p, g) /\ \E q \in P : Sends(c, g, t, q, p) THEN {p} ELSE {}
                    IN out \cup me
\* one label at a time: state [d: destinations still to serve from here, v: partial sum] per process
RECURSIVE Walk(_, _, _)
Walk(k, kmax, w) == IF k > kmax THEN w ELSE
  LET awayf == TLCEval([p \in P |-> LET st == SG[p] IN IF k > Len(st) THEN {} ELSE {q \in w[p].d : IF st[k].hi THEN q >= st[k].cut ELSE q < st[k].cut}])
      away(p) == awayf[p]
      from(p) == {q \in P : k <= Len(SG[q]) /\ SG[q][k].targ = p /\ away(q) # {}}
      kept(p) == w[p].d \ away(p)
  IN Walk(k + 1, kmax, TLCEval([p \in P |-> [d |-> kept(p) \cup UNION {away(q) : q \in from(p)},
                                     v |-> (IF kept(p) # {} THEN w[p].v ELSE 0) + SumP(from(p), [q \in P |-> w[q].v])]]))
RECURSIVE CLog(_)
CLog(n) == IF n <= 1 THEN 0 ELSE 1 + CLog((n + 1) \div 2)
Crystal(c, t, u) ==
  LET w0(g) == [p \in P |-> IF g \in LabsOn(c, p) /\ Dest(c, g, t, p) # {} THEN [d |-> Dest(c, g, t, p), v |-> PV(c, u, g)[p]] ELSE [d |-> {}, v |-> 0]]
      wf == TLCEval([g \in AllLabs(c) |-> Walk(1, CLog(NP), TLCEval(w0(g)))])
  IN OnPrimary(c, u, LAMBDA p, g : IF p \in wf[g][p].d THEN wf[g][p].v ELSE u[p][Prim(c, p, g)])
Method(m, c, t, u) == CASE m = 1 -> Pairwise(c, t, u) [] m = 2 -> Crystal(c, t, u) [] m = 3 -> AllReduce(c, t, u)
Compute(m, c, t) == LocalOut(c, t, Method(m, c, t, LocalIn(c, t)))
Refines == \A m \in 1..3, t \in 0..1 : \E got \in {Compute(m, cfg, t)}, want \in {Want(cfg, t)} :
   \A p \in P : \A i \in DOMAIN cfg[p] : got[p][i] = want[p][i] \/ i \in Dev(cfg, p, t)
Agree == \A t \in 0..1 : \E a \in {Compute(1, cfg, t)} : Compute(2, cfg, t) = a /\ Compute(3, cfg, t) = a
----------------------------------------------------------------------------
\* uniqueness: among the processes with an unflagged primary, in rank order, the one numbered id mod their count
Cand(c, g) == {p \in P : g \in LabsOn(c, p) /\ ~PFlag(c, p, g)}
Nth(S, k) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = k
Unique(c) == [p \in P |-> [i \in DOMAIN c[p] |-> LET g == Abs(c[p][i]) IN
   IF g = 0 THEN 0 ELSE IF Cand(c, g) # {} /\ p = Nth(Cand(c, g), g % Cardinality(Cand(c, g))) /\ i = Prim(c, p, g) THEN g ELSE -g]]
Elects == LET src == [p \in P |-> IdsOf(cfg, p)] eff == [p \in P |-> IdsOf(Unique(cfg), p)] IN
          OneOwner(src, eff) /\ \A p \in P : UniqueLocalOK(src[p], eff[p])
Emit == Gen => PrintT("GEN" \o ToJson([p \in 1..NP |-> cfg[p-1]]))
=============================================================================
