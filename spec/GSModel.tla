------------------------------ MODULE GSModel ------------------------------
(* GatherScatter driven by every short program of collective calls on two processes and two handles, with all
   interleavings of the begin and end events of the calls.  Checks that the accumulator formulation of the
   specification gives the plain definition of the combination, that calls only wait for processes that must take
   part, that no operation leaves anything behind, and prints each program once for replay on the real code. *)
EXTENDS GatherScatter, Json
CONSTANTS MaxCalls, Gen
R == {0, 1}
HK == {1, 2}
\* handle 1: shared and repeated ids with flags on one side; handle 2: each rank has something the other lacks
IdsOf(h, r) == IF h = 1 THEN IF r = 0 THEN [g |-> <<"5", "5", "0">>, s |-> <<0, 0, 0>>] ELSE [g |-> <<"7", "5">>, s |-> <<0, 1>>]
               ELSE IF r = 0 THEN [g |-> <<"3">>, s |-> <<0>>] ELSE [g |-> <<"4", "3", "3">>, s |-> <<0, 0, 1>>]
Arr0(h, w, r) == <<[i \in 1..Len(IdsOf(h, r).g) |-> (1 + r) * i + 10 * h + 100 * w]>>
VARIABLES prog, pc, half, used      \* calls so far; per rank: calls completed, is one in progress; contents at the start of each operation
mvars == <<gsv, prog, pc, half, used>>
Call(f, h, w, t) == [f |-> f, h |-> h, w |-> w, t |-> t]
\* what a program has established: live handles and outstanding operations (slot -> handle)
RECURSIVE State(_, _, _, _)
State(p, i, live, outst) ==
  IF i > Len(p) THEN [live |-> live, out |-> outst]
  ELSE LET c == p[i] IN
    CASE c.f = "setup" -> State(p, i + 1, live \cup {c.h}, outst)
      [] c.f = "free" -> State(p, i + 1, live \ {c.h}, outst)
      [] c.f = "op" -> State(p, i + 1, live, outst)
      [] c.f = "issue" -> State(p, i + 1, live, outst \cup {<<c.w, c.h>>})
      [] c.f = "wait" -> State(p, i + 1, live, {o \in outst : o[1] # c.w})
\* a handle key is set up at most once in a program (keys name objects); operations need a live handle with nothing outstanding
Legal(p) == LET s == State(p, 1, {}, {}) busy == {o[2] : o \in s.out} was == {p[i].h : i \in {j \in DOMAIN p : p[j].f = "setup"}} IN
  {Call("setup", h, 0, 0) : h \in {x \in HK : x \notin was /\ \A y \in HK : y < x => y \in was}}
  \cup {Call("free", h, 0, 0) : h \in s.live \ busy}
  \cup {Call("op", h, 0, t) : h \in s.live \ busy, t \in {0, 1}}
  \cup {Call("issue", h, w, h % 2) : h \in s.live \ busy, w \in {x \in {1, 2} : \A o \in s.out : o[1] # x /\ (x = 2 => {o2 \in s.out : o2[1] = 1} # {})}}
  \cup {Call("wait", o[2], o[1], 0) : o \in s.out}
Finishing(p, n) ==   \* enough calls left to wait for what is outstanding
  LET s == State(p, 1, {}, {}) IN Len(p) + Cardinality(s.out) <= n

AK(h, w) == 10 * h + w
GSInit0 == /\ comms = (0 :> [np |-> 2, who |-> (0 :> 0 @@ 1 :> 1)]) /\ hs = <<>> /\ shr = <<>> /\ inst = <<>> /\ cnt = <<>> /\ pend = <<>>
           /\ data = [x \in R \X {AK(h, w) : h \in HK, w \in 0..2} |-> Arr0(x[2] \div 10, x[2] % 10, x[1])]
           /\ uq = <<>> /\ mc = <<>> /\ mem = <<>>
MInit == GSInit0 /\ prog = <<>> /\ pc = [r \in R |-> 0] /\ half = [r \in R |-> 0] /\ used = <<>>

Extend == /\ Len(prog) < MaxCalls
          /\ \A r \in R : pc[r] = Len(prog) /\ half[r] = 0          \* the next call is chosen when the last one is over everywhere
          /\ \E c \in Legal(prog) : Finishing(Append(prog, c), MaxCalls) /\ prog' = Append(prog, c)
          /\ UNCHANGED <<gsv, pc, half, used>>
Note(r, x, in) == used' = (<<x, r>> :> in) @@ used
Begins(r) ==
  /\ half[r] = 0 /\ pc[r] < Len(prog)
  /\ half' = [half EXCEPT ![r] = 1] /\ UNCHANGED <<prog, pc>>
  /\ LET c == prog[pc[r] + 1] a == AK(c.h, c.w) x == <<c.h, Get(cnt, <<c.h, r>>, 0) + 1>> IN
       CASE c.f = "setup" -> SetupBegin(r, c.h, 0, -1, 0, 1, 0, IdsOf(c.h, r)) /\ UNCHANGED used
         [] c.f = "free" -> FreeBegin(r, c.h) /\ UNCHANGED used
         [] c.f = "op" -> OpBegin(r, c.h, a, OpAdd, c.t, 0, data[<<r, a>>]) /\ Note(r, x, data[<<r, a>>])
         [] c.f = "issue" -> Issue(r, c.w, c.h, a, OpAdd, c.t, 0, data[<<r, a>>]) /\ Note(r, x, data[<<r, a>>])
         [] c.f = "wait" -> WaitBegin(r, c.w) /\ UNCHANGED used
Ends(r) ==
  /\ half[r] = 1
  /\ half' = [half EXCEPT ![r] = 0] /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED <<prog, used>>
  /\ LET c == prog[pc[r] + 1] a == AK(c.h, c.w) IN
       CASE c.f = "setup" -> SetupEnd(r, c.h, -1, IdsOf(c.h, r))
         [] c.f = "free" -> FreeEnd(r, c.h)
         [] c.f = "op" -> OpEnd(r, c.h, a, Expected(r, <<c.h, cnt[<<c.h, r>>]>>, data[<<r, a>>]), <<>>, FALSE)
         [] c.f = "issue" -> IssueEnd(r, c.w, CHOOSE v \in 0..5 : \A p \in DOMAIN pend : p[1] = r => pend[p].hv # v)
         [] c.f = "wait" -> WaitEnd(r, c.w, Expected(r, pend[<<r, c.w>>].x, data[<<r, AK(c.h, c.w)>>]))
AllDone == \A r \in R : pc[r] = Len(prog) /\ half[r] = 0
Full == Len(prog) >= MaxCalls \/ ~\E c \in Legal(prog) : Finishing(Append(prog, c), MaxCalls)
MNext == Extend \/ (\E r \in R : Begins(r) \/ Ends(r)) \/ (AllDone /\ Full /\ UNCHANGED mvars)
MSpec == MInit /\ [][MNext]_mvars

\* the plain definition: the sum over all entries of all processes that carry the label and contribute
RECURSIVE SumOver(_, _, _)
SumOver(S, ins, h) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN ins[<<e[1]>>][1][e[2]] + SumOver(S \ {e}, ins, h)
Plain(r, x, t, in) ==
  LET h == x[1] me == IdsOf(h, r)
      S(g) == UNION {{<<q, i>> : i \in {j \in DOMAIN IdsOf(h, q).g : IdsOf(h, q).g[j] = g /\ (t = 1 \/ IdsOf(h, q).s[j] = 0)}} : q \in R}
      ins == [q \in {<<p>> : p \in {p \in R : <<x, p>> \in DOMAIN used}} |-> used[<<x, q[1]>>]]
  IN <<[i \in DOMAIN me.g |-> IF me.g[i] = ZERO \/ (t = 1 /\ me.s[i] = 1) THEN in[1][i] ELSE SumOver(S(me.g[i]), ins, h)]>>
\* whenever a process may finish an operation, what the specification expects is the plain definition
Meaning == \A x \in DOMAIN inst : \A r \in inst[x].begun \ inst[x].ended :
   (Ready(r, x) /\ <<x, r>> \in DOMAIN used) =>
      LET in == used[<<x, r>>] IN Expected(r, x, in) = Plain(r, x, inst[x].t, in)
Untouched == \A r \in R, h \in HK : h \notin DOMAIN hs => \A w \in 0..2 : data[<<r, AK(h, w)>>] = Arr0(h, w, r)
Clean == (AllDone /\ State(prog, 1, {}, {}).out = {}) => (pend = <<>> /\ inst = <<>>)
Tables == \A p, q \in DOMAIN pend : (p # q /\ p[1] = q[1] /\ pend[p].st = "o" /\ pend[q].st = "o") => pend[p].hv # pend[q].hv
\* forget which program led here except through its effect
Emit == (Gen /\ AllDone /\ Full) => PrintT("GEN" \o ToJson([i \in DOMAIN prog |-> <<prog[i].f, prog[i].h, prog[i].w, prog[i].t>>]))
=============================================================================
