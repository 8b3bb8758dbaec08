------------------------------ MODULE FindModel ------------------------------
(* The distributed point search on a line: elements are intervals with integer ends dealt to the processes in every
   possible way; boxes enlarged by a tolerance; a global table of cells, cell h owned by process h mod NP, listing the
   processes with a box that meets the cell.  A process looks for a point among its own elements, asks the owner of the
   point's cell unless it has it in an interior, the owner passes the point on to the listed processes (not back), and
   what they find is merged in any order of arrival.  With sessions, every process belongs to one, points are looked for
   in the other sessions (Match = 0) or in their own (Match = 1), and the session with the largest field wins.
   Whoever asks, whatever the order, the answer must be right.  Every way of dealing is printed for replay. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NP, Shape, Ims, Match, Cells, Field, Gen
VARIABLES own, sess, asker, x, sid, pc, ans, to, replies
fvars == <<own, sess, asker, x, sid, pc, ans, to, replies>>
Procs == 0..NP-1
\* rows with and without gaps; overlapping ones for sessions
Shapes == << << <<0, 2>>, <<2, 3>>, <<4, 6>> >>, << <<0, 1>>, <<1, 2>>, <<2, 4>>, <<4, 5>> >>, << <<0, 3>>, <<1, 5>>, <<3, 4>> >>, << <<0, 4>>, <<4, 6>>, <<2, 5>>, <<7, 8>> >> >>
Els == Shapes[Shape]
E == DOMAIN Els
U == 8
Lo(e) == Els[e][1] * U
Hi(e) == Els[e][2] * U
Tol(e) == Els[e][2] - Els[e][1]
BLo(e) == Lo(e) - Tol(e)
BHi(e) == Hi(e) + Tol(e)
GLo == CHOOSE v \in {BLo(e) : e \in E} : \A e \in E : v <= BLo(e)
GHi == CHOOSE v \in {BHi(e) : e \in E} : \A e \in E : v >= BHi(e)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Cell(v) == Max2(0, Min2(Cells - 1, ((v - GLo) * Cells) \div (GHi - GLo)))
CeilDiv(a, b) == -((-a) \div b)
CellsOf(e) == LET a == Max2(0, ((BLo(e) - GLo) * Cells) \div (GHi - GLo)) b == Min2(Cells, CeilDiv((BHi(e) - GLo) * Cells, GHi - GLo)) IN a..Max2(a, b - 1)
Points == {v \in GLo - 3..GHi + 3 : Ims = 0 \/ (v % 2) = 0}
ASSUME \A e \in E : Els[e][1] < Els[e][2]
Init == /\ own \in [E -> Procs] /\ sess \in [Procs -> IF Ims = 1 THEN {0, 1, 2} ELSE {0}]
        /\ asker = -1 /\ x = 0 /\ sid = 0 /\ pc = "ask" /\ ans = <<>> /\ to = {} /\ replies = <<>>
----------------------------------------------------------------------------
\* the field that decides between sessions, as a function of place
F(s, v) == CASE Field = "const" -> IF s = 0 THEN 1 ELSE 2
             [] Field = "same"  -> 0
             [] OTHER           -> IF s = 0 THEN v ELSE IF s = 1 THEN (GLo + GHi) - v ELSE (GLo + GHi) \div 2 + 3
Clamp(e, v) == Max2(Lo(e), Min2(Hi(e), v))
Dist(e, v) == LET d == v - Clamp(e, v) IN d * d
Adm(p, s) == Ims = 0 \/ (IF Match = 1 THEN sess[p] = s ELSE sess[p] # s)
NF == [c |-> 2, p |-> 0, e |-> 0, d |-> 0, f |-> 0, s |-> 0]
Found(p, e, v) == [c |-> IF Lo(e) < v /\ v < Hi(e) THEN 0 ELSE 1, p |-> p, e |-> e, d |-> Dist(e, v), f |-> F(sess[p], Clamp(e, v)), s |-> sess[p]]
Better(a, b) == a.c # 0 /\ (a.c = 2 \/ b.c = 0 \/ b.d < a.d)
\* the elements of p one after the other
RECURSIVE Look(_, _, _, _, _)
Look(p, v, s, e, a) == IF e > Len(Els) THEN a
  ELSE Look(p, v, s, e + 1, IF own[e] = p /\ Adm(p, s) /\ BLo(e) <= v /\ v <= BHi(e) /\ Better(a, Found(p, e, v)) THEN Found(p, e, v) ELSE a)
Ask == /\ pc = "ask" /\ asker' \in Procs /\ x' \in Points /\ sid' \in (IF Ims = 1 THEN {0, 3} ELSE {0})
       /\ ans' = Look(asker', x', sid', 1, NF) /\ pc' = "cell" /\ UNCHANGED <<own, sess, to, replies>>
AtCell == /\ pc = "cell"
          /\ IF ans.c = 0 /\ Ims = 0 THEN to' = {} ELSE to' = {p \in Procs : \E e \in E : own[e] = p /\ Cell(x) \in CellsOf(e)} \ {asker}
          /\ pc' = "gather" /\ UNCHANGED <<own, sess, asker, x, sid, ans, replies>>
Reply == /\ pc = "gather" /\ \E p \in to : /\ to' = to \ {p}
              /\ \E r \in {Look(p, x, sid, 1, NF)} : replies' = IF r.c = 2 THEN replies ELSE Append(replies, r)
         /\ UNCHANGED <<own, sess, asker, x, sid, pc, ans>>
\* plain merge
RECURSIVE Fold(_, _)
Fold(a, rs) == IF rs = <<>> THEN a ELSE Fold(IF Better(a, Head(rs)) THEN Head(rs) ELSE a, Tail(rs))
Of(s) == SelectSeq(replies, LAMBDA r : r.s = s)
\* merge with sessions: within a session by code and distance, then the largest field; the asker's own find counts for its session
Winner(s) == Fold(IF ans.c # 2 /\ ans.s = s THEN ans ELSE NF, Of(s))
Sessions == <<0, 1, 2>>
MsMerge == LET RECURSIVE G(_, _)
               G(i, a) == IF i > 3 THEN a ELSE G(i + 1, IF Of(Sessions[i]) = <<>> THEN a ELSE
                            LET w == Winner(Sessions[i]) IN IF a.c = 2 \/ w.f >= a.f THEN w ELSE a)
               best == G(1, NF)
               left == ans.c # 2 /\ Of(ans.s) = <<>>      \* the asker's find took part in no session's contest
           IN IF replies = <<>> \/ (left /\ best.f < ans.f) THEN ans ELSE best
Merge == /\ pc = "gather" /\ to = {} /\ ans' = (IF Ims = 1 THEN MsMerge ELSE Fold(ans, replies)) /\ pc' = "done"
         /\ UNCHANGED <<own, sess, asker, x, sid, to, replies>>
Next == Ask \/ AtCell \/ Reply \/ Merge
Spec == Init /\ [][Next]_fvars
----------------------------------------------------------------------------
Els_ == {e \in E : Adm(own[e], sid)}
In == {e \in Els_ : Lo(e) <= x /\ x <= Hi(e)}
Box == {e \in Els_ : BLo(e) <= x /\ x <= BHi(e)}
Right == pc = "done" =>
  IF ans.c = 2 THEN Box = {}
  ELSE /\ ans.e \in Box /\ own[ans.e] = ans.p
       /\ \E here \in {{e \in In : sess[own[e]] = sess[ans.p]}} :
          /\ IF ans.e \in In THEN ans.d = 0 /\ (Lo(ans.e) < x /\ x < Hi(ans.e) => ans.c = 0)
             ELSE /\ ans.c = 1 /\ here = {} /\ (Ims = 0 => In = {})
                  /\ \A e \in Box : sess[own[e]] = sess[ans.p] => ans.d <= Dist(e, x)
       /\ Ims = 1 => \A e \in In : F(sess[own[e]], x) <= ans.f
\* every process with a box around the point is asked, unless it was found inside one already
Asked == (pc = "gather" /\ ~(ans.c = 0 /\ Ims = 0)) => \A e \in E :
           (own[e] # asker /\ BLo(e) <= x /\ x <= BHi(e) /\ Adm(own[e], sid)) => own[e] \in to \cup {replies[i].p : i \in DOMAIN replies}
Emit == (Gen /\ pc = "ask") => PrintT("GEN" \o ToJson([ims |-> Ims, match |-> Match, shape |-> Els, own |-> own, sess |-> [p \in 1..NP |-> sess[p-1]]]))
=============================================================================
