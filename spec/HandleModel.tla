----------------------------- MODULE HandleModel -----------------------------
(* The table of Fortran handles (the same in gs.c, fcrystal.c and findpts.c): entries appended, never reused, the table
   grown by half when full, an entry cleared when its handle is freed; a call checks its handle against it.
   What a user sees: set-up returns a handle that no live object has; a call is accepted exactly when its handle was
   returned and not freed since; anything else stops the program.  All histories up to MaxOps calls with handles from
   -1 to one past the last are explored (also those that start with Before objects, to pass growth steps). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Before, MaxLive, MaxOps, Gen
VARIABLES tab, max, n, live, owner, next, hist, dead
hvars == <<tab, max, n, live, owner, next, hist, dead>>
\* tab: index -> object kept there (0 cleared, -1 never written); objects are numbered from 1
Grow(t, m) == IF n = m THEN [i \in 0..(m + m \div 2 + 1) - 1 |-> IF i < m THEN t[i] ELSE -1] ELSE t
Init == tab = <<>> /\ max = 0 /\ n = 0 /\ live = {} /\ owner = <<>> /\ next = 1 /\ hist = <<>> /\ dead = FALSE
More == Len(hist) < Before + MaxOps /\ ~dead
Setup == /\ More /\ (Len(hist) < Before \/ Cardinality(live) < Before + MaxLive)
         /\ \E t \in {Grow(tab, max)} :
              /\ tab' = [t EXCEPT ![n] = next] /\ max' = Cardinality(DOMAIN t)
         /\ n' = n + 1 /\ owner' = (n :> next) @@ owner /\ live' = live \cup {n} /\ next' = next + 1
         /\ Assert(n \notin live, "handle in use") /\ hist' = Append(hist, <<"new", n>>) /\ UNCHANGED dead
Accepts(h) == h >= 0 /\ h < n /\ tab[h] # 0
Use(h) == /\ More /\ Len(hist) >= Before /\ hist' = Append(hist, <<"use", h>>) /\ dead' = ~Accepts(h) /\ UNCHANGED <<tab, max, n, live, owner, next>>
Free(h) == /\ More /\ Len(hist) >= Before /\ hist' = Append(hist, <<"free", h>>) /\ dead' = ~Accepts(h)
           /\ IF Accepts(h) THEN tab' = [tab EXCEPT ![h] = 0] /\ live' = live \ {h} ELSE UNCHANGED <<tab, live>>
           /\ UNCHANGED <<max, n, owner, next>>
Next == Setup \/ \E h \in -1..next : Use(h) \/ Free(h)
Spec == Init /\ [][Next]_hvars
Last == hist[Len(hist)]
Known(h) == \E i \in 1..Len(hist)-1 : hist[i] = <<"new", h>> /\ \A j \in i..Len(hist)-1 : hist[j] # <<"free", h>>
Checked == (hist # <<>> /\ Last[1] # "new") => (dead = ~Known(Last[2]))
Right == \A h \in live : tab[h] = owner[h]           \* a live handle leads to its own object
Fits == n <= max /\ DOMAIN tab = 0..max-1
Emit == (Gen /\ (dead \/ Len(hist) = Before + MaxOps)) => PrintT("GEN" \o ToJson(hist))
=============================================================================
