------------------------------ MODULE MCRegSeq ------------------------------
(* One thread: every call in every state, with every legal ordering, printed
   for replay on the real cell.  j encodes the orderings.                     *)
EXTENDS AtomicReg, Json
CONSTANT Sizes
VARIABLES n, last
LoadOrds == {0, 1, 4}      \* Relaxed, Acquire, SeqCst
StoreOrds == {0, 2, 4}     \* Relaxed, Release, SeqCst
CasOrds == {a * 8 + b : a \in 0..4, b \in LoadOrds}
Vs == 0..n-1
Shape == <<n, val>>
SInit == /\ n \in Sizes /\ val = [h \in Cells |-> -1] /\ th = [t \in Threads |-> <<>>] /\ last = NoOp
         /\ PrintT("ROOT " \o ToJson(<<ToString(Shape)>>))
SOps == {OK("new", h, k) : h \in Cells, k \in Vs} \cup
        UNION {{OJ("load", h, j) : j \in LoadOrds} \cup
               {[OK("store", h, k) EXCEPT !.j = j] : k \in Vs, j \in StoreOrds} \cup
               {[Cas(h, a, b) EXCEPT !.j = j] : a \in Vs, b \in Vs, j \in CasOrds} \cup
               {OJ("dbg", h, a) : a \in {0, 1}} : h \in {h \in Cells : val[h] # -1}}
SNext == \E o \in SOps : /\ (o.op = "new" => val[o.h] = -1)
                         /\ val' = After(val, o) /\ last' = o /\ UNCHANGED <<n, th>>
SSpec == SInit /\ [][SNext]_<<rvars, n, last>>
View == Shape
Edges == PrintT("EDGE " \o ToJson(<<ToString(Shape), last', ToString(Shape')>>))
=============================================================================
