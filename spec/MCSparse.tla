------------------------------ MODULE MCSparse ------------------------------
(* Exhaustive exploration of SparseMap.  Every transition is printed, so that
   the real maps can be driven through each of them.                          *)
EXTENDS SparseMap, Json
VARIABLE last
MCInit == Init /\ last = NoOp /\ PrintT("ROOT " \o ToJson(<<ToString(Shape)>>))
MCNext == \E o \in Ops : Enabled(o) /\ Do(o) /\ last' = o
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == Shape
Edges == PrintT("EDGE " \o ToJson(<<ToString(Shape), last', ToString(Shape')>>))
=============================================================================
