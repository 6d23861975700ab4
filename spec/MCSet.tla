------------------------------ MODULE MCSet -------------------------------
(* Exhaustive exploration of OrdSet.  Every transition is printed, so that
   the real sets can be driven through each of them.                          *)
EXTENDS OrdSet, Json
VARIABLE last
MCInit == Init /\ last = NoOp /\ PrintT("ROOT " \o ToJson(<<ToString(Shape)>>))
MCNext == \E o \in Ops : Do(o) /\ last' = o
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == Shape
Edges == PrintT("EDGE " \o ToJson(<<ToString(Shape), last', ToString(Shape')>>))
=============================================================================
