----------------------------- MODULE MCAllValues -----------------------------
(* Exhaustive exploration of AllValues for small types. *)
EXTENDS AllValues, Json
CONSTANT Sizes, Feat
VARIABLE last
NoOp == [op |-> "", h |-> 0, j |-> <<>>]
ShapeOf == <<ToInt(size), [i \in 1..Len(its) |-> <<its[i].on, ToInt(its[i].lo), ToInt(its[i].hi)>>]>>
\* the operation as the script writes it
Flat(o) == [o EXCEPT !.j = ToInt(o.j)]
MCInit == /\ size \in {OfInt(n) : n \in Sizes} /\ Init /\ last = NoOp
          /\ PrintT("ROOT " \o ToJson(<<ToString(ShapeOf)>>))
O(n, h, j) == [op |-> n, h |-> h, j |-> OfInt(j)]
Max0 == ToInt(size)
StepOps(c) == {O(n, c, 0) : n \in {"next","back","len","hint","count","last","fold","rfold","cdrop","cdbg"}} \cup
              {O(n, c, j) : n \in {"nth","nthb","find","rfind","skip","rskip"}, j \in 0..Max0} \cup
              {O(n, c, j) : n \in {"tfold","trfold"}, j \in 1..Max0+1} \cup
              {O("step", c, j) : j \in 0..2} \cup
              (IF Len(its) = 1 /\ "clone" \in Feat THEN {O("cclone", c, 0)} ELSE {})
Ops == IF its = <<>> THEN {O("all", 0, 0)} ELSE UNION {StepOps(c) : c \in {i \in 1..Len(its) : its[i].on}}
MCNext == \E o \in Ops : Do(o) /\ last' = o
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == ShapeOf
Edges == PrintT("EDGE " \o ToJson(<<ToString(ShapeOf), Flat(last'), ToString(ShapeOf')>>))
=============================================================================
