----------------------------- MODULE MCResources -----------------------------
(* Every cost the calls may have, in every state of two objects; the
   transitions are printed and the real collections driven through them.      *)
EXTENDS Resources, Json, TLC
CONSTANT Kinds, Feat
VARIABLE last
Block == 8
O(op, h, j) == [op |-> op, h |-> h, k |-> 0, j |-> j, items |-> 0, made |-> 0, count |-> 0, net |-> 0, asked |-> 0]
RInit == /\ kind \in Kinds /\ blocks = (IF kind = "never" THEN {0} ELSE {Block}) /\ n = 1
         /\ bytes = [h \in Handles |-> -1] /\ last = O("", 0, 0)
         /\ PrintT("ROOT " \o ToJson(<<ToString(<<n, kind, bytes>>)>>))
Calls == UNION {{O(op, h, j) : op \in Makes \cup Looks \cup Ends \cup {"insert", "entry", "clear", "drain", "retain", "clone", "clonefrom"}} : h \in Handles, j \in 0..1}
Costs(o) == {[o EXCEPT !.net = x, !.count = c, !.made = m, !.items = i] :
               x \in {-Block, 0, Block}, c \in 0..1, m \in 0..1, i \in 0..1}
Has(o) == \/ o.op \in {"new", "clone", "clonefrom", "dropmap", "len", "iter"}
          \/ o.op \in Feat
RNext == \E o \in {x \in Calls : Has(x)} : \E e \in Costs(o) :
            /\ (e.count = 0 => e.net <= 0) /\ (e.items = 1 => e.op = "fromiter")
            /\ Call(e) /\ last' = e
RSpec == RInit /\ [][RNext]_<<rvars, last>>
View == <<n, kind, bytes>>
Edges == PrintT("EDGE " \o ToJson(<<ToString(View), last', ToString(View')>>))
Everything == {"fromiter", "all", "trynew", "into", "intokeys", "intovalues", "get", "getmut", "has", "remove", "iter_mut", "keys", "values",
               "values_mut", "index", "valarr", "asref", "map", "zip", "insert", "entry", "clear", "drain", "retain"}
----------------------------------------------------------------------------
\* memory in use is what the calls asked for and have not given back
Sum == LET v(h) == IF bytes[h] = -1 THEN 0 ELSE bytes[h] IN v(1) + v(2)
Balance == [][Sum' = Sum + last'.net]_<<rvars, last>>
\* once a map has its block, no insertion allocates; lookups never do
Settled == [][/\ (last'.op = "insert" /\ bytes[last'.h] > 0) => last'.count = 0
              /\ last'.op \in Looks => last'.count = 0]_<<rvars, last>>
NeverAllocates == [][kind = "never" => last'.count = 0]_<<rvars, last>>
=============================================================================
