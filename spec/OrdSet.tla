------------------------------- MODULE OrdSet -------------------------------
(* The three sets (OrdinalSet, OrdinalSet64, OrdinalArraySet).  A set is a
   dictionary in which every element holds the same value, 0.                 *)
EXTENDS Store

SetOf(h) == DOMAIN maps[h]
AsMap(S) == [x \in S |-> 0]
----------------------------------------------------------------------------
New(o) == /\ o.op = "new" /\ Free(o.h) /\ Born(o.h, EmptyMap) /\ KeepCur /\ Done(<<>>, NoReply)
\* the full 64-element set
All(o) == /\ o.op = "all" /\ Free(o.h) /\ N <= 64
          /\ Born(o.h, AsMap(0..N-1)) /\ KeepCur /\ Done(<<>>, NoReply)
FromIter(o) == /\ o.op = "fromiter" /\ Free(o.h)
               /\ Born(o.h, AsMap(ToSet(o.xs))) /\ KeepCur /\ Done(<<>>, NoReply)
SetInsert(o) == /\ o.op = "insert" /\ Use(o.h) /\ UNCHANGED live /\ KeepCur
                /\ SetMap(o.h, Put(maps[o.h], o.k, 0))
                /\ Done(<<>>, Reply(Bit(o.k \notin SetOf(o.h))))
SetHas(o) == /\ o.op = "has" /\ Use(o.h) /\ KeepMaps /\ KeepCur
             /\ Done(<<>>, Reply(Bit(o.k \in SetOf(o.h))))
SetEq(o) == /\ o.op = "eq" /\ Use(o.h) /\ Use(o.j) /\ KeepMaps /\ KeepCur
            /\ Done(<<>>, Reply(Bit(SetOf(o.h) = SetOf(o.j))))
SetPeek(o) == /\ o.op = "peek" /\ Use(o.h) /\ KeepMaps /\ KeepCur
              /\ Done(<<>>, Reply(Sorted(SetOf(o.h))))
SetShow(o) == /\ o.op = "dbg" /\ Use(o.h) /\ KeepMaps /\ KeepCur
              /\ Done(<<>>, ReplyS(SetStr(Sorted(SetOf(o.h)), o.j)))
\* cloning copies the elements; the elements have no identity
SetClone(o) == Clone(o)
SetCloneFrom(o) == /\ o.op = "clonefrom" /\ Use(o.h) /\ Use(o.j) /\ o.h # o.j /\ UNCHANGED live /\ KeepCur
                   /\ SetMap(o.j, maps[o.h]) /\ Done(<<>>, NoReply)
SetDrop(o) == /\ o.op = "dropmap" /\ Use(o.h) /\ Died(o.h) /\ KeepCur /\ Done(<<>>, NoReply)
Begin(o) == /\ o.op = "begin" /\ o.kind = "elems" /\ Use(o.h) /\ KeepMaps /\ UNCHANGED ent
            /\ cur' = <<MkCursor("elems", o.h, Items(maps[o.h]), N)>>
            /\ Done(<<>>, NoReply)
Do(o) == \/ New(o) \/ All(o) \/ FromIter(o) \/ SetDrop(o)
         \/ SetInsert(o) \/ SetHas(o) \/ SetEq(o) \/ SetShow(o) \/ SetPeek(o)
         \/ SetClone(o) \/ SetCloneFrom(o)
         \/ Begin(o) \/ Step(o) \/ CurClone(o)
----------------------------------------------------------------------------
KeySeqs == UNION {[1..m -> Keys] : m \in 0..3}
MapOps ==
  {O1("new", h) : h \in LowFree} \cup
  {OK("insert", h, k) : h \in OpenHs, k \in Keys} \cup
  {O1("all", h) : h \in LowFree} \cup
  (IF "dict" \in Feat THEN
     {OJ("new", h, 1) : h \in LowFree} \cup
     {[O1("fromiter", h) EXCEPT !.xs = s] : h \in LowFree, s \in KeySeqs} \cup
     {O1("dropmap", h) : h \in OpenHs} \cup
     {OK("has", h, k) : h \in OpenHs, k \in Keys} \cup
     {OJ("eq", h, g) : h \in OpenHs, g \in OpenHs} ELSE {O1("dropmap", h) : h \in OpenHs}) \cup
  (IF "iter" \in Feat THEN {[O1("begin", h) EXCEPT !.kind = "elems"] : h \in OpenHs} ELSE {}) \cup
  (IF "clone" \in Feat THEN {OJ(n, h, g) : n \in {"clone"}, h \in OpenHs, g \in LowFree} \cup
                            {OJ(n, h, g) : n \in {"clonefrom"}, h \in OpenHs, g \in OpenHs} ELSE {}) \cup
  (IF "dbg" \in Feat THEN {OJ("dbg", h, a) : h \in OpenHs, a \in {0,1}} ELSE {})
SStepOps(c) == StepOps(c) \cup {O1("len", c)}
Ops == IF cur # <<>> THEN UNION {SStepOps(c) : c \in {i \in 1..Len(cur) : cur[i].kind # ""}} ELSE MapOps
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* C12: nothing ever leaves a set, and only the named element enters it
Grows == [][(Idle /\ live' = live) =>
            \A h \in Handles : \/ maps'[h] = maps[h]
                               \/ SetOf(h) \subseteq DOMAIN maps'[h] /\ Cardinality(DOMAIN maps'[h] \ SetOf(h)) <= 1
                               \/ \E g \in Handles : maps'[h] = maps[g]]_vars
\* C13: an exhausted iterator stays exhausted
Exhausted == [][\A i \in 1..Len(cur) : (cur[i].kind # "" /\ cur[i].items = <<>> /\ i <= Len(cur')) => cur'[i].items = <<>>]_vars
=============================================================================
