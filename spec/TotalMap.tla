------------------------------ MODULE TotalMap ------------------------------
(* The total maps (OrdinalTotalMap, OrdinalTotalArrayMap): every key of 0..N-1
   always has a value.  One action per public call.                           *)
EXTENDS Store

Key1 == 1..N
AllKeys == [i \in Key1 |-> i - 1]
FullMap(vs) == [k \in 0..N-1 |-> vs[k+1]]
----------------------------------------------------------------------------
(* Construction *)
\* vs: the values the initialiser returned, in the order of its calls; the
\* reply lists the keys it was called with
New(o) == /\ o.op = "new" /\ Free(o.h) /\ KeepCur
          /\ IF Len(o.vs) = N
             THEN Born(o.h, FullMap(o.vs)) /\ Done(o.vs, Reply(AllKeys))
             ELSE KeepMaps /\ Done(<<>>, ReplyS("the initialiser is called once per key"))
\* from values given in ordinal order (Default::default(), from_array)
FromVals(o) == /\ o.op = "fromvals" /\ Free(o.h) /\ KeepCur
               /\ IF Len(o.vs) = N
                  THEN Born(o.h, FullMap(o.vs)) /\ Done(o.vs, NoReply)
                  ELSE KeepMaps /\ Done(<<>>, ReplyS("one value per key"))
\* the o.k-th call of the initialiser fails: with an error (newe), which comes
\* back as -2 and its payload o.k, or with a panic (newp)
NewFails(o) == /\ o.op \in {"newe", "newp"} /\ Free(o.h) /\ KeepCur /\ KeepMaps
               /\ o.k >= 1 /\ o.k <= N
               /\ Done(o.vs, ReplyD(Take(AllKeys, o.k) \o (IF o.op = "newe" THEN <<-2, o.k>> ELSE <<-1>>), o.vs))
(* Single keys *)
Get(o) == /\ o.op \in {"get", "index"} /\ Use(o.h) /\ KeepMaps /\ KeepCur
          /\ Done(<<>>, Reply(Opt(maps[o.h], o.k)))
GetMut(o) == /\ o.op \in {"getmut", "indexmut"} /\ Use(o.h) /\ UNCHANGED live /\ KeepCur
             /\ SetMap(o.h, IF o.w # 0 THEN Put(maps[o.h], o.k, o.w) ELSE maps[o.h])
             /\ Done(IF o.w # 0 THEN <<o.w>> ELSE <<>>,
                     ReplyG(Opt(maps[o.h], o.k), IF o.w # 0 THEN Opt(maps[o.h], o.k) ELSE <<>>))
MapInsert(o) == /\ o.op = "insert" /\ Use(o.h) /\ UNCHANGED live /\ KeepCur
                /\ SetMap(o.h, Put(maps[o.h], o.k, o.v))
                /\ Done(<<o.v>>, ReplyG(Opt(maps[o.h], o.k), Opt(maps[o.h], o.k)))
(* Views: all values, in order *)
ValuesArray(o) == /\ o.op = "valarr" /\ Use(o.h) /\ KeepMaps /\ KeepCur
                  /\ Done(<<>>, Reply(Values(maps[o.h])))
\* vs # <<>>: one new value is written through each reference
Rewrite(o, r) ==
  /\ Use(o.h) /\ UNCHANGED live /\ KeepCur
  /\ IF o.vs = <<>> THEN UNCHANGED maps /\ Done(<<>>, Reply(r))
     ELSE IF Len(o.vs) # N THEN UNCHANGED maps /\ Done(<<>>, ReplyS("one reference per key"))
     ELSE SetMap(o.h, FullMap(o.vs)) /\ Done(o.vs, ReplyG(r, Values(maps[o.h])))
ValuesArrayMut(o) == o.op = "valarrmut" /\ Rewrite(o, Values(maps[o.h]))
AsRef(o) == o.op = "asref" /\ Use(o.h) /\ KeepMaps /\ KeepCur /\ Done(<<>>, Reply(Flat(Items(maps[o.h]))))
AsMut(o) == o.op = "asmut" /\ Rewrite(o, Flat(Items(maps[o.h])))
(* Transforms *)
IntoValues(o) == /\ o.op = "intovalues" /\ Use(o.h) /\ Died(o.h) /\ KeepCur
                 /\ Done(<<>>, ReplyG(Values(maps[o.h]), Values(maps[o.h])))
\* the zipped map is read out completely
ZipMaps(o) == /\ o.op = "zip" /\ Use(o.h) /\ Use(o.j) /\ o.h # o.j /\ KeepCur
          /\ live' = [live EXCEPT ![o.h] = FALSE, ![o.j] = FALSE]
          /\ maps' = [maps EXCEPT ![o.h] = EmptyMap, ![o.j] = EmptyMap]
          /\ Done(<<>>, ReplyG(Flat([i \in Key1 |-> <<i - 1, maps[o.h][i-1], maps[o.j][i-1]>>]),
                               Values(maps[o.h]) \o Values(maps[o.j])))
\* the callback keeps each value it is given and returns the next of vs
MapAll(o) == /\ o.op \in {"map", "mapvalues"} /\ Use(o.h) /\ UNCHANGED live /\ KeepCur
             /\ IF Len(o.vs) # N THEN UNCHANGED maps /\ Done(<<>>, ReplyS("one call per key"))
                ELSE /\ SetMap(o.h, FullMap(o.vs))
                     /\ Done(o.vs, ReplyG(IF o.op = "map" THEN Flat(Items(maps[o.h])) ELSE Values(maps[o.h]),
                                          Values(maps[o.h])))
\* the callback panics on its o.k-th call (having taken that value)
MapPanic(o) == /\ o.op \in {"mapp", "mapvaluesp"} /\ Use(o.h) /\ Died(o.h) /\ KeepCur
               /\ o.k >= 1 /\ o.k <= N
               /\ LET is == Items(maps[o.h]) IN
                  Done(o.vs, ReplyDG((IF o.op = "mapp" THEN Flat(Take(is, o.k)) ELSE Seconds(Take(is, o.k))) \o <<-1>>,
                                     Seconds(Drop(is, o.k)) \o o.vs, Seconds(Take(is, o.k))))
(* Iterators *)
Kinds == {"iter","iter_mut","keys","values","values_mut","into","into_keys","ref"}
Begin(o) == /\ o.op = "begin" /\ o.kind \in Kinds /\ Use(o.h)
            /\ cur' = <<IF o.kind = "into_keys" THEN MkCursor("keys", 0, Items(maps[o.h]), N)
                        ELSE MkCursor(o.kind, o.h, Items(maps[o.h]), N)>>
            /\ UNCHANGED ent
            /\ IF o.kind \in {"into", "into_keys"} THEN Died(o.h) ELSE KeepMaps
            /\ Done(<<>>, IF o.kind = "into_keys" THEN ReplyD(<<>>, Values(maps[o.h])) ELSE NoReply)

Do(o) == \/ New(o) \/ FromVals(o) \/ NewFails(o) \/ DropMap(o)
         \/ Get(o) \/ GetMut(o) \/ MapInsert(o) \/ Size(o) \/ IsEmpty(o) \/ Show(o) \/ Peek(o)
         \/ ValuesArray(o) \/ ValuesArrayMut(o) \/ AsRef(o) \/ AsMut(o)
         \/ IntoValues(o) \/ ZipMaps(o) \/ MapAll(o) \/ MapPanic(o)
         \/ Clone(o) \/ CloneFrom(o) \/ ClonePanic(o)
         \/ Begin(o) \/ Step(o) \/ CurClone(o) \/ FoldPanic(o)
----------------------------------------------------------------------------
(* Model checking: the calls worth making in a state *)
MapOps ==
  {[OJ("new", h, j) EXCEPT !.vs = Ids(N)] : h \in LowFree, j \in 0..1} \cup
  {O1("dropmap", h) : h \in OpenHs} \cup
  (IF "dict" \in Feat THEN
     {[OJ("fromvals", h, j) EXCEPT !.vs = Ids(N)] : h \in LowFree, j \in 0..1} \cup
     {[OK("newe", h, k) EXCEPT !.vs = Ids(k-1)] : h \in LowFree, k \in 1..N} \cup
     {[OK("insert", h, k) EXCEPT !.v = nid] : h \in OpenHs, k \in Keys} \cup
     {OK(n, h, k) : n \in {"get","index"}, h \in OpenHs, k \in Keys} \cup
     {[OK(n, h, k) EXCEPT !.w = w] : n \in {"getmut","indexmut"}, h \in OpenHs, k \in Keys, w \in W} \cup
     {[O1(n, h) EXCEPT !.vs = Ids(N)] : n \in {"valarrmut","asmut"}, h \in OpenHs} \cup
     {O1(n, h) : n \in {"len","isempty"}, h \in OpenHs} ELSE {}) \cup
  (IF "iter" \in Feat THEN {[O1("begin", h) EXCEPT !.kind = q] : h \in OpenHs, q \in Kinds} ELSE {}) \cup
  (IF "bulk" \in Feat THEN
     {O1(n, h) : n \in {"valarr","asref","intovalues","asmut","valarrmut"}, h \in OpenHs} \cup
     {[O1(n, h) EXCEPT !.vs = Ids(N)] : n \in {"map","mapvalues","valarrmut","asmut"}, h \in OpenHs} \cup
     {OJ("zip", h, g) : h \in OpenHs, g \in OpenHs} ELSE {}) \cup
  (IF "clone" \in Feat THEN CloneOps ELSE {}) \cup
  (IF "dbg" \in Feat THEN {OJ("dbg", h, a) : h \in OpenHs, a \in {0,1}} ELSE {}) \cup
  (IF "fault" \in Feat THEN ClonePanicOps \cup
     {[OK(n, h, k) EXCEPT !.vs = Ids(k-1)] : n \in {"newe","newp"}, h \in LowFree, k \in 1..N} \cup
     {[OK(n, h, k) EXCEPT !.vs = Ids(k-1)] : n \in {"mapp","mapvaluesp"}, h \in OpenHs, k \in 1..N} ELSE {})
TStepOps(c) == StepOps(c) \cup {O1("len", c)}
Ops == IF cur # <<>> THEN UNION {TStepOps(c) : c \in {i \in 1..Len(cur) : cur[i].kind # ""}} ELSE MapOps
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* Properties *)
\* C09: a live map has a value for every key, always
Total == \A h \in Handles : live[h] => DOMAIN maps[h] = Keys
\* C09: writing one key leaves the others alone
Single == [][(out'.give # <<>> /\ Len(out'.give) = 1 /\ Len(out'.ret) = 1 /\ Idle /\ live' = live /\ cur' = cur /\ N > 1) =>
             \A h \in Handles : Cardinality({k \in Keys : Opt(maps'[h], k) # Opt(maps[h], k)}) <= 1]_vars
=============================================================================
