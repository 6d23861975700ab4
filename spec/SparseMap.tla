------------------------------ MODULE SparseMap ------------------------------
(* The sparse maps (OrdinalMap, OrdinalArrayMap): a dictionary from keys
   0..N-1 to values, with borrowed iterators, entries and drains, and a ledger
   of who owns every value.  One action per public call.                      *)
EXTENDS Store

----------------------------------------------------------------------------
(* Construction and destruction *)
New(o) == /\ o.op = "new" /\ Free(o.h)
          /\ Born(o.h, EmptyMap) /\ KeepCur /\ Done(<<>>, NoReply)
FromIter(o) == /\ o.op = "fromiter" /\ Free(o.h)
               /\ Born(o.h, LastWins(o.xs, o.vs)) /\ KeepCur
               /\ Done(o.vs, ReplyD(<<>>, Overwritten(o.xs, o.vs)))
\* the source of pairs panics after yielding all of xs/vs
FromIterPanic(o) == /\ o.op = "fromiterp" /\ Free(o.h)
                    /\ KeepMaps /\ KeepCur /\ Done(o.vs, ReplyD(<<-1>>, o.vs))
(* Dictionary calls *)
MapInsert(o) == /\ o.op = "insert" /\ Use(o.h)
             /\ SetMap(o.h, Put(maps[o.h], o.k, o.v)) /\ UNCHANGED live /\ KeepCur
             /\ Done(<<o.v>>, ReplyG(Opt(maps[o.h], o.k), Opt(maps[o.h], o.k)))
Get(o) == /\ o.op = "get" /\ Use(o.h) /\ KeepMaps /\ KeepCur
          /\ Done(<<>>, Reply(Opt(maps[o.h], o.k)))
\* w # 0: the value w is written through the reference (if there is one)
GetMut(o) == /\ o.op = "getmut" /\ Use(o.h) /\ UNCHANGED live /\ KeepCur
             /\ LET wr == o.w # 0 /\ Has(maps[o.h], o.k) IN
                /\ SetMap(o.h, IF wr THEN Put(maps[o.h], o.k, o.w) ELSE maps[o.h])
                /\ Done(IF wr THEN <<o.w>> ELSE <<>>,
                        ReplyG(Opt(maps[o.h], o.k), IF wr THEN Opt(maps[o.h], o.k) ELSE <<>>))
MapContains(o) == /\ o.op = "has" /\ Use(o.h) /\ KeepMaps /\ KeepCur
               /\ Done(<<>>, Reply(Bit(Has(maps[o.h], o.k))))
MapRemove(o) == /\ o.op = "remove" /\ Use(o.h)
             /\ SetMap(o.h, Del(maps[o.h], o.k)) /\ UNCHANGED live /\ KeepCur
             /\ Done(<<>>, ReplyG(Opt(maps[o.h], o.k), Opt(maps[o.h], o.k)))
(* Removal in bulk *)
Clear(o) == /\ o.op = "clear" /\ Use(o.h)
            /\ SetMap(o.h, EmptyMap) /\ UNCHANGED live /\ KeepCur
            /\ Done(<<>>, ReplyD(<<>>, Values(maps[o.h])))
\* keep exactly the keys in xs; o.vs # <<>>: the predicate first replaces each
\* visited value (in visiting order) by the next of vs
Retain(o) == /\ o.op = "retain" /\ Use(o.h)
             /\ LET is == Items(maps[o.h])
                    after == IF o.vs = <<>> THEN is
                             ELSE [i \in 1..Len(is) |-> <<is[i][1], o.vs[i]>>]
                    kept == SelectSeq(after, LAMBDA p : p[1] \in ToSet(o.xs))
                    lost == SelectSeq(after, LAMBDA p : p[1] \notin ToSet(o.xs))
                IN /\ o.vs # <<>> => Len(o.vs) = Len(is)
                   /\ SetMap(o.h, LastWins(Firsts(kept), Seconds(kept)))
                   /\ Done(o.vs, ReplyDG(Flat(is), Seconds(lost), IF o.vs = <<>> THEN <<>> ELSE Seconds(is)))
             /\ UNCHANGED live /\ KeepCur
\* the predicate panics on its o.k-th call.  What it rejected before is gone;
\* the map may or may not lose other values (o.vs = all the values it lost),
\* but a value it loses is destroyed
RetainPanic(o) == /\ o.op = "retainp" /\ Use(o.h)
             /\ LET is == Items(maps[o.h])
                    rejected == SelectSeq(Take(is, o.k - 1), LAMBDA p : p[1] \notin ToSet(o.xs))
                    gone == SelectSeq(is, LAMBDA p : p[2] \in ToSet(o.vs))
                IN /\ o.k >= 1 /\ o.k <= Len(is)
                   /\ ToSet(rejected) \subseteq ToSet(gone)
                   /\ SetMap(o.h, [x \in DOMAIN maps[o.h] \ ToSet(Firsts(gone)) |-> maps[o.h][x]])
                   /\ Done(<<>>, ReplyD(Flat(Take(is, o.k)) \o <<-1>>, Seconds(gone)))
             /\ UNCHANGED live /\ KeepCur
(* Entries *)
Entry(o) == /\ o.op = "entry" /\ Use(o.h)
            /\ ent' = [open |-> TRUE, h |-> o.h, k |-> o.k]
            /\ KeepMaps /\ UNCHANGED cur
            /\ Done(<<>>, Reply(Bit(Has(maps[o.h], o.k))))
Occ == ent.open /\ Has(maps[ent.h], ent.k)
Vac == ent.open /\ ~Has(maps[ent.h], ent.k)
EVal == maps[ent.h][ent.k]
EntKey(o) == /\ o.op = "ekey" /\ ent.open /\ KeepMaps /\ KeepCur /\ Done(<<>>, Reply(<<ent.k>>))
EntGet(o) == /\ o.op = "eget" /\ Occ /\ KeepMaps /\ KeepCur /\ Done(<<>>, Reply(<<EVal>>))
EntGetMut(o) == /\ o.op = "egetmut" /\ Occ /\ UNCHANGED live /\ KeepCur
                /\ SetMap(ent.h, IF o.w # 0 THEN Put(maps[ent.h], ent.k, o.w) ELSE maps[ent.h])
                /\ Done(IF o.w # 0 THEN <<o.w>> ELSE <<>>, ReplyG(<<EVal>>, IF o.w # 0 THEN <<EVal>> ELSE <<>>))
EntInsert(o) == /\ o.op = "eins" /\ Vac /\ UNCHANGED <<live, cur>>
                /\ SetMap(ent.h, Put(maps[ent.h], ent.k, o.v)) /\ ent' = NoEnt
                /\ Done(<<o.v>>, NoReply)
\* or_insert(v) gives a reference to the stored value, through which w is written
EntOrInsert(o) == /\ o.op = "eor" /\ ent.open /\ UNCHANGED <<live, cur>> /\ ent' = NoEnt
                  /\ LET now == IF Occ THEN EVal ELSE o.v IN
                     /\ SetMap(ent.h, Put(maps[ent.h], ent.k, IF o.w # 0 THEN o.w ELSE now))
                     /\ Done(IF o.w # 0 THEN <<o.v, o.w>> ELSE <<o.v>>,
                             ReplyDG(<<now>>, IF Occ THEN <<o.v>> ELSE <<>>, IF o.w # 0 THEN <<now>> ELSE <<>>))
EntDrop(o) == /\ o.op = "edrop" /\ ent.open /\ KeepMaps /\ UNCHANGED cur /\ ent' = NoEnt /\ Done(<<>>, NoReply)
(* Iterators *)
Kinds == {"iter","iter_mut","keys","values","values_mut","drain","into","ref"}
Begin(o) == /\ o.op = "begin" /\ o.kind \in Kinds /\ Use(o.h)
            /\ cur' = <<MkCursor(o.kind, o.h, Items(maps[o.h]), N)>>
            /\ UNCHANGED ent
            /\ CASE o.kind = "into"  -> Died(o.h)
                 [] o.kind = "drain" -> SetMap(o.h, EmptyMap) /\ UNCHANGED live
                 [] OTHER -> KeepMaps
            /\ Done(<<>>, NoReply)
Do(o) == \/ New(o) \/ FromIter(o) \/ FromIterPanic(o) \/ DropMap(o)
         \/ MapInsert(o) \/ Get(o) \/ GetMut(o) \/ MapContains(o) \/ MapRemove(o) \/ Size(o) \/ IsEmpty(o) \/ Show(o) \/ Peek(o)
         \/ Clear(o) \/ Retain(o) \/ RetainPanic(o) \/ Clone(o) \/ CloneFrom(o) \/ ClonePanic(o)
         \/ Entry(o) \/ EntKey(o) \/ EntGet(o) \/ EntGetMut(o) \/ EntInsert(o) \/ EntOrInsert(o) \/ EntDrop(o)
         \/ Begin(o) \/ Step(o) \/ CurClone(o) \/ FoldPanic(o)

----------------------------------------------------------------------------
(* Model checking: the calls worth making in a state *)
KeySeqs == UNION {[1..m -> Keys] : m \in 0..2}
RejectedBy(h, S, i) == Seconds(SelectSeq(Take(Items(maps[h]), i - 1), LAMBDA p : p[1] \notin S))
MapOps ==
  (IF "dict" \in Feat THEN
     {O1("new", h) : h \in LowFree} \cup
     {OJ("new", h, 1) : h \in LowFree} \cup
     {[O1("fromiter", h) EXCEPT !.xs = s, !.vs = Ids(Len(s))] : h \in LowFree, s \in KeySeqs} \cup
     {O1("dropmap", h) : h \in OpenHs} \cup
     {[OK("insert", h, k) EXCEPT !.v = nid] : h \in OpenHs, k \in Keys} \cup
     {OK(n, h, k) : n \in {"get","has","remove"}, h \in OpenHs, k \in Keys} \cup
     {[OK("getmut", h, k) EXCEPT !.w = w] : h \in OpenHs, k \in Keys, w \in W} \cup
     {O1(n, h) : n \in {"len","isempty"}, h \in OpenHs}
   ELSE
     {O1("new", h) : h \in LowFree} \cup
     {[OK("insert", h, k) EXCEPT !.v = nid] : h \in OpenHs, k \in Keys} \cup
     {OK("remove", h, k) : h \in OpenHs, k \in Keys}) \cup
  (IF "entry" \in Feat THEN {OK("entry", h, k) : h \in OpenHs, k \in Keys} ELSE {}) \cup
  (IF "drain" \in Feat THEN {O1("clear", h) : h \in OpenHs} \cup
                            {[O1("begin", h) EXCEPT !.kind = "drain"] : h \in OpenHs} ELSE {}) \cup
  (IF "retain" \in Feat
   THEN {[O1("retain", h) EXCEPT !.xs = Sorted(S), !.vs = Ids(m)] : h \in OpenHs, S \in SUBSET Keys, m \in {0, N}}
   ELSE {}) \cup
  (IF "iter" \in Feat
   THEN {[O1("begin", h) EXCEPT !.kind = q] : h \in OpenHs, q \in Kinds \ {"drain"}} ELSE {}) \cup
  (IF "into" \in Feat
   THEN {[O1("begin", h) EXCEPT !.kind = "into"] : h \in OpenHs} ELSE {}) \cup
  (IF "clone" \in Feat
   THEN CloneOps ELSE {}) \cup
  (IF "dbg" \in Feat THEN {OJ("dbg", h, a) : h \in OpenHs, a \in {0,1}} ELSE {}) \cup
  (IF "fault" \in Feat
   THEN {[O1("fromiterp", h) EXCEPT !.xs = s, !.vs = Ids(Len(s))] : h \in LowFree, s \in KeySeqs} \cup
        {[OK("retainp", h, i) EXCEPT !.xs = Sorted(S), !.vs = RejectedBy(h, S, i)] : h \in OpenHs, S \in SUBSET Keys, i \in 1..N} \cup
        ClonePanicOps
   ELSE {})
EntOps == {O1("ekey",0), O1("eget",0), O1("edrop",0), [NoOp EXCEPT !.op = "eins", !.v = nid]} \cup
          {[NoOp EXCEPT !.op = "egetmut", !.w = w] : w \in W} \cup
          {[NoOp EXCEPT !.op = "eor", !.v = nid, !.w = w] : w \in {0, nid + 1}}
Ops == IF ent.open THEN EntOps
       ELSE IF cur # <<>> THEN UNION {StepOps(c) : c \in {i \in 1..Len(cur) : cur[i].kind # ""}}
       ELSE MapOps
Enabled(o) == \* well-formed writes only
  /\ o.op = "retain" /\ o.vs # <<>> => Len(o.vs) = Cardinality(DOMAIN maps[o.h])
  /\ o.op = "clonep" => o.k <= Cardinality(DOMAIN maps[o.h])
Next == \E o \in Ops : Enabled(o) /\ Do(o)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties *)
\* while draining, the map is already empty (C08)
DrainEmpties == \A i \in 1..Len(cur) : cur[i].kind = "drain" => maps[cur[i].h] = EmptyMap
\* C05: a dictionary call changes at most one key
OneKey == [][(Idle /\ live' = live /\ cur' = cur /\ ent' = ent) =>
             \A h \in Handles : Cardinality({k \in Keys : Opt(maps'[h], k) # Opt(maps[h], k)}) <= 1
                \/ "drain" \in Feat \/ "retain" \in Feat \/ "clone" \in Feat \/ "fault" \in Feat]_vars
\* C06: looking at an entry changes nothing
EntryPure == [][(ent'.open /\ ~ent.open) => maps' = maps]_vars
=============================================================================
