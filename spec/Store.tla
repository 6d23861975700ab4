------------------------------- MODULE Store -------------------------------
(* What all four maps share: handles holding keyed values, two-ended iterators
   over them, cloning, printing, and a ledger of who owns every value.        *)
EXTENDS Cursor

CONSTANTS Handles,  \* map objects that can exist at the same time
          Feat,     \* operation groups offered by Ops (model checking only)
          Sizes,    \* numbers of keys to consider (model checking only)
          Ledger,   \* keep the ownership ledger?
          Exact     \* iterators report exact size bounds?

VARIABLES par,      \* [n: number of keys, track: clones get new identities]; never changes
          live,     \* live[h]: does map h exist
          maps,     \* maps[h]: its contents
          cur,      \* open iterators: the original and possibly a clone of it
          ent,      \* open entry
          out,      \* reply of the last call
          led,      \* ledger [made, held, gone] of value identities
          nid       \* next fresh identity (model checking only)
vars == <<par, live, maps, cur, ent, out, led, nid>>

N == par.n
Track == par.track

NoEnt == [open |-> FALSE, h |-> 0, k |-> 0]
Closed == [kind |-> "", h |-> 0, items |-> <<>>, lo |-> 0, hi |-> 0]

InitRest ==
        /\ live = [h \in Handles |-> FALSE]
        /\ maps = [h \in Handles |-> EmptyMap]
        /\ cur = <<>>
        /\ ent = NoEnt
        /\ out = NoReply
        /\ led = [made |-> {}, held |-> {}, gone |-> {}]
        /\ nid = 1
Init == /\ par \in [n : Sizes, track : {TRUE}]
        /\ InitRest

Idle == cur = <<>> /\ ~ent.open
Free(h) == Idle /\ h \in Handles /\ ~live[h]
Use(h)  == Idle /\ h \in Handles /\ live[h]
Values(m) == Seconds(Items(m))

\* every call ends with a reply; `made` are the identities it introduced
Done(made, r) ==
  /\ UNCHANGED par
  /\ out' = r
  /\ led' = IF Ledger
            THEN [made |-> led.made \cup ToSet(made),
                  held |-> led.held \cup ToSet(r.give),
                  gone |-> led.gone \cup ToSet(r.drops)]
            ELSE led
  /\ nid' = IF made = <<>> THEN nid ELSE nid + Len(made)
SetMap(h, m)  == maps' = [maps EXCEPT ![h] = m]
Born(h, m)    == live' = [live EXCEPT ![h] = TRUE]  /\ SetMap(h, m)
Died(h)       == live' = [live EXCEPT ![h] = FALSE] /\ SetMap(h, EmptyMap)
KeepMaps == UNCHANGED <<live, maps>>
KeepCur  == UNCHANGED <<cur, ent>>

----------------------------------------------------------------------------
DropMap(o) == /\ o.op = "dropmap" /\ Use(o.h)
              /\ Died(o.h) /\ KeepCur /\ Done(<<>>, ReplyD(<<>>, Values(maps[o.h])))
(* Sizes and printing *)
Size(o) == /\ o.op = "len" /\ Use(o.h) /\ KeepMaps /\ KeepCur
           /\ Done(<<>>, Reply(<<Cardinality(DOMAIN maps[o.h])>>))
IsEmpty(o) == /\ o.op = "isempty" /\ Use(o.h) /\ KeepMaps /\ KeepCur
              /\ Done(<<>>, Reply(Bit(DOMAIN maps[o.h] = {})))
Show(o) == /\ o.op = "dbg" /\ Use(o.h) /\ KeepMaps /\ KeepCur
           /\ Done(<<>>, ReplyS(MapStr(Items(maps[o.h]), o.j)))
\* every key asked for one by one
Peek(o) == /\ o.op = "peek" /\ Use(o.h) /\ KeepMaps /\ KeepCur
           /\ Done(<<>>, Reply(Flat(Items(maps[o.h]))))
(* Clones: each value is cloned exactly once; xs/vs give original/clone pairs *)
CloneOf(o, v) == IF Track THEN o.vs[CHOOSE i \in 1..Len(o.xs) : o.xs[i] = v] ELSE v
ClonesOK(o, values) == Track => /\ Len(o.xs) = Len(o.vs)
                                /\ SortedSeq(o.xs) = SortedSeq(values)
Clone(o) == /\ o.op = "clone" /\ Use(o.h) /\ Free(o.j)
            /\ KeepCur
            /\ IF ClonesOK(o, Values(maps[o.h]))
               THEN /\ Born(o.j, [k \in DOMAIN maps[o.h] |-> CloneOf(o, maps[o.h][k])])
                    /\ Done(o.vs, NoReply)
               ELSE /\ KeepMaps /\ Done(<<>>, ReplyS("every value is cloned exactly once"))
\* map o.j becomes a clone of map o.h; what it held before is destroyed
CloneFrom(o) == /\ o.op = "clonefrom" /\ Use(o.h) /\ Use(o.j) /\ o.h # o.j
                /\ KeepCur /\ UNCHANGED live
                /\ IF ClonesOK(o, Values(maps[o.h]))
                   THEN /\ SetMap(o.j, [k \in DOMAIN maps[o.h] |-> CloneOf(o, maps[o.h][k])])
                        /\ Done(o.vs, ReplyD(<<>>, Values(maps[o.j])))
                   ELSE /\ UNCHANGED maps /\ Done(<<>>, ReplyS("every value is cloned exactly once"))
\* the o.k-th clone of a value panics: the clones made so far are destroyed
ClonePanic(o) == /\ o.op = "clonep" /\ Use(o.h) /\ Free(o.j)
                 /\ o.k >= 1 /\ o.k <= Cardinality(DOMAIN maps[o.h])
                 /\ KeepMaps /\ KeepCur /\ Done(o.vs, ReplyD(<<-1>>, o.vs))
(* Iterators *)
CurAt(o) == o.h \in 1..Len(cur) /\ cur[o.h].kind # ""
Shut(cs) == IF \A i \in 1..Len(cs) : cs[i].kind = "" THEN <<>> ELSE cs
Step(o) == /\ o.op \in CursorOps /\ CurAt(o) /\ UNCHANGED ent
           /\ LET c == cur[o.h]  wr == CurWrites(c, o)
              IN /\ cur' = IF o.op \in Consuming THEN Shut([cur EXCEPT ![o.h] = Closed])
                           ELSE [cur EXCEPT ![o.h] = CurNext(c, o)]
                 /\ UNCHANGED live
                 /\ IF DOMAIN wr = {} THEN UNCHANGED maps
                    ELSE SetMap(c.h, [k \in DOMAIN maps[c.h] |-> IF k \in DOMAIN wr THEN wr[k] ELSE maps[c.h][k]])
                 /\ Done(IF DOMAIN wr = {} THEN <<>> ELSE o.vs,
                         LET r == CurReply(c, o, Exact)
                         IN IF DOMAIN wr = {} THEN r
                            ELSE [r EXCEPT !.give = Seconds(CurEff(c, o).got)])
CurClone(o) == /\ o.op = "cclone" /\ CurAt(o) /\ Len(cur) = 1 /\ KeepMaps /\ UNCHANGED ent
               /\ LET c == cur[o.h] IN
                  IF c.kind \in OwnedKinds /\ ~ClonesOK(o, Seconds(c.items))
                  THEN UNCHANGED cur /\ Done(<<>>, ReplyS("every remaining value is cloned exactly once"))
                  ELSE /\ cur' = Append(cur, IF c.kind \in OwnedKinds
                                THEN [c EXCEPT !.items = [i \in 1..Len(c.items) |-> <<c.items[i][1], CloneOf(o, c.items[i][2])>>]]
                                ELSE c)
                       /\ Done(o.vs, NoReply)
\* a callback iterating an owning iterator panics on its o.j-th item
FoldPanic(o) == /\ o.op = "foldp" /\ CurAt(o) /\ KeepMaps /\ UNCHANGED ent
                /\ LET c == cur[o.h]  seen == Take(c.items, o.j)  rest == Drop(c.items, o.j)
                       own == c.kind \in OwnedKinds
                   IN /\ o.j >= 1 /\ o.j <= Len(c.items)
                      /\ cur' = Shut([cur EXCEPT ![o.h] = Closed])
                      /\ Done(<<>>, ReplyDG(ProjAll(c.kind, seen) \o <<-1>>,
                                  IF own THEN Seconds(rest) ELSE <<>>, IF own THEN Seconds(seen) ELSE <<>>))

----------------------------------------------------------------------------
(* The groups of calls that the properties speak about *)
Group(o, cs) ==
  CASE o.op \in {"dbg", "cdbg"} -> "dbg"
    [] o.op \in {"clone", "clonefrom", "clonep", "cclone"} -> "clone"
    [] o.op \in {"entry", "ekey", "eget", "egetmut", "eins", "eor", "edrop"} -> "entry"
    [] o.op \in {"retain", "retainp"} -> "retain"
    [] o.op = "clear" \/ (o.op = "begin" /\ o.kind = "drain") -> "drain"
    [] o.op = "begin" -> "iter"
    [] o.op = "len" /\ ~(o.h \in 1..Len(cs) /\ cs[o.h].kind # "") -> "dict"   \* of a map, not of an iterator
    [] o.op \in CursorOps \cup {"foldp"} ->
         IF o.h \in 1..Len(cs) /\ cs[o.h].kind = "drain" THEN "drain" ELSE "iter"
    [] o.op \in {"valarr", "valarrmut", "asref", "asmut", "intovalues", "zip", "map", "mapvalues", "mapp", "mapvaluesp"} -> "bulk"
    [] OTHER -> "dict"
----------------------------------------------------------------------------
(* Model checking: the iterator calls worth making in a state *)
Keys == 0..N-1
Ids(m) == [i \in 1..m |-> nid + i - 1]
W == {0, nid}
OpenHs == {h \in Handles : live[h]}
FreeHs == {h \in Handles : ~live[h]}
LowFree == IF FreeHs = {} THEN {} ELSE {Min(FreeHs)}
StepOps(c) ==
  {O1(n, c) : n \in {"next","back","count","last","fold","rfold","cdrop"}} \cup
  {O1("hint", c)} \cup
  {OJ(n, c, j) : n \in {"nth","nthb","find","rfind","skip","rskip"}, j \in 0..N-1} \cup
  {OJ(n, c, j) : n \in {"tfold","trfold"}, j \in 1..N-1} \cup
  {OJ("step", c, j) : j \in 1..2} \cup
  (IF "dbg" \in Feat /\ cur[c].kind \notin {"drain","keys"} THEN {OJ("cdbg", c, a) : a \in {0,1}} ELSE {}) \cup
  (IF cur[c].kind \in MutKinds
   THEN {[O1(n, c) EXCEPT !.vs = Ids(1)] : n \in {"next","back"}} \cup
        {[O1(n, c) EXCEPT !.vs = Ids(Len(cur[c].items))] : n \in {"fold","rfold"}} ELSE {}) \cup
  (IF "fault" \in Feat THEN {OJ("foldp", c, j) : j \in 1..N} ELSE {}) \cup
  (IF "clone" \in Feat /\ Len(cur) = 1 /\ cur[c].kind \notin MutKinds \cup {"drain"}
   THEN {IF cur[c].kind \in OwnedKinds
         THEN [O1("cclone", c) EXCEPT !.xs = Seconds(cur[c].items), !.vs = Ids(Len(cur[c].items))]
         ELSE O1("cclone", c)} ELSE {})
CloneOps ==
  {[OJ("clone", h, g) EXCEPT !.xs = Values(maps[h]), !.vs = Ids(Cardinality(DOMAIN maps[h]))] : h \in OpenHs, g \in LowFree} \cup
  {[OJ("clonefrom", h, g) EXCEPT !.xs = Values(maps[h]), !.vs = Ids(Cardinality(DOMAIN maps[h]))] : h \in OpenHs, g \in OpenHs}
ClonePanicOps ==
  {[OJ("clonep", h, g) EXCEPT !.k = i, !.vs = Ids(i-1)] : h \in OpenHs, g \in LowFree, i \in 1..N}
\* identities and replies abstracted away: what a client can distinguish next
\* (built from tuples only, so that equal shapes print alike)
Shape == <<par.n, live, [h \in Handles |-> Sorted(DOMAIN maps[h])],
           [i \in 1..Len(cur) |-> <<cur[i].kind, cur[i].h, Firsts(cur[i].items), cur[i].lo, cur[i].hi>>],
           <<ent.open, ent.h, ent.k>>>>
----------------------------------------------------------------------------
(* Properties *)
TypeOK == /\ \A h \in Handles : DOMAIN maps[h] \subseteq Keys /\ (~live[h] => maps[h] = EmptyMap)
          /\ \A i \in 1..Len(cur) : cur[i].kind # "" => CurOK(cur[i])
          /\ ent.open => live[ent.h]
InMaps(h) == {maps[h][k] : k \in DOMAIN maps[h]}
InCur(i) == IF cur[i].kind \in OwnedKinds THEN ToSet(Seconds(cur[i].items)) ELSE {}
Stored == UNION {InMaps(h) : h \in Handles} \cup UNION {InCur(i) : i \in 1..Len(cur)}
RECURSIVE SumOver(_,_)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
\* C11: every identity ever made is in exactly one place
OneOwner == Ledger =>
  /\ led.made = Stored \cup led.held \cup led.gone
  /\ Cardinality(led.made) = Cardinality(led.held) + Cardinality(led.gone)
        + SumOver([h \in Handles |-> Cardinality(DOMAIN maps[h])], Handles)
        + SumOver([i \in 1..Len(cur) |-> Cardinality(InCur(i))], 1..Len(cur))
\* shared iterators agree with the map they borrow from
CurAgrees == \A i \in 1..Len(cur) :
   cur[i].kind # "" /\ cur[i].h # 0 /\ cur[i].kind \notin OwnedKinds =>
      ToSet(Firsts(cur[i].items)) \subseteq DOMAIN maps[cur[i].h]
\* C05, C09, C17: a call that changes one map leaves every other map that survives it alone
Frame == [][\A h \in Handles : maps'[h] # maps[h] =>
              \A g \in Handles \ {h} : live[g] /\ live'[g] => maps'[g] = maps[g]]_vars
=============================================================================
