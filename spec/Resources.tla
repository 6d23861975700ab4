------------------------------ MODULE Resources ------------------------------
(* What the calls of the collections may cost: memory they hold, allocations
   they make, questions they put to the key type.
     "never"   array-backed collections, Set64, sets of up to 64 values, cells
     "lazy"    OrdinalMap and larger sets: nothing until the first insertion,
               then one block with a slot for every possible key
     "always"  OrdinalTotalMap: one block from the beginning
   Of a call we know whether it made an object, how many allocations it made
   (count), by how much it changed the memory in use (net) and how often it
   asked the key type (asked).                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Handles
VARIABLES kind, blocks,     \* cost class; the sizes its block may have
          n,                \* how many keys the key type has
          bytes             \* memory held by each object, -1 = no object
rvars == <<kind, blocks, n, bytes>>

CeilDiv(a, b) == (a + b - 1) \div b
KindOf(subject, size) ==
  IF subject = "OrdinalMap" THEN "lazy"
  ELSE IF subject = "OrdinalTotalMap" THEN "always"
  ELSE IF subject = "OrdinalSet" /\ size > 64 THEN "lazy" ELSE "never"
\* sv, so: size of a value, of an optional value.  A set needs a bit per key.
BlocksOf(subject, size, sv, so) ==
  IF subject = "OrdinalMap" THEN {size * so}
  ELSE IF subject = "OrdinalTotalMap" THEN {size * sv}
  ELSE IF subject = "OrdinalSet" /\ size > 64 THEN CeilDiv(size, 8)..(16 * CeilDiv(size, 64) + 64) ELSE {0}

Live(h) == bytes[h] # -1
Other(h) == 3 - h
Few == 16                  \* "a constant number" of questions
Looks == {"get", "getmut", "has", "remove", "len", "iter", "iter_mut", "keys", "values", "values_mut",
          "index", "valarr", "asref", "map", "zip"}
OneKey == {"insert", "get", "getmut", "has", "remove", "index", "entry"}
Makes == {"new", "fromiter", "all", "trynew"}
Ends == {"into", "intokeys", "intovalues", "dropmap"}
Quiet(e) == e.count = 0 /\ e.net = 0
Set(h, b) == bytes' = [bytes EXCEPT ![h] = b]
----------------------------------------------------------------------------
Make(e) == /\ e.op \in Makes /\ ~Live(e.h)
           /\ IF e.made = 0 THEN e.op = "trynew" /\ e.net = 0 /\ (kind = "never" => e.count = 0) /\ UNCHANGED bytes
              ELSE /\ CASE kind = "never" -> Quiet(e)
                        [] kind = "always" -> e.net \in blocks
                        [] kind = "lazy" /\ e.op = "fromiter" /\ e.items > 0 -> e.net \in blocks
                        [] kind = "lazy" /\ e.op = "fromiter" -> e.net \in blocks \cup {0}
                        [] OTHER -> Quiet(e)
                   /\ Set(e.h, e.net)
Look(e) == /\ e.op \in Looks /\ Live(e.h) /\ Quiet(e) /\ UNCHANGED bytes
\* only the first insertion may allocate, and it allocates everything
Insert(e) == /\ e.op = "insert" /\ Live(e.h)
             /\ IF kind # "lazy" \/ bytes[e.h] > 0 \/ blocks = {0} THEN Quiet(e) /\ UNCHANGED bytes
                ELSE e.net \in blocks /\ Set(e.h, e.net)
\* asking for an entry may count as the insertion
Entry(e) == /\ e.op = "entry" /\ Live(e.h)
            /\ IF kind # "lazy" \/ bytes[e.h] > 0 \/ blocks = {0} THEN Quiet(e) /\ UNCHANGED bytes
               ELSE e.net \in blocks \cup (IF e.j = 0 THEN {0} ELSE {}) /\ Set(e.h, e.net)
\* an emptied map may keep its block
Empty(e) == /\ e.op \in {"clear", "drain", "retain"} /\ Live(e.h) /\ e.count = 0
            /\ e.net = 0 \/ (kind = "lazy" /\ e.net = -bytes[e.h])
            /\ Set(e.h, bytes[e.h] + e.net)
Clone(e) == /\ e.op = "clone" /\ Live(e.h) /\ ~Live(Other(e.h)) /\ e.made = 1
            /\ CASE kind = "never" -> Quiet(e)
                 [] kind = "always" -> e.net \in blocks
                 [] OTHER -> e.net \in {0, bytes[e.h]} /\ (bytes[e.h] = 0 => e.count = 0)
            /\ Set(Other(e.h), e.net)
CloneFrom(e) == /\ e.op = "clonefrom" /\ Live(e.h) /\ Live(Other(e.h))
                /\ CASE kind = "never" -> Quiet(e)
                     [] kind = "always" -> e.net = 0
                     [] OTHER -> bytes[Other(e.h)] + e.net \in {0, bytes[e.h], bytes[Other(e.h)]}
                /\ Set(Other(e.h), bytes[Other(e.h)] + e.net)
\* an object leaves nothing behind
End(e) == /\ e.op \in Ends /\ Live(e.h) /\ e.net = -bytes[e.h] /\ (kind = "never" => e.count = 0) /\ Set(e.h, -1)
\* the calls on one key ask the key type a few times however many keys there are
Asked(e) == /\ e.op \in OneKey => e.asked <= Few
            /\ e.op = "len" => e.asked <= Few * (n + 1)
Call(e) == /\ Make(e) \/ Look(e) \/ Insert(e) \/ Entry(e) \/ Empty(e) \/ Clone(e) \/ CloneFrom(e) \/ End(e)
           /\ UNCHANGED <<kind, blocks, n>>
----------------------------------------------------------------------------
\* time of a call with few and with millions of keys, in nanoseconds
Steady(small, large) == large <= 20000 + 100 * small
----------------------------------------------------------------------------
HeldOK == \A h \in Handles : Live(h) =>
            CASE kind = "never" -> bytes[h] = 0
              [] kind = "always" -> bytes[h] \in blocks
              [] OTHER -> bytes[h] \in blocks \cup {0}
=============================================================================
