-------------------------------- MODULE Base --------------------------------
(* Shared vocabulary: finite dictionaries, replies, operation records.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

EmptyMap   == [x \in {} |-> 0]
Put(m,k,v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m,k)   == [x \in DOMAIN m \ {k} |-> m[x]]
Has(m,k)   == k \in DOMAIN m
Opt(m,k)   == IF k \in DOMAIN m THEN <<m[k]>> ELSE <<>>
Bit(b)     == IF b THEN <<1>> ELSE <<0>>
Sorted(S)  == SetToSortSeq(S, <)
\* ascending <<key, value>> items of a dictionary
Items(m)   == LET ks == Sorted(DOMAIN m)
              IN [i \in 1..Len(ks) |-> <<ks[i], m[ks[i]]>>]
Flat(ss)   == FlattenSeq(ss)
Firsts(is) == [i \in 1..Len(is) |-> is[i][1]]
Seconds(is) == [i \in 1..Len(is) |-> is[i][2]]
SortedSeq(s) == SortSeq(s, <)
Min2(a,b)  == IF a < b THEN a ELSE b
Drop(s,j)  == IF j >= Len(s) THEN <<>> ELSE SubSeq(s, j + 1, Len(s))
DropBack(s,j) == IF j >= Len(s) THEN <<>> ELSE SubSeq(s, 1, Len(s) - j)
Take(s,j)  == SubSeq(s, 1, Min2(j, Len(s)))
TakeBack(s,j) == IF j >= Len(s) THEN s ELSE SubSeq(s, Len(s) - j + 1, Len(s))
LastWins(ks, vs) == \* dictionary built by inserting the pairs one by one
  [k \in ToSet(ks) |-> vs[Max({i \in 1..Len(ks) : ks[i] = k})]]
Overwritten(ks, vs) == \* values displaced while doing so
  Seconds(SelectSeq([i \in 1..Len(ks) |-> <<i, vs[i]>>],
          LAMBDA p : \E i \in p[1]+1..Len(ks) : ks[i] = ks[p[1]]))

(* Join strings *)
RECURSIVE JoinFrom(_,_,_)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN ""
                        ELSE (IF i = 1 THEN "" ELSE sep) \o ss[i] \o JoinFrom(ss, sep, i+1)
Join(ss, sep) == JoinFrom(ss, sep, 1)
(* Rust's debug_map / debug_set / debug_list notation, plain (alt = 0) and {:#?} (alt = 1) *)
Wrap(open, close, es, alt) ==
  IF alt = 0 \/ es = <<>> THEN open \o Join(es, ", ") \o close
  ELSE open \o "\n" \o Join([i \in 1..Len(es) |-> "    " \o es[i] \o ",\n"], "") \o close
Pair(p, alt) == IF alt = 0 THEN "(" \o ToString(p[1]) \o ", " \o ToString(p[2]) \o ")"
                ELSE "(\n        " \o ToString(p[1]) \o ",\n        " \o ToString(p[2]) \o ",\n    )"
MapStr(is, alt) == Wrap("{", "}", [i \in 1..Len(is) |-> ToString(is[i][1]) \o ": " \o ToString(is[i][2])], alt)
SetStr(ks, alt) == Wrap("{", "}", [i \in 1..Len(ks) |-> ToString(ks[i])], alt)
ListStr(es, alt) == Wrap("[", "]", es, alt)

(* An operation record: name, handle, key, index, write value, value, iterator
   kind, key list, value list.  Scripts, specification actions and recorded
   events all use this one shape. *)
NoOp == [op |-> "", h |-> 0, k |-> 0, j |-> 0, w |-> 0, v |-> 0, kind |-> "", xs |-> <<>>, vs |-> <<>>]
O1(n,h)     == [NoOp EXCEPT !.op = n, !.h = h]
OK(n,h,k)   == [NoOp EXCEPT !.op = n, !.h = h, !.k = k]
OJ(n,h,j)   == [NoOp EXCEPT !.op = n, !.h = h, !.j = j]

(* A reply: ret = returned data, drops = values destroyed by the call, give =
   values whose ownership moved to the caller, hint >= 0 = the call asked for
   size bounds and `hint` items remain (exact: bounds must be tight). *)
NoReply == [ret |-> <<>>, drops |-> <<>>, give |-> <<>>, hint |-> -1, exact |-> FALSE, dbg |-> ""]
Reply(r)        == [NoReply EXCEPT !.ret = r]
ReplyD(r,d)     == [NoReply EXCEPT !.ret = r, !.drops = SortedSeq(d)]
ReplyG(r,g)     == [NoReply EXCEPT !.ret = r, !.give = g]
ReplyDG(r,d,g)  == [NoReply EXCEPT !.ret = r, !.drops = SortedSeq(d), !.give = g]
ReplyS(s)       == [NoReply EXCEPT !.dbg = s]

(* size bounds <<lo, hasHi, hi>> enclose n *)
HintOK(r, n, exact) ==
  /\ r[1] <= n
  /\ r[2] = 1 => r[3] >= n
  /\ exact => r[1] = n /\ r[2] = 1 /\ r[3] = n

\* Does an observed event agree with the reply the specification computed?
RetOK(o, e)  == IF o.hint >= 0 THEN Len(e.ret) = 3 /\ HintOK(e.ret, o.hint, o.exact)
                ELSE e.ret = o.ret /\ e.dbg = o.dbg
DropOK(o, e) == e.drops = o.drops
=============================================================================
