------------------------------ MODULE AllValues ------------------------------
(* Enumerating all values of a key type: a window lo..hi-1 of ordinals that
   shrinks from both ends.  Numbers are BigNats, so that types of up to
   2^64-1 values are covered; sequences of ordinals are compressed into
   maximal runs <<first, last>> of neighbours (ascending or descending).      *)
EXTENDS BigNat, FiniteSets

VARIABLES size,  \* number of values; never changes
          its,   \* the iterator and possibly a clone: [on, lo, hi]
          out    \* last reply: [ret, hint, dbg]
vars == <<size, its, out>>

Say(r) == [ret |-> r, dbg |-> ""]
Nothing == Say(<<>>)
NewIt == [on |-> TRUE, lo |-> <<>>, hi |-> size]
Closed == [on |-> FALSE, lo |-> <<>>, hi |-> <<>>]
Rem(i) == Sub(i.hi, i.lo)
Empty(i) == ~Lt(i.lo, i.hi)
Last(i) == Sub(i.hi, BOne)
Run(a, b) == <<a, b>>

\* the j-th item from an end, or nothing (a, b: bounds of the window)
AtFront(i, j) == IF Lt(j, Rem(i)) THEN <<Add(i.lo, j)>> ELSE <<>>
AtBack(i, j)  == IF Lt(j, Rem(i)) THEN <<Sub(Last(i), j)>> ELSE <<>>
SkipFront(i, n) == [i EXCEPT !.lo = BMin(Add(i.lo, n), i.hi)]
SkipBack(i, n)  == [i EXCEPT !.hi = IF Lt(Rem(i), n) THEN i.lo ELSE Sub(i.hi, n)]
RECURSIVE Stepped(_,_)
Stepped(i, s) == IF Empty(i) THEN <<>> ELSE <<i.lo>> \o Stepped(SkipFront(i, s), s)

\* the two-ended notation of the remaining range
Notation(i) == IF Empty(i) THEN "[]"
               ELSE IF i.hi = size THEN "[" \o Str(i.lo) \o "..]"
               ELSE IF Rem(i) = BOne THEN "[" \o Str(i.lo) \o "]"
               ELSE "[" \o Str(i.lo) \o "..=" \o Str(Last(i)) \o "]"

Init == its = <<>> /\ out = Nothing
Begin(o) == /\ o.op = "all" /\ its = <<>>
            /\ its' = <<NewIt>> /\ out' = Nothing
At(o) == o.h \in 1..Len(its) /\ its[o.h].on
Shut(s) == IF \A i \in 1..Len(s) : ~s[i].on THEN <<>> ELSE s
Keep(o, r) == its' = its /\ out' = r
Move(o, i, r) == its' = [its EXCEPT ![o.h] = i] /\ out' = r
End(o, r) == its' = Shut([its EXCEPT ![o.h] = Closed]) /\ out' = r
Step(o) ==
  /\ At(o)
  /\ LET i == its[o.h]  j == o.j  e == Empty(i) IN
     CASE o.op = "next" -> Move(o, SkipFront(i, BOne), Say(AtFront(i, <<>>)))
       [] o.op = "back" -> Move(o, SkipBack(i, BOne), Say(AtBack(i, <<>>)))
       [] o.op \in {"nth", "find"} -> Move(o, SkipFront(i, Add(j, BOne)), Say(AtFront(i, j)))
       [] o.op \in {"nthb", "rfind"} -> Move(o, SkipBack(i, Add(j, BOne)), Say(AtBack(i, j)))
       \* takes up to j items (j >= 1)
       [] o.op = "tfold" -> LET n == BMin(j, Rem(i)) IN
             Move(o, SkipFront(i, n), Say(IF e THEN <<>> ELSE Run(i.lo, Sub(Add(i.lo, n), BOne))))
       [] o.op = "trfold" -> LET n == BMin(j, Rem(i)) IN
             Move(o, SkipBack(i, n), Say(IF e THEN <<>> ELSE Run(Last(i), Sub(i.hi, n))))
       [] o.op = "len" -> Keep(o, Say(<<Rem(i)>>))
       [] o.op = "hint" -> Keep(o, Say(<<Rem(i), BOne, Rem(i)>>))
       [] o.op = "cdbg" -> Keep(o, [ret |-> <<>>, dbg |-> Notation(i)])
       [] o.op = "count" -> End(o, Say(<<Rem(i)>>))
       [] o.op = "last" -> End(o, Say(IF e THEN <<>> ELSE <<Last(i)>>))
       [] o.op = "fold" -> End(o, Say(IF e THEN <<>> ELSE Run(i.lo, Last(i))))
       [] o.op = "rfold" -> End(o, Say(IF e THEN <<>> ELSE Run(Last(i), i.lo)))
       [] o.op = "skip" -> LET s == SkipFront(i, j) IN End(o, Say(IF Empty(s) THEN <<>> ELSE Run(s.lo, Last(s))))
       [] o.op = "rskip" -> LET s == SkipBack(i, j) IN End(o, Say(IF Empty(s) THEN <<>> ELSE Run(Last(s), s.lo)))
       [] o.op = "step" -> End(o, Say(Stepped(i, Add(j, BOne))))
       [] o.op = "cdrop" -> End(o, Nothing)
       [] OTHER -> FALSE
Clone(o) == /\ o.op = "cclone" /\ At(o) /\ Len(its) = 1
            /\ its' = Append(its, its[o.h]) /\ out' = Nothing
Do(o) == UNCHANGED size /\ (Begin(o) \/ Step(o) \/ Clone(o))
----------------------------------------------------------------------------
(* Properties *)
Within == \A i \in 1..Len(its) : its[i].on => Le(its[i].lo, its[i].hi) /\ Le(its[i].hi, size)
\* items only ever leave a window, one window at a time, and never come back
Shrinks == [][\A i \in 1..Len(its) : (its[i].on /\ i <= Len(its') /\ its'[i].on) =>
                /\ Le(its[i].lo, its'[i].lo) /\ Le(its'[i].hi, its[i].hi)
                /\ \A k \in 1..Len(its) : k # i /\ its'[i] # its[i] /\ k <= Len(its') => its'[k] = its[k]]_vars
\* exhausted stays exhausted
Fused == [][\A i \in 1..Len(its) : (its[i].on /\ Empty(its[i]) /\ i <= Len(its') /\ its'[i].on) => its'[i] = its[i]]_vars
=============================================================================
