------------------------------- MODULE Hostile -------------------------------
(* A map whose key type lies.  A call is given a slot number by the key's
   `ordinal` - any number, right or wrong, or none (it panicked) - and every key
   an iterator makes may fail to be made.  The map either acts on that slot or
   panics, and in neither case loses or doubles a value: every step is a step of
   Ownership.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S, MaxId, Total
VARIABLES slot,   \* slot -> identity, 0 = empty; of the one map
          alive,  \* does the map exist
          cur,    \* <<kind, lo, hi>> or <<>>; an owning iterator has the slots itself
          cslot, nid, ev
vars == <<slot, alive, cur, cslot, nid, ev>>
None == [i \in 0..S-1 |-> 0]
Ids(f) == {f[i] : i \in 0..S-1} \ {0}
Held == Ids(slot) \cup Ids(cslot)
Objects(a, c) == (IF a THEN 1 ELSE 0) + (IF c = <<>> THEN 0 ELSE 1)
Ev(made, drops, back, seen, a, c) == [lo |-> nid, hi |-> nid + made, drops |-> drops, back |-> back, seen |-> seen, alive |-> Objects(a, c)]
Init == slot = None /\ alive = FALSE /\ cur = <<>> /\ cslot = None /\ nid = 1 /\ ev = [lo |-> 1, hi |-> 1, drops |-> <<>>, back |-> <<>>, seen |-> <<>>, alive |-> 0]
Own == INSTANCE Ownership WITH held <- Held
Seq1(x) == IF x = 0 THEN <<>> ELSE <<x>>
SetToSeq(T) == CHOOSE q \in [1..Cardinality(T) -> T] : \A i, j \in 1..Cardinality(T) : i # j => q[i] # q[j]
\* numbers a key may give: in range, one too many, or a panic
Answers == (0..S) \cup {-1}
Hits(i) == i \in 0..S-1
New == /\ ~alive /\ cur = <<>> /\ alive' = TRUE /\ UNCHANGED <<cur, cslot>>
       /\ IF Total
          THEN \E n \in 0..S : \* the initialiser, or a key, fails at n; what was made is destroyed
                IF n = S THEN /\ slot' = [i \in 0..S-1 |-> nid + i] /\ nid' = nid + S /\ ev' = Ev(S, <<>>, <<>>, <<>>, TRUE, cur)
                ELSE FALSE
          ELSE slot' = None /\ nid' = nid /\ ev' = Ev(0, <<>>, <<>>, <<>>, TRUE, cur)
NewFails == /\ ~alive /\ cur = <<>> /\ Total /\ UNCHANGED <<cur, cslot, alive, slot>>
            /\ \E n \in 0..S-1 : nid' = nid + n /\ ev' = Ev(n, [i \in 1..n |-> nid + i - 1], <<>>, <<>>, FALSE, cur)
Free == alive /\ cur = <<>>
Insert == Free /\ UNCHANGED <<alive, cur, cslot>> /\ nid' = nid + 1 /\
  \E i \in Answers : IF Hits(i)
     THEN slot' = [slot EXCEPT ![i] = nid] /\ ev' = Ev(1, <<>>, Seq1(slot[i]), <<>>, TRUE, cur)
     ELSE slot' = slot /\ ev' = Ev(1, <<nid>>, <<>>, <<>>, TRUE, cur)
OrInsert == Free /\ ~Total /\ UNCHANGED <<alive, cur, cslot>> /\ nid' = nid + 1 /\
  \E i \in Answers : IF Hits(i) /\ slot[i] = 0
     THEN slot' = [slot EXCEPT ![i] = nid] /\ ev' = Ev(1, <<>>, <<>>, <<nid>>, TRUE, cur)
     ELSE slot' = slot /\ ev' = Ev(1, <<nid>>, <<>>, IF Hits(i) THEN <<slot[i]>> ELSE <<>>, TRUE, cur)
Remove == Free /\ ~Total /\ UNCHANGED <<alive, cur, cslot, nid>> /\
  \E i \in Answers : IF Hits(i)
     THEN slot' = [slot EXCEPT ![i] = 0] /\ ev' = Ev(0, <<>>, Seq1(slot[i]), <<>>, TRUE, cur)
     ELSE slot' = slot /\ ev' = Ev(0, <<>>, <<>>, <<>>, TRUE, cur)
Get == Free /\ UNCHANGED <<alive, cur, cslot, nid, slot>> /\
  \E i \in Answers : ev' = Ev(0, <<>>, <<>>, IF Hits(i) THEN Seq1(slot[i]) ELSE <<>>, TRUE, cur)
\* goes through slots 0..n-1; stops where a key fails
Retain == Free /\ ~Total /\ UNCHANGED <<alive, cur, cslot, nid>> /\
  \E n \in 0..S, R \in SUBSET (0..S-1) :
    LET out == {i \in R : i < n /\ slot[i] # 0} IN
    /\ slot' = [i \in 0..S-1 |-> IF i \in out THEN 0 ELSE slot[i]]
    /\ ev' = Ev(0, SetToSeq({slot[i] : i \in out}), <<>>, SetToSeq({slot[i] : i \in {x \in 0..n-1 : slot[x] # 0}}), TRUE, cur)
Begin == Free /\ UNCHANGED nid /\
  \E k \in {"iter", "into"} \cup (IF Total THEN {} ELSE {"drain"}) :
    /\ cur' = <<k, 0, S>> /\ alive' = (k # "into")
    /\ IF k = "into" THEN slot' = None /\ cslot' = slot ELSE UNCHANGED <<slot, cslot>>
    /\ ev' = Ev(0, <<>>, <<>>, <<>>, alive', cur')
\* the contents the iterator goes over
Under == IF cur[1] = "into" THEN cslot ELSE slot
Put(f) == IF cur[1] = "into" THEN cslot' = f /\ slot' = slot ELSE slot' = f /\ cslot' = cslot
\* one item, from either end, skipping empty slots; the key may fail to be made
Item == cur # <<>> /\ cur[2] < cur[3] /\ UNCHANGED <<alive, nid>> /\
  \E back \in BOOLEAN, fails \in BOOLEAN :
    LET i == IF back THEN cur[3] - 1 ELSE cur[2]
        v == Under[i]  own == cur[1] # "iter" IN
    /\ cur' = IF back THEN <<cur[1], cur[2], i>> ELSE <<cur[1], i + 1, cur[3]>>
    /\ IF own /\ v # 0
       THEN Put([Under EXCEPT ![i] = 0]) /\ ev' = Ev(0, IF fails THEN <<v>> ELSE <<>>, IF fails THEN <<>> ELSE <<v>>, <<>>, alive, cur')
       ELSE UNCHANGED <<slot, cslot>> /\ ev' = Ev(0, <<>>, <<>>, IF fails THEN <<>> ELSE Seq1(v), alive, cur')
\* a drain empties its map as far as keys can be made, an owning iterator destroys what is left
End == cur # <<>> /\ cur' = <<>> /\ UNCHANGED <<alive, nid>> /\
  CASE cur[1] = "iter" -> UNCHANGED <<slot, cslot>> /\ ev' = Ev(0, <<>>, <<>>, <<>>, alive, <<>>)
    [] cur[1] = "into" -> slot' = slot /\ cslot' = None /\ ev' = Ev(0, SetToSeq(Ids(cslot)), <<>>, <<>>, alive, <<>>)
    [] OTHER -> \E n \in cur[2]..cur[3] :
         LET gone == {i \in cur[2]..n-1 : slot[i] # 0} IN
         /\ cslot' = cslot /\ slot' = [i \in 0..S-1 |-> IF i \in gone THEN 0 ELSE slot[i]]
         /\ ev' = Ev(0, SetToSeq({slot[i] : i \in gone}), <<>>, <<>>, alive, <<>>)
DropMap == Free /\ alive' = FALSE /\ slot' = None /\ UNCHANGED <<cur, cslot, nid>> /\ ev' = Ev(0, SetToSeq(Ids(slot)), <<>>, <<>>, FALSE, cur)
Next == nid < MaxId /\ (New \/ NewFails \/ Insert \/ OrInsert \/ Remove \/ Get \/ Retain \/ Begin \/ Item \/ End \/ DropMap)
Spec == Init /\ [][Next]_vars
Owned == [][Own!Call(ev')]_vars
Distinct == \A i, j \in 0..S-1 : (slot[i] # 0 => (i = j \/ slot[i] # slot[j]) /\ slot[i] # cslot[j])
=============================================================================
