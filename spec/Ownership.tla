------------------------------ MODULE Ownership ------------------------------
(* Who owns which value, whatever the calls mean.  Of each call we know which
   identities were made during it (lo..hi-1), which were destroyed (drops),
   handed back to the caller (back) and looked at through references (seen),
   and how many maps, iterators and entries are alive afterwards.  Nothing else
   about the call is assumed, so this holds even of key types that lie.        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE held          \* the identities the maps and iterators own
Elems(q) == {q[i] : i \in 1..Len(q)}
Once(q) == Cardinality(Elems(q)) = Len(q)
Reach(e) == held \cup (e.lo..(e.hi - 1))
\* destroyed once, of what there is; handed back once, and not what is destroyed
OnceEach(e) == /\ Once(e.drops) /\ Elems(e.drops) \subseteq Reach(e)
               /\ Once(e.back) /\ Elems(e.back) \subseteq Reach(e) \ Elems(e.drops)
\* no reference to a value that is gone
SeenLive(e) == Elems(e.seen) \subseteq Reach(e)
After(e) == (Reach(e) \ Elems(e.drops)) \ Elems(e.back)
\* nothing outlives the objects
NoLeak(e) == e.alive = 0 => After(e) = {}
OK(e) == OnceEach(e) /\ SeenLive(e) /\ NoLeak(e)
Call(e) == OK(e) /\ held' = After(e)
=============================================================================
