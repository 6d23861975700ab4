------------------------------ MODULE MCLimits ------------------------------
(* Over all types MCTypes builds, with a small "usize": what is accepted is
   safe, and what is safe is accepted.                                        *)
EXTENDS MCTypes
CONSTANTS Max, Word
L == INSTANCE Limits WITH MaxNumber <- OfInt(Max), WordBits <- Word
Ss == {OfInt(i) : i \in 0..S+1}
\* every ordinal and the size itself can be represented
Safe == Le(Size(t), OfInt(Max)) /\ \A v \in VS : Lt(Ord(t, v), OfInt(Max))
NumberingSafe == L!Accept("ordinal", t, <<>>) <=> Safe
\* every element has a bit
WordSafe == L!Accept("set64.new", t, <<>>) <=> \A v \in VS : Lt(Ord(t, v), OfInt(Word))
\* every element has a bit, and no word is in vain
ArraySetSafe == \A s \in Ss : L!Accept("arrayset.new", t, s) <=>
   /\ Safe
   /\ \A v \in VS : Lt(Ord(t, v), Mul(s, OfInt(Word)))
   /\ s # <<>> => \E v \in VS : Le(Mul(Sub(s, BOne), OfInt(Word)), Ord(t, v))
\* every key has a slot, every slot a key
ArrayMapSafe == \A s \in Ss : L!Accept("arraymap.new", t, s) <=> Safe /\ {Ord(t, v) : v \in VS} = {OfInt(i) : i \in 0..ToInt(s)-1}
=============================================================================
