------------------------------- MODULE Limits -------------------------------
(* Which uses of a key type are possible at all: ordinals and sizes must be
   representable, storage must have room for exactly the values.              *)
EXTENDS OrdinalTypes
CONSTANTS MaxNumber,   \* largest representable number (usize::MAX)
          WordBits     \* elements per word of a set (64)
Representable(t) == Le(Size(t), MaxNumber)
Bits == OfInt(WordBits)
\* least number of words with room for n elements
Words(n) == LET d == DivMod(n, Bits) IN IF d[2] = <<>> THEN d[1] ELSE Add(d[1], BOne)
SizeUses  == {"size", "values", "ordinal", "from_ordinal", "map", "set", "total"}
WordUses  == {"set64.new", "set64.all", "set64.default", "set64.from_iter"}
ArraySetUses == {"arrayset.new", "arrayset.from_iter", "arrayset.insert", "arrayset.contains"}
ArrayMapUses == {"arraymap.new", "arraymap.default", "arraymap.from_iter",
                 "totalarray.new", "totalarray.try_new", "totalarray.from_array", "totalarray.default"}
\* the program using t (with size parameter s) compiles
Accept(use, t, s) ==
  CASE use \in SizeUses -> Representable(t)
    [] use \in WordUses -> Le(Size(t), Bits)
    [] use \in ArraySetUses -> Representable(t) /\ s = Words(Size(t))
    [] use \in ArrayMapUses -> Representable(t) /\ s = Size(t)
=============================================================================
