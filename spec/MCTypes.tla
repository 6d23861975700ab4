------------------------------ MODULE MCTypes ------------------------------
(* Types are built step by step; every type reached is checked exhaustively,
   every step is checked for what it does to the numbering.                   *)
EXTENDS OrdinalTypes, Json
CONSTANT MaxSize, MaxNodes
VARIABLES t, how   \* the type, and the step that built it
Never == Sum(<<>>)
Unit  == Prod(<<>>)
Two   == Prim(<< <<OfInt(0), OfInt(1)>> >>)
\* a gap, as in NonZero types and char: -2, -1, 1 (shifted by 10)
Gap   == Prim(<< <<OfInt(8), OfInt(9)>>, <<OfInt(11), OfInt(11)>> >>)
Leaves == {Never, Unit, Two, Gap}
RECURSIVE Nodes(_), NodesOf(_,_)
NodesOf(a, n) == IF n = 0 THEN 0 ELSE NodesOf(a, n-1) + Nodes(a[n])
Nodes(x) == CASE x.k = "prim" -> 1 [] x.k = "arr" -> 1 + Nodes(x.e) [] OTHER -> 1 + NodesOf(x.a, Len(x.a))
Small(x) == Nodes(x) <= MaxNodes /\ Le(Size(x), OfInt(MaxSize))
To(x, h) == Small(x) /\ t' = x /\ how' = h
Init == t \in Leaves /\ how = "leaf"
Next == \/ To(Sum(<<Unit, t>>), "option")
        \/ \E u \in Leaves : \/ To(Sum(<<t, u>>), "ok") \/ To(Sum(<<u, t>>), "err")
                             \/ To(Prod(<<t, u>>), "first") \/ To(Prod(<<u, t>>), "second")
                             \/ t.k = "sum" /\ To(Sum(Append(t.a, u)), "alternative")
                             \/ t.k = "prod" /\ To(Prod(Append(t.a, u)), "field")
        \/ \E n \in 0..3 : To(Arr(n, t), "array")
Spec == Init /\ [][Next]_<<t, how>>
S == ToInt(Size(t))
Os == {OfInt(o) : o \in 0..S-1}
VS == Values(t)
----------------------------------------------------------------------------
SizeCounts == Cardinality(VS) = S
Member == \A v \in VS : IsVal(t, v)
OneToOne == /\ \A o \in Os : Val(t, o) \in VS /\ Ord(t, Val(t, o)) = o
            /\ \A v \in VS : Ord(t, v) \in Os /\ Val(t, Ord(t, v)) = v
\* the numbering is the only one that agrees with the order
OrderAgrees == \A v, w \in VS : Cmp(t, v, w) = Sign(Ord(t, v), Ord(t, w))
\* in a product the first component weighs as much as all others together have values
MostSignificant == (t.k = "prod" /\ Len(t.a) > 1) =>
   LET rest == Prod(Tail(t.a)) IN
   \A v \in VS : Ord(t, v) = Add(Mul(Ord(t.a[1], v[1]), Size(rest)), Ord(rest, Tail(v)))
\* an array is numbered as the tuple of as many components
ArrayAsTuple == t.k = "arr" => LET u == Prod([i \in 1..t.n |-> t.e]) IN
                 Size(t) = Size(u) /\ \A v \in VS : Ord(t, v) = Ord(u, v)
\* appending an alternative keeps every ordinal
AppendStable == [][how' = "alternative" => \A v \in VS : Ord(t', v) = Ord(t, v)]_<<t, how>>
\* Some(v) follows None
OptionShifts == [][how' = "option" => /\ \A v \in VS : Ord(t', <<2, v>>) = Add(Ord(t, v), BOne)
                                      /\ Ord(t', <<1, <<>>>>) = <<>>]_<<t, how>>
Types == PrintT("TYPE " \o ToJson(t'))
=============================================================================
