---------------------------- MODULE OrdinalTypes ----------------------------
(* Key types, their values, and the numbering of the values.

   A type is one of
     [k |-> "prim", iv |-> <<<<lo, hi>>, ...>>]  ascending, disjoint intervals of numbers
     [k |-> "sum",  a |-> <<t1, ..., tn>>]       alternatives, in order (n = 0: no value)
     [k |-> "prod", a |-> <<t1, ..., tn>>]       components, first = most significant
     [k |-> "arr",  n |-> N, e |-> t]            N components of one type
   and its values are, respectively, a BigNat, <<i, payload>>, <<v1, ..., vn>>,
   <<v1, ..., vN>>.  bool, integers, char, Ordering are prims (numbers shifted
   by 2^63 so that all are natural), Infallible is the empty sum, () the empty
   product, Option<T> = sum of () and T, Result / Either = sum of two, Box<T> = T;
   a struct is a product, an enum is a sum of products.                        *)
EXTENDS BigNat, FiniteSets

Prim(iv) == [k |-> "prim", iv |-> iv]
Sum(a)   == [k |-> "sum", a |-> a]
Prod(a)  == [k |-> "prod", a |-> a]
Arr(n,e) == [k |-> "arr", n |-> n, e |-> e]
Width(i) == Add(Sub(i[2], i[1]), BOne)

RECURSIVE AddUp(_,_), MulUp(_,_)
AddUp(s, n) == IF n = 0 THEN <<>> ELSE Add(AddUp(s, n-1), s[n])
MulUp(s, n) == IF n = 0 THEN BOne ELSE Mul(MulUp(s, n-1), s[n])
RECURSIVE Size(_)
Sizes(a) == [i \in 1..Len(a) |-> Size(a[i])]
Widths(t) == [i \in 1..Len(t.iv) |-> Width(t.iv[i])]
Size(t) == CASE t.k = "prim" -> AddUp(Widths(t), Len(t.iv))
             [] t.k = "sum"  -> AddUp(Sizes(t.a), Len(t.a))
             [] t.k = "prod" -> MulUp(Sizes(t.a), Len(t.a))
             [] t.k = "arr"  -> Pow(Size(t.e), t.n)

\* value -> ordinal
Interval(t, v) == CHOOSE i \in 1..Len(t.iv) : Le(t.iv[i][1], v) /\ Le(v, t.iv[i][2])
RECURSIVE Ord(_,_), Horner(_,_,_,_)
Horner(a, v, i, acc) == IF i > Len(a) THEN acc
                        ELSE Horner(a, v, i+1, Add(Mul(acc, Size(a[i])), Ord(a[i], v[i])))
RECURSIVE HornerArr(_,_,_,_,_)
HornerArr(e, m, v, i, acc) == IF i > Len(v) THEN acc ELSE HornerArr(e, m, v, i+1, Add(Mul(acc, m), Ord(e, v[i])))
Ord(t, v) ==
  CASE t.k = "prim" -> LET i == Interval(t, v) IN Add(AddUp(Widths(t), i-1), Sub(v, t.iv[i][1]))
    [] t.k = "sum"  -> Add(AddUp(Sizes(t.a), v[1]-1), Ord(t.a[v[1]], v[2]))
    [] t.k = "prod" -> Horner(t.a, v, 1, <<>>)
    [] t.k = "arr"  -> HornerArr(t.e, Size(t.e), v, 1, <<>>)

\* ordinal -> value, for o < Size(t)
RECURSIVE Val(_,_), PickPrim(_,_,_), PickAlt(_,_,_), Digits(_,_,_), DigitsArr(_,_,_,_)
PickPrim(iv, o, i) == IF Lt(o, Width(iv[i])) THEN Add(iv[i][1], o) ELSE PickPrim(iv, Sub(o, Width(iv[i])), i+1)
PickAlt(a, o, i) == LET n == Size(a[i]) IN IF Lt(o, n) THEN <<i, Val(a[i], o)>> ELSE PickAlt(a, Sub(o, n), i+1)
Digits(a, o, i) == IF i = 0 THEN <<>>
                   ELSE LET d == DivMod(o, Size(a[i])) IN Digits(a, d[1], i-1) \o <<Val(a[i], d[2])>>
DigitsArr(e, m, o, i) == IF i = 0 THEN <<>>
                         ELSE LET d == DivMod(o, m) IN DigitsArr(e, m, d[1], i-1) \o <<Val(e, d[2])>>
Val(t, o) ==
  CASE t.k = "prim" -> PickPrim(t.iv, o, 1)
    [] t.k = "sum"  -> PickAlt(t.a, o, 1)
    [] t.k = "prod" -> Digits(t.a, o, Len(t.a))
    [] t.k = "arr"  -> DigitsArr(t.e, Size(t.e), o, t.n)

\* the Ord order: numeric, alternatives in order, lexicographic
Sign(a, b) == IF Lt(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 1
RECURSIVE Cmp(_,_,_), Lex(_,_,_,_)
Lex(T(_), v, w, i) == IF i > Len(v) THEN 0
                      ELSE LET c == Cmp(T(i), v[i], w[i]) IN IF c # 0 THEN c ELSE Lex(T, v, w, i+1)
Cmp(t, v, w) ==
  CASE t.k = "prim" -> Sign(v, w)
    [] t.k = "sum"  -> IF v[1] # w[1] THEN (IF v[1] < w[1] THEN -1 ELSE 1) ELSE Cmp(t.a[v[1]], v[2], w[2])
    [] t.k = "prod" -> LET T(i) == t.a[i] IN Lex(T, v, w, 1)
    [] t.k = "arr"  -> LET T(i) == t.e IN Lex(T, v, w, 1)

\* membership
RECURSIVE IsVal(_,_)
IsVal(t, v) ==
  CASE t.k = "prim" -> \E i \in 1..Len(t.iv) : Le(t.iv[i][1], v) /\ Le(v, t.iv[i][2])
    [] t.k = "sum"  -> Len(v) = 2 /\ v[1] \in 1..Len(t.a) /\ IsVal(t.a[v[1]], v[2])
    [] t.k = "prod" -> Len(v) = Len(t.a) /\ \A i \in 1..Len(t.a) : IsVal(t.a[i], v[i])
    [] t.k = "arr"  -> Len(v) = t.n /\ \A i \in 1..t.n : IsVal(t.e, v[i])
\* the set of values (small types only), defined without any numbering
RECURSIVE Values(_), Tuples(_,_)
Tuples(a, n) == IF n = 0 THEN {<<>>} ELSE {Append(x, y) : x \in Tuples(a, n-1), y \in Values(a[n])}
Values(t) ==
  CASE t.k = "prim" -> UNION {{OfInt(x) : x \in ToInt(i[1])..ToInt(i[2])} : i \in {t.iv[j] : j \in 1..Len(t.iv)}}
    [] t.k = "sum"  -> UNION {{<<i, x>> : x \in Values(t.a[i])} : i \in 1..Len(t.a)}
    [] t.k = "prod" -> Tuples(t.a, Len(t.a))
    [] t.k = "arr"  -> Tuples([i \in 1..t.n |-> t.e], t.n)
=============================================================================
