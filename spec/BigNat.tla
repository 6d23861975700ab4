------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond TLC's 32-bit integers: little-endian sequences of
   base-10000 digits without leading zeros; zero is the empty sequence.       *)
EXTENDS Integers, Sequences, TLC

Base10k == 10000
RECURSIVE Trim(_)
Trim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a)-1)) ELSE a
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base10k>> \o OfInt(n \div Base10k)
Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
IsNat(a) == (a = <<>> \/ a[Len(a)] # 0) /\ \A i \in 1..Len(a) : a[i] \in 0..Base10k-1
\* fits TLC's integers (below 10^8)
Fits(a) == Len(a) <= 2
ToInt(a) == Digit(a,1) + Base10k * Digit(a,2)

RECURSIVE AddC(_,_,_,_)
AddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Digit(a,i) + Digit(b,i) + c IN <<s % Base10k>> \o AddC(a, b, i+1, s \div Base10k)
Add(a, b) == AddC(a, b, 1, 0)
RECURSIVE LtFrom(_,_,_)
LtFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtFrom(a, b, i-1)
Lt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LtFrom(a, b, Len(a))
Le(a, b) == ~Lt(b, a)
RECURSIVE SubB(_,_,_,_)
SubB(a, b, i, c) ==  \* a - b for b <= a, c = borrow
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] - Digit(b,i) - c IN <<IF d < 0 THEN d + Base10k ELSE d>> \o SubB(a, b, i+1, IF d < 0 THEN 1 ELSE 0)
Sub(a, b) == IF Lt(a, b) THEN <<>> ELSE Trim(SubB(a, b, 1, 0))
RECURSIVE MulD(_,_,_,_)
MulD(a, d, i, c) == \* times one digit
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET p == a[i] * d + c IN <<p % Base10k>> \o MulD(a, d, i+1, p \div Base10k)
RECURSIVE MulFrom(_,_,_)
MulFrom(a, b, i) == IF i > Len(b) THEN <<>> ELSE Add(Trim(MulD(a, b[i], 1, 0)), LET r == MulFrom(a, b, i+1) IN IF r = <<>> THEN r ELSE <<0>> \o r)
Mul(a, b) == Trim(MulFrom(a, b, 1))
BMin(a, b) == IF Lt(b, a) THEN b ELSE a
BOne == <<1>>
RECURSIVE Pow(_,_)
Pow(a, n) == IF n = 0 THEN BOne ELSE Mul(a, Pow(a, n-1))
\* 2^64 - 1 and 2^32
UsizeMax == <<1615, 955, 737, 6744, 1844>>
TwoTo32  == <<7296, 9496, 42>>

Pad4(d) == IF d < 10 THEN "000" \o ToString(d) ELSE IF d < 100 THEN "00" \o ToString(d)
           ELSE IF d < 1000 THEN "0" \o ToString(d) ELSE ToString(d)
RECURSIVE StrFrom(_,_)
StrFrom(a, i) == IF i = 0 THEN "" ELSE Pad4(a[i]) \o StrFrom(a, i-1)
Str(a) == IF a = <<>> THEN "0" ELSE ToString(a[Len(a)]) \o StrFrom(a, Len(a)-1)
\* long division by repeated subtraction, digit by digit: <<quotient, remainder>>
RECURSIVE QBis(_,_,_,_)
QBis(cur, b, lo, hi) == \* largest q in lo..hi-1 with b*q <= cur
  IF hi - lo = 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF Le(Mul(b, OfInt(m)), cur) THEN QBis(cur, b, m, hi) ELSE QBis(cur, b, lo, m)
\* one digit of long division: <<quotient digit, remainder>>
DivSmall(cur, b) ==
  IF Fits(cur) /\ Fits(b) THEN <<ToInt(cur) \div ToInt(b), OfInt(ToInt(cur) % ToInt(b))>>
  ELSE LET q == QBis(cur, b, 0, Base10k) IN <<q, Sub(cur, Mul(b, OfInt(q)))>>
RECURSIVE DivFrom(_,_,_,_)
DivFrom(a, b, i, r) == \* digits i..1 of a remain, r = remainder so far
  IF i = 0 THEN <<<<>>, r>>
  ELSE LET d == DivSmall(Trim(<<a[i]>> \o r), b)
           rest == DivFrom(a, b, i-1, d[2])
       IN <<rest[1] \o <<d[1]>>, rest[2]>>
\* <<quotient, remainder>>
DivMod(a, b) == LET r == DivFrom(a, b, Len(a), <<>>) IN <<Trim(r[1]), r[2]>>
=============================================================================
