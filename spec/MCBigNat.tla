------------------------------ MODULE MCBigNat ------------------------------
(* The arithmetic of BigNat, compared with TLC's own where that reaches, and
   with algebraic laws where it does not.                                     *)
EXTENDS BigNat, FiniteSets
Small == {0,1,2,3,9,10,17,99,100,9999,10000,10001,12345,19999,20000}
Huge == {UsizeMax, Add(UsizeMax,BOne), TwoTo32, Mul(TwoTo32, OfInt(3)), Sub(TwoTo32,BOne), Pow(<<10>>,16), OfInt(99999999), <<>>, BOne, Pow(<<10>>,12)}
VARIABLE x
Init == x \in {<<p[1],p[2],<<>>,<<>>>> : p \in Small \X Small} \cup {<<0,0,p[1],p[2]>> : p \in Huge \X Huge}
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
A == x[1]
B == x[2]
Agree == /\ IsNat(OfInt(A)) /\ ToInt(OfInt(A)) = A
         /\ Add(OfInt(A), OfInt(B)) = OfInt(A+B)
         /\ Mul(OfInt(A), OfInt(B)) = OfInt(A*B)
         /\ Lt(OfInt(A), OfInt(B)) = (A < B)
         /\ Sub(OfInt(A), OfInt(B)) = OfInt(IF A < B THEN 0 ELSE A - B)
         /\ B > 0 => DivMod(OfInt(A), OfInt(B)) = <<OfInt(A \div B), OfInt(A % B)>>
         /\ Str(OfInt(A)) = ToString(A)
a == x[3]
b == x[4]
Laws ==
         /\ IsNat(Add(a,b)) /\ IsNat(Mul(a,b)) /\ IsNat(Sub(a,b))
         /\ Sub(Add(a,b),b) = a /\ Add(a,b) = Add(b,a) /\ Mul(a,b) = Mul(b,a)
         /\ Lt(a,b) = (Sub(b,a) # <<>>)
         /\ b # <<>> => LET d == DivMod(a,b) IN Lt(d[2],b) /\ Add(Mul(d[1],b),d[2]) = a
Known == /\ Str(UsizeMax) = "18446744073709551615" /\ Str(TwoTo32) = "4294967296"
         /\ Pow(<<2>>, 32) = TwoTo32 /\ Sub(Mul(TwoTo32, TwoTo32), BOne) = UsizeMax
=============================================================================
