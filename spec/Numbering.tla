------------------------------ MODULE Numbering ------------------------------
(* What a user observes of the numbering of one type: its size, the value of
   an ordinal, the ordinal of a value, comparisons.  The numbering itself is
   unknown to the user; three readings of the observations are specified:
     "bij"  some one-to-one numbering by 0..Size-1     (C01)
     "num"  the numbering of OrdinalTypes, exactly     (C02)
     "ord"  ordinals ordered as the values are         (C03)
   A reply is [r, v, o2]: r "some" | "none" | "panic".                        *)
EXTENDS OrdinalTypes
VARIABLES t,     \* the type
          sz,    \* its number of values
          done   \* all ordinals (reading bij, num) or neighbours (ord) below this were seen to be right
nvars == <<t, sz, done>>
Whole == sz = <<>> \/ done = sz
\* o |-> value, and that value's ordinal
DecodeOk(j, e) == IF ~Lt(e.o, sz) THEN e.r = "none"
                  ELSE /\ e.r = "some" /\ IsVal(t, e.v) /\ e.o2 = e.o
                       /\ j = "num" => e.v = Val(t, e.o)
\* value |-> ordinal, and that ordinal's value
EncodeOk(j, e) == /\ IsVal(t, e.v)
                  /\ Lt(e.o, sz) /\ e.r = "some" /\ e.w = e.v
                  /\ j = "num" => e.o = Ord(t, e.v)
\* two values: the order of their ordinals is their own
PairOk(e) == /\ Cmp(t, e.v, e.w) = Sign(e.o, e.o2)
             /\ e.nat => e.c = Cmp(t, e.v, e.w)
\* several values: all pairs (m[i][k]: how Rust compares value i with value k; nat: Rust's order is the one meant)
MatrixOk(e) == \A i, k \in 1..Len(e.os) :
                 LET c == Sign(e.os[i], e.os[k]) IN
                 /\ c = Cmp(t, e.vs[i], e.vs[k])
                 /\ e.nat => e.m[i][k] = c
\* the observation is allowed
Allowed(j, e) ==
  CASE e.op = "open" -> TRUE
    [] e.op = "size" -> e.o = sz
    [] e.op = "dec"  -> DecodeOk(j, e)
    [] e.op = "enc"  -> EncodeOk(j, e)
    [] e.op = "pair" -> PairOk(e)
    [] e.op = "matrix" -> MatrixOk(e)
    [] e.op = "run"  -> e.lo = done /\ Lt(e.lo, e.hi) /\ Le(e.hi, sz)   \* every o in lo..hi-1: as dec; or every value with its successor
    [] e.op = "some" -> e.n = 0 \/ (Lt(e.hi, sz) /\ Le(e.lo, e.hi))     \* n sampled ordinals between lo and hi: as dec
    [] e.op = "none" -> e.n = 0 \/ (Le(sz, e.lo) /\ Le(e.lo, e.hi))     \* n sampled numbers from lo on: none
    [] e.op = "end"  -> e.full => Whole
    [] OTHER -> FALSE
Expected(e) == CASE e.op = "size" -> Str(sz)
                 [] e.op = "dec" -> IF Lt(e.o, sz) THEN ToString(Val(t, e.o)) ELSE "none"
                 [] e.op = "enc" -> IF IsVal(t, e.v) THEN Str(Ord(t, e.v)) ELSE "not a value"
                 [] e.op = "pair" -> ToString(Cmp(t, e.v, e.w))
                 [] OTHER -> ""
Observe(e) == /\ done' = IF e.op = "run" THEN e.hi ELSE done
              /\ sz' = IF e.op = "open" THEN Size(t) ELSE sz
              /\ t' = t
\* what was seen complete is within the type
Within == Le(done, sz)
=============================================================================
