----------------------------- MODULE AtomicReg -----------------------------
(* The atomic cell (AtomicOrdinal) as a concurrent object: a call is invoked,
   takes effect at one instant, and returns what it saw at that instant.      *)
EXTENDS Base
CONSTANTS Cells, Threads, MaxVal
VARIABLES val,   \* cell -> value, -1 = no such cell
          th     \* thread -> <<>> (idle), <<op>> (called) or <<op, ret>> (took effect)
rvars == <<val, th>>
Values == 0..MaxVal

(* One call o on cell contents c: what the contents become, what it returns. *)
After(c, o) ==
  CASE o.op = "new"   -> [c EXCEPT ![o.h] = o.k]
    [] o.op = "store" -> [c EXCEPT ![o.h] = o.k]
    [] o.op = "cas"   -> IF c[o.h] = o.k THEN [c EXCEPT ![o.h] = o.v] ELSE c
    [] OTHER          -> c
Ret(c, o) ==
  CASE o.op \in {"load", "dbg"} -> <<c[o.h]>>
    [] o.op = "cas"             -> IF c[o.h] = o.k THEN <<1, c[o.h]>> ELSE <<0, c[o.h]>>
    [] OTHER                    -> <<>>

Call(t, o) == /\ th[t] = <<>> /\ th' = [th EXCEPT ![t] = <<o>>] /\ UNCHANGED val
Effect(t)  == /\ Len(th[t]) = 1
              /\ val' = After(val, th[t][1])
              /\ th' = [th EXCEPT ![t] = <<th[t][1], Ret(val, th[t][1])>>]
Return(t, r) == /\ Len(th[t]) = 2 /\ th[t][2] = r
                /\ th' = [th EXCEPT ![t] = <<>>] /\ UNCHANGED val

Cas(h, a, b) == [NoOp EXCEPT !.op = "cas", !.h = h, !.k = a, !.v = b]
ROps == UNION {{O1("load", h)} \cup {OK("store", h, k) : k \in Values} \cup {Cas(h, a, b) : a \in Values, b \in Values} : h \in Cells}
RInit == /\ val \in [Cells -> Values] /\ th = [t \in Threads |-> <<>>]
RNext == \E t \in Threads : \/ \E o \in ROps : Call(t, o)
                            \/ Effect(t)
                            \/ Len(th[t]) = 2 /\ Return(t, th[t][2])
RSpec == RInit /\ [][RNext]_rvars
----------------------------------------------------------------------------
\* C14: a cell changes only by a store or a successful exchange, to the value of that call,
\* and a call touches its own cell only
Changes == [][\A h \in Cells : val'[h] # val[h] =>
                \E t \in Threads : /\ Len(th[t]) = 1 /\ Len(th'[t]) = 2 /\ th[t][1].h = h
                                   /\ \/ th[t][1].op = "store" /\ val'[h] = th[t][1].k
                                      \/ th[t][1].op = "cas" /\ val[h] = th[t][1].k /\ val'[h] = th[t][1].v /\ th'[t][2] = <<1, val[h]>>]_rvars
\* an exchange reports success exactly when it found what it expected, and what it found
CasExact == \A t \in Threads : (Len(th[t]) = 2 /\ th[t][1].op = "cas") =>
               /\ th[t][2][2] \in Values
               /\ (th[t][2][1] = 1) = (th[t][2][2] = th[t][1].k)
InRange == \A h \in Cells : val[h] \in Values
=============================================================================
