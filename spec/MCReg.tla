------------------------------- MODULE MCReg --------------------------------
(* All histories of a few threads with a few calls each.  The monitor must
   follow every one of them; the same cell with a compare-exchange made of two
   steps (Split) must be caught by it.                                        *)
EXTENDS RegMonitor
CONSTANTS Calls, Split
VARIABLE left     \* thread -> calls it may still make
allvars == <<rvars, mvars, left>>
MInit == /\ RInit /\ left = [t \in Threads |-> Calls]
         /\ confs = {[val |-> val, st |-> [t \in Threads |-> <<>>]]}
         /\ pend = [t \in Threads |-> NoOp]
\* a wrong cell: the comparison and the store of an exchange are two effects
Compare(t) == /\ Split /\ Len(th[t]) = 1 /\ th[t][1].op = "cas" /\ val[th[t][1].h] = th[t][1].k
              /\ th' = [th EXCEPT ![t] = <<th[t][1], <<>>, <<>>>>] /\ UNCHANGED val
Replace(t) == /\ Len(th[t]) = 3
              /\ val' = [val EXCEPT ![th[t][1].h] = th[t][1].v]
              /\ th' = [th EXCEPT ![t] = <<th[t][1], <<1, th[t][1].k>>>>]
MNext == \E t \in Threads :
           \/ \E o \in ROps : left[t] > 0 /\ Call(t, o) /\ OnCall(t, o) /\ left' = [left EXCEPT ![t] = @ - 1]
           \/ Len(th[t]) = 1 /\ (~Split \/ th[t][1].op # "cas" \/ val[th[t][1].h] # th[t][1].k) /\ Effect(t) /\ UNCHANGED <<mvars, left>>
           \/ (Compare(t) \/ Replace(t)) /\ UNCHANGED <<mvars, left>>
           \/ Len(th[t]) = 2 /\ OnReturn(t, th[t][2]) /\ Return(t, th[t][2]) /\ UNCHANGED left
MSpec == MInit /\ [][MNext]_allvars
Followed == confs # {}
\* the cell as it is, is one of the explanations the monitor keeps
Tracked == ~Split => [val |-> val, st |-> [t \in Threads |-> IF Len(th[t]) = 2 THEN <<th[t][2]>> ELSE <<>>]] \in Closure(confs)
=============================================================================
