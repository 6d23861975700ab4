------------------------------ MODULE TraceReg ------------------------------
(* Trace validation: every recorded history of the real cell must be one of
   AtomicReg.  One initial state per history.                                *)
EXTENDS RegMonitor, Json, IOUtils
CONSTANT Judge
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ver
tvars == <<confs, pend, s, l, ver>>
Ev == Sessions[s].ev
Init0 == [c \in 1..Sessions[s].nc |-> -1]
Idle0 == [t \in 1..Sessions[s].nt |-> <<>>]
TInit == /\ s \in 1..Len(Sessions) /\ l = 1 /\ ver = "ok"
         /\ confs = {[val |-> Init0, st |-> Idle0]}
         /\ pend = [t \in 1..Sessions[s].nt |-> NoOp]
         /\ val = <<>> /\ th = <<>>
Op(e) == [NoOp EXCEPT !.op = e.op, !.h = e.h, !.k = e.k, !.v = e.v]
TNext == /\ ver = "ok" /\ l <= Len(Ev)
         /\ LET e == Ev[l] IN
            IF e.ph = "call" THEN OnCall(e.t, Op(e)) ELSE OnReturn(e.t, e.ret)
         /\ ver' = IF confs' = {} THEN "ret" ELSE "ok"
         /\ l' = l + 1 /\ s' = s /\ UNCHANGED rvars
TSpec == TInit /\ [][TNext]_<<tvars, rvars>>
Conforms == ver = "ok"
NotStuck == (ver = "ok" /\ l <= Len(Ev)) => LET e == Ev[l] IN IF e.ph = "call" THEN ~Open(e.t) ELSE Open(e.t)
=============================================================================
