------------------------------ MODULE TraceRes ------------------------------
(* Trace validation of measured sessions against Resources *)
EXTENDS Resources, Json, IOUtils, TLC
CONSTANT Judge
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ver
S0 == Sessions[s]
Ev == S0.ev
TInit == /\ s \in 1..Len(Sessions) /\ l = 1 /\ ver = "ok"
         /\ kind = KindOf(S0.subject, S0.n) /\ n = S0.n
         /\ blocks = BlocksOf(S0.subject, S0.n, S0.sv, S0.so)
         /\ bytes = [h \in Handles |-> -1]
Measured(e) == IF e.panicked THEN ver' = "panicked" /\ UNCHANGED rvars
               ELSE /\ Call(e) /\ ver' = IF Asked(e) THEN "ok" ELSE "too many questions to the key type"
Timed(e) == /\ UNCHANGED rvars /\ ver' = IF Steady(e.small, e.large) THEN "ok" ELSE "time grows with the number of keys"
TNext == /\ ver = "ok" /\ l <= Len(Ev) /\ l' = l + 1 /\ s' = s
         /\ IF Ev[l].op = "pace" THEN Timed(Ev[l]) ELSE Measured(Ev[l])
TSpec == TInit /\ [][TNext]_<<rvars, s, l, ver>>
Conforms == ver = "ok"
NotStuck == ver = "ok" /\ l <= Len(Ev) => ENABLED TNext
=============================================================================
