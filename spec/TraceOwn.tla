------------------------------ MODULE TraceOwn ------------------------------
(* Trace validation of recorded sessions against Ownership alone *)
EXTENDS Ownership, Json, IOUtils, TLC
CONSTANT Judge
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ver
Ev == Sessions[s].ev
TInit == s \in 1..Len(Sessions) /\ held = {} /\ l = 1 /\ ver = "ok"
TNext == /\ ver = "ok" /\ l <= Len(Ev) /\ l' = l + 1 /\ s' = s
         /\ held' = After(Ev[l])
         /\ ver' = IF ~OnceEach(Ev[l]) THEN "not once" ELSE IF ~SeenLive(Ev[l]) THEN "not alive" ELSE IF ~NoLeak(Ev[l]) THEN "leaked" ELSE "ok"
TSpec == TInit /\ [][TNext]_<<held, s, l, ver>>
Conforms == ver = "ok"
=============================================================================
