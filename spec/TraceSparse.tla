---------------------------- MODULE TraceSparse ----------------------------
(* Trace validation: every recorded session of the real maps must be a
   behaviour of SparseMap, reply by reply.  One initial state per session.    *)
EXTENDS SparseMap, Json, IOUtils
CONSTANTS Judge,  \* "ret": replies; "drops": destroyed values, while replies agree
          Focus   \* the groups of calls whose replies are judged, besides "dict"
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ver
tvars == <<vars, s, l, ver>>
Ev == Sessions[s].ev
Judged(e) == Group(e, cur) \in Focus \cup {"dict"}
TInit == /\ s \in 1..Len(Sessions)
         /\ par = [n |-> Sessions[s].n, track |-> Sessions[s].track]
         /\ InitRest /\ l = 1 /\ ver = "ok"
TNext == /\ ver = "ok" /\ l <= Len(Ev)
         /\ Do(Ev[l])
         /\ l' = l + 1 /\ s' = s
         /\ ver' = IF Judged(Ev[l]) /\ ~RetOK(out', Ev[l]) THEN "ret"
                   ELSE IF Judge = "drops" /\ ~DropOK(out', Ev[l]) THEN "drops" ELSE "ok"
TSpec == TInit /\ [][TNext]_tvars
\* the verdict
Conforms == IF Judge = "ret" THEN ver # "ret" ELSE ver # "drops"
\* used to locate a call the specification does not allow at all
NotStuck == (ver = "ok" /\ l <= Len(Ev)) => ENABLED Do(Ev[l])
=============================================================================
