---------------------------- MODULE TraceAllValues ----------------------------
(* Trace validation of recorded enumerations. *)
EXTENDS AllValues, Json, IOUtils
CONSTANT Judge   \* "ret" | "dbg": judge replies or printed text
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ver
tvars == <<vars, s, l, ver>>
Ev == Sessions[s].ev
TInit == /\ s \in 1..Len(Sessions) /\ size = Sessions[s].size
         /\ Init /\ l = 1 /\ ver = "ok"
Agree(e) == IF Judge = "dbg" THEN e.op # "cdbg" \/ e.dbg = out'.dbg
            ELSE e.op = "cdbg" \/ e.ret = out'.ret
TNext == /\ ver = "ok" /\ l <= Len(Ev)
         /\ Do(Ev[l])
         /\ l' = l + 1 /\ s' = s
         /\ ver' = IF Agree(Ev[l]) THEN "ok" ELSE "ret"
TSpec == TInit /\ [][TNext]_tvars
Conforms == ver = "ok"
NotStuck == (ver = "ok" /\ l <= Len(Ev)) => ENABLED Do(Ev[l])
=============================================================================
