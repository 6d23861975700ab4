--------------------------- MODULE TraceNumbering ---------------------------
(* Trace validation of recorded observations of a numbering. *)
EXTENDS Numbering, Json, IOUtils
CONSTANT Judge
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ver, out
tvars == <<nvars, s, l, ver, out>>
Ev == Sessions[s].ev
TInit == /\ s \in 1..Len(Sessions) /\ t = Sessions[s].t /\ sz = <<>> /\ done = <<>>
         /\ l = 1 /\ ver = "ok" /\ out = ""
TNext == /\ ver = "ok" /\ l <= Len(Ev)
         /\ Observe(Ev[l])
         /\ l' = l + 1 /\ s' = s
         /\ LET a == Allowed(Judge, Ev[l]) IN ver' = (IF a THEN "ok" ELSE "no") /\ out' = IF a THEN "" ELSE "expected " \o Expected(Ev[l])
TSpec == TInit /\ [][TNext]_tvars
Conforms == ver = "ok"
NotStuck == TRUE
=============================================================================
