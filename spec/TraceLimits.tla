----------------------------- MODULE TraceLimits -----------------------------
(* Verdicts of the compiler on generated programs, judged by Limits. *)
EXTENDS Limits, Json, IOUtils
CONSTANT Judge
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ver, out
Ev == Sessions[s].ev
TInit == s \in 1..Len(Sessions) /\ l = 1 /\ ver = "ok" /\ out = ""
TNext == /\ ver = "ok" /\ l <= Len(Ev)
         /\ l' = l + 1 /\ s' = s
         /\ LET e == Ev[l]  a == Accept(e.use, Sessions[s].t, e.s) IN
            /\ ver' = IF e.compiles = a THEN "ok" ELSE "no"
            /\ out' = IF a THEN "should compile" ELSE "should be rejected"
TSpec == TInit /\ [][TNext]_<<s, l, ver, out>>
Conforms == ver = "ok"
NotStuck == TRUE
MaxNumberDef == UsizeMax
MaxNumber32 == Sub(TwoTo32, BOne)
=============================================================================
