----------------------------- MODULE TraceBorrow -----------------------------
(* Verdicts of the compiler on client programs and on the traits of the types,
   judged by Borrow.                                                            *)
EXTENDS Borrow, SequencesExt, Json, IOUtils
CONSTANT Judge
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ver, out
Ev == Sessions[s].ev
Expected(e) == IF e.op = "prog" THEN Verdict(e.prog)
               ELSE IF e.op = "derive" THEN DeriveVerdict(e.shape, ToSet(e.fields), e.arg)
               ELSE IF e.op = "bound" THEN BoundVerdict(e.call, ToSet(e.key), ToSet(e.v))
               ELSE LET x == Must(e.kind, e.trait, ToSet(e.v), ToSet(e.key), e.holds)
                    IN IF x = "yes" THEN "accepted" ELSE IF x = "no" THEN "rejected" ELSE "either"
TInit == s \in 1..Len(Sessions) /\ l = 1 /\ ver = "ok" /\ out = ""
TNext == /\ ver = "ok" /\ l <= Len(Ev) /\ l' = l + 1 /\ s' = s
         /\ LET x == Expected(Ev[l]) IN
            /\ out' = "the compiler should say: " \o x
            /\ ver' = IF x \in {"either", Ev[l].verdict} THEN "ok" ELSE "no"
TSpec == TInit /\ [][TNext]_<<s, l, ver, out>>
Conforms == ver = "ok"
NotStuck == TRUE
=============================================================================
