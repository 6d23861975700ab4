------------------------------- MODULE MCMem --------------------------------
(* All executions of the programs in a file; prints every possible outcome.  *)
EXTENDS MemModel, Json, IOUtils
Programs == ndJsonDeserialize(IOEnv.PROGRAMS)
VARIABLE id
Init == /\ id \in 1..Len(Programs) /\ prog = Programs[id].p /\ MInit
PNext == Next /\ UNCHANGED id
Spec == Init /\ [][PNext]_<<mvars, id>>
\* printed when a run is complete and its SC events have one order
Outcomes == (Finished /\ SeqCst) =>
              PrintT("OUT " \o ToJson(<<id, [t \in DOMAIN prog |-> Reads(t)], [x \in 1..Programs[id].nl |-> Final(x)]>>))
\* the axioms, over the whole graph
Coherent == \A e \in Es : \A a \in ev[e].hb : ~Eco(e, a) /\ a # e
Atomic == \A e \in Es : ev[e].kind = "U" => Pos(e) = Pos(ev[e].rf) + 1
HbOrder == \A a \in Es, b \in Es : Hb(a, b) => ev[a].hb \subseteq ev[b].hb /\ ~Hb(b, a)
=============================================================================
