---------------------------- MODULE RegMonitor -----------------------------
(* Decides whether a history of calls and returns is one of AtomicReg, by
   keeping every cell content and set of effects that could explain it so far. *)
EXTENDS AtomicReg
VARIABLES confs,  \* set of [val, st]: st[t] = <<>> or <<ret>> once the call took effect
          pend    \* thread -> its current call, NoOp when idle
mvars == <<confs, pend>>
Open(t) == pend[t].op # ""
Lin(c, t) == [val |-> After(c.val, pend[t]), st |-> [c.st EXCEPT ![t] = <<Ret(c.val, pend[t])>>]]
\* one more effect, in every way
More(C) == C \cup UNION {{Lin(c, t) : t \in {t \in DOMAIN pend : Open(t) /\ c.st[t] = <<>>}} : c \in C}
RECURSIVE Closure(_)
Closure(C) == LET D == More(C) IN IF D = C THEN C ELSE Closure(D)
OnCall(t, o) == /\ ~Open(t) /\ pend' = [pend EXCEPT ![t] = o] /\ UNCHANGED confs
OnReturn(t, r) == /\ Open(t)
                  /\ confs' = {[c EXCEPT !.st[t] = <<>>] : c \in {c \in Closure(confs) : c.st[t] = <<r>>}}
                  /\ pend' = [pend EXCEPT ![t] = NoOp]
=============================================================================
