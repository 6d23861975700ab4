------------------------------ MODULE MCBorrow ------------------------------
(* The verdicts of Borrow against what would happen if the program were run:
   each borrow leaves a mark on the place it borrows, an access wipes out the
   marks it is not compatible with, and a value may be used only while its
   marks are there.  Every program up to a length over one call of each kind.  *)
EXTENDS Borrow, TLC
CONSTANTS MaxLen, OnM, OnV
VARIABLES prog, marks, moved, has, bad
\* marks: the borrows in force, <<place, mode, id>>; has: the marks each value needs
bvars == <<prog, marks, moved, has, bad>>
N == Len(has)
Init == prog = <<>> /\ marks = {} /\ moved = {} /\ has = <<>> /\ bad = FALSE
\* an access to a place: which marks survive
Survive(place, mode) == {x \in marks : x[1] # place \/ (mode = "shared" /\ x[2] = "shared")}
Run(st) ==
  LET place == st.on  mode == Mode(st)
      usable == place \notin moved /\ (st.key => -1 \notin moved) /\ (place <= 0 \/ has[place] \subseteq marks)
      left == Survive(place, mode)
      g == Sig(st.f)  id == Len(prog) + 1
      new == (IF g.keeps /\ place = 0 THEN {<<0, mode, id>>} ELSE {}) \cup (IF g.lends THEN {<<place, mode, id>>} ELSE {})
  IN /\ prog' = Append(prog, st)
     /\ bad' = (bad \/ ~usable)
     /\ moved' = IF mode = "own" THEN moved \cup {place} ELSE moved
     /\ marks' = IF IsCall(st) THEN left \cup new ELSE left
     /\ has' = IF IsCall(st) THEN Append(has, new \cup (IF g.keeps /\ place > 0 THEN has[place] ELSE {})) ELSE has
Places == {-1, 0} \cup 1..N
Stmts == {[s |-> "call", f |-> f, on |-> 0, mode |-> "", key |-> f \in {"get", "get_mut"}] : f \in OnM} \cup
         {[s |-> "call", f |-> f, on |-> v, mode |-> "", key |-> FALSE] : f \in OnV, v \in 1..N} \cup
         {[s |-> "acc", f |-> "len", on |-> x, mode |-> md, key |-> FALSE] : x \in Places, md \in {"shared", "mut", "own"}}
Next == Len(prog) < MaxLen /\ \E st \in Stmts : Run(st)
Spec == Init /\ [][Next]_bvars
\* a program is rejected exactly if running it would use something that is gone
Sound == Verdict(prog) # "rejected" => ~bad
Precise == Verdict(prog) = "rejected" => bad
SomeGuard == \E v \in Values(prog) : Guards(prog, v)
EitherOnlyGuards == Verdict(prog) = "either" => SomeGuard
\* thread-safety: a type that gives out references to values on another thread needs them shareable
ASSUME \A v \in SUBSET {"Send", "Sync", "Clone"}, key \in SUBSET {"Send", "Sync"}, h \in BOOLEAN :
          /\ (Must("shares", "Send", v, key, h) = "yes" => "Sync" \in v)
          /\ (Must("owns", "Send", v, key, h) = "yes" => "Send" \in v)
          /\ (Must("muts", "Clone", v, key, h) = "no") /\ (Must("muts", "Covariant", v, key, h) = "no")
          /\ (\A kd \in Kinds, t \in {"Send", "Sync"} : {"Send", "Sync"} \subseteq v \cap key => Must(kd, t, v, key, h) = "yes")
=============================================================================
