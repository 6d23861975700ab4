------------------------------ MODULE MemModel ------------------------------
(* The C11 memory model as Rust's atomics promise it (RC11, with the C++20
   release sequences): an execution is a graph of events; an event is added to
   it if the graph stays consistent.  Programs are lists of atomic steps.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES prog,  \* thread -> sequence of steps [op, x, v, e, o, f]
          ev,    \* event id -> [t, i, kind, x, rv, wv, o, hb, rf]
          mo,    \* location -> event ids of its writes, in modification order
          pc     \* thread -> next step
mvars == <<prog, ev, mo, pc>>

(* orderings: 0 relaxed, 1 acquire, 2 release, 3 both, 4 sequentially consistent *)
Acq(o) == o \in {1, 3, 4}
Rel(o) == o \in {2, 3, 4}
Sc(o)  == o = 4

(* Events: id = 100 * thread + step; 1..99 = the initial writes.
   kind "R", "W", "U" (successful exchange), "F" (fence).
   hb = ids of the events that happen before it, rf = the write it reads.    *)
Rng(s)    == {s[i] : i \in 1..Len(s)}
IsR(e)    == ev[e].kind \in {"R", "U"}
IsW(e)    == ev[e].kind \in {"W", "U"}
At(s, e)  == CHOOSE i \in 1..Len(s) : s[i] = e
Insert(s, p, e) == SubSeq(s, 1, p) \o <<e>> \o SubSeq(s, p + 1, Len(s))
Mine(t)   == {e \in DOMAIN ev : ev[e].t = t}
Inits     == {e \in DOMAIN ev : ev[e].t = 0}
Id(t)     == 100 * t + pc[t]

\* the writes whose release sequence w belongs to
RECURSIVE Heads(_)
Heads(w) == {w} \cup (IF ev[w].kind = "U" THEN Heads(ev[w].rf) ELSE {})
\* the events an acquire reading from w synchronises with
Sources(w) == UNION {(IF Rel(ev[h].o) THEN {h} ELSE {}) \cup
                     {f \in Mine(ev[h].t) : f < h /\ ev[f].kind = "F" /\ Rel(ev[f].o)} : h \in {h \in Heads(w) : ev[h].t # 0}}
With(S) == S \cup UNION {ev[s].hb : s \in S}
Before(t, o, kind, w) ==
  Inits \cup With(Mine(t)) \cup
  (IF kind \in {"R", "U"} /\ Acq(o) THEN With(Sources(w)) ELSE {}) \cup
  (IF kind = "F" /\ Acq(o) THEN UNION {With(Sources(ev[r].rf)) : r \in {r \in Mine(t) : IsR(r)}} ELSE {})

\* coherence: what happened before the new event is not overtaken by it
NotOverwritten(hb, x, p, m) ==      \* p = position read (or preceding the new write) in m = mo[x]
  \A q \in p + 1..Len(m) : /\ m[q] \notin hb
                           /\ \A r \in hb : ~(IsR(r) /\ ev[r].rf = m[q])

Event(t, kind, x, rv, wv, o, hb, rf) ==
  [t |-> t, kind |-> kind, x |-> x, rv |-> rv, wv |-> wv, o |-> o, hb |-> hb, rf |-> rf]
Add(t, e) == /\ ev' = [i \in DOMAIN ev \cup {Id(t)} |-> IF i = Id(t) THEN e ELSE ev[i]]
             /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED prog
\* may a write be put right after position p?  Not between an exchange and what it read.
Open(m, p) == IF p = Len(m) THEN TRUE ELSE ev[m[p + 1]].kind # "U"

Read(t, x, o, p) ==       \* read the write at position p
  LET w == mo[x][p]  hb == Before(t, o, "R", w) IN
  /\ NotOverwritten(hb, x, p, mo[x])
  /\ Add(t, Event(t, "R", x, ev[w].wv, 0, o, hb, w)) /\ UNCHANGED mo
Write(t, x, v, o, p) ==   \* write right after position p
  LET hb == Before(t, o, "W", 0) IN
  /\ Open(mo[x], p) /\ NotOverwritten(hb, x, p, mo[x])
  /\ mo' = [mo EXCEPT ![x] = Insert(@, p, Id(t))]
  /\ Add(t, Event(t, "W", x, 0, v, o, hb, 0))
Update(t, x, v, o, p) ==  \* read position p and write right after it
  LET w == mo[x][p]  hb == Before(t, o, "U", w) IN
  /\ Open(mo[x], p) /\ NotOverwritten(hb, x, p, mo[x])
  /\ mo' = [mo EXCEPT ![x] = Insert(@, p, Id(t))]
  /\ Add(t, Event(t, "U", x, ev[w].wv, v, o, hb, w))
Step(t) ==
  /\ pc[t] <= Len(prog[t])
  /\ LET s == prog[t][pc[t]] IN
     CASE s.op = "ld"  -> \E p \in 1..Len(mo[s.x]) : Read(t, s.x, s.o, p)
       [] s.op = "st"  -> \E p \in 1..Len(mo[s.x]) : Write(t, s.x, s.v, s.o, p)
       [] s.op = "xchg" -> \E p \in 1..Len(mo[s.x]) : Update(t, s.x, s.v, s.o, p)
       [] s.op = "cas" -> \E p \in 1..Len(mo[s.x]) :
                            IF ev[mo[s.x][p]].wv = s.e THEN Update(t, s.x, s.v, s.o, p) ELSE Read(t, s.x, s.f, p)
       [] s.op = "f"   -> Add(t, Event(t, "F", 0, 0, 0, s.o, Before(t, s.o, "F", 0), 0)) /\ UNCHANGED mo
Finished == \A t \in DOMAIN prog : pc[t] > Len(prog[t])
Next == \E t \in DOMAIN prog : Step(t)
MInit == /\ mo = [x \in 1..9 |-> <<x>>]
         /\ ev = [i \in 1..9 |-> Event(0, "W", i, 0, 0, 0, {}, 0)]
         /\ pc = [t \in DOMAIN prog |-> 1]
----------------------------------------------------------------------------
(* Sequential consistency: one order of all SC events (RC11's psc is acyclic) *)
Es == {e \in DOMAIN ev : ev[e].t # 0}
Sb(a, b)  == ev[a].t = ev[b].t /\ a < b
Hb(a, b)  == a \in ev[b].hb
Loc(a, b) == ev[a].x = ev[b].x /\ ev[a].x # 0
Pos(w) == At(mo[ev[w].x], w)
Mo(a, b) == IsW(a) /\ IsW(b) /\ Loc(a, b) /\ Pos(a) < Pos(b)
Rf(a, b) == IsR(b) /\ ev[b].rf = a
Fr(a, b) == IsR(a) /\ IsW(b) /\ Loc(a, b) /\ a # b /\ Pos(ev[a].rf) < Pos(b)
Eco(a, b) == \/ Rf(a, b) \/ Mo(a, b) \/ Fr(a, b)
             \/ IsR(b) /\ (Mo(a, ev[b].rf) \/ Fr(a, ev[b].rf))
SbNe(a, b) == Sb(a, b) /\ ~Loc(a, b)
Scb(a, b) == \/ Sb(a, b) \/ Mo(a, b) \/ Fr(a, b) \/ (Hb(a, b) /\ Loc(a, b))
             \/ \E c \in Es, d \in Es : SbNe(a, c) /\ Hb(c, d) /\ SbNe(d, b)
ScEvents == {e \in Es : Sc(ev[e].o)}
Fen(a) == ev[a].kind = "F"
Psc(a, b) ==
  \/ \E x \in {a} \cup (IF Fen(a) THEN {x \in Es : Hb(a, x)} ELSE {}),
        y \in {b} \cup (IF Fen(b) THEN {y \in Es : Hb(y, b)} ELSE {}) : Scb(x, y)
  \/ Fen(a) /\ Fen(b) /\ (Hb(a, b) \/ \E x \in Es, y \in Es : Hb(a, x) /\ Eco(x, y) /\ Hb(y, b))
\* acyclic: events can be taken away one by one, sources first
RECURSIVE Acyclic(_)
Acyclic(S) == S = {} \/ LET first == {b \in S : ~\E a \in S : Psc(a, b)}
                        IN first # {} /\ Acyclic(S \ first)
SeqCst == Acyclic(ScEvents)
----------------------------------------------------------------------------
\* What a finished run shows: what each step read, and what is left in each location
Reads(t) == [i \in 1..Len(prog[t]) |-> IF ev[100 * t + i].kind \in {"R", "U"} THEN ev[100 * t + i].rv ELSE 0]
Final(x) == ev[mo[x][Len(mo[x])]].wv
=============================================================================
