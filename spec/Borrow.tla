------------------------------- MODULE Borrow -------------------------------
(* What a straight-line client program may do with a collection while things
   obtained from it are in use.  A program works on a collection "m", a key "k"
   and the values its calls return, numbered 1, 2, ...  A statement is
     [s |-> "call", f, on, key]  the call f on place `on`, with a reference to
                                 the key or without; its result is a new value
     [s |-> "acc", on, mode]     use (shared), change (mut) or move away (own)
   A call's signature says how it takes its receiver, whether its result keeps
   what the receiver had borrowed (or the receiver, if that is "m"), and whether
   the result borrows the receiver itself.                                     *)
EXTENDS Integers, Sequences, FiniteSets

S(recv, keeps, lends, guard) == [recv |-> recv, keeps |-> keeps, lends |-> lends, guard |-> guard]
\* calls on the collection; the result keeps it borrowed or not
Plain == S("shared", FALSE, FALSE, FALSE)       \* a look that returns no reference
View == S("shared", TRUE, FALSE, FALSE)         \* references into it: get, iter, ...
Change == S("mut", FALSE, FALSE, FALSE)         \* insert, remove, clear, ...
ViewMut == S("mut", TRUE, FALSE, FALSE)         \* mutable references: get_mut, iter_mut, ...
Guard == S("mut", TRUE, FALSE, TRUE)            \* may do something when it goes: drain, entry
Take == S("own", FALSE, FALSE, FALSE)           \* into_iter, map, zip, ...
\* calls on what was returned
Step == S("mut", TRUE, FALSE, FALSE)            \* the items do not borrow the iterator
StepOwned == S("mut", FALSE, FALSE, FALSE)      \* items that are keys or owned values
Copy == S("shared", TRUE, FALSE, FALSE)         \* a clone of a shared iterator
Inner == S("shared", TRUE, TRUE, FALSE)         \* entry.get()
InnerMut == S("mut", TRUE, TRUE, FALSE)         \* entry.get_mut()
Give == S("own", TRUE, FALSE, FALSE)            \* entry.or_insert()
Finish == S("own", FALSE, FALSE, FALSE)         \* entry.insert()

Looks == {"contains_key", "contains", "len", "is_empty", "clone", "load", "store", "compare_exchange"}
Views == {"get", "index", "iter", "ref_into_iter", "keys", "values", "values_array", "as_ref"}
Owns == {"total_keys", "set64_iter"}            \* made from the collection, independent of it
Changes == {"insert", "remove", "clear", "retain"}
ViewMuts == {"get_mut", "index_mut", "iter_mut", "values_mut", "values_array_mut", "as_mut"}
Sig(f) ==
  CASE f \in Looks \cup Owns -> Plain
    [] f \in Views -> View
    [] f \in Changes -> Change
    [] f \in ViewMuts -> ViewMut
    [] f \in {"drain", "entry", "occupied", "vacant"} -> Guard
    [] f \in {"into_iter", "into_values", "into_keys", "map", "map_values", "zip"} -> Take
    [] f \in {"next", "next_back", "nth"} -> Step
    [] f \in {"next_owned", "next_back_owned", "nth_owned"} -> StepOwned
    [] f \in {"clone_iter"} -> Copy
    [] f \in {"size_hint"} -> S("shared", FALSE, FALSE, FALSE)
    [] f \in {"entry_key", "entry_get"} -> Inner
    [] f \in {"entry_get_mut"} -> InnerMut
    [] f \in {"or_insert", "collect"} -> Give
    [] f \in {"vacant_insert", "collect_owned"} -> Finish
KnownCalls == Looks \cup Views \cup Owns \cup Changes \cup ViewMuts \cup
  {"drain", "entry", "occupied", "vacant", "into_iter", "into_values", "into_keys", "map", "map_values", "zip", "next", "next_back", "nth",
   "next_owned", "next_back_owned", "nth_owned", "collect_owned", "clone_iter", "size_hint", "entry_key", "entry_get", "entry_get_mut", "or_insert", "collect", "vacant_insert"}
----------------------------------------------------------------------------
\* a call never keeps the key it is given by reference; places are numbers: 0 the collection, -1 the key, i the i-th value
IsCall(st) == st.s = "call"
Mode(st) == IF IsCall(st) THEN Sig(st.f).recv ELSE st.mode
RECURSIVE Made(_, _)
Made(p, i) == IF i = 0 THEN 0 ELSE Made(p, i - 1) + (IF IsCall(p[i]) THEN 1 ELSE 0)     \* values made by the first i statements
At(p, v) == CHOOSE i \in 1..Len(p) : IsCall(p[i]) /\ Made(p, i) = v                       \* where value v is made
\* what value v has borrowed: <<place, mode>>
RECURSIVE Loans(_, _)
Loans(p, v) == LET st == p[At(p, v)]  g == Sig(st.f)
                   kept == IF ~g.keeps THEN {} ELSE IF st.on = 0 THEN {<<0, g.recv>>} ELSE Loans(p, st.on)
               IN kept \cup (IF g.lends THEN {<<st.on, g.recv>>} ELSE {})
\* the value may do something to what it borrowed when it goes out of scope
Guards(p, v) == LET st == p[At(p, v)] IN Sig(st.f).guard
Values(p) == 1..Made(p, Len(p))
Touches(p, i, v) == p[i].on = v
MovedBy(p, i, v) == p[i].on = v /\ Mode(p[i]) = "own"
\* the loans in force when statement i runs: those of values used later on
InForce(p, i, scopeEnd) ==
  UNION {Loans(p, v) : v \in {v \in Values(p) :
      /\ At(p, v) < i
      /\ \/ \E j \in (i+1)..Len(p) : Touches(p, j, v)
         \/ scopeEnd /\ Guards(p, v) /\ ~\E j \in 1..i : MovedBy(p, j, v)}}
Conflict(mode, loan) == mode # "shared" \/ loan # "shared"
BadAt(p, i, scopeEnd) ==
  \/ \E j \in 1..(i-1) : MovedBy(p, j, p[i].on)                                  \* used after it was moved away
  \/ p[i].key /\ \E j \in 1..(i-1) : MovedBy(p, j, -1)
  \/ \E ln \in InForce(p, i, scopeEnd) : ln[1] = p[i].on /\ Conflict(Mode(p[i]), ln[2])
Rejected(p, scopeEnd) == \E i \in 1..Len(p) : BadAt(p, i, scopeEnd)
Verdict(p) == IF Rejected(p, FALSE) THEN "rejected" ELSE IF Rejected(p, TRUE) THEN "either" ELSE "accepted"
----------------------------------------------------------------------------
(* Thread-safety, copying and subtyping of the types.  What a type does with
   the values: owns them, shares (borrows) or borrows them mutably, or has none.*)
Kinds == {"owns", "shares", "muts", "none"}
\* v: what is known of the value type, e.g. {"Send", "Sync", "Clone"}
\* key: {} or the same of the key type; holds: an object of the type holds a key
Must(kind, trait, v, key, holds) ==
  LET okKey == {"Send", "Sync"} \subseteq key
      val == CASE trait = "Send" -> (kind = "none" \/ (IF kind = "shares" THEN "Sync" \in v ELSE "Send" \in v))
               [] trait = "Sync" -> (kind = "none" \/ "Sync" \in v)
               [] trait = "Clone" -> (kind \in {"none", "shares"} \/ (kind = "owns" /\ "Clone" \in v))
               [] trait = "Covariant" -> kind # "muts"
  IN CASE ~val -> "no"
       [] trait \in {"Send", "Sync"} /\ ~okKey -> (IF holds /\ trait \notin key THEN "no" ELSE "either")
       [] OTHER -> "yes"
----------------------------------------------------------------------------
(* What a call may ask of the key and value types, besides Ordinal of the key.
   Asking less than this is impossible (values cannot be copied) or harmless.   *)
Needs(call) == CASE call = "plain" -> [key |-> {}, v |-> {}]
                 [] call = "clone" -> [key |-> {}, v |-> {"Clone"}]
                 [] call = "default_total" -> [key |-> {}, v |-> {"Default"}]
                 [] call = "debug" -> [key |-> {"Debug"}, v |-> {"Debug"}]
                 [] call = "debug_key" -> [key |-> {"Debug"}, v |-> {}]
BoundVerdict(call, key, v) ==
  IF Needs(call).key \subseteq key /\ Needs(call).v \subseteq v THEN "accepted"
  ELSE IF call \in {"clone", "default_total"} THEN "rejected"        \* would have to make a value out of nothing
  ELSE "either"
----------------------------------------------------------------------------
(* The derive is accepted exactly on declarations all of whose parts can be
   numbered.  fields: the kinds of types of the fields of all variants; a "param"
   is a parameter bounded by Ordinal, whose argument is arg.                     *)
DeriveVerdict(shape, fields, arg) ==
  IF shape = "union" \/ "opaque" \in fields \/ ("param" \in fields /\ arg = "opaque") THEN "rejected" ELSE "accepted"
=============================================================================
