------------------------------- MODULE Cursor -------------------------------
(* A two-ended iterator over a finite sequence of <<key, value>> items: the
   abstraction of every iterator in the library.                              *)
EXTENDS Base

OwnedKinds == {"drain", "into"}
MutKinds   == {"iter_mut", "values_mut"}
ProjItem(kind, it) == CASE kind \in {"keys"} -> <<it[1]>>
                        [] kind \in {"values", "values_mut"} -> <<it[2]>>
                        [] kind \in {"elems"} -> <<it[1]>>
                        [] OTHER -> it
ProjAll(kind, is) == Flat([i \in 1..Len(is) |-> ProjItem(kind, is[i])])
ItemStrs(kind, is, alt) == [i \in 1..Len(is) |->
      CASE kind \in {"keys", "elems"} -> ToString(is[i][1])
        [] kind \in {"values", "values_mut"} -> ToString(is[i][2])
        [] OTHER -> Pair(is[i], alt)]

\* items, plus the window lo..hi-1 of keys not yet passed by either end
MkCursor(kind, h, is, n) == [kind |-> kind, h |-> h, items |-> is, lo |-> 0, hi |-> n]

CursorOps == {"next","back","nth","nthb","find","rfind","hint","len","count","last","fold","rfold",
              "tfold","trfold","skip","rskip","step","cdbg","cdrop"}
\* operations after which the iterator no longer exists
Consuming == {"count","last","fold","rfold","skip","rskip","step","cdrop"}

\* Effect of one call on cursor c: what it returns (ret), the items it hands
\* out (got), the items it discards (lost) and the items still to come (rest).
Eff(got, lost, rest) == [got |-> got, lost |-> lost, rest |-> rest]
CurEff(c, o) ==
  LET is == c.items  n == Len(is)  j == o.j IN
  CASE o.op = "next"  -> Eff(Take(is,1), <<>>, Drop(is,1))
    [] o.op = "back"  -> Eff(TakeBack(is,1), <<>>, DropBack(is,1))
    [] o.op \in {"nth","find"}   -> Eff(Take(Drop(is,j),1), Take(is,j), Drop(is,j+1))
    [] o.op \in {"nthb","rfind"} -> Eff(TakeBack(DropBack(is,j),1), TakeBack(is,j), DropBack(is,j+1))
    [] o.op = "last"  -> Eff(TakeBack(is,1), DropBack(is,1), <<>>)
    [] o.op = "count" -> Eff(<<>>, is, <<>>)
    [] o.op = "fold"  -> Eff(is, <<>>, <<>>)
    [] o.op = "rfold" -> Eff(Reverse(is), <<>>, <<>>)
    [] o.op = "tfold" -> Eff(Take(is,j), <<>>, Drop(is,j))
    [] o.op = "trfold" -> Eff(Reverse(TakeBack(is,j)), <<>>, DropBack(is,j))
    [] o.op = "skip"  -> Eff(Drop(is,j), Take(is,j), <<>>)
    [] o.op = "rskip" -> Eff(Reverse(DropBack(is,j)), TakeBack(is,j), <<>>)
    [] o.op = "step"  -> \* step_by(j+1)
         LET sel == {i \in 1..n : (i-1) % (j+1) = 0} IN
         Eff([i \in 1..Cardinality(sel) |-> is[(i-1)*(j+1)+1]],
             SelectSeq([i \in 1..n |-> is[i] \o <<i>>], LAMBDA p : p[Len(p)] \notin sel), <<>>)
    [] o.op = "cdrop" -> Eff(<<>>, is, <<>>)
    [] OTHER -> Eff(<<>>, <<>>, is)

CurReply(c, o, exact) ==
  LET e == CurEff(c, o)
      own == c.kind \in OwnedKinds
      r == CASE o.op = "count" -> <<Len(c.items)>>
             [] o.op = "len" -> <<Len(c.items)>>
             [] OTHER -> ProjAll(c.kind, e.got)
  IN IF o.op = "hint" THEN [NoReply EXCEPT !.hint = Len(c.items), !.exact = exact]
     ELSE IF o.op = "cdbg" THEN ReplyS(ListStr(ItemStrs(c.kind, c.items, o.j), o.j))
     ELSE ReplyDG(r, IF own THEN Seconds(e.lost) ELSE <<>>, IF own THEN Seconds(e.got) ELSE <<>>)

\* New values written through the mutable references handed out, in order.
\* (skipped items get none)
CurWrites(c, o) ==
  IF c.kind \in MutKinds /\ o.vs # <<>> /\ Len(o.vs) = Len(CurEff(c, o).got)
  THEN LET g == CurEff(c, o).got
       IN [k \in ToSet(Firsts(g)) |-> o.vs[CHOOSE i \in 1..Len(g) : g[i][1] = k]]
  ELSE EmptyMap

CurNext(c, o) ==
  LET e == CurEff(c, o)  all == e.lost \o e.got
      front == o.op \in {"next","nth","find","tfold"}
      back  == o.op \in {"back","nthb","rfind","trfold"}
      ks == {all[i][1] : i \in 1..Len(all)}
      \* the call ran off its end
      dry == \/ o.op \in {"next","back","nth","nthb","find","rfind"} /\ e.got = <<>>
             \/ o.op \in {"tfold","trfold"} /\ Len(e.got) < o.j
  IN [c EXCEPT !.items = e.rest,
               !.lo = IF front THEN (IF dry THEN c.hi ELSE IF ks = {} THEN c.lo ELSE Max(ks) + 1) ELSE c.lo,
               !.hi = IF back  THEN (IF dry THEN c.lo ELSE IF ks = {} THEN c.hi ELSE Min(ks)) ELSE c.hi]

\* properties of the abstraction itself, checked wherever cursors are used
CurOK(c) == /\ c.lo <= c.hi
            /\ \A i \in 1..Len(c.items) : c.lo <= c.items[i][1] /\ c.items[i][1] < c.hi
            /\ \A i \in 1..Len(c.items)-1 : c.items[i][1] < c.items[i+1][1]
=============================================================================
