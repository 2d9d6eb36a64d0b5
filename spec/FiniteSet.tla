----------------------------- MODULE FiniteSet ----------------------------
(* A set over a map, or a sorted set, seen through types.Set: a finite set   *)
(* of items 1..K. s[i] = 1 iff i is a member.                                *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS K, ExtLen       \* items; longest sequence given to Extend

VARIABLES s, ev, res
vars == <<s, ev, res>>

Items == 1..K
Members(f) == {i \in DOMAIN f : f[i] = 1}
Size(f) == Cardinality(Members(f))

TypeOK == s \in [Items -> 0..1]

RECURSIVE ListIn(_, _, _)
ListIn(f, lo, hi) ==
  IF lo > hi THEN << >>
  ELSE IF lo = hi THEN (IF f[lo] = 1 THEN <<lo>> ELSE << >>)
  ELSE LET mid == (lo + hi) \div 2
       IN ListIn(f, lo, mid) \o ListIn(f, mid + 1, hi)
(* the members in ascending order *)
Listing(f) == ListIn(f, 1, Len(f))

Init == s = [i \in Items |-> 0] /\ ev = <<"new">> /\ res = <<"ok">>

Step(op, r, s2) == ev' = op /\ res' = r /\ s' = s2

Bool(b) == IF b THEN <<"true">> ELSE <<"false">>
RECURSIVE AddAll(_, _, _)
AddAll(f, q, i) == IF i > Len(q) THEN f ELSE AddAll([f EXCEPT ![q[i]] = 1], q, i + 1)

Add(i)     == Step(<<"add", i>>, <<"ok">>, [s EXCEPT ![i] = 1])
Delete(i)  == Step(<<"delete", i>>, IF s[i] = 1 THEN <<"ok">> ELSE <<"err">>, [s EXCEPT ![i] = 0])
Has(i)     == Step(<<"has", i>>, Bool(s[i] = 1), s)
SizeOp     == Step(<<"size">>, <<"ok", Size(s)>>, s)
Extend(q)  == Step(<<"extend", q>>, <<"ok">>, AddAll(s, q, 1))
(* the stored item equal to i (not for sets over maps, which do not offer it) *)
Item(i)    == Step(<<"item", i>>, IF s[i] = 1 THEN <<"ok", i>> ELSE <<"err">>, s)
(* some member, chosen at random *)
Random     == IF Size(s) = 0 THEN Step(<<"random">>, <<"err">>, s)
              ELSE \E i \in Members(s) : Step(<<"random">>, <<"ok", i>>, s)

Next == \/ \E i \in Items : Add(i) \/ Delete(i) \/ Has(i) \/ Item(i)
        \/ \E n \in 0..ExtLen : \E q \in [1..n -> Items] : Extend(q)
        \/ SizeOp \/ Random
Spec == Init /\ [][Next]_vars

Observe(f) == <<Size(f), Listing(f)>>

ListingOK == LET q == Listing(s) IN
  /\ Len(q) = Size(s)
  /\ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
  /\ \A i \in 1..Len(q) : s[q[i]] = 1
Frame == [][ /\ (res' = <<"err">> => s' = s)
             /\ (ev'[1] \in {"has", "size", "item", "random"} => s' = s)
             /\ (ev'[1] \in {"add", "extend"} => Members(s) \subseteq Members(s')) ]_vars
===========================================================================
