----------------------------- MODULE Traversal -----------------------------
(* Tree traversals. A binary tree is << >> or <<left, label, right>>; a tree *)
(* with any number of children is <<label, children>>.                       *)
EXTENDS Naturals, Sequences

CONSTANTS N,    \* largest number of nodes
          Kind  \* "binary", "nary" or "chain"

VARIABLES m, ev, res
vars == <<m, ev, res>>

(* ---- orders *)
RECURSIVE In(_), Pre(_), Post(_), Kids(_)
In(t)   == IF t = << >> THEN << >> ELSE In(t[1]) \o <<t[2]>> \o In(t[3])
Pre(t)  == IF t = << >> THEN << >> ELSE <<t[2]>> \o Pre(t[1]) \o Pre(t[3])
Post(t) == IF t = << >> THEN << >> ELSE Post(t[1]) \o Post(t[3]) \o <<t[2]>>
Root(t) == IF t = << >> THEN << >> ELSE <<t[2]>>
(* the labels of the children of every node, nodes in pre-order *)
Kids(t) == IF t = << >> THEN << >> ELSE <<Root(t[1]) \o Root(t[3])>> \o Kids(t[1]) \o Kids(t[3])

RECURSIVE NPre(_), NPost(_), NKids(_), Cat(_, _)
NPre(t)  == <<t[1]>> \o Cat("pre", t[2])
NPost(t) == Cat("post", t[2]) \o <<t[1]>>
NKids(t) == << [i \in 1..Len(t[2]) |-> t[2][i][1]] >> \o Cat("kids", t[2])
Cat(o, f) == IF f = << >> THEN << >>
             ELSE LET h == Head(f)
                  IN (CASE o = "pre" -> NPre(h) [] o = "post" -> NPost(h) [] o = "kids" -> NKids(h)) \o Cat(o, Tail(f))

(* ---- all trees *)
RECURSIVE Trees(_, _), Forests(_, _)
(* binary trees whose labels are lo..hi in in-order *)
Trees(lo, hi) == IF lo > hi THEN {<< >>}
                 ELSE UNION {{<<a, k, b>> : a \in Trees(lo, k - 1), b \in Trees(k + 1, hi)} : k \in lo..hi}
(* sequences of trees whose labels are lo..hi in pre-order *)
Forests(lo, hi) == IF lo > hi THEN {<< >>}
                   ELSE UNION {{<< <<lo, f>> >> \o g : f \in Forests(lo + 1, k), g \in Forests(k + 1, hi)} : k \in lo..hi}
NTrees(n) == {<<1, f>> : f \in Forests(2, n)}

Step(op, r) == ev' = op /\ res' = r /\ m' = m

Binary(t) == \/ Step(<<"in", t>>, <<"ok", In(t)>>)
             \/ Step(<<"pre", t>>, <<"ok", Pre(t)>>)
             \/ Step(<<"post", t>>, <<"ok", Post(t)>>)
             \/ Step(<<"kids", t>>, <<"ok", Kids(t)>>)
Nary(t) == \/ Step(<<"npre", t>>, <<"ok", NPre(t)>>)
           \/ Step(<<"npost", t>>, <<"ok", NPost(t)>>)
           \/ Step(<<"nkids", t>>, <<"ok", NKids(t)>>)

(* iterators over c[1], c[2], ... elements, numbered through *)
RECURSIVE Sum(_)
Sum(c) == IF c = << >> THEN 0 ELSE Head(c) + Sum(Tail(c))
Chain(c) == Step(<<"chain", c>>, <<"ok", [i \in 1..Sum(c) |-> i]>>)

Init == m = 0 /\ ev = <<"new">> /\ res = <<"ok">>
Next == CASE Kind = "binary" -> \E n \in 0..N : \E t \in Trees(1, n) : Binary(t)
          [] Kind = "nary"   -> \E n \in 1..N : \E t \in NTrees(n) : Nary(t)
          [] Kind = "chain"  -> \E k \in 1..N : \E c \in [1..k -> 0..3] : Chain(c)
Spec == Init /\ [][Next]_vars

(* what the orders mean *)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RECURSIVE Sub(_)
Sub(t) == IF t = << >> THEN {} ELSE {t} \cup Sub(t[1]) \cup Sub(t[3])
OrdersOK == m = 0 =>
  \A n \in 0..5 : \A t \in Trees(1, n) :
    /\ In(t) = [i \in 1..n |-> i]
    /\ Len(Pre(t)) = n /\ Len(Post(t)) = n
    /\ \A i \in 1..n : \E j \in 1..n : Pre(t)[j] = i
    /\ \A i \in 1..n : \E j \in 1..n : Post(t)[j] = i
    /\ \A s \in Sub(t) : \A c \in (Sub(s) \ {s}) :
         /\ Pos(Pre(t), s[2]) < Pos(Pre(t), c[2])
         /\ Pos(Post(t), s[2]) > Pos(Post(t), c[2])
Observe == <<"ok">>
============================================================================
