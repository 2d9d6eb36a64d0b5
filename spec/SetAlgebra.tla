---------------------------- MODULE SetAlgebra ----------------------------
(* Three sets: the operands 1 and 2, and 3, the result of the last set       *)
(* operation. Operations leave their operands alone and the result is a set  *)
(* of its own: later changes to any of the three affect no other.            *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT K

VARIABLES h,              \* <<A, B, R>>, each a membership function
          ev, res
vars == <<h, ev, res>>

Items == 1..K
None == [i \in Items |-> 0]
M(f) == {i \in Items : f[i] = 1}
F(S) == [i \in Items |-> IF i \in S THEN 1 ELSE 0]

TypeOK == \A j \in 1..3 : h[j] \in [Items -> 0..1]

RECURSIVE ListIn(_, _, _)
ListIn(f, lo, hi) ==
  IF lo > hi THEN << >>
  ELSE IF lo = hi THEN (IF f[lo] = 1 THEN <<lo>> ELSE << >>)
  ELSE LET mid == (lo + hi) \div 2 IN ListIn(f, lo, mid) \o ListIn(f, mid + 1, hi)
Listing(f) == ListIn(f, 1, K)

Obs1(f) == <<Cardinality(M(f)), Listing(f)>>

Init == h = <<None, None, None>> /\ ev = <<"new">> /\ res = <<"ok">>
Step(op, r, h2) == ev' = op /\ res' = r /\ h' = h2
Bool(b) == IF b THEN <<"true">> ELSE <<"false">>

Add(j, i)    == Step(<<"add", j, i>>, <<"ok">>, [h EXCEPT ![j][i] = 1])
Delete(j, i) == Step(<<"delete", j, i>>, IF h[j][i] = 1 THEN <<"ok">> ELSE <<"err">>, [h EXCEPT ![j][i] = 0])
Has(j, i)    == Step(<<"has", j, i>>, Bool(h[j][i] = 1), h)

(* operations on operands a and b, which may be the same set or an earlier  *)
(* result                                                                    *)
Union(a, b)     == Step(<<"union", a, b>>, <<"ok">>, [h EXCEPT ![3] = F(M(h[a]) \cup M(h[b]))])
Intersect(a, b) == Step(<<"intersect", a, b>>, <<"ok">>, [h EXCEPT ![3] = F(M(h[a]) \cap M(h[b]))])
Subtract(a, b)  == Step(<<"subtract", a, b>>, <<"ok">>, [h EXCEPT ![3] = F(M(h[a]) \ M(h[b]))])
Subset(a, b)    == Step(<<"subset", a, b>>, Bool(M(h[a]) \subseteq M(h[b])), h)
Superset(a, b)  == Step(<<"superset", a, b>>, Bool(M(h[b]) \subseteq M(h[a])), h)
PSubset(a, b)   == Step(<<"psubset", a, b>>, Bool(M(h[a]) \subseteq M(h[b]) /\ h[a] # h[b]), h)
PSuperset(a, b) == Step(<<"psuperset", a, b>>, Bool(M(h[b]) \subseteq M(h[a]) /\ h[a] # h[b]), h)
Overlap(a, b)   == Step(<<"overlap", a, b>>, Bool(M(h[a]) \cap M(h[b]) # {}), h)

(* the same with the result only looked at (for concurrent callers) *)
UnionQ(a, b)     == Step(<<"unionq", a, b>>, <<"ok", Obs1(F(M(h[a]) \cup M(h[b])))>>, h)
IntersectQ(a, b) == Step(<<"intersectq", a, b>>, <<"ok", Obs1(F(M(h[a]) \cap M(h[b])))>>, h)
SubtractQ(a, b)  == Step(<<"subtractq", a, b>>, <<"ok", Obs1(F(M(h[a]) \ M(h[b])))>>, h)

Pairs == {<<1, 2>>, <<2, 1>>, <<1, 1>>, <<3, 2>>, <<1, 3>>}
Next == \/ \E j \in 1..3, i \in Items : Add(j, i) \/ Delete(j, i) \/ Has(j, i)
        \/ \E p \in Pairs : \/ Union(p[1], p[2]) \/ Intersect(p[1], p[2]) \/ Subtract(p[1], p[2])
                            \/ Subset(p[1], p[2]) \/ Superset(p[1], p[2])
                            \/ PSubset(p[1], p[2]) \/ PSuperset(p[1], p[2]) \/ Overlap(p[1], p[2])
Spec == Init /\ [][Next]_vars

Observe(x) == <<Obs1(x[1]), Obs1(x[2]), Obs1(x[3])>>

Untouched == [][ /\ (ev'[1] \in {"union", "intersect", "subtract"} => h'[1] = h[1] /\ h'[2] = h[2])
                 /\ (ev'[1] \in {"subset", "superset", "psubset", "psuperset", "overlap", "has"} => h' = h)
                 /\ (ev'[1] \in {"add", "delete"} => \A j \in 1..3 : j # ev'[2] => h'[j] = h[j]) ]_vars
===========================================================================
