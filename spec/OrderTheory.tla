---------------------------- MODULE OrderTheory ----------------------------
(* Equality, order and hashing. Values of a scalar type are its ranks 1..R   *)
(* (the driver has the actual values, in ascending order by Go's own         *)
(* comparison); a list is a sequence of ranks. Nothing has state: every call *)
(* is a question with one answer.                                            *)
EXTENDS Naturals, Sequences

CONSTANTS R,     \* ranks
          L,     \* longest list
          Kind   \* "scalar", "cross" or "seq"

VARIABLES m, ev, res
vars == <<m, ev, res>>

B(p) == IF p THEN 1 ELSE 0

(* the answer to every comparison of a with b: a = b, b = a, a < b, b < a,   *)
(* and whether the hashes are as they have to be                             *)
Answer(eq, lt, gt) == <<"ok", B(eq), B(eq), B(lt), B(gt), 1>>

Lex(x, y) == LET d == {i \in 1..Len(x) : x[i] # y[i]}
             IN  d # {} /\ LET i == CHOOSE j \in d : \A k \in d : j <= k IN x[i] < y[i]
(* shorter lists first, then item by item *)
LessSeq(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ Lex(x, y))

Step(op, r) == ev' = op /\ res' = r /\ m' = m

Cmp(a, b)    == Step(<<"cmp", a, b>>, Answer(a = b, a < b, b < a))
(* values of two different scalar types are neither equal nor ordered *)
Cross(a, b)  == Step(<<"cross", a, b>>, <<"ok", 0, 0, 0, 0>>)
CmpSeq(x, y) == Step(<<"seq", x, y>>, Answer(x = y, LessSeq(x, y), LessSeq(y, x)))

Seqs(n) == UNION {[1..k -> 1..R] : k \in 0..n}

Init == m = 0 /\ ev = <<"new">> /\ res = <<"ok">>
Next == CASE Kind = "scalar" -> \E a \in 1..R, b \in 1..R : Cmp(a, b)
          [] Kind = "cross"  -> \E a \in 1..R, b \in 1..R : Cross(a, b)
          [] Kind = "seq"    -> \E x \in Seqs(L), y \in Seqs(L) : CmpSeq(x, y)
Spec == Init /\ [][Next]_vars

(* the answers above are those of a strict total order *)
S2 == UNION {[1..k -> 1..2] : k \in 0..3}
Total == m = 0 =>
  \A x \in S2, y \in S2 :
    /\ B(LessSeq(x, y)) + B(LessSeq(y, x)) + B(x = y) = 1
    /\ \A z \in S2 : LessSeq(x, y) /\ LessSeq(y, z) => LessSeq(x, z)
Observe == <<"ok">>
============================================================================
