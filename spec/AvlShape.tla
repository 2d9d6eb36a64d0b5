----------------------------- MODULE AvlShape -----------------------------
(* Shape of a height balanced binary search tree. A tree is << >> or         *)
(* <<left, key, right>>.                                                     *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets


LOCAL Max2(a, b) == IF a > b THEN a ELSE b

(* Height of an AVL tree whose keys all lie strictly between lo and hi, or a  *)
(* negative number if t is not one.                                          *)
RECURSIVE AvlHeight(_, _, _)
AvlHeight(t, lo, hi) ==
  IF Len(t) = 0 THEN 0
  ELSE IF Len(t) # 3 THEN 0 - 1
  ELSE IF ~(lo < t[2] /\ t[2] < hi) THEN 0 - 1
  ELSE LET a == AvlHeight(t[1], lo, t[2])
           b == AvlHeight(t[3], t[2], hi)
       IN IF a < 0 \/ b < 0 \/ a > b + 1 \/ b > a + 1 THEN 0 - 1
          ELSE Max2(a, b) + 1

RECURSIVE TreeKeys(_)
TreeKeys(t) == IF Len(t) # 3 THEN {} ELSE TreeKeys(t[1]) \cup {t[2]} \cup TreeKeys(t[3])

RECURSIVE NodeCount(_)
NodeCount(t) == IF Len(t) # 3 THEN 0 ELSE NodeCount(t[1]) + 1 + NodeCount(t[3])

(* smallest number of keys in an AVL tree of height h *)
RECURSIVE MinNodes(_)
MinNodes(h) == IF h = 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + MinNodes(h - 1) + MinNodes(h - 2)

(* t is an AVL tree holding exactly these keys *)
WellShaped(t, keys) ==
  /\ AvlHeight(t, 0 - 1000000, 1000000) >= 0
  /\ TreeKeys(t) = keys
  /\ NodeCount(t) = Cardinality(keys)
===========================================================================
