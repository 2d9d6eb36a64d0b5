---------------------------- MODULE LookupCost ----------------------------
(* What finding an item may cost. A collection is a FiniteMap whose every    *)
(* call also has a cost: how many times it compared or hashed a key. Trees   *)
(* and sorted collections look a key up with a number of comparisons that is *)
(* logarithmic in the number of entries they have held at most, hash tables  *)
(* with a number that does not depend on it, given hashes that spread the    *)
(* keys. Changes may cost more now and then (a table grows, a tree is        *)
(* rebalanced), but not on average.                                          *)
EXTENDS FiniteMap

CONSTANTS Hashed,         \* a hash table?
          Node            \* entries per node, for trees with wide nodes

VARIABLES peak,           \* largest number of entries so far
          size,           \* number of entries
          calls, total    \* number of calls and sum of their costs

cvars == <<m, ev, res, peak, size, calls, total>>

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

Max(a, b) == IF a < b THEN b ELSE a

(* a lookup among n entries, and a change on average *)
Limit(n)   == IF Hashed THEN 24 ELSE 20 + 6 * (Log2(n) + 1)
Average(n) == IF Hashed THEN 24 ELSE 2 * (Limit(n) + Node)

CInit == Init /\ peak = 0 /\ size = 0 /\ calls = 0 /\ total = 0

Added(f, g, k)   == f[k] = None /\ g[k] # None
Dropped(f, g, k) == f[k] # None /\ g[k] = None

(* call A for key k, which costs c *)
Paid(A, k, c) ==
  /\ A
  /\ size' = size + (IF Added(m, m', k) THEN 1 ELSE 0) - (IF Dropped(m, m', k) THEN 1 ELSE 0)
  /\ peak' = Max(peak, size')
  /\ calls' = calls + 1
  /\ total' = total + c
  /\ total' <= calls' * Average(peak')
  /\ ev'[1] \in {"get", "has"} => c <= Limit(peak')

CNext(Costs) ==
  \E k \in Keys, c \in Costs :
    \/ \E v \in Vals : Paid(Put(k, v), k, c)
    \/ Paid(Get(k), k, c) \/ Paid(Has(k), k, c) \/ Paid(Remove(k), k, c)

(* the count kept along is the size, and budgets never shrink *)
SizeKept  == size = Size(m) /\ size <= peak
InBudget  == total <= calls * Average(peak)
Monotone  == \A a, b \in 0..64 : a <= b => Limit(a) <= Limit(b)
SmallCosts == {0, 1, 20, 64}
FewCalls  == calls <= 4
MCNext    == CNext(SmallCosts)
MCSpec    == CInit /\ [][MCNext]_cvars
===========================================================================
