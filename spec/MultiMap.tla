----------------------------- MODULE MultiMap -----------------------------
(* The B+ tree: a bag of entries; c[k][v] copies of value v under key k.     *)
(* Only every Gap-th key is ever stored, so that with Gap = 2 range bounds   *)
(* fall below, between and above the stored keys too. The order of entries   *)
(* under one key is left open. N limits the instance.                        *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS K, V, N, Gap, Ranges

VARIABLES c, ev, res
vars == <<c, ev, res>>

Keys   == 1..K
Stored == {k \in Keys : k % Gap = 0}
Vals   == 1..V
Empty  == [k \in Keys |-> [v \in Vals |-> 0]]

RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
Count(f, k) == SumTo(f[k], V)
RECURSIVE SizeIn(_, _, _)
SizeIn(f, lo, hi) == IF lo > hi THEN 0 ELSE IF lo = hi THEN Count(f, lo)
                     ELSE LET mid == (lo + hi) \div 2 IN SizeIn(f, lo, mid) + SizeIn(f, mid + 1, hi)
Size(f) == SizeIn(f, 1, K)

TypeOK == \A k \in Keys, v \in Vals : c[k][v] \in 0..N /\ (c[k][v] > 0 => k \in Stored)

(* The entries from lo to hi, grouped by key: <<key, copies of each value>> *)
RECURSIVE Up(_, _, _)
Up(f, lo, hi) ==
  IF lo > hi THEN << >>
  ELSE IF lo = hi THEN (IF Count(f, lo) = 0 THEN << >> ELSE << <<lo, f[lo]>> >>)
  ELSE LET mid == (lo + hi) \div 2 IN Up(f, lo, mid) \o Up(f, mid + 1, hi)
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Forward(f)  == Up(f, 1, K)
Backward(f) == Reverse(Forward(f))
RangeOf(f, a, b) == IF a <= b THEN Up(f, a, b) ELSE Reverse(Up(f, b, a))

(* Predicates on values: 0 none, w <= V exactly w, V + 1 all, V + 2 all but 1 *)
Preds == 0..(V + 2)
Sat(w, v) == IF w = V + 1 THEN TRUE ELSE IF w = V + 2 THEN v # 1 ELSE v = w

Init == c = Empty /\ ev = <<"new">> /\ res = <<"ok">>
Step(op, r, c2) == ev' = op /\ res' = r /\ c' = c2
Bool(b) == IF b THEN <<"true">> ELSE <<"false">>

Add(k, v) == /\ Size(c) < N
             /\ Step(<<"add", k, v>>, <<"ok">>, [c EXCEPT ![k][v] = @ + 1])
Hit(k, w) == \E v \in Vals : c[k][v] > 0 /\ Sat(w, v)
Matched(k, w) == SumTo([v \in Vals |-> IF Sat(w, v) THEN c[k][v] ELSE 0], V)
Replace(k, w, v) ==
  Step(<<"replace", k, w, v>>, <<"ok">>,
       [c EXCEPT ![k] = [u \in Vals |-> (IF Sat(w, u) THEN 0 ELSE c[k][u]) + (IF u = v THEN Matched(k, w) ELSE 0)]])
(* removing nothing may be reported as an error or not *)
RemoveWhere(k, w) ==
  IF Hit(k, w)
  THEN Step(<<"removewhere", k, w>>, <<"ok">>, [c EXCEPT ![k] = [u \in Vals |-> IF Sat(w, u) THEN 0 ELSE c[k][u]]])
  ELSE \E r \in {<<"ok">>, <<"err">>} : Step(<<"removewhere", k, w>>, r, c)
Has(k)     == Step(<<"has", k>>, Bool(Count(c, k) > 0), c)
CountOp(k) == Step(<<"count", k>>, <<"ok", Count(c, k)>>, c)
Find(k)    == Step(<<"find", k>>, <<"ok", Up(c, k, k)>>, c)
SizeOp     == Step(<<"size">>, <<"ok", Size(c)>>, c)
Range(a, b) == Step(<<"range", a, b>>, <<"ok", RangeOf(c, a, b)>>, c)

Next == \/ \E k \in Stored, v \in Vals : Add(k, v)
        \/ \E k \in Keys : \/ Has(k) \/ CountOp(k) \/ Find(k)
                           \/ \E w \in Preds : RemoveWhere(k, w) \/ (\E v \in Vals : Replace(k, w, v))
        \/ SizeOp
        \/ (Ranges /\ \E a, b \in Keys : Range(a, b))
Spec == Init /\ [][Next]_vars

KeysOf(f) == LET q == Forward(f) IN [i \in 1..Len(q) |-> q[i][1]]
Observe(f) == <<Size(f), Forward(f), Backward(f), KeysOf(f)>>

RangesOK == \A a, b \in Keys : LET q == RangeOf(c, a, b) IN
  /\ \A i \in 1..(Len(q) - 1) : IF a <= b THEN q[i][1] < q[i + 1][1] ELSE q[i][1] > q[i + 1][1]
  /\ \A k \in Keys : (Count(c, k) > 0 /\ ((a <= k /\ k <= b) \/ (b <= k /\ k <= a)))
                     <=> (\E i \in 1..Len(q) : q[i] = <<k, c[k]>>)
Frame == [][ /\ (ev'[1] \in {"has", "count", "find", "size", "range"} => c' = c)
             /\ (ev'[1] = "replace" => Size(c') = Size(c))
             /\ (ev'[1] = "add" => Size(c') = Size(c) + 1)
             /\ (\A k \in Keys : c'[k] # c[k] => (Len(ev') > 1 /\ ev'[2] = k))
             /\ (res' = <<"err">> => c' = c) ]_vars
===========================================================================
