---------------------------- MODULE FiniteMap ----------------------------
(* The library's maps (AVL trees, hash tables, B+ map, map set) seen        *)
(* through types.MapOperable: a finite partial function from keys to        *)
(* values. Keys are 1..K in the order the implementation sorts them; 0      *)
(* stands for "absent".                                                     *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS K, V            \* number of keys and of values

VARIABLES m,              \* the map
          ev,             \* last operation, with its arguments
          res             \* its result

vars == <<m, ev, res>>

Keys == 1..K
Vals == 1..V
None == 0

Present(f)  == {k \in DOMAIN f : f[k] # None}
Size(f)     == Cardinality(Present(f))

TypeOK == m \in [Keys -> 0..V]

RECURSIVE EntriesIn(_, _, _)
EntriesIn(f, lo, hi) ==
  IF lo > hi THEN << >>
  ELSE IF lo = hi THEN (IF f[lo] = None THEN << >> ELSE << <<lo, f[lo]>> >>)
  ELSE LET mid == (lo + hi) \div 2
       IN EntriesIn(f, lo, mid) \o EntriesIn(f, mid + 1, hi)

(* ascending sequence of <<key, value>> *)
Entries(f) == EntriesIn(f, 1, Len(f))

Init == /\ m = [k \in Keys |-> None]
        /\ ev = <<"new">>
        /\ res = <<"ok">>

Step(op, r, m2) == ev' = op /\ res' = r /\ m' = m2

PutR(f, k, v)  == [f EXCEPT ![k] = v]
Put(k, v)  == Step(<<"put", k, v>>, <<"ok">>, PutR(m, k, v))
Get(k)     == Step(<<"get", k>>, IF m[k] = None THEN <<"err">> ELSE <<"ok", m[k]>>, m)
Has(k)     == Step(<<"has", k>>, IF m[k] = None THEN <<"false">> ELSE <<"true">>, m)
Remove(k)  == Step(<<"remove", k>>, IF m[k] = None THEN <<"err">> ELSE <<"ok", m[k]>>,
                   [m EXCEPT ![k] = None])
SizeOp     == Step(<<"size">>, <<"ok", Size(m)>>, m)

Next == \/ \E k \in Keys, v \in Vals : Put(k, v)
        \/ \E k \in Keys : Get(k) \/ Has(k) \/ Remove(k)
        \/ SizeOp

Spec == Init /\ [][Next]_vars

(* What a client sees of a whole map. *)
Observe(f) == <<Size(f), Entries(f)>>

(* Properties of the specification itself, checked by TLC. *)
EntriesSorted == LET e == Entries(m) IN
  /\ Len(e) = Size(m)
  /\ \A i \in 1..(Len(e) - 1) : e[i][1] < e[i + 1][1]
  /\ \A i \in 1..Len(e) : m[e[i][1]] = e[i][2]

(* A failed operation changes nothing; only the named key changes. *)
Frame == [][ /\ (res' = <<"err">> => m' = m)
             /\ \A k \in Keys : m'[k] # m[k] => (Len(ev') > 1 /\ ev'[2] = k)
             /\ (ev'[1] \in {"get", "has", "size"} => m' = m) ]_vars
===========================================================================
