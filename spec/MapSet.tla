------------------------------ MODULE MapSet ------------------------------
(* A map set: a map (see FiniteMap) that is at the same time a set of its    *)
(* entries. Two entries are equal when their keys are, so adding an entry    *)
(* whose key is present changes nothing.                                     *)
EXTENDS FiniteMap

CONSTANT ExtLen

RECURSIVE AddAll(_, _, _)
AddOne(f, e) == IF f[e[1]] = None THEN [f EXCEPT ![e[1]] = e[2]] ELSE f
AddAll(f, q, i) == IF i > Len(q) THEN f ELSE AddAll(AddOne(f, q[i]), q, i + 1)

Add(k, v)   == Step(<<"add", k, v>>, <<"ok">>, AddOne(m, <<k, v>>))
Item(k)     == Step(<<"item", k>>, IF m[k] = None THEN <<"err">> ELSE <<"ok", k, m[k]>>, m)
Delete(k)   == Step(<<"delete", k>>, IF m[k] = None THEN <<"err">> ELSE <<"ok">>, [m EXCEPT ![k] = None])
(* the same calls given an entry instead of a key *)
ItemE(k)    == Step(<<"iteme", k>>, IF m[k] = None THEN <<"err">> ELSE <<"ok", k, m[k]>>, m)
DeleteE(k)  == Step(<<"deletee", k>>, IF m[k] = None THEN <<"err">> ELSE <<"ok">>, [m EXCEPT ![k] = None])
HasE(k)     == Step(<<"hase", k>>, IF m[k] = None THEN <<"false">> ELSE <<"true">>, m)
(* something that is not an entry cannot be added *)
AddBare(k)  == Step(<<"addbare", k>>, <<"err">>, m)
Extend(q)   == Step(<<"extend", q>>, <<"ok">>, AddAll(m, q, 1))

NextMS == \/ Next
          \/ \E k \in Keys, v \in Vals : Add(k, v)
          \/ \E k \in Keys : Item(k) \/ Delete(k) \/ ItemE(k) \/ DeleteE(k) \/ HasE(k) \/ AddBare(k)
          \/ \E n \in 0..ExtLen : \E q \in [1..n -> Keys \X Vals] : Extend(q)
SpecMS == Init /\ [][NextMS]_vars

FrameMS == [][ /\ (res' = <<"err">> => m' = m)
               /\ (ev'[1] \in {"get", "has", "size", "item", "iteme", "hase"} => m' = m)
               /\ (ev'[1] \in {"add", "extend"} => \A k \in Keys : m[k] # None => m'[k] = m[k]) ]_vars
===========================================================================
