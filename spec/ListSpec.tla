----------------------------- MODULE ListSpec -----------------------------
(* The array list: a sequence of items 1..X. Bound = 0 is a growing list,    *)
(* otherwise a fixed size list that never holds more than Bound items.       *)
(* Positions count from 0. N limits the instance, not the list.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N, X, Bound, ExtLen, Codec, PosMax   \* PosMax: positions tried are -1..PosMax

VARIABLES L, ev, res
vars == <<L, ev, res>>

Items == 1..X
Fixed == Bound > 0
Full(q) == Fixed /\ Len(q) = Bound

TypeOK == /\ \A i \in 1..Len(L) : L[i] \in Items
          /\ Fixed => Len(L) <= Bound

Init == L = << >> /\ ev = <<"new">> /\ res = <<"ok">>
Step(op, r, l2) == ev' = op /\ res' = r /\ L' = l2
Bool(b) == IF b THEN <<"true">> ELSE <<"false">>

Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
InsertAt(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
RemoveAt(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
InRange(q, i) == 0 <= i /\ i < Len(q)
(* may the instance still grow? (a full fixed list may always be asked to) *)
Room(n) == Full(L) \/ Len(L) + n <= N

AddLast(name, x) == /\ Room(1)
                    /\ IF Full(L) THEN Step(<<name, x>>, <<"err">>, L)
                       ELSE Step(<<name, x>>, <<"ok">>, Append(L, x))
AppendOp(x) == AddLast("append", x)
Push(x)     == AddLast("push", x)
Insert(i, x) == /\ Room(1)
                /\ IF i < 0 \/ i > Len(L) \/ Full(L) THEN Step(<<"insert", i, x>>, <<"err">>, L)
                   ELSE Step(<<"insert", i, x>>, <<"ok">>, InsertAt(L, i, x))
Set(i, x)   == IF InRange(L, i) THEN Step(<<"set", i, x>>, <<"ok">>, [L EXCEPT ![i + 1] = x])
               ELSE Step(<<"set", i, x>>, <<"err">>, L)
Remove(i)   == IF InRange(L, i) THEN Step(<<"remove", i>>, <<"ok">>, RemoveAt(L, i))
               ELSE Step(<<"remove", i>>, <<"err">>, L)
Pop         == IF L = << >> THEN Step(<<"pop">>, <<"err">>, L)
               ELSE Step(<<"pop">>, <<"ok", L[Len(L)]>>, RemoveAt(L, Len(L) - 1))
Clear       == Step(<<"clear">>, <<"ok">>, << >>)
(* Extending a list that cannot take all of it fails; whether the part that   *)
(* fits is kept is left open. The result carries the size afterwards.         *)
Extend(q)   == IF Fixed /\ Len(L) + Len(q) > Bound
               THEN \E n \in {0, Bound - Len(L)} :
                      Step(<<"extend", q>>, <<"err", Len(L) + n>>, L \o SubSeq(q, 1, n))
               ELSE /\ Len(L) + Len(q) <= N
                    /\ Step(<<"extend", q>>, <<"ok", Len(L) + Len(q)>>, L \o q)
Get(i)      == Step(<<"get", i>>, IF InRange(L, i) THEN <<"ok", L[i + 1]>> ELSE <<"err">>, L)
Has(x)      == Step(<<"has", x>>, Bool(\E i \in 1..Len(L) : L[i] = x), L)

(* Serialization (see Codec): writing the list and reading it back into a     *)
(* fresh one gives an equal list of the same kind, so it changes nothing.     *)
(* written out and read back into a collection that is new (1) or was used *)
(* for something else (2..5)                                                *)
RoundTrip(t) == Step(<<"roundtrip", t>>, <<"ok">>, L)
(* with an item codec that fails on item 1 *)
BadWrite    == Step(<<"badwrite">>, IF \E i \in 1..Len(L) : L[i] = 1 THEN <<"err">> ELSE <<"ok">>, L)
BadRead     == Step(<<"badread">>, IF \E i \in 1..Len(L) : L[i] = 1 THEN <<"err">> ELSE <<"ok">>, L)

(* bytes of the wrong length for the type of item x *)
BadSize(x)  == Step(<<"badsize", x>>, <<"err">>, L)

(* The sort.Interface of a list: it works on the list itself *)
Less(i, j)  == Step(<<"less", i, j>>, Bool(L[i + 1] < L[j + 1]), L)
Swap(i, j)  == Step(<<"swap", i, j>>, <<"ok">>, [L EXCEPT ![i + 1] = L[j + 1], ![j + 1] = L[i + 1]])
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Sort        == Step(<<"sort">>, <<"ok", Len(L)>>, SortSeq(L, LAMBDA a, b : a < b))

Pos == (0 - 1)..PosMax
Next == \/ \E x \in Items : AppendOp(x) \/ Push(x) \/ Has(x)
        \/ \E i \in Pos : Get(i) \/ Remove(i) \/ (\E x \in Items : Insert(i, x) \/ Set(i, x))
        \/ \E n \in 0..ExtLen : \E q \in [1..n -> Items] : Extend(q)
        \/ Pop \/ Clear \/ Sort
        \/ \E i, j \in 0..(Len(L) - 1) : Less(i, j) \/ Swap(i, j)
        \/ (Codec /\ ((\E t \in 1..5 : RoundTrip(t)) \/ BadWrite \/ BadRead \/ (\E x \in Items : BadSize(x))))
Spec == Init /\ [][Next]_vars

Observe(q) == <<Len(q), q, Reverse(q), Bool(q = << >>), Bool(Full(q))>>

Mirror == Reverse(Reverse(L)) = L
Frame == [][ /\ (res' = <<"err">> => L' = L)
             /\ (ev'[1] \in {"append", "push", "insert"} /\ res' = <<"ok">> => Len(L') = Len(L) + 1)
             /\ (ev'[1] \in {"remove", "pop"} /\ res' # <<"err">> => Len(L') = Len(L) - 1)
             /\ (ev'[1] \in {"get", "has", "roundtrip", "badwrite", "badread", "badsize", "less"} => L' = L)
             /\ (ev'[1] \in {"sort", "swap"} => \A x \in Items : Count(L', x) = Count(L, x))
             /\ (ev'[1] = "sort" => \A i \in 2..Len(L') : L'[i - 1] <= L'[i]) ]_vars
===========================================================================
