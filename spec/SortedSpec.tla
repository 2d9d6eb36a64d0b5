---------------------------- MODULE SortedSpec ----------------------------
(* The sorted list, with (Dups) or without duplicates, growing (Bound = 0)   *)
(* or of fixed size: always the ascending sequence of the items it holds.    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, X, Bound, Dups, ExtLen, Codec, PosMax

VARIABLES L, ev, res
vars == <<L, ev, res>>

Items == 1..X
Fixed == Bound > 0
Full(q) == Fixed /\ Len(q) = Bound
Member(q, x) == \E i \in 1..Len(q) : q[i] = x
Below(q, x) == Cardinality({i \in 1..Len(q) : q[i] < x})   \* position of x

Sorted == /\ \A i \in 1..(Len(L) - 1) : L[i] <= L[i + 1]
          /\ ~Dups => \A i \in 1..(Len(L) - 1) : L[i] # L[i + 1]
          /\ Fixed => Len(L) <= Bound

Init == L = << >> /\ ev = <<"new">> /\ res = <<"ok">>
Step(op, r, l2) == ev' = op /\ res' = r /\ L' = l2
Bool(b) == IF b THEN <<"true">> ELSE <<"false">>

Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
RemoveAt(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
InRange(q, i) == 0 <= i /\ i < Len(q)
Insert(q, x) == LET p == Below(q, x) IN SubSeq(q, 1, p) \o <<x>> \o SubSeq(q, p + 1, Len(q))
Grows(q, x) == Dups \/ ~Member(q, x)
(* one Add: new contents and whether it succeeded *)
Add1(q, x) == IF ~Grows(q, x) THEN q ELSE IF Full(q) THEN q ELSE Insert(q, x)
Ok1(q, x)  == ~Grows(q, x) \/ ~Full(q)
RECURSIVE AddAll(_, _, _)
AddAll(q, a, i) == IF i > Len(a) THEN q ELSE IF ~Ok1(q, a[i]) THEN q ELSE AddAll(Add1(q, a[i]), a, i + 1)
RECURSIVE AllOk(_, _, _)
AllOk(q, a, i) == IF i > Len(a) THEN TRUE ELSE Ok1(q, a[i]) /\ AllOk(Add1(q, a[i]), a, i + 1)

Add(x)    == /\ Ok1(L, x) => Len(Add1(L, x)) <= N
             /\ Step(<<"add", x>>, IF Ok1(L, x) THEN <<"ok">> ELSE <<"err">>, Add1(L, x))
Delete(x) == IF Member(L, x) THEN Step(<<"delete", x>>, <<"ok">>, RemoveAt(L, Below(L, x)))
             ELSE Step(<<"delete", x>>, <<"err">>, L)
Remove(i) == IF InRange(L, i) THEN Step(<<"remove", i>>, <<"ok">>, RemoveAt(L, i))
             ELSE Step(<<"remove", i>>, <<"err">>, L)
Clear     == Step(<<"clear">>, <<"ok">>, << >>)
(* whether a failing Extend keeps what fitted is left open *)
Extend(a) == IF AllOk(L, a, 1)
             THEN /\ Len(AddAll(L, a, 1)) <= N
                  /\ Step(<<"extend", a>>, <<"ok", Len(AddAll(L, a, 1))>>, AddAll(L, a, 1))
             ELSE \E q \in {L, AddAll(L, a, 1)} : Step(<<"extend", a>>, <<"err", Len(q)>>, q)
Find(x)   == Step(<<"find", x>>, <<"ok", Below(L, x), IF Member(L, x) THEN 1 ELSE 0>>, L)
Has(x)    == Step(<<"has", x>>, Bool(Member(L, x)), L)
Item(x)   == Step(<<"item", x>>, IF Member(L, x) THEN <<"ok", x>> ELSE <<"err">>, L)
Get(i)    == Step(<<"get", i>>, IF InRange(L, i) THEN <<"ok", L[i + 1]>> ELSE <<"err">>, L)

RoundTrip(t) == Step(<<"roundtrip", t>>, <<"ok">>, L)   \* t: see ListSpec
BadWrite  == Step(<<"badwrite">>, IF Member(L, 1) THEN <<"err">> ELSE <<"ok">>, L)
BadRead   == Step(<<"badread">>, IF Member(L, 1) THEN <<"err">> ELSE <<"ok">>, L)

Pos == (0 - 1)..PosMax
Next == \/ \E x \in Items : Add(x) \/ Delete(x) \/ Find(x) \/ Has(x) \/ Item(x)
        \/ \E i \in Pos : Get(i) \/ Remove(i)
        \/ \E n \in 0..ExtLen : \E q \in [1..n -> Items] : Extend(q)
        \/ Clear
        \/ (Codec /\ ((\E t \in 1..5 : RoundTrip(t)) \/ BadWrite \/ BadRead))
Spec == Init /\ [][Next]_vars

Observe(q) == <<Len(q), q, Reverse(q), Bool(q = << >>), Bool(Full(q))>>

Frame == [][ /\ (res' = <<"err">> => L' = L)
             /\ (ev'[1] \in {"get", "has", "find", "item", "roundtrip", "badwrite", "badread"} => L' = L)
             /\ (ev'[1] = "add" => \A x \in Items : Member(L, x) => Member(L', x))
             /\ (ev'[1] = "delete" /\ res' = <<"ok">> => Len(L') = Len(L) - 1) ]_vars
===========================================================================
