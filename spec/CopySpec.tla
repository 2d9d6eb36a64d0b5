----------------------------- MODULE CopySpec -----------------------------
(* A source S and a copy C of it, each a list, a sorted list ("sorted" with  *)
(* duplicates, "uniq" without) or a plain slice. Copying sets C to what S    *)
(* holds; afterwards operations on one do not show in the other. SB and CB   *)
(* are the bounds of the two (0: growing).                                   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, X, SK, CK, SB, CB

VARIABLES S, C,           \* contents
          made,           \* has a copy been made?
          ev, res
vars == <<S, C, made, ev, res>>

Items == 1..X
Below(q, x) == Cardinality({i \in 1..Len(q) : q[i] < x})
Member(q, x) == \E i \in 1..Len(q) : q[i] = x
InsertAt(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
RemoveAt(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
RECURSIVE Ins(_, _, _, _)
Ins(q, a, i, dups) == IF i > Len(a) THEN q
  ELSE Ins(IF dups \/ ~Member(q, a[i]) THEN InsertAt(q, Below(q, a[i]), a[i]) ELSE q, a, i + 1, dups)
Conv(q) == CASE CK = "sorted" -> Ins(<< >>, q, 1, TRUE)
             [] CK = "uniq"   -> Ins(<< >>, q, 1, FALSE)
             [] OTHER         -> q

Init == S = << >> /\ C = << >> /\ made = 0 /\ ev = <<"new">> /\ res = <<"ok">>

(* an operation on side j (1 source, 2 copy) with outcome r and contents q *)
Put(j, op, r, q) == /\ ev' = op /\ res' = r /\ UNCHANGED made
                    /\ IF j = 1 THEN S' = q /\ C' = C ELSE C' = q /\ S' = S
Cur(j) == IF j = 1 THEN S ELSE C
Kind(j) == IF j = 1 THEN SK ELSE CK
Bd(j) == IF j = 1 THEN SB ELSE CB
Full(j) == Bd(j) > 0 /\ Len(Cur(j)) = Bd(j)
Room(j) == Len(Cur(j)) < N \/ Full(j)
InRange(q, i) == 0 <= i /\ i < Len(q)

MakeCopy == /\ ev' = <<"copy">> /\ res' = <<"ok">> /\ C' = Conv(S) /\ made' = 1 /\ S' = S

OkIf(b) == IF b THEN <<"ok">> ELSE <<"err">>
AppendOp(j, x) == Room(j) /\ Put(j, <<"append", j, x>>, OkIf(~Full(j)), IF Full(j) THEN Cur(j) ELSE Append(Cur(j), x))
Insert(j, i, x) == /\ Room(j)
                   /\ LET ok == ~Full(j) /\ 0 <= i /\ i <= Len(Cur(j))
                      IN Put(j, <<"insert", j, i, x>>, OkIf(ok), IF ok THEN InsertAt(Cur(j), i, x) ELSE Cur(j))
Set(j, i, x) == LET ok == InRange(Cur(j), i)
                IN Put(j, <<"set", j, i, x>>, OkIf(ok), IF ok THEN [Cur(j) EXCEPT ![i + 1] = x] ELSE Cur(j))
Remove(j, i) == LET ok == InRange(Cur(j), i)
                IN Put(j, <<"remove", j, i>>, OkIf(ok), IF ok THEN RemoveAt(Cur(j), i) ELSE Cur(j))
Clear(j) == Put(j, <<"clear", j>>, <<"ok">>, << >>)
Add(j, x) == LET q == Cur(j)
                 grows == Kind(j) = "sorted" \/ ~Member(q, x)
                 ok == ~(grows /\ Full(j))
             IN /\ (grows => Room(j))
                /\ Put(j, <<"add", j, x>>, OkIf(ok), IF grows /\ ok THEN InsertAt(q, Below(q, x), x) ELSE q)
Delete(j, x) == LET q == Cur(j) IN Put(j, <<"delete", j, x>>, OkIf(Member(q, x)), IF Member(q, x) THEN RemoveAt(q, Below(q, x)) ELSE q)
(* a slice: assignment, append (which may write behind its end), reslicing *)
SSet(j, i, x) == InRange(Cur(j), i) /\ Put(j, <<"sset", j, i, x>>, <<"ok">>, [Cur(j) EXCEPT ![i + 1] = x])
SAppend(j, x) == Len(Cur(j)) < N /\ Put(j, <<"sappend", j, x>>, <<"ok">>, Append(Cur(j), x))
SCut(j) == Len(Cur(j)) > 0 /\ Put(j, <<"scut", j>>, <<"ok">>, SubSeq(Cur(j), 1, Len(Cur(j)) - 1))

ListOp(j, i, x) == AppendOp(j, x) \/ Insert(j, i, x) \/ Set(j, i, x) \/ Remove(j, i) \/ Clear(j)
SortedOp(j, i, x) == Add(j, x) \/ Delete(j, x) \/ Remove(j, i) \/ Clear(j)
SliceOp(j, i, x) == SSet(j, i, x) \/ SAppend(j, x) \/ SCut(j)

Op(j) == /\ (j = 2 => made = 1)
         /\ \E i \in 0..N, x \in Items :
              CASE Kind(j) = "list"  -> ListOp(j, i, x)
                [] Kind(j) = "slice" -> SliceOp(j, i, x)
                [] OTHER             -> SortedOp(j, i, x)
Next == MakeCopy \/ Op(1) \/ Op(2)
Spec == Init /\ [][Next]_vars

St == <<S, C, made>>
Full2(j, q) == Bd(j) > 0 /\ Len(q) = Bd(j)
Bool(b) == IF b THEN <<"true">> ELSE <<"false">>
Observe == <<S, C, Bool(Full2(1, S)), Bool(made = 1 /\ Full2(2, C))>>

Independent == [][ /\ (ev'[1] # "copy" => S' = S \/ C' = C)
                   /\ (ev'[1] = "copy" => S' = S)
                   /\ (ev'[1] = "copy" /\ CK = SK => C' = S) ]_vars
===========================================================================
