----------------------------- MODULE Snapshots ----------------------------
(* An immutable AVL tree, S nodes held by a client and, if Iters, an         *)
(* iterator: whatever happens to the tree, a held node shows the entries it  *)
(* showed when it was obtained, and an iterator yields what was left to      *)
(* yield. Node-level Put and Remove produce further nodes.                   *)
EXTENDS FiniteMap

CONSTANTS S, Iters

VARIABLES sn,             \* the held nodes' contents
          it              \* <<1, remaining entries>>, or <<0, << >>>> when there is none
all == <<m, sn, it, ev, res>>

Slots == 1..S
Nothing == [k \in Keys |-> None]
InitS == Init /\ sn = [j \in Slots |-> Nothing] /\ it = <<0, << >> >>

TreeOp == /\ \/ \E k \in Keys, v \in Vals : Put(k, v)
             \/ \E k \in Keys : Remove(k)
          /\ UNCHANGED <<sn, it>>
Snap(j) == Step(<<"snap", j>>, <<"ok">>, m) /\ sn' = [sn EXCEPT ![j] = m] /\ UNCHANGED it
(* node i . Put / Remove; the node it returns is held in slot j *)
NPut(i, k, v, j) == /\ Step(<<"nput", i, k, v, j>>, <<"ok", IF sn[i][k] # None THEN 1 ELSE 0>>, m)
                    /\ sn' = [sn EXCEPT ![j] = PutR(sn[i], k, v)] /\ UNCHANGED it
NRemove(i, k, j) == IF sn[i][k] = None
                    THEN Step(<<"nremove", i, k, j>>, <<"err">>, m) /\ UNCHANGED <<sn, it>>
                    ELSE /\ Step(<<"nremove", i, k, j>>, <<"ok", sn[i][k]>>, m)
                         /\ sn' = [sn EXCEPT ![j] = [sn[i] EXCEPT ![k] = None]] /\ UNCHANGED it
NGet(i, k) == Step(<<"nget", i, k>>, IF sn[i][k] = None THEN <<"err">> ELSE <<"ok", sn[i][k]>>, m) /\ UNCHANGED <<sn, it>>
NHas(i, k) == Step(<<"nhas", i, k>>, IF sn[i][k] = None THEN <<"false">> ELSE <<"true">>, m) /\ UNCHANGED <<sn, it>>
(* an iterator over the tree (0) or over a held node *)
IterOf(j) == /\ Step(<<"iter", j>>, <<"ok">>, m) /\ UNCHANGED sn
             /\ it' = <<1, Entries(IF j = 0 THEN m ELSE sn[j])>>
NextItem == /\ it[1] = 1 /\ UNCHANGED sn
            /\ IF it[2] = << >>
               THEN Step(<<"next">>, <<"end">>, m) /\ it' = <<0, << >> >>
               ELSE Step(<<"next">>, <<"ok", it[2][1]>>, m) /\ it' = <<1, Tail(it[2])>>

NextS == \/ TreeOp
         \/ \E j \in Slots : Snap(j)
         \/ \E i, j \in Slots, k \in Keys : NRemove(i, k, j) \/ (\E v \in Vals : NPut(i, k, v, j))
         \/ \E i \in Slots, k \in Keys : NGet(i, k) \/ NHas(i, k)
         \/ (Iters /\ ((\E j \in 0..S : IterOf(j)) \/ NextItem))
SpecS == InitS /\ [][NextS]_all

ObserveS == <<Observe(m), [j \in Slots |-> Observe(sn[j])]>>

Frozen == [][ /\ (ev'[1] \in {"put", "remove"} => sn' = sn /\ it' = it)
              /\ (\A j \in Slots : sn'[j] # sn[j] => (ev'[1] = "snap" /\ ev'[2] = j) \/ ev'[Len(ev')] = j)
              /\ (ev'[1] # "next" /\ ev'[1] # "iter" => it' = it) ]_all
===========================================================================
