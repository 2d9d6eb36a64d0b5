----------------------------- MODULE RandSource -----------------------------
(* A generator shared by goroutines: one sequence per seed, a draw takes the *)
(* next element, reseeding starts the sequence of the new seed. Elements are *)
(* named by the number of the reseeding (epoch) and their position.          *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Gs,        \* goroutines
          MaxDraws, MaxSeeds

VARIABLES ep, pos,   \* current epoch, elements drawn in it
          got        \* what each goroutine drew, in its order
rvars == <<ep, pos, got>>

RInit == ep = 0 /\ pos = 0 /\ got = [g \in Gs |-> << >>]
Draw(g) == /\ pos' = pos + 1 /\ ep' = ep /\ got' = [got EXCEPT ![g] = Append(@, <<ep, pos + 1>>)]
Reseed == ep' = ep + 1 /\ pos' = 0 /\ got' = got
RNext == (\E g \in Gs : Draw(g)) \/ Reseed
RSpec == RInit /\ [][RNext]_rvars

Bound == pos <= MaxDraws /\ ep <= MaxSeeds /\ \A g \in Gs : Len(got[g]) <= MaxDraws

(* ---- the listed properties *)
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
InOrder == \A g \in Gs : \A i \in 1..Len(got[g]) - 1 : Before(got[g][i], got[g][i + 1])
Once == \A g, h \in Gs : \A i \in 1..Len(got[g]), j \in 1..Len(got[h]) : got[g][i] = got[h][j] => g = h /\ i = j
All(g) == {got[g][i] : i \in 1..Len(got[g])}
NoGap == \A x \in UNION {All(g) : g \in Gs} : x[2] > 1 => <<x[1], x[2] - 1>> \in UNION {All(g) : g \in Gs}
=============================================================================
