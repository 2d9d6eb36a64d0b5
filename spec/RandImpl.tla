------------------------------ MODULE RandImpl ------------------------------
(* rand/rand.go: a mutex around a source whose step is a read followed by a  *)
(* write. With Locked = FALSE the mutex is left out, and TLC finds the       *)
(* repeated element; with it the algorithm refines RandSource.               *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Gs, MaxDraws, MaxSeeds, Locked

VARIABLES lk, src, e,      \* holder of the mutex, position and epoch of the source
          pc, tmp, got, seeds
vars == <<lk, src, e, pc, tmp, got, seeds>>

Init == /\ lk = 0 /\ src = 0 /\ e = 0 /\ pc = [g \in Gs |-> "idle"] /\ tmp = [g \in Gs |-> 0]
        /\ got = [g \in Gs |-> << >>] /\ seeds = 0
Lock(g) == /\ pc[g] = "idle" /\ (Locked => lk = 0) /\ lk' = IF Locked THEN g ELSE lk
           /\ \/ Len(got[g]) < MaxDraws /\ pc' = [pc EXCEPT ![g] = "read"] /\ seeds' = seeds
              \/ seeds < MaxSeeds /\ pc' = [pc EXCEPT ![g] = "seed"] /\ seeds' = seeds + 1
           /\ UNCHANGED <<src, e, tmp, got>>
Read(g) == /\ pc[g] = "read" /\ tmp' = [tmp EXCEPT ![g] = src] /\ pc' = [pc EXCEPT ![g] = "write"]
           /\ UNCHANGED <<lk, src, e, got, seeds>>
Write(g) == /\ pc[g] = "write" /\ src' = tmp[g] + 1 /\ got' = [got EXCEPT ![g] = Append(@, <<e, tmp[g] + 1>>)]
            /\ pc' = [pc EXCEPT ![g] = "unlock"] /\ UNCHANGED <<lk, e, tmp, seeds>>
Seed(g) == /\ pc[g] = "seed" /\ src' = 0 /\ e' = e + 1 /\ pc' = [pc EXCEPT ![g] = "unlock"]
           /\ UNCHANGED <<lk, tmp, got, seeds>>
Unlock(g) == /\ pc[g] = "unlock" /\ lk' = 0 /\ pc' = [pc EXCEPT ![g] = "idle"]
             /\ UNCHANGED <<src, e, tmp, got, seeds>>
Next == \E g \in Gs : Lock(g) \/ Read(g) \/ Write(g) \/ Seed(g) \/ Unlock(g)
Spec == Init /\ [][Next]_vars

Abs == INSTANCE RandSource WITH ep <- e, pos <- src
Refines == Abs!RSpec
AbsOK == Abs!InOrder /\ Abs!Once /\ Abs!NoGap
=============================================================================
