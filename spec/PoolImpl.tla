------------------------------ MODULE PoolImpl ------------------------------
(* The algorithm of pool/pool.go, step by step: the RWMutex with waiting     *)
(* writers, the condition variable and its mutex, the bounded queues and the *)
(* worker loop. TLC checks that it refines PoolSpec and never gets stuck.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NT,      \* functions, one submitter each
          NW,      \* workers
          Cap,     \* capacity of a queue
          NS,      \* callers of Stop
          NL,      \* callers of WaitLock and Unlock
          NC       \* callers of WaitCount
T == 1..NT
Ws == 1..NW
Ss == 1..NS
Ls == 1..NL
Cs == 1..NC

VARIABLES
  readers, writer, pend,     \* mu: reading submitters; writer: "" or a name; announced writers
  L,                         \* owner of workCond.L, "" when free
  condw,                     \* waiting on workCond
  workin, q, closed, live,   \* the pool: count, queues, closed queues, p.workers not nil
  dpc, off, tried,           \* submitters
  wpc, job,                  \* workers
  spc, lpc, cpc, cn,         \* stoppers, lockers, counters
  fst, called, stopd, lockd  \* history: state of functions, Stop called, returned, locked
vars == <<readers, writer, pend, L, condw, workin, q, closed, live, dpc, off, tried, wpc, job, spc, lpc, cpc, cn,
          fst, called, stopd, lockd>>

Name(k, i) == <<k, i>>
None == <<"", 0>>

Init == /\ readers = {} /\ writer = None /\ pend = {} /\ L = None /\ condw = {}
        /\ workin = 0 /\ q = [w \in Ws |-> << >>] /\ closed = {} /\ live = TRUE
        /\ dpc = [t \in T |-> "idle"] /\ off = [t \in T |-> 1] /\ tried = [t \in T |-> 0]
        /\ wpc = [w \in Ws |-> "recv"] /\ job = [w \in Ws |-> 0]
        /\ spc = [s \in Ss |-> "idle"] /\ lpc = [x \in Ls |-> "idle"]
        /\ cpc = [c \in Cs |-> "idle"] /\ cn = [c \in Cs |-> 0]
        /\ fst = [t \in T |-> "no"] /\ called = FALSE /\ stopd = FALSE /\ lockd = FALSE

mu == <<readers, writer, pend>>
pool == <<workin, q, closed, live>>
sub == <<dpc, off, tried>>
wrk == <<wpc, job>>
oth == <<spc, lpc, cpc, cn>>
hist == <<fst, called, stopd, lockd>>

(* ---- Do *)
DCall(t) == /\ dpc[t] = "idle" /\ dpc' = [dpc EXCEPT ![t] = "rlock"]
            /\ UNCHANGED <<mu, L, condw, pool, off, tried, wrk, oth, hist>>
DRLock(t) == /\ dpc[t] = "rlock" /\ writer = None /\ pend = {}
             /\ readers' = readers \cup {t} /\ dpc' = [dpc EXCEPT ![t] = "check"]
             /\ UNCHANGED <<writer, pend, L, condw, pool, off, tried, wrk, oth, hist>>
DCheck(t) == /\ dpc[t] = "check" /\ dpc' = [dpc EXCEPT ![t] = IF live THEN "inc" ELSE "reject"]
             /\ UNCHANGED <<mu, L, condw, pool, off, tried, wrk, oth, hist>>
DInc(t) == /\ dpc[t] = "inc" /\ L = None /\ workin' = workin + 1
           /\ \E o \in Ws : off' = [off EXCEPT ![t] = o]
           /\ tried' = [tried EXCEPT ![t] = 0] /\ dpc' = [dpc EXCEPT ![t] = "try"]
           /\ UNCHANGED <<mu, L, condw, q, closed, live, wrk, oth, hist>>
DTry(t) == /\ dpc[t] = "try"
           /\ LET j == ((off[t] - 1 + tried[t]) % NW) + 1
              IN IF Len(q[j]) < Cap
                 THEN /\ q' = [q EXCEPT ![j] = Append(@, t)]
                      /\ dpc' = [dpc EXCEPT ![t] = "accept"] /\ tried' = tried
                 ELSE /\ q' = q /\ tried' = [tried EXCEPT ![t] = @ + 1]
                      /\ dpc' = [dpc EXCEPT ![t] = IF tried[t] + 1 = NW THEN "send" ELSE "try"]
           /\ UNCHANGED <<mu, L, condw, workin, closed, live, off, wrk, oth, hist>>
DSend(t) == /\ dpc[t] = "send" /\ Len(q[off[t]]) < Cap
            /\ q' = [q EXCEPT ![off[t]] = Append(@, t)] /\ dpc' = [dpc EXCEPT ![t] = "accept"]
            /\ UNCHANGED <<mu, L, condw, workin, closed, live, off, tried, wrk, oth, hist>>
DUnlock(t) == /\ dpc[t] \in {"accept", "reject"} /\ readers' = readers \ {t}
              /\ dpc' = [dpc EXCEPT ![t] = IF dpc[t] = "accept" THEN "ok!" ELSE "err!"]
              /\ UNCHANGED <<writer, pend, L, condw, pool, off, tried, wrk, oth, hist>>
DRet(t) == /\ dpc[t] \in {"ok!", "err!"}
           /\ dpc' = [dpc EXCEPT ![t] = IF dpc[t] = "ok!" THEN "ok" ELSE "err"]
           /\ UNCHANGED <<mu, L, condw, pool, off, tried, wrk, oth, hist>>

(* ---- worker *)
WRecv(w) == /\ wpc[w] = "recv" /\ q[w] # << >>
            /\ job' = [job EXCEPT ![w] = Head(q[w])] /\ q' = [q EXCEPT ![w] = Tail(@)]
            /\ wpc' = [wpc EXCEPT ![w] = "start"]
            /\ UNCHANGED <<mu, L, condw, workin, closed, live, sub, oth, hist>>
WStart(w) == /\ wpc[w] = "start" /\ fst' = [fst EXCEPT ![job[w]] = "running"] /\ wpc' = [wpc EXCEPT ![w] = "run"]
             /\ Assert(fst[job[w]] = "no", "run twice")
             /\ UNCHANGED <<mu, L, condw, pool, sub, job, oth, called, stopd, lockd>>
WEnd(w) == /\ wpc[w] = "run" /\ fst' = [fst EXCEPT ![job[w]] = "ended"] /\ wpc' = [wpc EXCEPT ![w] = "dec"]
           /\ UNCHANGED <<mu, L, condw, pool, sub, job, oth, called, stopd, lockd>>
WDec(w) == /\ wpc[w] = "dec" /\ L = None /\ workin' = workin - 1 /\ wpc' = [wpc EXCEPT ![w] = "wake"]
           /\ UNCHANGED <<mu, L, condw, q, closed, live, sub, job, oth, hist>>
WWake(w) == /\ wpc[w] = "wake" /\ condw' = {} /\ wpc' = [wpc EXCEPT ![w] = "recv"] /\ job' = [job EXCEPT ![w] = 0]
            /\ UNCHANGED <<mu, L, pool, sub, oth, hist>>
WExit(w) == /\ wpc[w] = "recv" /\ q[w] = << >> /\ w \in closed /\ wpc' = [wpc EXCEPT ![w] = "exit"]
            /\ UNCHANGED <<mu, L, condw, pool, sub, job, oth, hist>>

(* ---- Stop *)
SCall(s) == /\ spc[s] = "idle" /\ called' = TRUE /\ spc' = [spc EXCEPT ![s] = "lock"]
            /\ pend' = pend \cup {Name("s", s)}
            /\ UNCHANGED <<readers, writer, L, condw, pool, sub, wrk, lpc, cpc, cn, fst, stopd, lockd>>
SLock(s) == /\ spc[s] = "lock" /\ readers = {} /\ writer = None
            /\ writer' = Name("s", s) /\ pend' = pend \ {Name("s", s)} /\ spc' = [spc EXCEPT ![s] = "take"]
            /\ UNCHANGED <<readers, L, condw, pool, sub, wrk, lpc, cpc, cn, hist>>
STake(s) == /\ spc[s] = "take" /\ writer' = None
            /\ spc' = [spc EXCEPT ![s] = IF live THEN "close" ELSE "wait"] /\ live' = FALSE
            /\ UNCHANGED <<readers, pend, L, condw, workin, q, closed, sub, wrk, lpc, cpc, cn, hist>>
SClose(s) == /\ spc[s] = "close"
             /\ IF closed = Ws THEN closed' = closed /\ spc' = [spc EXCEPT ![s] = "wait"]
                ELSE /\ closed' = closed \cup {CHOOSE w \in Ws : w \notin closed} /\ spc' = spc
             /\ UNCHANGED <<mu, L, condw, workin, q, live, sub, wrk, lpc, cpc, cn, hist>>
SRet(s) == /\ spc[s] = "wait" /\ \A w \in Ws : wpc[w] = "exit"
           /\ spc' = [spc EXCEPT ![s] = "done"] /\ stopd' = TRUE
           /\ UNCHANGED <<mu, L, condw, pool, sub, wrk, lpc, cpc, cn, fst, called, lockd>>

(* ---- WaitLock, Unlock *)
LCall(x) == /\ lpc[x] = "idle" /\ pend' = pend \cup {Name("l", x)} /\ lpc' = [lpc EXCEPT ![x] = "lock"]
            /\ UNCHANGED <<readers, writer, L, condw, pool, sub, wrk, spc, cpc, cn, hist>>
LLock(x) == /\ lpc[x] = "lock" /\ readers = {} /\ writer = None
            /\ writer' = Name("l", x) /\ pend' = pend \ {Name("l", x)} /\ lpc' = [lpc EXCEPT ![x] = "cond"]
            /\ UNCHANGED <<readers, L, condw, pool, sub, wrk, spc, cpc, cn, hist>>
LCond(x) == /\ lpc[x] = "cond" /\ L = None
            /\ IF workin > 0 THEN /\ condw' = condw \cup {Name("l", x)} /\ L' = L
                                  /\ lpc' = [lpc EXCEPT ![x] = "sleep"]
               ELSE L' = Name("l", x) /\ condw' = condw /\ lpc' = [lpc EXCEPT ![x] = "locked!"]
            /\ UNCHANGED <<mu, pool, sub, wrk, spc, cpc, cn, hist>>
LWoken(x) == /\ lpc[x] = "sleep" /\ Name("l", x) \notin condw /\ lpc' = [lpc EXCEPT ![x] = "cond"]
             /\ UNCHANGED <<mu, L, condw, pool, sub, wrk, spc, cpc, cn, hist>>
LRet(x) == /\ lpc[x] = "locked!" /\ lockd' = TRUE /\ lpc' = [lpc EXCEPT ![x] = "locked"]
           /\ UNCHANGED <<mu, L, condw, pool, sub, wrk, spc, cpc, cn, fst, called, stopd>>
LUnlock(x) == /\ lpc[x] = "locked" /\ lockd' = FALSE /\ lpc' = [lpc EXCEPT ![x] = "unlock1"]
              /\ UNCHANGED <<mu, L, condw, pool, sub, wrk, spc, cpc, cn, fst, called, stopd>>
LUnlock1(x) == /\ lpc[x] = "unlock1" /\ L' = None /\ lpc' = [lpc EXCEPT ![x] = "unlock2"]
               /\ UNCHANGED <<mu, condw, pool, sub, wrk, spc, cpc, cn, hist>>
LUnlock2(x) == /\ lpc[x] = "unlock2" /\ writer' = None /\ lpc' = [lpc EXCEPT ![x] = "done"]
               /\ UNCHANGED <<readers, pend, L, condw, pool, sub, wrk, spc, cpc, cn, hist>>

(* ---- WaitCount *)
CCall(c) == /\ cpc[c] = "idle" /\ cpc' = [cpc EXCEPT ![c] = "look"]
            /\ UNCHANGED <<mu, L, condw, pool, sub, wrk, spc, lpc, cn, hist>>
CLook(c) == /\ cpc[c] = "look" /\ L = None
            /\ IF workin <= 0 THEN cpc' = [cpc EXCEPT ![c] = "got"] /\ cn' = [cn EXCEPT ![c] = workin] /\ condw' = condw
               ELSE cpc' = [cpc EXCEPT ![c] = "sleep"] /\ cn' = cn /\ condw' = condw \cup {Name("c", c)}
            /\ UNCHANGED <<mu, L, pool, sub, wrk, spc, lpc, hist>>
CRead(c) == /\ cpc[c] = "sleep" /\ Name("c", c) \notin condw /\ L = None
            /\ cpc' = [cpc EXCEPT ![c] = "got"] /\ cn' = [cn EXCEPT ![c] = workin]
            /\ UNCHANGED <<mu, L, condw, pool, sub, wrk, spc, lpc, hist>>
CRet(c) == /\ cpc[c] = "got" /\ cpc' = [cpc EXCEPT ![c] = "done"]
           /\ UNCHANGED <<mu, L, condw, pool, sub, wrk, spc, lpc, cn, hist>>

Next == \/ \E t \in T : DCall(t) \/ DRLock(t) \/ DCheck(t) \/ DInc(t) \/ DTry(t) \/ DSend(t) \/ DUnlock(t) \/ DRet(t)
        \/ \E w \in Ws : WRecv(w) \/ WStart(w) \/ WEnd(w) \/ WDec(w) \/ WWake(w) \/ WExit(w)
        \/ \E s \in Ss : SCall(s) \/ SLock(s) \/ STake(s) \/ SClose(s) \/ SRet(s)
        \/ \E x \in Ls : LCall(x) \/ LLock(x) \/ LCond(x) \/ LWoken(x) \/ LRet(x) \/ LUnlock(x) \/ LUnlock1(x) \/ LUnlock2(x)
        \/ \E c \in Cs : CCall(c) \/ CLook(c) \/ CRead(c) \/ CRet(c)
Spec == Init /\ [][Next]_vars

(* ---- it refines PoolSpec *)
Counted(t) == /\ dpc[t] \in {"try", "send", "accept", "ok!", "ok"}
              /\ \/ fst[t] \in {"no", "running"}
                 \/ \E w \in Ws : job[w] = t /\ wpc[w] = "dec"
Abs == INSTANCE PoolSpec WITH
  Tasks <- T, Counters <- Cs, W <- NW,
  d <- [t \in T |-> CASE dpc[t] = "idle" -> "no" [] dpc[t] = "ok" -> "ok" [] dpc[t] = "err" -> "err" [] OTHER -> "called"],
  f <- fst,
  cnt <- {t \in T : Counted(t)},
  b <- Cardinality({w \in Ws : wpc[w] = "wake"}),
  wc <- [c \in Cs |-> CASE cpc[c] \in {"idle", "done"} -> <<"idle">>
                        [] cpc[c] = "look" -> <<"called">>
                        [] cpc[c] = "sleep" -> IF Name("c", c) \in condw THEN <<"waiting">> ELSE <<"woken">>
                        [] cpc[c] = "got" -> <<"got", cn[c]>>],
  lock <- lockd, sc <- called, sr <- stopd,
  pl <- Cardinality({x \in Ls : lpc[x] \in {"lock", "cond", "sleep", "locked!"}}),
  ps <- Cardinality({s \in Ss : spc[s] \in {"lock", "take", "close", "wait"}})
Refines == Abs!PSpec
CountOK == workin = Cardinality({t \in T : Counted(t)})
AbsOK == Abs!NeverRejected /\ Abs!NotLost /\ Abs!Drained /\ Abs!Quiescent

(* ---- and it does not get stuck *)
Finished == /\ \A t \in T : dpc[t] \in {"ok", "err"}
            /\ \A s \in Ss : spc[s] = "done"
            /\ \A x \in Ls : lpc[x] = "done"
            /\ \A c \in Cs : cpc[c] = "done"
(* what happens without the clients and without the end of a function *)
Inner == \/ \E t \in T : DRLock(t) \/ DCheck(t) \/ DInc(t) \/ DTry(t) \/ DSend(t) \/ DUnlock(t) \/ DRet(t)
         \/ \E w \in Ws : WRecv(w) \/ WStart(w) \/ WDec(w) \/ WWake(w) \/ WExit(w)
         \/ \E s \in Ss : SLock(s) \/ STake(s) \/ SClose(s) \/ SRet(s)
         \/ \E x \in Ls : LLock(x) \/ LCond(x) \/ LWoken(x) \/ LRet(x) \/ LUnlock1(x) \/ LUnlock2(x)
         \/ \E c \in Cs : CLook(c) \/ CRead(c) \/ CRet(c)
QuietOK == ENABLED Inner \/ Abs!Quiet
Stuckless == Finished \/ ENABLED Next
=============================================================================
