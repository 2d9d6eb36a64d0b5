------------------------------ MODULE PoolSpec ------------------------------
(* What a client of the worker pool can observe: calls and returns of Do,    *)
(* Stop, WaitLock, Unlock and WaitCount, and the beginning and the end of    *)
(* every submitted function. Between them the pool accepts (Inc), finishes   *)
(* (Dec) and announces the end (Wake) of functions by internal steps.        *)
EXTENDS Naturals, FiniteSets

CONSTANTS Tasks,    \* submitted functions
          Counters, \* callers of WaitCount
          W         \* workers

VARIABLES d,     \* Do of a function: "no", "called", "ok", "err"
          f,     \* the function: "no", "running", "ended"
          cnt,   \* accepted and not finished
          b,     \* finished, end not announced yet
          wc,    \* WaitCount calls: <<"idle">>, <<"called">>, <<"waiting">>, <<"woken">>, <<"got", n>>
          lock,  \* between the return of WaitLock and the call of Unlock
          sc, sr, \* some Stop was called, has returned
          pl, ps  \* calls of WaitLock and of Stop in progress
pvars == <<d, f, cnt, b, wc, lock, sc, sr, pl, ps>>

Running == {t \in Tasks : f[t] = "running"}
Ended   == {t \in Tasks : f[t] = "ended"}
Ok      == {t \in Tasks : d[t] = "ok"}

TypeOK == /\ \A t \in Tasks : d[t] \in {"no", "called", "ok", "err"} /\ f[t] \in {"no", "running", "ended"}
          /\ cnt \subseteq Tasks /\ b \in 0..W /\ lock \in BOOLEAN /\ sc \in BOOLEAN /\ sr \in BOOLEAN

PInit == /\ d = [t \in Tasks |-> "no"] /\ f = [t \in Tasks |-> "no"] /\ cnt = {} /\ b = 0
         /\ wc = [c \in Counters |-> <<"idle">>] /\ lock = FALSE /\ sc = FALSE /\ sr = FALSE
         /\ pl = 0 /\ ps = 0

(* ---- submitting and running *)
DoCall(t) == d[t] = "no" /\ d' = [d EXCEPT ![t] = "called"] /\ UNCHANGED <<f, cnt, b, wc, lock, sc, sr, pl, ps>>
(* nothing is accepted while the pool is locked or after a Stop returned *)
Inc(t) == /\ d[t] = "called" /\ f[t] = "no" /\ t \notin cnt /\ ~lock /\ ~sr
          /\ cnt' = cnt \cup {t} /\ UNCHANGED <<d, f, b, wc, lock, sc, sr, pl, ps>>
DoOk(t) == /\ d[t] = "called" /\ (t \in cnt \/ f[t] = "ended")
           /\ d' = [d EXCEPT ![t] = "ok"] /\ UNCHANGED <<f, cnt, b, wc, lock, sc, sr, pl, ps>>
(* only a stopped pool rejects *)
DoErr(t) == /\ d[t] = "called" /\ f[t] = "no" /\ t \notin cnt /\ sc
            /\ d' = [d EXCEPT ![t] = "err"] /\ UNCHANGED <<f, cnt, b, wc, lock, sc, sr, pl, ps>>
(* a worker runs one function at a time *)
Start(t) == /\ f[t] = "no" /\ t \in cnt /\ ~lock /\ ~sr
            /\ Cardinality(Running) + Cardinality(Ended \cap cnt) + b < W
            /\ f' = [f EXCEPT ![t] = "running"] /\ UNCHANGED <<d, cnt, b, wc, lock, sc, sr, pl, ps>>
End(t) == f[t] = "running" /\ f' = [f EXCEPT ![t] = "ended"] /\ UNCHANGED <<d, cnt, b, wc, lock, sc, sr, pl, ps>>
Dec(t) == /\ f[t] = "ended" /\ t \in cnt
          /\ cnt' = cnt \ {t} /\ b' = b + 1 /\ UNCHANGED <<d, f, wc, lock, sc, sr, pl, ps>>
Wake == /\ b > 0 /\ b' = b - 1
        /\ wc' = [c \in Counters |-> IF wc[c] = <<"waiting">> THEN <<"woken">> ELSE wc[c]]
        /\ UNCHANGED <<d, f, cnt, lock, sc, sr, pl, ps>>

(* ---- Stop, WaitLock and Unlock *)
StopCall == sc' = TRUE /\ ps' = ps + 1 /\ UNCHANGED <<d, f, cnt, b, wc, lock, sr, pl>>
StopRet  == /\ ps > 0 /\ cnt = {} /\ sr' = TRUE /\ ps' = ps - 1
            /\ UNCHANGED <<d, f, cnt, b, wc, lock, sc, pl>>
LockCall == pl' = pl + 1 /\ UNCHANGED <<d, f, cnt, b, wc, lock, sc, sr, ps>>
LockRet  == /\ pl > 0 /\ ~lock /\ cnt = {} /\ lock' = TRUE /\ pl' = pl - 1
            /\ UNCHANGED <<d, f, cnt, b, wc, sc, sr, ps>>
UnlockCall == lock /\ lock' = FALSE /\ UNCHANGED <<d, f, cnt, b, wc, sc, sr, pl, ps>>

(* ---- WaitCount *)
CountCall(c) == wc[c] = <<"idle">> /\ wc' = [wc EXCEPT ![c] = <<"called">>] /\ UNCHANGED <<d, f, cnt, b, lock, sc, sr, pl, ps>>
CountZero(c) == /\ wc[c] = <<"called">> /\ cnt = {}
                /\ wc' = [wc EXCEPT ![c] = <<"got", 0>>] /\ UNCHANGED <<d, f, cnt, b, lock, sc, sr, pl, ps>>
CountWait(c) == /\ wc[c] = <<"called">> /\ cnt # {}
                /\ wc' = [wc EXCEPT ![c] = <<"waiting">>] /\ UNCHANGED <<d, f, cnt, b, lock, sc, sr, pl, ps>>
CountRead(c) == /\ wc[c] = <<"woken">>
                /\ wc' = [wc EXCEPT ![c] = <<"got", Cardinality(cnt)>>] /\ UNCHANGED <<d, f, cnt, b, lock, sc, sr, pl, ps>>
CountRet(c)  == /\ wc[c][1] = "got"
                /\ wc' = [wc EXCEPT ![c] = <<"idle">>] /\ UNCHANGED <<d, f, cnt, b, lock, sc, sr, pl, ps>>

PNext == \/ \E t \in Tasks : DoCall(t) \/ Inc(t) \/ DoOk(t) \/ DoErr(t) \/ Start(t) \/ End(t) \/ Dec(t)
         \/ Wake \/ StopCall \/ StopRet \/ LockCall \/ LockRet \/ UnlockCall
         \/ \E c \in Counters : CountCall(c) \/ CountZero(c) \/ CountWait(c) \/ CountRead(c) \/ CountRet(c)
PSpec == PInit /\ [][PNext]_pvars

(* ---- When nothing moves unless a client acts or a running function ends,  *)
(* the ends have been counted and announced, WaitCount and WaitLock and Stop *)
(* have returned if they may, and what was accepted is being run.            *)
Quiet == /\ Ended \cap cnt = {} /\ b = 0
         /\ lock \/ \A c \in Counters : wc[c] \in {<<"idle">>, <<"waiting">>}
         /\ cnt # {} => Running # {}
         /\ pl > 0 => lock \/ cnt # {}
         /\ ps > 0 => lock \/ cnt # {}
         /\ (\E t \in Tasks : d[t] = "called") => lock \/ Running # {}

(* ---- the listed properties on this specification *)
(* what runs or ran was submitted and not rejected; what was accepted counts *)
(* until it has ended                                                        *)
NeverRejected == \A t \in Tasks : f[t] # "no" => d[t] \in {"called", "ok"}
NotLost == \A t \in Ok : t \in cnt \/ f[t] = "ended"
Drained == sr => Running = {} /\ \A t \in Ok : f[t] = "ended"
Quiescent == lock => Running = {} /\ \A t \in Ok : f[t] = "ended"
(* a function runs at most once, a locked or stopped pool starts and accepts *)
(* nothing                                                                   *)
Once == [][\A t \in Tasks : /\ (f[t] = "running" => f'[t] \in {"running", "ended"})
                            /\ (f[t] = "ended" => f'[t] = "ended")
                            /\ (f[t] = "no" /\ f'[t] = "running" => ~lock /\ ~sr)
                            /\ (lock \/ sr => cnt' \subseteq cnt)]_pvars
=============================================================================
