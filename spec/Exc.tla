-------------------------------- MODULE Exc --------------------------------
(* Try/Catch/Finally and Close blocks: a big-step semantics of programs made *)
(* of nested blocks. A run yields a log of everything the client can see and *)
(* an outcome.                                                               *)
(*                                                                           *)
(* Body    <<"ok">>, <<"throw", type>>, <<"panic">>, <<"rethrow">> (of the   *)
(*         exception being handled), <<"block", how, block>>                 *)
(* Block   <<"try", body, catches, finals>> or                               *)
(*         <<"close", make, body, close, catches, finals>>                   *)
(*         catches: sequence of <<type, body>>; finals: sequence of bodies   *)
(* how     "unwind", "error", "exception"                                    *)
(*                                                                           *)
(* Every place in a program has a path: what is logged or thrown there       *)
(* carries the path.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Types,         \* exception types that are thrown and caught
          MaxC, MaxF,    \* catches and finals per block
          Mode           \* which programs are enumerated

VARIABLES m, ev, res
vars == <<m, ev, res>>

(* 1 is Exception; 2 embeds 1, 3 embeds 2, 4 embeds 1 behind a field of its  *)
(* own; 5 and 6 (no pointer) implement the interface themselves              *)
Parent == <<0, 1, 2, 1, 0, 0>>
RECURSIVE IsA(_, _)
IsA(t, c) == t # 0 /\ (t = c \/ IsA(Parent[t], c))

(* outcomes *)
Done == <<"ok">>
ExcOf(t, errs) == <<"exc", t, errs>>
PanicOf(p) == <<"panic", p>>
(* the specification says nothing about this run *)
Unspec == <<"unspec">>

R(log, out) == [log |-> log, out |-> out]
IsExc(o) == o[1] = "exc"
Stops(o) == o[1] \in {"panic", "unspec"}

RECURSIVE RunBody(_, _, _), RunBlock(_, _), RunFinals(_, _, _), FirstMatch(_, _, _)

FirstMatch(cs, t, i) == IF i > Len(cs) THEN 0 ELSE IF IsA(t, cs[i][1]) THEN i ELSE FirstMatch(cs, t, i + 1)

(* cur: the exception being handled, or Done *)
RunBody(b, p, cur) ==
  CASE b[1] = "ok"      -> R(<< >>, Done)
    [] b[1] = "throw"   -> R(<< >>, ExcOf(b[2], <<p>>))
    [] b[1] = "panic"   -> R(<< >>, PanicOf(p))
    [] b[1] = "rethrow" -> R(<< >>, ExcOf(cur[2], Append(cur[3], p)))
    [] b[1] = "block"   ->
         LET r == RunBlock(b[3], p)
         IN IF b[2] = "unwind" \/ Stops(r.out) THEN r
            ELSE R(Append(r.log, <<"got", p, r.out>>), Done)

(* the finals from the i-th on; out is what leaves the block after them *)
RunFinals(fs, p, i) ==
  IF i > Len(fs) THEN R(<< >>, Done)
  ELSE LET q == p \o <<3, i>>
           r == RunBody(fs[i], q, Done)
           log == << <<"finally", q>> >> \o r.log
       IN IF Stops(r.out) THEN R(log, r.out)
          ELSE IF IsExc(r.out) THEN R(log, Unspec)
          ELSE LET rest == RunFinals(fs, p, i + 1) IN R(log \o rest.log, rest.out)

(* the body of a Close block with the resource around it *)
RunClose(b, p) ==
  LET made == << <<"make", p \o <<4>> >> >>
  IN CASE b[2][1] = "throw" -> R(made, ExcOf(b[2][2], <<p \o <<4>> >>))
       [] b[2][1] = "panic" -> R(made, PanicOf(p \o <<4>>))
       [] b[2][1] = "ok" ->
            LET q == p \o <<1>>
                r == RunBody(b[3], q, Done)
                log == made \o << <<"body", q>> >> \o r.log
                closed == Append(log, <<"close", p \o <<5>> >>)
            IN IF r.out[1] = "panic" THEN R(log, Unspec)
               ELSE IF Stops(r.out) THEN R(log, r.out)
               ELSE CASE b[4][1] = "ok"    -> R(closed, r.out)
                      [] b[4][1] = "err"   -> R(closed, ExcOf(1, <<p \o <<5>> >>))
                      [] b[4][1] = "throw" -> R(closed, ExcOf(b[4][2], <<p \o <<5>> >>))
                      [] b[4][1] = "panic" -> R(closed, PanicOf(p \o <<5>>))

RunBlock(b, p) ==
  LET n  == Len(b)
      cs == b[n - 1]
      fs == b[n]
      q  == p \o <<1>>
      t  == IF b[1] = "close" THEN RunClose(b, p)
            ELSE LET r == RunBody(b[2], q, Done) IN R(<< <<"try", q>> >> \o r.log, r.out)
  IN IF Stops(t.out) THEN t
     ELSE LET i == IF IsExc(t.out) THEN FirstMatch(cs, t.out[2], 1) ELSE 0
              c == IF i = 0 THEN t
                   ELSE LET cp == p \o <<2, i>>
                            r == RunBody(cs[i][2], cp, t.out)
                        IN R(t.log \o << <<"catch", cp, t.out>> >> \o r.log, r.out)
          IN IF Stops(c.out) THEN c
             ELSE LET f == RunFinals(fs, p, 1)
                  IN R(c.log \o f.log, IF Stops(f.out) THEN f.out ELSE c.out)

(* a program runs one block a number of times in a row, until a panic *)
RECURSIVE RunTimes(_, _, _)
RunTimes(k, n, b) ==
  IF k > n THEN << >>
  ELSE LET r == RunBlock(b, <<k>>)
       IN << <<r.log, r.out>> >> \o RunTimes(k + 1, n, b)
HasUnspec(x) == \E i \in 1..Len(x) : x[i][2] = Unspec

Step(op, r) == ev' = op /\ res' = r /\ m' = m
Run(how, n, b) == Step(<<"run", how, n, b>>, <<"ok", RunTimes(1, n, b)>>)

(* ---- the programs *)
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Hows == {"unwind", "error", "exception"}
Leaf == {<<"ok">>, <<"panic">>} \cup {<<"throw", t>> : t \in Types}
Final == {<<"ok">>, <<"panic">>}
Top == CHOOSE t \in Types : \A u \in Types : u <= t
Handler == {<<"ok">>, <<"panic">>, <<"rethrow">>, <<"throw", Top>>}
Flat(C, F) == {<<"try", b, c, f>> : b \in Leaf, c \in UpTo(Types \X Handler, C), f \in UpTo(Final, F)}
FlatClose(C, F) == {<<"close", mk, b, cl, c, f>> :
                      mk \in {<<"ok">>, <<"panic">>, <<"throw", Top>>}, b \in Leaf,
                      cl \in {<<"ok">>, <<"err">>, <<"panic">>, <<"throw", Top>>},
                      c \in UpTo(Types \X {<<"ok">>, <<"rethrow">>}, C), f \in UpTo({<<"ok">>}, F)}
(* few different blocks to be put inside others *)
Inner == {<<"try", b, c, f>> : b \in Leaf, c \in UpTo({Top} \X {<<"ok">>, <<"rethrow">>}, 1), f \in {<< >>, << <<"ok">> >>}}
InnerClose == {<<"close", mk, b, cl, c, f>> : mk \in {<<"ok">>, <<"throw", Top>>}, b \in {<<"ok">>, <<"throw", Top>>},
                 cl \in {<<"ok">>, <<"err">>}, c \in UpTo({Top} \X {<<"ok">>, <<"rethrow">>}, 1), f \in {<< >>, << <<"ok">> >>}}
In(S) == {<<"block", h, b>> : h \in Hows, b \in S}
InTry(S)     == {<<"try", b, c, f>> : b \in In(S), c \in UpTo(Types \X {<<"ok">>, <<"rethrow">>}, MaxC), f \in {<< >>, << <<"ok">> >>}}
InCatch(S)   == {<<"try", <<"throw", t>>, << <<t, b>> >>, f>> : t \in Types, b \in In(S), f \in {<< >>, << <<"ok">>, <<"ok">> >>}}
InFinally(S) == {<<"try", b, c, << f, <<"ok">> >> >> : b \in {<<"ok">>, <<"throw", Top>>}, c \in {<< >>, << <<Top, <<"rethrow">> >> >>}, f \in In(S)}
InClose(S)   == {<<"close", <<"ok">>, b, cl, c, f>> : b \in In(S), cl \in {<<"ok">>, <<"err">>},
                   c \in UpTo({Top} \X {<<"ok">>}, 1), f \in {<< >>, << <<"ok">> >>}}

(* a block in which the last run differs from the first would show in 2 runs *)
Programs == CASE Mode = "flat"   -> Hows \X {1} \X Flat(MaxC, MaxF)
              [] Mode = "again"  -> Hows \X {2} \X Flat(1, 1)
              [] Mode = "nest"   -> {"error"} \X {1} \X (InTry(Inner) \cup InCatch(Inner) \cup InFinally(Inner))
              [] Mode = "close"  -> Hows \X {1} \X FlatClose(MaxC, MaxF)
              [] Mode = "closeagain" -> {"exception"} \X {2} \X FlatClose(1, 1)
              [] Mode = "closenest"  -> {"unwind", "error"} \X {1} \X
                    (InTry(InnerClose) \cup InCatch(InnerClose) \cup InFinally(InnerClose) \cup InClose(Inner) \cup InClose(InnerClose))

Init == m = 0 /\ ev = <<"new">> /\ res = <<"ok">>
Next == \E g \in Programs : ~HasUnspec(RunTimes(1, g[2], g[3])) /\ Run(g[1], g[2], g[3])
Spec == Init /\ [][Next]_vars

(* ---- what the semantics promises, checked on every enumerated program *)
Count(log, e) == Cardinality({i \in 1..Len(log) : log[i] = e})
Kinds(log, k) == {i \in 1..Len(log) : log[i][1] = k}
At(log, i, n) == SubSeq(log[i][2], 1, n)
(* per run of a flat block: at most one catch, finals in order and all of    *)
(* them unless a panic intervened; a made resource is closed once, before    *)
(* any handler; nothing is closed that was not made                          *)
RunOK(r, b) ==
  LET log == r[1]
      n   == Len(b)
      mk  == Kinds(log, "make")
      cl  == Kinds(log, "close")
      bd  == Kinds(log, "body")
  IN /\ Cardinality(Kinds(log, "catch")) <= 1
     /\ (r[2][1] # "panic" => Cardinality(Kinds(log, "finally")) = Len(b[n]))
     /\ \A i \in Kinds(log, "finally"), j \in Kinds(log, "finally") : i < j => log[i][2][3] < log[j][2][3]
     /\ \A i \in Kinds(log, "finally"), j \in Kinds(log, "catch") \cup bd \cup cl : j < i
     /\ \A i \in cl, j \in Kinds(log, "catch") : i < j
     /\ Cardinality(cl) = Cardinality(bd) /\ Cardinality(bd) <= Cardinality(mk)
FlatStep == Mode \in {"flat", "again", "close", "closeagain"} =>
              (\A k \in 1..ev'[3] : RunOK(res'[2][k], ev'[4]))
FlatOK == [][FlatStep]_vars
Observe == <<"ok">>
=============================================================================
