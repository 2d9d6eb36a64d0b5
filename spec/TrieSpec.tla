----------------------------- MODULE TrieSpec -----------------------------
(* The ternary search trie: a map from non-empty byte strings without null   *)
(* bytes to values. Strings are sequences over the letters 1..A, which the   *)
(* driver maps to bytes in ascending order; letter 0 is the null byte. The   *)
(* keys of an instance are Words, listed in ascending order; m[i] is the     *)
(* value under Words[i], 0 if absent.                                        *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS A, D, V,        \* letters, longest word, values
          Choice          \* 0: all words; otherwise one of the lists below

VARIABLES m, ev, res
vars == <<m, ev, res>>

(* all words extending p with up to d letters more, in ascending order *)
RECURSIVE Gen(_, _), GenAll(_, _, _)
GenAll(p, d, x) == IF x > A THEN << >> ELSE << Append(p, x) >> \o Gen(Append(p, x), d - 1) \o GenAll(p, d, x + 1)
Gen(p, d) == IF d = 0 THEN << >> ELSE GenAll(p, d, 1)

Lists == <<
  (* 1: a chain of prefixes and a branch at every depth *)
  << <<1>>, <<1, 1>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 2>>, <<2>> >>,
  (* 2: siblings inserted around a middle byte *)
  << <<1>>, <<2, 1>>, <<2, 2>>, <<2, 2, 2>>, <<2, 3>>, <<3>> >>,
  (* 3: long common prefixes *)
  << <<1, 1, 1, 1>>, <<1, 1, 1, 1, 1>>, <<1, 1, 1, 2>>, <<1, 1, 2, 1>>, <<1, 2, 1, 1>>, <<2, 1, 1, 1>> >>,
  (* 4: one head, every child byte *)
  << <<2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<2, 5>> >>
>>
Words == IF Choice = 0 THEN Gen(<< >>, D) ELSE Lists[Choice]
W == Len(Words)
Ix == 1..W

IsPrefix(p, w) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i + 1)
Less(a, b) == LessAt(a, b, 1)
WordsOK == \A i \in 1..(W - 1) : Less(Words[i], Words[i + 1])

TypeOK == \A i \in Ix : m[i] \in 0..V

Init == m = [i \in Ix |-> 0] /\ ev = <<"new">> /\ res = <<"ok">>
Step(op, r, m2) == ev' = op /\ res' = r /\ m' = m2

(* entries i..j that begin with p, ascending *)
RECURSIVE Under(_, _, _, _)
Under(f, p, i, j) ==
  IF i > j THEN << >>
  ELSE IF i = j THEN (IF f[i] # 0 /\ IsPrefix(p, Words[i]) THEN << <<Words[i], f[i]>> >> ELSE << >>)
  ELSE LET mid == (i + j) \div 2 IN Under(f, p, i, mid) \o Under(f, p, mid + 1, j)

Put(i, v) == Step(<<"put", i, v, Words[i]>>, <<"ok">>, [m EXCEPT ![i] = v])
Get(i)    == Step(<<"get", i, Words[i]>>, IF m[i] = 0 THEN <<"err">> ELSE <<"ok", m[i]>>, m)
Has(i)    == Step(<<"has", i, Words[i]>>, IF m[i] = 0 THEN <<"false">> ELSE <<"true">>, m)
Remove(i) == Step(<<"remove", i, Words[i]>>, IF m[i] = 0 THEN <<"err">> ELSE <<"ok", m[i]>>, [m EXCEPT ![i] = 0])
Prefix(p) == Step(<<"prefix", p>>, <<"ok", Under(m, p, 1, W)>>, m)

(* empty keys and keys with a null byte *)
Bad == { << >>, <<0>>, <<1, 0>>, <<0, 1>>, <<1, 1, 0>>, <<1, 0, 1>> }
BadPut(w)    == Step(<<"badput", w>>, <<"err">>, m)
BadGet(w)    == Step(<<"badget", w>>, <<"err">>, m)
BadHas(w)    == Step(<<"badhas", w>>, <<"false">>, m)
BadRemove(w) == Step(<<"badremove", w>>, <<"err">>, m)

(* every prefix of every word, and each of them one letter further *)
Prefixes == LET p == UNION {{SubSeq(Words[i], 1, n) : n \in 0..Len(Words[i])} : i \in Ix}
            IN p \cup {Append(q, x) : q \in p, x \in 1..A}

Next == \/ \E i \in Ix : Get(i) \/ Has(i) \/ Remove(i) \/ (\E v \in 1..V : Put(i, v))
        \/ \E p \in Prefixes : Prefix(p)
        \/ \E w \in Bad : BadPut(w) \/ BadGet(w) \/ BadHas(w) \/ BadRemove(w)
Spec == Init /\ [][Next]_vars

Size(f) == Cardinality({i \in Ix : f[i] # 0})
Observe(f) == <<Size(f), Under(f, << >>, 1, W)>>

Frame == [][ /\ (res' = <<"err">> => m' = m)
             /\ (ev'[1] \in {"get", "has", "prefix", "badput", "badremove"} => m' = m)
             /\ (\A i \in Ix : m'[i] # m[i] => (ev'[1] \in {"put", "remove"} /\ ev'[2] = i)) ]_vars
===========================================================================
