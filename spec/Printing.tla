----------------------------- MODULE Printing -----------------------------
(* What collections look like when printed: the items in the order in which  *)
(* an iteration yields them, separated by commas, between braces. A map set  *)
(* prints its entries, a list of lists prints lists. Printing has no state:  *)
(* every call builds a collection from a sequence of items and prints it.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS K,              \* items 1..K, in ascending order
          N               \* longest sequence

VARIABLES s, ev, res
vars == <<s, ev, res>>

Items == 1..K
Words == <<"a", "a b", "b, c", "d", "e{", "g", "}f">>

Label(t, i) == CASE t = "int" -> ToString(7 * i - 25)
                 [] t = "str" -> Words[i]

RECURSIVE Joined(_)
Joined(xs) == IF Len(xs) = 1 THEN xs[1]
              ELSE LET h == Len(xs) \div 2
                   IN Joined(SubSeq(xs, 1, h)) \o ", " \o Joined(SubSeq(xs, h + 1, Len(xs)))
Braced(xs) == IF xs = << >> THEN "{}" ELSE "{" \o Joined(xs) \o "}"

Plain(t, q) == Braced([i \in 1..Len(q) |-> Label(t, q[i])])

(* each item once, ascending *)
RECURSIVE Ascending(_, _)
Ascending(S, i) == IF i > K THEN << >> ELSE (IF i \in S THEN <<i>> ELSE << >>) \o Ascending(S, i + 1)
Range(q)  == {q[i] : i \in 1..Len(q)}
Set(q)    == Ascending(Range(q), 1)
Sorted(q) == SortSeq(q, <)

(* each item once, where it came first *)
RECURSIVE Firsts(_)
Firsts(q) == IF q = << >> THEN << >>
             ELSE LET f == Firsts(SubSeq(q, 1, Len(q) - 1))
                  IN IF q[Len(q)] \in Range(f) THEN f ELSE Append(f, q[Len(q)])

(* position of the last x in q *)
LastOf(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in (i + 1)..Len(q) : q[j] # x

(* entries of a map to which the items were put one after another, with their *)
(* positions as values                                                        *)
Entry(k, v)  == "<MapEntry " \o k \o ": " \o v \o ">"
Entries(t, q) == LET e == Set(q) IN Braced([i \in 1..Len(e) |-> Entry(Label(t, e[i]), ToString(LastOf(q, e[i])))])

(* the prefixes of a list *)
Nested(t, q) == Braced([n \in 1..Len(q) |-> Plain(t, SubSeq(q, 1, n))])

Kinds == {"list", "linked", "sorted", "uniq", "set", "setmap", "deque", "mapset", "nested"}

Text(k, t, q) ==
  CASE k \in {"list", "linked"} -> Plain(t, q)
    [] k = "sorted" -> Plain(t, Sorted(q))
    [] k \in {"uniq", "set", "setmap"} -> Plain(t, Set(q))
    [] k = "deque"  -> Plain(t, Firsts(q))
    [] k = "mapset" -> Entries(t, q)
    [] k = "nested" -> Nested(t, q)

Show(k, t, q) == ev' = <<"print", k, t, q>> /\ res' = <<"ok", Text(k, t, q)>> /\ s' = s

Init == s = <<0>> /\ ev = <<"new">> /\ res = <<"ok">>
Seqs == UNION {[1..n -> Items] : n \in 0..N}
Next == \E k \in Kinds, t \in {"int", "str"}, q \in Seqs : Show(k, t, q)
Spec == Init /\ [][Next]_vars
Observe(x) == <<"stateless">>

(* printing an empty collection, and the same items twice *)
Sane == /\ \A k \in Kinds, t \in {"int", "str"} : Text(k, t, << >>) = "{}"
        /\ \A t \in {"int", "str"}, q \in Seqs : Text("set", t, q \o q) = Text("set", t, q)
===========================================================================
