----------------------------- MODULE TrieShape ----------------------------
(* Shape of a ternary search trie, as its drawing shows it. A node is        *)
(*   <<"key", w>>          a leaf: the word w is stored here                 *)
(*   <<"byte", c, l, m, r>> compares the next letter with c: smaller to the  *)
(*                          left, equal to the middle (where the letter is   *)
(*                          consumed), greater to the right                  *)
(*   << >>                  nothing                                          *)
(* Words end in the letter 0. A trie is a sequence of <<letter, node>>, one  *)
(* for every first letter in use.                                            *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Terminated(w) == Append(w, 0)
LOCAL Starts(p, w)  == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p

(* every word below n starts with p, and its next letter lies between lo and *)
(* hi: a search that takes the same turns ends up here                       *)
RECURSIVE Searchable(_, _, _, _)
Searchable(n, p, lo, hi) ==
  IF n = << >> THEN TRUE
  ELSE IF n[1] = "key"
  THEN LET w == Terminated(n[2])
       IN Starts(p, w) /\ (Len(w) > Len(p) => lo < w[Len(p) + 1] /\ w[Len(p) + 1] < hi)
  ELSE /\ n[1] = "byte"
       /\ lo < n[2] /\ n[2] < hi
       /\ (n[3] # << >> \/ n[4] # << >> \/ n[5] # << >>)
       /\ Searchable(n[3], p, lo, n[2])
       /\ Searchable(n[4], Append(p, n[2]), 0 - 1, 1000)
       /\ Searchable(n[5], p, n[2], hi)

(* the words below n from left to right *)
RECURSIVE WordsOf(_)
WordsOf(n) == IF n = << >> THEN << >>
              ELSE IF n[1] = "key" THEN <<n[2]>>
              ELSE WordsOf(n[3]) \o WordsOf(n[4]) \o WordsOf(n[5])

RECURSIVE AllWords(_)
AllWords(hs) == IF hs = << >> THEN << >> ELSE WordsOf(hs[1][2]) \o AllWords(SubSeq(hs, 2, Len(hs)))

(* hs is a trie of exactly these words, given in ascending order *)
WellDrawn(hs, words) ==
  /\ \A i \in 1..Len(hs) : /\ hs[i][1] > 0
                           /\ hs[i][2] # << >>
                           /\ Searchable(hs[i][2], <<hs[i][1]>>, 0 - 1, 1000)
  /\ \A i \in 1..(Len(hs) - 1) : hs[i][1] < hs[i + 1][1]
  /\ AllWords(hs) = words
===========================================================================
