-------------------------------- MODULE Filter ------------------------------
(* C16: operation filters 'includes~excludes'.  Strings are sequences of    *)
(* code points.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, Json, IOUtils

Star == 42      Question == 63      Open == 91      Close == 93
Bang == 33      Dash == 45          Tilde == 126    Colon == 58
\* What counts as blank
Blanks == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 8232, 8233, 12288}

-----------------------------------------------------------------------------
(* Splitting *)
Places(s, c) == {i \in 1..Len(s) : s[i] = c}
RECURSIVE Split(_, _)
Split(s, c) == IF Places(s, c) = {} THEN <<s>>
               ELSE LET i == CHOOSE i \in Places(s, c) : \A j \in Places(s, c) : i <= j
                    IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
Blank(s) == \A i \in 1..Len(s) : s[i] \in Blanks
Patterns(s) == {p \in {Split(s, Colon)[i] : i \in DOMAIN Split(s, Colon)} : ~Blank(p)}

-----------------------------------------------------------------------------
(* Shell-style patterns: a sequence of tokens                               *)
(*   [k |-> "star"]  [k |-> "any"]  [k |-> "lit", c]  [k |-> "set", neg, x] *)
\* The bracket expression opening at position i closes here (0: it does not, the bracket is literal)
CloseOf(p, i) == LET first == IF i < Len(p) /\ p[i + 1] = Bang THEN i + 2 ELSE i + 1
                     after == IF first <= Len(p) /\ p[first] = Close THEN first + 1 ELSE first
                     X == {j \in after..Len(p) : p[j] = Close}
                 IN IF X = {} THEN 0 ELSE CHOOSE j \in X : \A k \in X : j <= k
\* Members of a bracket expression; dashes between two characters are ranges
RECURSIVE Members(_)
Members(x) == IF x = <<>> THEN {}
              ELSE IF Len(x) >= 3 /\ x[2] = Dash THEN (x[1]..x[3]) \cup Members(SubSeq(x, 4, Len(x)))
              ELSE {x[1]} \cup Members(Tail(x))
\* Several dashes, a dash at the edge of a range and the like: left open
Odd(x) == \/ \E i \in 1..Len(x) : x[i] = Dash /\ \/ (i > 1 /\ x[i - 1] = Dash) \/ (i < Len(x) /\ x[i + 1] = Dash)
                                                  \/ (i > 2 /\ x[i - 2] = Dash)
          \/ \E i \in 1..Len(x) : x[i] \in {38, 124, 91, 92, 94}
RECURSIVE Tokens(_, _)
Tokens(p, i) ==
  IF i > Len(p) THEN <<>>
  ELSE CASE p[i] = Star -> <<[k |-> "star"]>> \o Tokens(p, i + 1)
         [] p[i] = Question -> <<[k |-> "any"]>> \o Tokens(p, i + 1)
         [] p[i] = Open /\ CloseOf(p, i) # 0 ->
              LET j == CloseOf(p, i)
                  neg == p[i + 1] = Bang
                  x == SubSeq(p, IF neg THEN i + 2 ELSE i + 1, j - 1)
              IN <<[k |-> "set", neg |-> neg, x |-> Members(x), odd |-> Odd(x)]>> \o Tokens(p, j + 1)
         [] OTHER -> <<[k |-> "lit", c |-> p[i]]>> \o Tokens(p, i + 1)
OddPattern(t) == \E i \in DOMAIN t : t[i].k = "set" /\ t[i].odd

One(t, c) == CASE t.k = "any" -> TRUE [] t.k = "lit" -> t.c = c [] t.k = "set" -> (c \in t.x) # t.neg
\* The positions of the name reached after the first n tokens
RECURSIVE Reach(_, _, _)
Reach(t, n, w) ==
  IF n = 0 THEN {0}
  ELSE LET R == Reach(t, n - 1, w)
       IN IF t[n].k = "star" THEN {j \in 0..Len(w) : \E i \in R : i <= j}
          ELSE {i + 1 : i \in {j \in R : j < Len(w) /\ One(t[n], w[j + 1])}}
Match(p, w) == LET t == Tokens(p, 1) IN IF OddPattern(t) THEN "any" ELSE IF Len(w) \in Reach(t, Len(t), w) THEN "yes" ELSE "no"

-----------------------------------------------------------------------------
Accepted(f) == Cardinality(Places(f, Tilde)) <= 1
Includes(f) == Patterns(Split(f, Tilde)[1])
Excludes(f) == IF Places(f, Tilde) = {} THEN {} ELSE Patterns(Split(f, Tilde)[2])
AnyOf(P, w) == LET m == {Match(p, w) : p \in P} IN IF "yes" \in m THEN "yes" ELSE IF "any" \in m THEN "any" ELSE "no"
\* "yes", "no" or "any"
Selects(f, w) ==
  LET inc == IF Includes(f) = {} THEN "yes" ELSE AnyOf(Includes(f), w)
      exc == AnyOf(Excludes(f), w)
  IN IF inc = "no" \/ exc = "yes" THEN "no" ELSE IF inc = "any" \/ exc = "any" THEN "any" ELSE "yes"

\* Laws
Laws(f, w) == Accepted(f) =>
  /\ Excludes(f) = {} /\ Includes(f) = {} => Selects(f, w) = "yes"
  /\ Selects(f \o <<Colon>>, w) = Selects(f, w)                                       \* blank patterns are ignored
  /\ Selects(f, w) # "any" /\ Places(f, Tilde) = {} /\ Includes(f) # {} =>
       Selects(<<Tilde>> \o f, w) = (IF Selects(f, w) = "yes" THEN "no" ELSE "yes")   \* excluding is the complement
=============================================================================
