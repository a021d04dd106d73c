------------------------------ MODULE JsonText ------------------------------
(* C11: JSON texts (RFC 8259), character by character.                      *)
(*                                                                          *)
(* A parse yields [s |-> "ok", n |-> node, i |-> next position] or          *)
(* [s |-> "bad"] or [s |-> "open"] (texts on which parsers differ).         *)
EXTENDS Emit

Bad == [s |-> "bad", n |-> Z, i |-> 0]
Open == [s |-> "open", n |-> Z, i |-> 0]
Got(n, i) == [s |-> "ok", n |-> n, i |-> i]
Wspace == {9, 10, 13, 32}
At1(w, i) == IF i \in DOMAIN w THEN w[i] ELSE -1
RECURSIVE Skip(_, _)
Skip(w, i) == IF At1(w, i) \in Wspace THEN Skip(w, i + 1) ELSE i
Follows(w, i, x) == \A j \in DOMAIN x : At1(w, i + j - 1) = x[j]

Show(c) == IF c \in (32..126) \ {123, 125} THEN CHOOSE x \in DOMAIN Code : Code[x] = c ELSE "{" \o ToString(c) \o "}"
ShowOf == [c \in 32..126 |-> Show(c)]
Enc(c) == IF c \in 32..126 THEN ShowOf[c] ELSE Show(c)

HexOf(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
Escapes == [c \in {34, 92, 47, 98, 102, 110, 114, 116} |->
              CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]
RECURSIVE Str1(_, _, _, _)
\* inside a string; n holds what has been read, odd: has a lone surrogate been seen?
Str1(w, i, acc, odd) ==
  LET c == At1(w, i)
  IN IF c = 34 THEN IF odd THEN Open ELSE Got(S(acc), i + 1)
     ELSE IF c < 32 THEN Bad
     ELSE IF c # 92 THEN Str1(w, i + 1, acc \o Enc(c), odd)
     ELSE LET d == At1(w, i + 1)
          IN IF d \in DOMAIN Escapes THEN Str1(w, i + 2, acc \o Enc(Escapes[d]), odd)
             ELSE IF d # 117 THEN Bad
             ELSE LET h == [j \in 1..4 |-> HexOf(At1(w, i + 1 + j))]
                      u == h[1] * 4096 + h[2] * 256 + h[3] * 16 + h[4]
                  IN IF \E j \in 1..4 : h[j] = -1 THEN Bad
                     ELSE Str1(w, i + 6, acc \o Enc(u), odd \/ u \in 55296..57343)

RECURSIVE DigitsFrom(_, _)
DigitsFrom(w, i) == IF At1(w, i) \in 48..57 THEN DigitsFrom(w, i + 1) ELSE i
Number(w, i) ==
  LET a == IF At1(w, i) = 45 THEN i + 1 ELSE i
      b == IF At1(w, a) = 48 THEN a + 1 ELSE DigitsFrom(w, a)
      f == IF At1(w, b) = 46 THEN DigitsFrom(w, b + 1) ELSE b
      e0 == IF At1(w, f) \in {69, 101} THEN (IF At1(w, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1) ELSE f
      e == IF e0 = f THEN f ELSE DigitsFrom(w, e0)
  IN IF b = a \/ f = b + 1 \/ (e0 # f /\ e = e0) THEN Bad ELSE Got(N("1"), e)

cTrue == Cps("true")
cFalse == Cps("false")
cNull == Cps("null")
cNaN == Cps("NaN")
cInf == Cps("Infinity")

RECURSIVE Val1(_, _)
RECURSIVE Members(_, _, _)
RECURSIVE Entries(_, _, _)
Val1(w, i) ==
  LET c == At1(w, i)
  IN CASE c = 123 -> LET j == Skip(w, i + 1) IN IF At1(w, j) = 125 THEN Got(O(NoAttrs), j + 1) ELSE Members(w, j, NoAttrs)
       [] c = 91 -> LET j == Skip(w, i + 1) IN IF At1(w, j) = 93 THEN Got(A(<<>>), j + 1) ELSE Entries(w, j, <<>>)
       [] c = 34 -> Str1(w, i + 1, "", FALSE)
       [] Follows(w, i, cTrue) -> Got(B(TRUE), i + 4)
       [] Follows(w, i, cFalse) -> Got(B(FALSE), i + 5)
       [] Follows(w, i, cNull) -> Got(Z, i + 4)
       [] Follows(w, i, cNaN) \/ Follows(w, i, cInf) \/ (c = 45 /\ Follows(w, i + 1, cInf)) -> Open
       [] c # 123 /\ c # 91 /\ c # 34 /\ (c = 45 \/ c \in 48..57) /\ ~(c = 45 /\ Follows(w, i + 1, cInf)) -> Number(w, i)
       [] OTHER -> Bad
\* at the name of a member
Members(w, i, f) ==
  IF At1(w, i) # 34 THEN Bad
  ELSE LET k == Str1(w, i + 1, "", FALSE)
           c == Skip(w, k.i)
           v == Val1(w, Skip(w, c + 1))
           e == Skip(w, v.i)
       IN IF k.s # "ok" THEN k ELSE IF At1(w, c) # 58 THEN Bad ELSE IF v.s # "ok" THEN v
          ELSE IF k.n.v \in DOMAIN f THEN Open                                             \* repeated names
          ELSE LET g == (k.n.v :> v.n) @@ f
               IN IF At1(w, e) = 125 THEN Got(O(g), e + 1) ELSE IF At1(w, e) = 44 THEN Members(w, Skip(w, e + 1), g) ELSE Bad
Entries(w, i, xs) ==
  LET v == Val1(w, i)
      e == Skip(w, v.i)
      ys == Append(xs, v.n)
  IN IF v.s # "ok" THEN v
     ELSE IF At1(w, e) = 93 THEN Got(A(ys), e + 1) ELSE IF At1(w, e) = 44 THEN Entries(w, Skip(w, e + 1), ys) ELSE Bad

ParseJson(w) == LET v == Val1(w, Skip(w, 1))
                IN IF v.s # "ok" THEN v ELSE IF Skip(w, v.i) = Len(w) + 1 THEN v ELSE Bad

-----------------------------------------------------------------------------
(* Texts: seeds, all their single character edits and all their prefixes *)
Q == "\""
Seeds == <<
  "{123}{125}", " {123} {125} ", "[]", "null", "\"\"", "1", "",
  "{123}\"submodels\":[{123}\"modelType\":\"Submodel\",\"id\":\"a\"{125}]{125}",
  "{123}\"submodels\" : [ {123}\"id\":\"\\u0061\\n\", \"modelType\":\"Submodel\"{125} ,{123}\"id\":\"\\\\\\/\", \"modelType\":\"Submodel\"{125}]{125}",
  "{123}\"x\":-0.5e+3,\"y\":[true,false,null,0,{123}{125}]{125}",
  "{123}\"conceptDescriptions\":[]{125}" >>
Chars == {"{123}", "{125}", "[", "]", ",", ":", Q, "\\", "u", "0", "1", "-", "+", ".", "e", "t", "n", "a", " ", "{10}", "{0}", "{31}", "{160}", "{65279}", "N", "/", "'"}
RECURSIVE Join(_, _)
Join(w, i) == IF i > Len(w) THEN "" ELSE Enc(w[i]) \o Join(w, i + 1)
Cut(w, i, j) == SubSeq(w, i, j)
CodesOf(x) == Cps(x)
EditsOf(w) ==
  {Cut(w, 1, i - 1) \o Cut(w, i + 1, Len(w)) : i \in 1..Len(w)}
  \cup {Cut(w, 1, i - 1) \o CodesOf(c) \o Cut(w, i + 1, Len(w)) : i \in 1..Len(w), c \in Chars}
  \cup {Cut(w, 1, i) \o CodesOf(c) \o Cut(w, i + 1, Len(w)) : i \in 0..Len(w), c \in Chars}
  \cup {Cut(w, 1, i) : i \in 0..Len(w)}
  \cup {w \o w, w \o CodesOf(" ") \o w}
  \cup {Cut(w, 1, i) \o Cut(w, j, Len(w)) : i \in {k \in 0..Len(w) : k % 3 = 0}, j \in {k \in 1..(Len(w) + 1) : k % 4 = 0}}
TokenSeq == <<"{123}", "{125}", "[", "]", ",", ":", "\"\"", "\"a\"", "1", "-", "true", "null", " ", "NaN">>
Tokens == {TokenSeq[i] : i \in DOMAIN TokenSeq}

VARIABLES txt, seed, ops
vars == <<txt, seed, ops>>
\* from a seed by an edit, or from nothing by appending tokens
Init == \/ \E k \in DOMAIN Seeds : seed = k /\ txt = Cps(Seeds[k]) /\ ops = 0
        \/ seed = 0 /\ ops = 0 /\ \E i \in DOMAIN TokenSeq : Ours(i) /\ txt = Cps(TokenSeq[i])
EditIt == seed > 0 /\ ops = 0 /\ txt' \in {w \in EditsOf(txt) : Ours(Len(w) + (IF w = <<>> THEN 0 ELSE w[(Len(w) + 1) \div 2]))} /\ ops' = 1 /\ UNCHANGED seed
Grow == seed = 0 /\ ops < (IF Thorough THEN 4 ELSE 3) /\ \E a \in Tokens : txt' = txt \o Cps(a) /\ ops' = ops + 1 /\ UNCHANGED seed
Next == EditIt \/ Grow
Spec == Init /\ [][Next]_vars

EmitAll == LET p == ParseJson(txt)
               b == Both("Environment", p.n)
           IN CASE p.s = "ok" -> WriteCase([w |-> Join(txt, 1), s |-> "ok", d |-> p.n, r |-> b.r, k |-> b.k, dev |-> b.dev])
                [] p.s # "ok" -> WriteCase([w |-> Join(txt, 1), s |-> p.s])
=============================================================================
