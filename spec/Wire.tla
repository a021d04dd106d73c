--------------------------------- MODULE Wire -------------------------------
(* C21: what a request looks like on the wire.  Text is a sequence of code  *)
(* points.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, Json, IOUtils

Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)
Thorough == IOEnv.TIER = "thorough"
Slash == 47   Percent == 37   PlusSign == 43   Amp == 38   Equals == 61   Ask == 63   Space == 32
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))

-----------------------------------------------------------------------------
(* UTF-8 *)
Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == Cat([i \in DOMAIN s |-> Enc(s[i])])
\* <<code points>> or <<-1>> if the bytes are no UTF-8 (overlong forms and surrogates never occur here)
RECURSIVE Dec(_, _)
Dec(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET n == IF b[i] < 128 THEN 1 ELSE IF b[i] < 192 THEN 0 ELSE IF b[i] < 224 THEN 2 ELSE IF b[i] < 240 THEN 3 ELSE 4
           t(j) == b[i + j] - 128
       IN IF n = 0 \/ i + n - 1 > Len(b) THEN <<-1>>
          ELSE IF \E j \in 1..(n - 1) : b[i + j] \notin 128..191 THEN <<-1>>
          ELSE <<CASE n = 1 -> b[i]
                   [] n = 2 -> (b[i] - 192) * 64 + t(1)
                   [] n = 3 -> (b[i] - 224) * 4096 + t(1) * 64 + t(2)
                   [] n = 4 -> (b[i] - 240) * 262144 + t(1) * 4096 + t(2) * 64 + t(3)>> \o Dec(b, i + n)

-----------------------------------------------------------------------------
(* Identifiers: URL-safe base64 without padding *)
Digit64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 45 ELSE 95
Group(x) == CASE Len(x) = 3 -> <<Digit64(x[1] \div 4), Digit64((x[1] % 4) * 16 + (x[2] \div 16)), Digit64((x[2] % 16) * 4 + (x[3] \div 64)), Digit64(x[3] % 64)>>
              [] Len(x) = 2 -> <<Digit64(x[1] \div 4), Digit64((x[1] % 4) * 16 + (x[2] \div 16)), Digit64((x[2] % 16) * 4)>>
              [] Len(x) = 1 -> <<Digit64(x[1] \div 4), Digit64((x[1] % 4) * 16)>>
RECURSIVE B64(_)
B64(b) == IF b = <<>> THEN <<>> ELSE IF Len(b) <= 3 THEN Group(b) ELSE Group(SubSeq(b, 1, 3)) \o B64(SubSeq(b, 4, Len(b)))
Identifier(s) == B64(Utf8(s))
Unpadded(x) == \A i \in DOMAIN x : x[i] \in (48..57) \cup (65..90) \cup (97..122) \cup {45, 95}

-----------------------------------------------------------------------------
(* Query strings *)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
\* Bytes of a form-encoded piece, <<-1>> if it is not one
RECURSIVE Unquote(_, _)
Unquote(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = PlusSign THEN <<Space>> \o Unquote(s, i + 1)
  ELSE IF s[i] = Percent THEN
    (IF i + 2 > Len(s) THEN <<-1>> ELSE IF Hex(s[i + 1]) < 0 \/ Hex(s[i + 2]) < 0 THEN <<-1>> ELSE <<Hex(s[i + 1]) * 16 + Hex(s[i + 2])>> \o Unquote(s, i + 3))
  ELSE IF s[i] \notin 33..126 \/ s[i] \in {34, 35, 60, 62, 92, 94, 96, 123, 124, 125} THEN <<-1>>
  ELSE <<s[i]>> \o Unquote(s, i + 1)
Piece(s) == LET b == Unquote(s, 1) IN IF \E i \in DOMAIN b : b[i] = -1 THEN <<-1>> ELSE Dec(b, 1)
Places(s, c) == {i \in 1..Len(s) : s[i] = c}
First(P) == CHOOSE i \in P : \A j \in P : i <= j
RECURSIVE Split(_, _)
Split(s, c) == IF Places(s, c) = {} THEN <<s>> ELSE LET i == First(Places(s, c)) IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
Pair(s) == IF Places(s, Equals) = {} THEN <<Piece(s), <<-2>>>>
           ELSE LET i == First(Places(s, Equals)) IN <<Piece(SubSeq(s, 1, i - 1)), Piece(SubSeq(s, i + 1, Len(s)))>>
Pairs(s) == IF s = <<>> THEN <<>> ELSE LET x == Split(s, Amp) IN [i \in DOMAIN x |-> Pair(x[i])]

-----------------------------------------------------------------------------
(* A request q: base (path of the configured address, without trailing      *)
(* slash), remove (path prefix to remove), pre (prefixes), path, params     *)
(* (sequence of [n, k, v]: k is "none", "bool", "text"), add and own        *)
(* (headers: sequences of [n, v]).                                          *)
Text(p) == IF p.k = "bool" THEN (IF p.v = <<1>> THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>) ELSE p.v
Given(params) == LET g == SelectSeq(params, LAMBDA p : p.k # "none") IN [i \in DOMAIN g |-> <<g[i].n, Text(g[i])>>]
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, c) == s # <<>> /\ s[Len(s)] = c
\* Does the prefix end where a segment of the path ends?
AtBoundary(s, p) == Len(s) = Len(p) \/ s[Len(p) + 1] = Slash
Whole(q) == Cat(q.pre) \o q.path
Removed(q) == LET u == Whole(q) IN IF q.remove # <<>> /\ StartsWith(u, q.remove) /\ AtBoundary(u, q.remove) THEN SubSeq(u, Len(q.remove) + 1, Len(u)) ELSE u
\* Nothing is claimed if the prefix ends with a slash itself, or is the whole path with a query behind
Left(q) == EndsWith(q.remove, Slash) \/ (Whole(q) = q.remove /\ Given(q.params) # <<>>)
Path(q) == q.base \o Removed(q)
\* An empty path is the root
Shown(p) == IF p = <<>> THEN <<Slash>> ELSE p
\* Headers: the request's own win
Lower(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Headers(q) == LET names == {q.add[i].n : i \in DOMAIN q.add} \cup {q.own[i].n : i \in DOMAIN q.own}
                  val(n) == IF \E i \in DOMAIN q.own : q.own[i].n = n THEN q.own[CHOOSE i \in DOMAIN q.own : q.own[i].n = n].v
                            ELSE q.add[CHOOSE i \in DOMAIN q.add : q.add[i].n = n].v
              IN {<<n, val(n)>> : n \in names}
=============================================================================
