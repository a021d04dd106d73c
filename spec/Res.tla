--------------------------------- MODULE Res --------------------------------
(* Result trees.  A node is [id |-> natural, own |-> severity it was created *)
(* with, s |-> sequence of nodes]; severities: 0 info, 1 warning, 2 error,  *)
(* 3 critical.  Messages are opaque here (ids).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, Json, IOUtils

Severities == 0..3
Leaf(id, own) == [id |-> id, own |-> own, s |-> <<>>]
Node(id, own, s) == [id |-> id, own |-> own, s |-> s]
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE All(_)
\* All severities in a tree
All(n) == {n.own} \cup UNION {All(n.s[i]) : i \in DOMAIN n.s}
Sev(n) == CHOOSE m \in All(n) : \A x \in All(n) : x <= m
IsOk(n) == \A x \in All(n) : x < 2

\* What the renderings tell: the nodes in order with depth and severity
RECURSIVE Lines(_, _)
RECURSIVE LinesOf(_, _, _)
LinesOf(s, i, d) == IF i > Len(s) THEN <<>> ELSE Lines(s[i], d) \o LinesOf(s, i + 1, d)
Lines(n, d) == <<[id |-> n.id, d |-> d, l |-> Sev(n)]>> \o LinesOf(n.s, 1, d + 1)

Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)
Thorough == IOEnv.TIER = "thorough"
=============================================================================
