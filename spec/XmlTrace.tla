------------------------------ MODULE XmlTrace ------------------------------
(* C11: arbitrary XML trees, with the verdicts they must get.               *)
EXTENDS Xml

Trace == ndJsonDeserialize(IOEnv.TRACE \o IOEnv.PART)
VARIABLE l
Init == l = 1
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
\* Names which do not tell a class are read over, but these two are treated specially wherever they stand
RECURSIVE Special(_)
Special(e) == e.g \in {"operationVariable", "dataSpecificationContent"} \/ \E i \in DOMAIN e.c : Special(e.c[i])
Judge1 == l <= Len(Trace) =>
  LET c == Trace[l].c
      x == Trace[l].x
      v == XVerdict(c, x)
  IN WriteCase([l |-> l, c |-> c, x |-> x, st |-> StyleOf(l), kind |-> "", any |-> Special(x), bad |-> v.bad, r |-> v.r, k |-> v.k, dev |-> v.dev])
=============================================================================
