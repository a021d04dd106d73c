------------------------------- MODULE XmlDocs ------------------------------
(* C07: renderings of given documents, with their verdicts.                 *)
EXTENDS Xml

Trace == ndJsonDeserialize(IOEnv.TRACE \o IOEnv.PART)
VARIABLE l
Init == l = 1
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Judge1 == l <= Len(Trace) =>
  LET c == Trace[l].c
      d == Trace[l].d
      b == Both(c, d)
  IN IF Expressible(tCls(c), d)
     THEN WriteCase([l |-> l, c |-> c, x |-> XmlDoc(c, d), st |-> StyleOf(l), kind |-> "", bad |-> FALSE, r |-> b.r, k |-> b.k, dev |-> b.dev])
     ELSE WriteCase([l |-> l, c |-> "", d |-> d])
=============================================================================
