------------------------------ MODULE DocTrace ------------------------------
(* Binding B: verdicts recorded from the implementation are checked against *)
(* the specification.  Each line of the trace holds a document, the class   *)
(* it was checked as, the findings that were reported and the verdict; the  *)
(* specification names the clause a line violates.                          *)
EXTENDS Emit

Trace == ndJsonDeserialize(IOEnv.TRACE \o IOEnv.PART)

NormMap == [c \in DOMAIN LowerMap |-> IF c = "_" THEN "" ELSE LowerMap[c]]
Norm(p) == IF p = "" THEN "/" ELSE MapStr(p, 1, NormMap)

VARIABLE l
Init == l = 1
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l

Against(r, x) ==
  LET strict == r.phase = "constraints"
      key(p, id, lv) == IF strict THEN <<p, id, lv>> ELSE <<p, "", 0>>
      must == {key(Norm(f.p), f.id, f.l) : f \in {g \in r.f : g.m}}
      may == {key(Norm(f.p), f.id, f.l) : f \in {g \in r.f : ~g.m}}
      seen == {key(x.o[i].p, x.o[i].id, x.o[i].l) : i \in DOMAIN x.o}
      errors == \E i \in DOMAIN x.o : x.o[i].l >= 2
      raises == {f \in r.f : f.id = "RAISE"}
  IN IF x.raised \/ \E f \in raises : f.m
     THEN [clause |-> IF x.raised /\ raises # {} THEN "" ELSE "raised", missing |-> {}, extra |-> {}]
     ELSE
     [clause |-> CASE must \ seen # {} -> "not reported"
                   [] must \subseteq seen /\ seen \ (must \cup may) # {} -> "reported without reason"
                   [] must \subseteq seen /\ seen \subseteq must \cup may /\ (x.ok = errors) -> "verdict contradicts findings"
                   [] OTHER -> "",
      missing |-> must \ seen, extra |-> (seen \ must) \ may]
Judge1 == l <= Len(Trace) =>
  LET b == Both(Trace[l].c, Trace[l].d)
      v == Against(b.r, Trace[l])
      w == IF v.clause = "" \/ b.k = b.r THEN v ELSE Against(b.k, Trace[l])
  IN WriteCase([l |-> l, clause |-> v.clause, known |-> v.clause # "" /\ w.clause = "", dev |-> b.dev, missing |-> v.missing, extra |-> v.extra,
                phase |-> b.r.phase, n |-> Cardinality(b.r.f)])
=============================================================================
