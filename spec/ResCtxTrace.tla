---------------------------- MODULE ResCtxTrace -----------------------------
(* Longer programs with what was recorded                                   *)
EXTENDS Scope

Trace == ndJsonDeserialize(IOEnv.TRACE \o IOEnv.PART)
\* Each recorded program is run step by step
VARIABLES l, i, m
Init == l = 1 /\ i = 0 /\ m = Start
Next == \/ i < Len(Trace[l].ops) /\ m' = Do(m, i + 1, Trace[l].ops[i + 1]) /\ i' = i + 1 /\ l' = l
        \/ i = Len(Trace[l].ops) /\ l < Len(Trace) /\ l' = l + 1 /\ i' = 0 /\ m' = Start
Spec == Init /\ [][Next]_<<l, i, m>>
RECURSIVE IdsOf(_)
IdsOf(s) == UNION {{s[j].id} \cup IdsOf(s[j].s) : j \in DOMAIN s}
\* Scopes that a foreign error passed (those not in X) may leave a trace; which raise a caught error came from cannot be seen
RECURSIVE View(_, _)
View(s, X) == IF s = <<>> THEN <<>>
              ELSE LET h == s[1]
                   IN (IF h.k = "s" /\ h.id \notin X THEN <<>>
                       ELSE <<Rec(h.k, IF h.k = "x" THEN 0 ELSE h.id, h.own, View(h.s, X))>>) \o View(Tail(s), X)
Same(done) == LET X == IdsOf(m.done) IN View(m.done, X) = View(done, X)
Judge1 == (l <= Len(Trace) /\ i = Len(Trace[l].ops)) =>
          CSVWrite("%1$s", <<ToJson([l |-> l, same |-> m.frames = <<>> /\ Same(Trace[l].done) /\ m.out = Trace[l].out])>>, IOEnv.OUT)
=============================================================================
