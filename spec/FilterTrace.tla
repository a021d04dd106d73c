------------------------------ MODULE FilterTrace ---------------------------
(* Selections recorded from the implementation, judged by the specification *)
EXTENDS Filter

Trace == ndJsonDeserialize(IOEnv.TRACE \o IOEnv.PART)
VARIABLE l
Init == l = 1
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Wrong(x) == IF Accepted(x.f) # x.ok THEN {0}
            ELSE IF ~x.ok THEN {}
            ELSE {i \in DOMAIN x.n : LET e == Selects(x.f, x.n[i]) IN e # "any" /\ (e = "yes") # x.s[i]}
Judge1 == l <= Len(Trace) => CSVWrite("%1$s", <<ToJson([l |-> l, wrong |-> Wrong(Trace[l])])>>, IOEnv.OUT)
=============================================================================
