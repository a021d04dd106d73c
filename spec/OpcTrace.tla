------------------------------- MODULE OpcTrace -----------------------------
(* Verdicts on recorded packages                                            *)
EXTENDS Opc

Trace == ndJsonDeserialize(IOEnv.TRACE \o IOEnv.PART)
VARIABLE l
Init == l \in DOMAIN Trace
Spec == Init /\ [][UNCHANGED l]_l
Judge1 == LET g == Trace[l].g IN CSVWrite("%1$s", <<ToJson([l |-> l, v |-> Verdict(g, Reached(g))])>>, IOEnv.OUT)
=============================================================================
