------------------------------ MODULE ApiNames ------------------------------
(* C17: profiles and versions that exist, and others                        *)
EXTENDS Api
Ssp == "https://admin-shell.io/aas/API/3/0/"
Full == {Ssp \o Profiles[p].n : p \in DOMAIN Profiles}
Near(n) == {n \o "/", n \o " ", " " \o n, SubSeq(n, 1, Len(n) - 1), SubSeq(n, 1, Len(n) - 3) \o "001", SubSeq(n, 1, Len(n) - 3) \o "003", SubSeq(n, Len(Ssp) + 1, Len(n)),
            SubSeq(n, 2, Len(n)), n \o n, SubSeq(n, 1, Len(n) - 8)}
Suites == Full \cup UNION {Near(n) : n \in Full} \cup {"", "*", "SSP-002", Ssp, "AASX"}
Versions == {"-", "3.0", "3", "3.1", "3.0 ", "2.0", "v3.0", "3.0.0", "latest"}
VARIABLES s, v
Init == s \in Suites /\ v \in Versions /\ Part = 0
Spec == Init /\ [][UNCHANGED <<s, v>>]_<<s, v>>
Runs == s \in Full /\ v \in {"-", "3.0"}
EmitAll == CSVWrite("%1$s", <<ToJson([s |-> s, v |-> v, runs |-> Runs])>>, IOEnv.OUT)
=============================================================================
