-------------------------------- MODULE Emit --------------------------------
(* Emission of test cases, partitioned over several TLC processes.          *)
EXTENDS Gen, CSV, Json, IOUtils

OutFile == IOEnv.OUT
Part == Steps[IOEnv.PART]
Parts == Steps[IOEnv.PARTS]
Thorough == IOEnv.TIER = "thorough"

\* Is an item with hash value h ours?
Ours(h) == h % Parts = Part
WriteCase(x) == CSVWrite("%1$s", <<ToJson(x)>>, OutFile)
\* Structural errors suppress constraint findings
PhaseRule(r) == r.phase = "structure" => \A f \in r.f : f.id = "" /\ f.l = 2
EmitDoc(c, d) == LET b == Both(c, d)
                 IN PhaseRule(b.r) /\ WriteCase(IF b.r = b.k THEN [c |-> c, d |-> d, r |-> b.r] ELSE [c |-> c, d |-> d, r |-> b.r, k |-> b.k, dev |-> b.dev])
=============================================================================
