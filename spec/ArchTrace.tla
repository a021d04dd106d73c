------------------------------ MODULE ArchTrace -----------------------------
(* C11: damaged archives.  A record tells what was done to the bytes of a   *)
(* valid package, where, and what came out.                                 *)
(*   op: none, cut (a proper prefix), flip (bits of one byte), edit (several *)
(*       bytes anywhere), junk (random bytes instead), text (of any kind)   *)
(*   at: header (local), data (of a part which is read and not compressed),    *)
(*       other (other data), directory (central), end, "" (several places)  *)
(*   out: ok, error, raised, hang                                           *)
EXTENDS Naturals, Sequences, TLC, CSV, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE \o IOEnv.PART)
VARIABLE l
Init == l = 1
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l

\* What may come out.  Data is protected by a checksum; headers, directory and end are not.
Allowed(x) == CASE x.op = "none" -> {"ok"}
                [] x.op \in {"cut", "junk"} -> {"error"}
                [] x.op = "flip" /\ x.at = "data" -> {"error"}
                [] x.op = "flip" /\ x.at = "other" -> {"ok", "error"}
                [] OTHER -> {"ok", "error"}
Judge1 == l <= Len(Trace) => CSVWrite("%1$s", <<ToJson([l |-> l, ok |-> Trace[l].out \in Allowed(Trace[l]), want |-> Allowed(Trace[l])])>>, IOEnv.OUT)
=============================================================================
