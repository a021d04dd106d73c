------------------------------ MODULE WireTrace -----------------------------
(* Requests recorded from the implementation, judged                        *)
EXTENDS Wire
Trace == ndJsonDeserialize(IOEnv.TRACE \o IOEnv.PART)
VARIABLE l
Init == l \in DOMAIN Trace
Spec == Init /\ [][UNCHANGED l]_l
\* o: path (decoded), query (raw), headers: what was sent
Wrong(x) ==
  IF x.kind = "id" THEN (IF x.o.e = Identifier(x.q.s) THEN {} ELSE {"identifier"})
  ELSE (IF Left(x.q) \/ x.o.path = Shown(Path(x.q)) THEN {} ELSE {"path"})
       \cup (IF Pairs(x.o.query) = Given(x.q.params) THEN {} ELSE {"query"})
       \cup (IF \A h \in Headers(x.q) : \E i \in DOMAIN x.o.headers : x.o.headers[i].n = Lower(h[1]) /\ x.o.headers[i].v = h[2] THEN {} ELSE {"headers"})
       \cup (IF x.o.count = 1 THEN {} ELSE {"number of requests"})
Judge1 == CSVWrite("%1$s", <<ToJson([l |-> l, bad |-> Wrong(Trace[l])])>>, IOEnv.OUT)
=============================================================================
