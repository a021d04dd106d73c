------------------------------- MODULE WireTree -----------------------------
(* C21: clients descend into path prefixes and send; nothing a client or a  *)
(* request does changes what another one sends.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, Json, IOUtils
Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)
Thorough == IOEnv.TIER = "thorough"
Depth == IF Thorough THEN 5 ELSE 4
Prefixes == {"/a", "/b"}
VARIABLES clients,   \* sequence of [pre, hdr]: prefixes and whether it has the additional header
          ops,       \* what was done
          sent       \* what has to be seen: [path, x (own header), h (additional header)]
vars == <<clients, ops, sent>>
Init == \E h \in BOOLEAN : clients = <<[pre |-> "", hdr |-> h]>> /\ ops = <<[k |-> "new", i |-> 0, p |-> "", h |-> h]>> /\ sent = <<>>
Ended == ops[Len(ops)].k = "both"
Room == Len(ops) <= Depth /\ ~Ended
New == \E h \in BOOLEAN : /\ clients' = Append(clients, [pre |-> "", hdr |-> h])
                          /\ ops' = Append(ops, [k |-> "new", i |-> 0, p |-> "", h |-> h])
                          /\ UNCHANGED sent
Descend == \E i \in DOMAIN clients, p \in Prefixes :
             /\ clients' = Append(clients, [clients[i] EXCEPT !.pre = @ \o p])
             /\ ops' = Append(ops, [k |-> "descend", i |-> i, p |-> p, h |-> FALSE])
             /\ UNCHANGED sent
Wire(i, x) == [path |-> clients[i].pre \o "/q", x |-> x, h |-> clients[i].hdr]
Send == \E i \in DOMAIN clients, x \in BOOLEAN :
             /\ sent' = Append(sent, Wire(i, x))
             /\ ops' = Append(ops, [k |-> "send", i |-> i, p |-> "", h |-> x])
             /\ UNCHANGED clients
\* While client i sends, client j does so, too, in another thread and again and again (last, with the own header where i has none, to another path, with another method and a body)
Both == /\ Len(ops) = Depth - 1 /\ sent = <<>>
        /\ \E i \in DOMAIN clients, j \in DOMAIN clients, x \in BOOLEAN :
             /\ sent' = sent \o <<[Wire(j, ~x) EXCEPT !.path = clients[j].pre \o "/r"], Wire(i, x)>>
             /\ ops' = Append(ops, [k |-> "both", i |-> i, p |-> ToString(j), h |-> x])
             /\ UNCHANGED clients
Next == Room /\ (New \/ Descend \/ Send \/ Both)
Spec == Init /\ [][Next]_vars
\* Clients never change once they exist
Stable == [][\A i \in DOMAIN clients : clients'[i] = clients[i]]_vars
Complete == Len(ops) = Depth + 1 \/ Ended
Mine == IF Ended THEN (Len(sent[1].path) + Len(sent[2].path) + ops[Len(ops)].i * 3) % Parts = Part ELSE ((Len(sent) % 2) * 4) + (Len(clients) % 4) = Part
EmitAll == Complete /\ Mine /\ sent # <<>> => CSVWrite("%1$s", <<ToJson([ops |-> ops, sent |-> sent])>>, IOEnv.OUT)
=============================================================================
