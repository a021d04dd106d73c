---------------------------- MODULE ResTreeTrace ----------------------------
(* Larger trees: how they were built and what their renderings showed       *)
EXTENDS Res

Trace == ndJsonDeserialize(IOEnv.TRACE \o IOEnv.PART)
VARIABLE l
Init == l = 1
Next == l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
RECURSIVE Build(_, _, _, _)
Build(ops, i, stack, n) ==
  IF i > Len(ops) THEN stack[1]
  ELSE IF ops[i] >= 0 THEN Build(ops, i + 1, Append(stack, Leaf(n + 1, ops[i])), n + 1)
  ELSE LET k == Len(stack)
           host == stack[k - 1]
       IN Build(ops, i + 1, Append(SubSeq(stack, 1, k - 2), Node(host.id, host.own, Append(host.s, stack[k]))), n)
Wrong(x) == LET t == Build(x.ops, 1, <<>>, 0)
                e == Lines(t, 0)
            IN (IF x.ok # IsOk(t) THEN {"verdict"} ELSE {})
               \cup {k \in DOMAIN x.views : Len(x.views[k]) # Len(e) \/ \E i \in DOMAIN e : x.views[k][i] # e[i]}
Judge1 == l <= Len(Trace) => CSVWrite("%1$s", <<ToJson([l |-> l, wrong |-> Wrong(Trace[l])])>>, IOEnv.OUT)
=============================================================================
