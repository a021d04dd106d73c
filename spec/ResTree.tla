------------------------------- MODULE ResTree ------------------------------
(* C13: building result trees bottom up.  Finished trees are put on a       *)
(* stack; the topmost one is appended to the one below it.                  *)
EXTENDS Res

MaxNodes == IF Thorough THEN 6 ELSE 5

VARIABLES stack, n, ops
vars == <<stack, n, ops>>
Init == stack = <<>> /\ n = 0 /\ ops = <<>>
Create == /\ n < MaxNodes
          /\ \E l \in Severities :
               /\ n = 1 => l % Parts = Part % 4 \/ Parts < 4
               /\ stack' = Append(stack, Leaf(n + 1, l))
               /\ ops' = Append(ops, l)
          /\ n' = n + 1
\* -1: append the topmost tree to the one below
Attach == /\ Len(stack) >= 2
          /\ LET k == Len(stack)
                 host == stack[k - 1]
             IN stack' = Append(SubSeq(stack, 1, k - 2), Node(host.id, host.own, Append(host.s, stack[k])))
          /\ ops' = Append(ops, -1)
          /\ UNCHANGED n
Next == Create \/ Attach
Spec == Init /\ [][Next]_vars

\* Severity only grows, by exactly what is appended
Monotone == \A i \in DOMAIN stack : Sev(stack[i]) >= stack[i].own /\ (IsOk(stack[i]) <=> Sev(stack[i]) < 2)
Mine == Parts < 4 \/ (Len(ops) + Cardinality({i \in DOMAIN ops : ops[i] = 2})) % (Parts \div 4) = Part \div 4
EmitAll == (Len(stack) = 1 /\ Mine /\ (n > 1 \/ Part = 0)) =>
           CSVWrite("%1$s", <<ToJson([ops |-> ops, ok |-> IsOk(stack[1]), lines |-> Lines(stack[1], 0)])>>, IOEnv.OUT)
=============================================================================
