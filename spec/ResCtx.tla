-------------------------------- MODULE ResCtx ------------------------------
(* C14: all programs up to a bound                                          *)
EXTENDS Scope

VARIABLES m, ops
vars == <<m, ops>>
Init == m = Start /\ ops = <<>>
Step(op) == m' = Do(m, Len(ops) + 1, op) /\ ops' = Append(ops, op)
Depth == Len(m.frames)
MaxOps == IF Thorough THEN 7 ELSE 5
MaxDepth == 4
\* Levels tried: scopes 0 and 1; writes 0 (plain text), 1 and 2; aborts 2 (plain text) and 1
Next == /\ Len(ops) < MaxOps
        /\ \/ \E g \in BOOLEAN, own \in {0, 1} : Depth < MaxDepth /\ (own = 1 => Depth = 0) /\ Step(Op1("enter", g, own))
           \/ Depth > 0 /\ Step(Op1("leave", FALSE, 0))
           \/ \E l \in {0, 2} : Step(Op1("write", FALSE, l))
           \/ \E l \in {1, 2} : Step(Op1("abort", FALSE, l))
           \/ Step(Op1("raise", FALSE, 0))
           \/ Step(Op1("interrupt", FALSE, 0))
\* Beyond the bound, open scopes are left
Close == Len(ops) >= MaxOps /\ Depth > 0 /\ Step(Op1("leave", FALSE, 0))
Spec == Init /\ [][Next \/ Close]_vars

-----------------------------------------------------------------------------
RECURSIVE Ids(_)
Ids(s) == IF s = <<>> THEN <<>> ELSE <<s[1].id>> \o Ids(s[1].s) \o Ids(Tail(s))
Recorded == Ids(m.done)
\* Nothing is recorded twice, and outermost scopes are recorded in the order they were entered
Once == \A i, j \in DOMAIN Recorded : i # j => Recorded[i] # Recorded[j]
InOrder == \A i, j \in DOMAIN Recorded : i < j => Recorded[i] < Recorded[j]
Hash == Len(ops) + Cardinality({i \in DOMAIN ops : ops[i].o \in {"abort", "enter"}}) + 3 * Cardinality({i \in DOMAIN ops : ops[i].o = "write"})
          + 5 * (IF Len(ops) > 1 THEN (IF ops[2].g THEN 1 ELSE 0) + ops[2].l ELSE 0)
EmitAll == (Depth = 0 /\ Len(ops) >= Max2(1, MaxOps - 1) /\ Hash % Parts = Part) =>
           CSVWrite("%1$s", <<ToJson([ops |-> ops, done |-> m.done, out |-> m.out])>>, IOEnv.OUT)
=============================================================================
