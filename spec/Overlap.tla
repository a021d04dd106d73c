------------------------------ MODULE Overlap ------------------------------
(* C12: checks which overlap in time, in threads of one process.            *)
(*                                                                          *)
(* A round has two checks.  The first is stopped after some steps of the    *)
(* interpreter; the second starts and runs to its end or is stopped as      *)
(* well; the first goes on to its end, then the second.  (If one waits for  *)
(* the other, the other goes on.)  They may be given the same value.        *)
(* Each verdict is that of the document, as if it was checked alone.        *)
EXTENDS Session

Rounds == IF Thorough THEN 60 ELSE 30
ShareForms == {"data", "again"}
VARIABLES rounds, pc, ended
ovars == <<hist, kept, rounds, pc, ended>>
Checks == {"a", "b"}
InitO == Init /\ rounds = <<>> /\ pc = [x \in Checks |-> "done"] /\ ended = <<>>
\* Where a check is stopped, in thousandths of its course.  A history either goes on with other documents, or stops the same check at points evenly spread.
ThreadForms(i) == FormsOf(i) \ Slots
Sweep == rounds # <<>> /\ rounds[1].b.i % 4 # 0
Choose == /\ \A x \in Checks : pc[x] = "done"
          /\ Len(rounds) < Rounds
          /\ \E i \in {IF Sweep THEN rounds[1].a.i ELSE RandomElement(1..Num)} : \E j \in {RandomElement(1..Num)} : \E same \in {RandomElement(1..6) = 1} :
             \E f \in {IF Sweep THEN rounds[1].a.f ELSE RandomElement(ThreadForms(i))} : \E g \in {RandomElement(ThreadForms(j))} :
             \E p \in {IF Sweep THEN (rounds[1].a.p + (Len(rounds) * 1000) \div Rounds) % 1000 ELSE RandomElement(0..999)} : \E q \in {RandomElement(0..999)} :
             \E full \in {RandomElement(1..3) # 1} :
               rounds' = Append(rounds, [a |-> [i |-> i, f |-> f, p |-> p],
                                         b |-> [i |-> IF same THEN i ELSE j, f |-> IF same THEN f ELSE g, p |-> IF full THEN -1 ELSE q],
                                         same |-> same /\ f = "data"])
          /\ pc' = [x \in Checks |-> "ready"] /\ ended' = <<>> /\ UNCHANGED <<hist, kept>>
Cur == rounds[Len(rounds)]
Go(x, to) == pc' = [pc EXCEPT ![x] = to] /\ UNCHANGED <<hist, kept, rounds>>
Start(x) == /\ pc[x] = "ready" /\ (x = "b" => pc["a"] = "stopped")
            /\ Go(x, "running") /\ UNCHANGED ended
Stop(x) == /\ pc[x] = "running" /\ Cur[x].p >= 0
           /\ Go(x, "stopped") /\ UNCHANGED ended
Resume(x) == /\ pc[x] = "stopped" /\ (IF x = "a" THEN pc["b"] \in {"stopped", "done"} ELSE pc["a"] = "done")
             /\ Go(x, "resumed") /\ UNCHANGED ended
End(x) == /\ pc[x] = "resumed" \/ (pc[x] = "running" /\ Cur[x].p < 0)
          /\ Go(x, "done") /\ ended' = Append(ended, x)
NextO == Choose \/ \E x \in Checks : Start(x) \/ Stop(x) \/ Resume(x) \/ End(x)
SpecO == InitO /\ [][NextO]_ovars
\* One of them moves at a time; each ends once; they overlap
OneMoves == Cardinality({x \in Checks : pc[x] \in {"running", "resumed"}}) <= 1
Once == \A x \in Checks : Cardinality({k \in DOMAIN ended : ended[k] = x}) <= 1
Overlapping == pc["b"] \in {"running", "stopped"} => pc["a"] # "done" \/ ended = <<"a">>
EmitO == /\ (Len(rounds) = Rounds /\ Len(ended) = 2 => WriteCase([h |-> rounds]))
         /\ (rounds = <<>> => \A i \in 1..Num : WriteCase(PoolEntry(i)))
=============================================================================
