---------------------------- MODULE SessionPairs ----------------------------
(* C12: all short histories over representatives of the pool.               *)
EXTENDS Session

\* Representatives: every Stride-th document; forms rotate so that all pairs of forms occur
Stride == IF Thorough THEN 5 ELSE 11
Reps == {i \in 1..Num : i % Stride = 1}
FormSeq(i) == SeqOf(FormsOf(i))
Form(i, k) == FormSeq(i)[1 + (k % Len(FormSeq(i)))]
First == hist = <<>> /\ \E i \in Reps : Ours(i \div Stride) /\ \E k \in 0..(IF Thorough THEN 10 ELSE 2) : Step(i, Form(i, k))
Second == Len(hist) = 1 /\ \E j \in Reps : Step(j, Form(j, j + hist[1].i + Len(hist[1].f)))
\* ... and back to the first one, in its first form
Third == Len(hist) = 2 /\ Step(hist[1].i, hist[1].f)
NextP == First \/ Second \/ Third
SpecP == Init /\ [][NextP]_vars
EmitP == (hist = <<>> => \A i \in Reps : WriteCase(PoolEntry(i))) /\ (Len(hist) = 3 => WriteCase([h |-> hist]))
=============================================================================
