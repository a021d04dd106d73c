----------------------------- MODULE OverlapAll -----------------------------
(* C12: a check which is stopped again and again, after each step (or every *)
(* so many, if it is long); each time another check runs from start to end  *)
(* in another thread.  All verdicts are those of the documents alone.       *)
EXTENDS Session

\* (In the model a check has three steps)
Moves == 3
VARIABLES job, at, inner, done
avars == <<hist, kept, job, at, inner, done>>
DataForms(i) == {"data", "bytes"} \cup (IF CanXml[i] THEN {"tree", "xml"} ELSE {})
Alike == [c \in {Pool[i][1] : i \in 1..Num} |-> {i \in 1..Num : Pool[i][1] = c}]
\* Documents of the same class which differ in one attribute and in the verdict
Differ(x, y) == {a \in DOMAIN x.f \cup DOMAIN y.f : a \notin DOMAIN x.f \/ a \notin DOMAIN y.f \/ x.f[a] # y.f[a]}
Said == [i \in 1..Num |-> <<Findings(Pool[i][1], Pool[i][2]), TVerdict(Pool[i][1], Pool[i][2]).ok>>]
Close(i) == LET near == {j \in Alike[Pool[i][1]] : Said[j] # Said[i] /\ Pool[i][2].t = "o" /\ Pool[j][2].t = "o" /\ Cardinality(Differ(Pool[i][2], Pool[j][2])) = 1}
            IN IF near = {} THEN Alike[Pool[i][1]] ELSE near
NoJob == [a |-> [i |-> 0, f |-> ""], b |-> <<>>]
InitA == Init /\ job = NoJob /\ at = 0 /\ inner = 0 /\ done = <<>>
\* Others: of the same class, and any
Begin == /\ job = NoJob
         /\ \E i \in 1..Num : /\ Ours(i)
            /\ \E f \in {RandomElement(DataForms(i))} : \E j \in {RandomElement(Close(i))} : \E k \in {RandomElement(Close(i))} : \E m \in {RandomElement(1..Num)} :
               \E g \in {RandomElement(DataForms(j))} : \E h \in {RandomElement(DataForms(k))} : \E e \in {RandomElement(DataForms(m))} :
                 job' = [a |-> [i |-> i, f |-> f], b |-> <<[i |-> j, f |-> g], [i |-> k, f |-> h], [i |-> m, f |-> e]>>]
         /\ UNCHANGED <<hist, kept, at, inner, done>>
Move == /\ job # NoJob /\ inner = 0 /\ at < Moves
        /\ at' = at + 1 /\ inner' = 1 + (at % Len(job.b)) /\ UNCHANGED <<hist, kept, job, done>>
InnerEnds == /\ inner > 0 /\ done' = Append(done, job.b[inner].i) /\ inner' = 0 /\ UNCHANGED <<hist, kept, job, at>>
OuterEnds == /\ job # NoJob /\ at = Moves /\ inner = 0 /\ Len(done) = Moves
             /\ done' = Append(done, job.a.i) /\ UNCHANGED <<hist, kept, job, at, inner>>
NextA == Begin \/ Move \/ InnerEnds \/ OuterEnds
SpecA == InitA /\ [][NextA]_avars
\* The stopped check is the last one to end, and every other one ends within
Within == \A n \in DOMAIN done : n <= Moves => at >= n
EmitA == /\ (Len(done) > Moves => WriteCase([h |-> <<job>>]))
         /\ (job = NoJob => \A i \in 1..Num : WriteCase(PoolEntry(i)))
=============================================================================
