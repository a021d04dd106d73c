------------------------------- MODULE FilterGen ----------------------------
(* A filter is typed character by character; in each state the names it     *)
(* selects are emitted.                                                     *)
EXTENDS Filter

Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)
Thorough == IOEnv.TIER = "thorough"
Alphabet == {97, 98, Star, Question, Open, Close, Bang, Dash, Tilde, Colon, 32}
MaxLen == IF Thorough THEN 6 ELSE 4
Names == <<<<>>, <<97>>, <<98>>, <<65>>, <<99>>, <<97, 97>>, <<97, 98>>, <<98, 97>>, <<97, 98, 99>>, <<32>>, <<32, 97>>, <<97, 32>>, <<97, 10>>, <<45>>, <<33>>,
           <<91>>, <<91, 97>>, <<93>>, <<97, 45, 98>>, <<42>>, <<63>>, <<97, 63, 98>>>>

VARIABLE f
Init == f = <<>>
Type == Len(f) < MaxLen /\ \E c \in Alphabet : f' = Append(f, c) /\ (Len(f) # 1 \/ (f[1] + c) % Parts = Part)
Spec == Init /\ [][Type]_f
LawsHold == Len(f) <= 3 => \A i \in DOMAIN Names : Laws(f, Names[i])
EmitAll == (Len(f) >= 2 \/ Part = 0) =>
  CSVWrite("%1$s", <<ToJson([f |-> f, ok |-> Accepted(f), s |-> IF Accepted(f) THEN [i \in DOMAIN Names |-> Selects(f, Names[i])] ELSE <<>>,
                             n |-> IF f = <<>> THEN Names ELSE <<>>])>>, IOEnv.OUT)
=============================================================================
