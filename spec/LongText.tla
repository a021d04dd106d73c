------------------------------ MODULE LongText ------------------------------
(* C11: long strings of repeated pieces wherever a string has a form.  A    *)
(* state is a place, and a text "before piece piece ... piece after"; it    *)
(* grows by doubling up to the bound.  Whatever the text, checking it ends  *)
(* with a verdict.                                                          *)
EXTENDS Emit

Kind(c, a) == IF c \in LangClasses THEN (IF a = "language" THEN "Language" ELSE c)
              ELSE IF a = "idShort" THEN "IdShort" ELSE Attrs[c][a].ty.c
AllPairs == UNION {{<<c, a>> : a \in {x \in AttrNames[c] : Attrs[c][x].ty.k \in {"str", "text"}}} : c \in Classes}
\* One place for each kind of string, and each type of value
Kinds == {Kind(p[1], p[2]) : p \in AllPairs}
PlaceOf(k) == CHOOSE p \in AllPairs : Kind(p[1], p[2]) = k
Places == {<<PlaceOf(k)[1], PlaceOf(k)[2], "-">> : k \in Kinds} \cup {<<"Property", "value", t>> : t \in XsLits}
Doc(p) == IF p[3] = "-" THEN With(MinOf[p[1]], p[2], S("?")) ELSE With(With(MinOf["Property"], "valueType", S(p[3])), "value", S("?"))

Before == <<"", "a", "en", "a/a;", "http://", "P", "1", "[", "-", "2000-01-01T">>
Pieces == <<"a", "0", "-", "a-", "a1-", "abc-", "abcd-", "x-", "a-b-", " ", "\"", "\\", "\"a", "a=a;", "; a=a", ";a=\"b\"", "a/a", "%41", "%", "//", "a:", "[", ":", "1.", ":0", "1Y", "+", ".", "e1", "=", "A=",
            "AA==", " A", "{10}", "@", "?", "#", "&", "{233}", "{65536}", "1:", "::", "1.1.1.1", "00:00", "-00", "T", "_", "0a", "aA", ",", "'", "!">>
After == <<"", "!", "{0}", " ", "-", "\"", "%">>
MaxDoublings == IF Thorough THEN 13 ELSE 11

VARIABLES place, b, p, a, n
vars == <<place, b, p, a, n>>
Init == place \in Places /\ b \in DOMAIN Before /\ p \in DOMAIN Pieces /\ a \in DOMAIN After /\ n = 0
        /\ Ours(Len(place[1]) + Len(place[2]) + Len(place[3]) * 3 + b + p * 5 + a * 7)
        \* (in the quick tier a third)
        /\ (Thorough \/ (b + p + a + Len(place[3])) % 3 = 0)
Double == n < MaxDoublings /\ n' = n + 1 /\ UNCHANGED <<place, b, p, a>>
Next == Double
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Bounded == n <= MaxDoublings
\* (the driver tries the first and the last few lengths of each growth)
EmitAll == n = MaxDoublings => WriteCase([c |-> place[1], at |-> place[2], d |-> Doc(place), b |-> Before[b], p |-> Pieces[p], a |-> After[a], n |-> n])
=============================================================================
