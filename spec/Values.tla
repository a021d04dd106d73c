------------------------------- MODULE Values -------------------------------
(* C06: typed values.  A state is a string as value of a declared type in a *)
(* carrier; steps edit characters and move the value to another carrier.    *)
EXTENDS Emit, Corpus

XsSeq == <<"anyURI", "double", "float", "dateTime", "date", "time", "byte", "unsignedByte", "short", "unsignedShort", "int", "unsignedInt", "long", "unsignedLong",
           "integer", "positiveInteger", "nonNegativeInteger", "negativeInteger", "nonPositiveInteger", "decimal", "boolean", "gYear",
           "gYearMonth", "gMonth", "gDay", "gMonthDay", "duration", "hexBinary", "base64Binary", "string">>
Carriers == {"Property", "Qualifier", "Extension", "min", "max", "min2", "max2"}

VARIABLES ty, str, carrier, edits
vars == <<ty, str, carrier, edits>>

Good == CASE ty = "string" -> "a" [] OTHER -> CHOOSE s \in EditSeeds(ty) : LexXs(ty, s) = "yes"
Checked == CASE carrier \in {"min", "max", "min2", "max2"} -> "Range" [] OTHER -> carrier
Doc ==
  LET typed == With(MinOf[Checked], "valueType", S("xs:" \o ty))
      v == S(str)
  IN CASE carrier = "min" -> With(typed, "min", v) [] carrier = "max" -> With(typed, "max", v)
       [] carrier = "min2" -> With(With(typed, "min", v), "max", S(Good))
       [] carrier = "max2" -> With(With(typed, "max", v), "min", S(Good))
       [] OTHER -> With(typed, "value", v)

\* Values of other types are good probes as well
Foreign == UNION {EditSeeds(x) : x \in XsKinds}
Init == /\ ty \in {XsSeq[i] : i \in {j \in DOMAIN XsSeq : Ours(j)}}
        /\ \/ str \in FormSeeds(ty) \cup EditSeeds(ty) \cup Foreign /\ edits = 0
           \/ str \in Family(ty) \ FormSeeds(ty) /\ edits = 2
        /\ carrier = "Property"
Edit == /\ carrier = "Property"
        /\ \/ edits = 0 /\ str \in EditSeeds(ty)
           \/ edits = 1 /\ Thorough /\ Len(str) <= 6
        /\ str' \in CharEdits(ty, str) /\ edits' = edits + 1 /\ UNCHANGED <<ty, carrier>>
Move == /\ carrier = "Property" /\ edits = 0
        /\ carrier' \in Carriers \ {"Property"} /\ UNCHANGED <<ty, str, edits>>
MoveEdited == /\ carrier = "Property" /\ edits = 1 /\ Len(str) % 3 = 0
              /\ carrier' \in {"Qualifier", "max"} /\ UNCHANGED <<ty, str, edits>>
Next == Edit \/ Move \/ MoveEdited
Spec == Init /\ [][Next]_vars
EmitAll == EmitDoc(Checked, Doc)
=============================================================================
