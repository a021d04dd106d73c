-------------------------------- MODULE Refs --------------------------------
(* C03: a reference grows key by key; it may then be nested as referred     *)
(* semantic id and placed in any attribute which holds references.          *)
EXTENDS Emit

KeySeq == <<"GlobalReference", "FragmentReference", "Referable", "Identifiable", "AssetAdministrationShell", "ConceptDescription", "Submodel",
            "SubmodelElement", "DataElement", "EventElement", "Blob", "File", "MultiLanguageProperty", "Property", "Range", "ReferenceElement",
            "BasicEventElement", "AnnotatedRelationshipElement", "Capability", "Entity", "Operation", "RelationshipElement",
            "SubmodelElementCollection", "SubmodelElementList">>
ASSUME {KeySeq[i] : i \in DOMAIN KeySeq} = KeyTypes
Reps == {"GlobalReference", "FragmentReference", "Submodel", "File", "Blob", "Property", "SubmodelElementList", "Referable"}
Reps4 == {"FragmentReference", "Submodel", "File", "SubmodelElementList", "Property", "GlobalReference"}
\* Values for keys behind a list
IntProbes == {"0", "1", "10", "007", "-1", "+1", "-0", "a", "1a", "a1", "1.0", "1e1", "{1633}", "{178}", "{9312}", "1_0", "0x1", " 1", "1 ", "1{10}", "{65297}", "{57*30}", "{57*5000}", "1 1", "[0]", "--1"}

VARIABLES kind, keys, host
vars == <<kind, keys, host>>

Ref(t, ks) == O([type |-> S(t), keys |-> A([i \in DOMAIN ks |-> Key(ks[i][1], ks[i][2])])])
Obj == Ref(kind, keys)
Checked == CASE host = <<>> -> "Reference" [] host = <<"nested">> -> "Reference" [] OTHER -> host[1]
Doc == CASE host = <<>> -> Obj
         [] host = <<"nested">> -> With(ModRef("s1"), "referredSemanticId", With(ExtRef("g1"), "referredSemanticId", Obj))
         [] OTHER -> Put(MinOf[host[1]], host[1], host[2], Obj)

Init == /\ kind \in Literals["ReferenceType"]
        /\ keys \in {<<<<KeySeq[i], "1">>>> : i \in {j \in DOMAIN KeySeq : Ours(j)}}
        /\ host = <<>>
Types(i) == IF i = 2 THEN KeyTypes
            ELSE IF i = 3 THEN (IF keys[1][1] \in Reps \/ Thorough THEN KeyTypes ELSE Reps)
            ELSE IF i = 4 /\ keys[1][1] \in Reps4 /\ keys[2][1] \in Reps4 THEN (IF Thorough THEN Reps ELSE Reps4)
            ELSE {}
\* After a list the value matters; elsewhere it does not
Values(i, t) == IF keys[i - 1][1] # "SubmodelElementList" THEN {"x"}
                ELSE IF i = 2 \/ keys[i - 2][1] # "Submodel" THEN {"1", "x"}
                ELSE IF t \in {"Property", "SubmodelElementCollection", "SubmodelElementList"} THEN IntProbes ELSE {"1", "x", "-1"}
Grow == /\ host = <<>>
        /\ \A i \in DOMAIN keys : keys[i][2] \in {"1", "x"}
        /\ LET i == Len(keys) + 1
           IN \E t \in Types(i) : \E v \in Values(i, t) : keys' = Append(keys, <<t, v>>)
        /\ UNCHANGED <<kind, host>>
Placeable == IF Len(keys) <= 2 THEN keys[1][1] \in Reps /\ keys[Len(keys)][1] \in Reps
             ELSE Len(keys) = 3 /\ keys[2][1] = "SubmodelElementList" /\ keys[1][1] = "Submodel" /\ keys[3][1] = "Property" /\ keys[3][2] \in {"1", "x", "-1"}
Place == /\ host = <<>> /\ Placeable
         /\ host' \in Hosts("Reference") \cup {<<"nested">>}
         /\ UNCHANGED <<kind, keys>>
Next == Grow \/ Place
Spec == Init /\ [][Next]_vars

\* A chain without findings stays without findings about its prefix when it is extended by a plain element
Wellformed == {f.id : f \in RefFindings(Obj, "")} = {}
PrefixRule == host = <<>> /\ kind = "ModelReference" /\ Len(keys) > 1 /\ Wellformed =>
                LET r == Ref(kind, SubSeq(keys, 1, Len(keys) - 1)) IN RefFindings(r, "") = {}
EmitAll == EmitDoc(Checked, Doc)
=============================================================================
