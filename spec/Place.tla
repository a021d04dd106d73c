------------------------------- MODULE Place --------------------------------
(* Contexts in which an object of a class can stand.                        *)
EXTENDS Emit

Fill(n, id) == IF Has(n, "idShort") THEN n ELSE With(n, "idShort", S(id))
ListOf(n, rest) == With(With(With(MinOf["SubmodelElementList"], "typeValueListElement", S(ModelType(n))), "value", A(<<Without(n, "idShort")>> \o rest)),
                        "valueTypeListElement", IF Has(n, "valueType") THEN n.f["valueType"] ELSE S("xs:string"))
\* Context names for objects of class c
Ctxs(c) == (IF c \in Elements THEN {"submodel", "collection", "list", "entity", "input", "output", "inoutput", "deep", "second"} ELSE {})
           \cup (IF c \in DataElements THEN {"annotation"} ELSE {})
           \cup (IF c \in Identifiables THEN {"environment"} ELSE {})
           \cup (IF c = "EmbeddedDataSpecification" THEN {"dsconcept", "dsproperty", "dsadmin"} ELSE {})
           \cup (IF c = "DataSpecificationIec61360" THEN {"content"} ELSE {})
CtxClass(x) == CASE x \in {"submodel", "second"} -> "Submodel" [] x = "collection" -> "SubmodelElementCollection" [] x = "list" -> "SubmodelElementList"
                 [] x = "entity" -> "Entity" [] x \in {"input", "output", "inoutput"} -> "Operation" [] x \in {"deep", "environment"} -> "Environment"
                 [] x = "annotation" -> "AnnotatedRelationshipElement" [] x = "dsconcept" -> "ConceptDescription" [] x = "dsproperty" -> "Property"
                 [] x = "dsadmin" -> "AdministrativeInformation" [] x = "content" -> "EmbeddedDataSpecification"
InCtx(x, c, n) ==
  LET e == Fill(n, "e1")
      var(v) == A(<<O([value |-> v])>>)
  IN CASE x = "submodel" -> Sm(<<e>>)
       [] x = "second" -> Sm(<<El("Capability", "q1"), El("Property", "q2"), e, El("File", "q3")>>)
       [] x = "collection" -> With(MinOf["SubmodelElementCollection"], "value", A(<<e>>))
       [] x = "list" -> ListOf(n, <<>>)
       [] x = "entity" -> With(MinOf["Entity"], "statements", A(<<e>>))
       [] x = "input" -> With(MinOf["Operation"], "inputVariables", var(e))
       [] x = "output" -> With(MinOf["Operation"], "outputVariables", var(e))
       [] x = "inoutput" -> With(MinOf["Operation"], "inoutputVariables", var(e))
       [] x = "annotation" -> With(MinOf["AnnotatedRelationshipElement"], "annotations", A(<<e>>))
       [] x = "deep" -> Env(<<Sm(<<El("Capability", "q1"),
                                   With(El("SubmodelElementCollection", "q2"), "value",
                                        A(<<With(El("Entity", "q3"), "statements", A(<<With(El("Operation", "q4"), "outputVariables", var(Fill(ListOf(n, <<>>), "l1")))>>))>>))>>)>>)
       [] x = "environment" -> O((CASE c = "Submodel" -> "submodels" [] c = "ConceptDescription" -> "conceptDescriptions"
                                    [] c = "AssetAdministrationShell" -> "assetAdministrationShells") :> A(<<MinOf[c], n>>))
       [] x = "dsconcept" -> With(MinOf["ConceptDescription"], "embeddedDataSpecifications", A(<<n>>))
       [] x = "dsproperty" -> With(MinOf["Property"], "embeddedDataSpecifications", A(<<MinOf["EmbeddedDataSpecification"], n>>))
       [] x = "dsadmin" -> With(MinOf["AdministrativeInformation"], "embeddedDataSpecifications", A(<<n>>))
       [] x = "content" -> With(MinOf["EmbeddedDataSpecification"], "dataSpecificationContent", n)

Hash(d) == Len(ToString(d))

\* A scenario is a pair <<class, document>>
CONSTANT Scenarios
VARIABLES cls, doc, ctx
vars == <<cls, doc, ctx>>
Init == /\ \E s \in Scenarios : cls = s[1] /\ doc = s[2] /\ Ours(Hash(s[2]))
        /\ ctx = ""
PlaceIt == /\ ctx = "" /\ ctx' \in Ctxs(cls) /\ UNCHANGED <<cls, doc>>
Spec == Init /\ [][PlaceIt]_vars
Checked == IF ctx = "" THEN cls ELSE CtxClass(ctx)
Doc == IF ctx = "" THEN doc ELSE InCtx(ctx, cls, doc)
\* What is said about the object itself (except about its id short and its membership in a list) is said in every context
Relocated == LET own == {<<f.id, f.l>> : f \in {g \in Own(cls, doc, "") : Due(g) /\ g.id \notin {"AASd-002", "AASd-117", "AASd-120"}}}
                 r == Findings(Checked, Doc)
             IN r.phase = "constraints" => own \subseteq {<<f.id, f.l>> : f \in r.f}
EmitAll == EmitDoc(Checked, Doc)
=============================================================================
