----------------------------- MODULE TemplateMix ----------------------------
(* C09: environments of several submodels, in every order.                  *)
EXTENDS Template

CiOk == TSub("ContactInformations", LeastOf["ContactInformations"])
NpOk == TSub("DigitalNameplate", LeastOf["DigitalNameplate"])
\* a data specification of another address is worth a warning, which concerns no template
Warned(o) == With(o, "embeddedDataSpecifications", A(<<With(MinOf["EmbeddedDataSpecification"], "dataSpecification", ExtRef("urn:other"))>>))
Kinds == [ciok |-> CiOk, npok |-> NpOk,
          cibad |-> TSub("ContactInformations", <<El("Capability", "x")>>),
          npbad |-> TSub("DigitalNameplate", SelectSeq(LeastOf["DigitalNameplate"], LAMBDA e : FirstKey(e) # FamilySid)),
          ciwarn |-> Warned(CiOk), cibadwarn |-> Warned(TSub("ContactInformations", <<El("Capability", "x")>>)),
          npbadwarn |-> TSub("DigitalNameplate", <<Warned(El("Property", "x"))>>),
          plain |-> Sm(<<El("Property", "p")>>), foreign |-> Semantic(Sm(LeastOf["ContactInformations"]), CiSid \o "/"),
          swapped |-> Semantic(CiOk, NpSid), kindt |-> With(NpOk, "kind", S("Template")),
          broken |-> With(TSub("ContactInformations", <<El("Capability", "x"), El("Capability", "x")>>), "idShort", S("s"))]
SeqsUpTo(X, n) == UNION {[1..k -> X] : k \in 1..n}
VARIABLES sms
Code0 == [k \in DOMAIN Kinds |-> Len(k)]
Init == sms \in {q \in SeqsUpTo(DOMAIN Kinds, IF Thorough THEN 4 ELSE 3) : Ours(Len(ToString(q)) + Code0[q[1]])}
Spec == Init /\ [][FALSE]_sms
Doc == LET e == Env([i \in DOMAIN sms |-> With(Kinds[sms[i]], "id", S("s" \o ToString(i)))])
           sh == MinOf["AssetAdministrationShell"]
       IN CASE Len(sms) = 2 /\ sms[1] = sms[2] -> With(e, "conceptDescriptions", A(<<Warned(MinOf["ConceptDescription"])>>))
            [] Len(sms) % 2 = 0 -> e
            [] Len(sms) = 1 -> With(e, "assetAdministrationShells", A(<<Warned(sh)>>))
            [] OTHER -> With(e, "assetAdministrationShells", A(<<sh>>))
\* a submodel is judged on its own
EmitT == LET v == TVerdict("Environment", Doc)
         IN /\ v.ok <=> \A i \in DOMAIN sms : TVerdict("Submodel", Kinds[sms[i]]).ok
            /\ WriteCase([c |-> "Environment", d |-> Doc, t |-> v])
=============================================================================
