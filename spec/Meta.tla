-------------------------------- MODULE Meta --------------------------------
(* The metamodel: classes, attributes, types.                               *)
(*                                                                          *)
(* Document nodes (a JSON value):                                           *)
(*   [t |-> "s", v |-> string]   [t |-> "b", v |-> "true" or "false"]   *)
(*   [t |-> "n", v |-> string]   (a number)     [t |-> "z"]  (null)         *)
(*   [t |-> "a", e |-> sequence of nodes]                                   *)
(*   [t |-> "o", f |-> function from attribute names to nodes]              *)
EXTENDS Lex

S(x) == [t |-> "s", v |-> x]
B(x) == [t |-> "b", v |-> IF x THEN "true" ELSE "false"]
N(x) == [t |-> "n", v |-> x]
Z == [t |-> "z"]
A(xs) == [t |-> "a", e |-> xs]
O(f) == [t |-> "o", f |-> f]

Has(n, a) == a \in DOMAIN n.f
\* n with attribute a set to v / removed
With(n, a, v) == [n EXCEPT !.f = (a :> v) @@ n.f]
Without(n, a) == [n EXCEPT !.f = [x \in DOMAIN n.f \ {a} |-> n.f[x]]]

-----------------------------------------------------------------------------
(* Types *)
tStr(c) == [k |-> "str", c |-> c]         \* constrained string
tEnum(c) == [k |-> "enum", c |-> c]
tBool == [k |-> "bool"]
tText == [k |-> "text"]                   \* unconstrained string (language strings are constrained later)
tCls(c) == [k |-> "cls", c |-> c]
tList(t) == [k |-> "list", of |-> t]      \* non-empty list

Req(a, t) == a :> [ty |-> t, req |-> TRUE]
Op(a, t) == a :> [ty |-> t, req |-> FALSE]

tRef == tCls("Reference")
tRefs == tList(tRef)

aHasDataSpec == Op("embeddedDataSpecifications", tList(tCls("EmbeddedDataSpecification")))
aHasSemantics == Op("semanticId", tRef) @@ Op("supplementalSemanticIds", tRefs)
aQualifiable == Op("qualifiers", tList(tCls("Qualifier")))
aReferable == Op("extensions", tList(tCls("Extension"))) @@ Op("category", tStr("NameType")) @@ Op("idShort", tStr("NameType"))
   @@ Op("displayName", tList(tCls("MultiLanguageNameType"))) @@ Op("description", tList(tCls("MultiLanguageTextType")))
aIdentifiable == aReferable @@ Op("administration", tCls("AdministrativeInformation")) @@ Req("id", tStr("Identifier"))
aElement == aReferable @@ aHasSemantics @@ aQualifiable @@ aHasDataSpec
aLang == Req("language", tText) @@ Req("text", tText)
aRelation == aElement @@ Req("first", tRef) @@ Req("second", tRef)
tElements == tList(tCls("SubmodelElement"))
tVariables == tList(tCls("OperationVariable"))

DataElements == {"Blob", "File", "MultiLanguageProperty", "Property", "Range", "ReferenceElement"}
EventElements == {"BasicEventElement"}
Elements == DataElements \cup EventElements
            \cup {"AnnotatedRelationshipElement", "Capability", "Entity", "Operation", "RelationshipElement",
                  "SubmodelElementCollection", "SubmodelElementList"}
Identifiables == {"AssetAdministrationShell", "Submodel", "ConceptDescription"}
LangClasses == {"MultiLanguageNameType", "MultiLanguageTextType", "DefinitionTypeIec61360", "PreferredNameTypeIec61360",
                "ShortNameTypeIec61360"}
OtherClasses == {"Environment", "Reference", "Key", "Extension", "AdministrativeInformation", "EmbeddedDataSpecification",
                 "DataSpecificationIec61360", "ValueList", "ValueReferencePair", "LevelType", "Qualifier", "SpecificAssetId",
                 "Resource", "AssetInformation", "OperationVariable"}
Classes == Elements \cup Identifiables \cup LangClasses \cup OtherClasses

\* Abstract classes and their concrete subclasses
Abstract == {"SubmodelElement", "DataElement", "EventElement", "DataSpecificationContent"}
Subclasses(c) == CASE c = "SubmodelElement" -> Elements
                   [] c = "DataElement" -> DataElements
                   [] c = "EventElement" -> EventElements
                   [] c = "DataSpecificationContent" -> {"DataSpecificationIec61360"}

AttrsOf(c) ==
  CASE c \in LangClasses -> aLang
    [] c = "Environment" -> Op("assetAdministrationShells", tList(tCls("AssetAdministrationShell")))
         @@ Op("submodels", tList(tCls("Submodel"))) @@ Op("conceptDescriptions", tList(tCls("ConceptDescription")))
    [] c = "AssetAdministrationShell" -> aIdentifiable @@ aHasDataSpec @@ Op("derivedFrom", tRef)
         @@ Req("assetInformation", tCls("AssetInformation")) @@ Op("submodels", tRefs)
    [] c = "Submodel" -> aIdentifiable @@ Op("kind", tEnum("ModellingKind")) @@ aHasSemantics @@ aQualifiable @@ aHasDataSpec
         @@ Op("submodelElements", tElements)
    [] c = "ConceptDescription" -> aIdentifiable @@ aHasDataSpec @@ Op("isCaseOf", tRefs)
    [] c = "Reference" -> Req("type", tEnum("ReferenceType")) @@ Op("referredSemanticId", tRef) @@ Req("keys", tList(tCls("Key")))
    [] c = "Key" -> Req("type", tEnum("KeyType")) @@ Req("value", tStr("Identifier"))
    [] c = "Extension" -> aHasSemantics @@ Req("name", tStr("NameType")) @@ Op("valueType", tEnum("DataTypeDefXsd"))
         @@ Op("value", tStr("ValueDataType")) @@ Op("refersTo", tRefs)
    [] c = "AdministrativeInformation" -> aHasDataSpec @@ Op("version", tStr("Version")) @@ Op("revision", tStr("Revision"))
         @@ Op("creator", tRef) @@ Op("templateId", tStr("Identifier"))
    [] c = "EmbeddedDataSpecification" -> Req("dataSpecification", tRef)
         @@ Req("dataSpecificationContent", tCls("DataSpecificationContent"))
    [] c = "DataSpecificationIec61360" -> Req("preferredName", tList(tCls("PreferredNameTypeIec61360")))
         @@ Op("shortName", tList(tCls("ShortNameTypeIec61360"))) @@ Op("unit", tStr("NonEmpty")) @@ Op("unitId", tRef)
         @@ Op("sourceOfDefinition", tStr("NonEmpty")) @@ Op("symbol", tStr("NonEmpty"))
         @@ Op("dataType", tEnum("DataTypeIec61360")) @@ Op("definition", tList(tCls("DefinitionTypeIec61360")))
         @@ Op("valueFormat", tStr("NonEmpty")) @@ Op("valueList", tCls("ValueList")) @@ Op("value", tStr("ValueTypeIec61360"))
         @@ Op("levelType", tCls("LevelType"))
    [] c = "ValueList" -> Req("valueReferencePairs", tList(tCls("ValueReferencePair")))
    [] c = "ValueReferencePair" -> Req("value", tStr("Identifier")) @@ Req("valueId", tRef)
    [] c = "LevelType" -> Req("min", tBool) @@ Req("nom", tBool) @@ Req("typ", tBool) @@ Req("max", tBool)
    [] c = "Qualifier" -> aHasSemantics @@ Op("kind", tEnum("QualifierKind")) @@ Req("type", tStr("NameType"))
         @@ Req("valueType", tEnum("DataTypeDefXsd")) @@ Op("value", tStr("ValueDataType")) @@ Op("valueId", tRef)
    [] c = "SpecificAssetId" -> aHasSemantics @@ Req("name", tStr("Label")) @@ Req("value", tStr("Identifier"))
         @@ Op("externalSubjectId", tRef)
    [] c = "Resource" -> Req("path", tStr("Path")) @@ Op("contentType", tStr("ContentType"))
    [] c = "AssetInformation" -> Req("assetKind", tEnum("AssetKind")) @@ Op("globalAssetId", tStr("Identifier"))
         @@ Op("specificAssetIds", tList(tCls("SpecificAssetId"))) @@ Op("assetType", tStr("Identifier"))
         @@ Op("defaultThumbnail", tCls("Resource"))
    [] c = "OperationVariable" -> Req("value", tCls("SubmodelElement"))
    [] c = "RelationshipElement" -> aRelation
    [] c = "AnnotatedRelationshipElement" -> aRelation @@ Op("annotations", tList(tCls("DataElement")))
    [] c = "BasicEventElement" -> aElement @@ Req("observed", tRef) @@ Req("direction", tEnum("Direction"))
         @@ Req("state", tEnum("StateOfEvent")) @@ Op("messageTopic", tStr("MessageTopic")) @@ Op("messageBroker", tRef)
         @@ Op("lastUpdate", tStr("DateTime")) @@ Op("minInterval", tStr("Duration")) @@ Op("maxInterval", tStr("Duration"))
    [] c = "Blob" -> aElement @@ Op("value", tStr("BlobString")) @@ Req("contentType", tStr("ContentType"))
    [] c \in {"Capability", "EventElement"} -> aElement
    [] c = "Entity" -> aElement @@ Op("statements", tElements) @@ Req("entityType", tEnum("EntityType"))
         @@ Op("globalAssetId", tStr("Identifier")) @@ Op("specificAssetIds", tList(tCls("SpecificAssetId")))
    [] c = "File" -> aElement @@ Op("value", tStr("Path")) @@ Req("contentType", tStr("ContentType"))
    [] c = "MultiLanguageProperty" -> aElement @@ Op("value", tList(tCls("MultiLanguageTextType"))) @@ Op("valueId", tRef)
    [] c = "Operation" -> aElement @@ Op("inputVariables", tVariables) @@ Op("outputVariables", tVariables)
         @@ Op("inoutputVariables", tVariables)
    [] c = "Property" -> aElement @@ Req("valueType", tEnum("DataTypeDefXsd")) @@ Op("value", tStr("ValueDataType"))
         @@ Op("valueId", tRef)
    [] c = "Range" -> aElement @@ Req("valueType", tEnum("DataTypeDefXsd")) @@ Op("min", tStr("ValueDataType"))
         @@ Op("max", tStr("ValueDataType"))
    [] c = "ReferenceElement" -> aElement @@ Op("value", tRef)
    [] c = "SubmodelElementCollection" -> aElement @@ Op("value", tElements)
    [] c = "SubmodelElementList" -> aElement @@ Op("orderRelevant", tBool) @@ Op("semanticIdListElement", tRef)
         @@ Req("typeValueListElement", tEnum("KeyType")) @@ Op("valueTypeListElement", tEnum("DataTypeDefXsd"))
         @@ Op("value", tElements)

\* EventElement is abstract; it is in this table since the code takes it for a class of elements (known finding)
TableClasses == Classes \cup {"EventElement"}
Attrs == [c \in TableClasses |-> AttrsOf(c)]
AttrNames == [c \in TableClasses |-> DOMAIN Attrs[c]]
ReqNames == [c \in TableClasses |-> {a \in DOMAIN Attrs[c] : Attrs[c][a].req}]

\* A model type is needed for identifiables and, in JSON, at every abstractly typed position
NeedsModelType == Identifiables

-----------------------------------------------------------------------------
(* Enumerations *)
AasSubmodelElements == Elements \cup {"SubmodelElement", "DataElement", "EventElement"}
AasIdentifiables == {"AssetAdministrationShell", "ConceptDescription", "Identifiable", "Submodel"}
GenericGloballyIdentifiables == {"GlobalReference"}
GenericFragmentKeys == {"FragmentReference"}
GloballyIdentifiables == AasIdentifiables \cup GenericGloballyIdentifiables
FragmentKeys == GenericFragmentKeys \cup AasSubmodelElements
KeyTypes == AasSubmodelElements \cup AasIdentifiables \cup {"GlobalReference", "FragmentReference", "Referable"}

XsLits == {"xs:" \o x : x \in XsKinds}
XsOf == [l \in XsLits |-> CHOOSE x \in XsKinds : "xs:" \o x = l]

IecTypes == {"BLOB", "BOOLEAN", "DATE", "FILE", "HTML", "INTEGER_COUNT", "INTEGER_CURRENCY", "INTEGER_MEASURE", "IRDI", "IRI",
             "RATIONAL", "RATIONAL_MEASURE", "REAL_COUNT", "REAL_CURRENCY", "REAL_MEASURE", "STRING", "STRING_TRANSLATABLE",
             "TIME", "TIMESTAMP"}

EnumNames == {"ModellingKind", "ReferenceType", "KeyType", "DataTypeDefXsd", "DataTypeIec61360", "QualifierKind", "AssetKind",
              "EntityType", "Direction", "StateOfEvent"}
Literals ==
  [e \in EnumNames |->
    CASE e = "ModellingKind" -> {"Instance", "Template"}
      [] e = "ReferenceType" -> {"ExternalReference", "ModelReference"}
      [] e = "KeyType" -> KeyTypes
      [] e = "DataTypeDefXsd" -> XsLits
      [] e = "DataTypeIec61360" -> IecTypes
      [] e = "QualifierKind" -> {"ConceptQualifier", "TemplateQualifier", "ValueQualifier"}
      [] e = "AssetKind" -> {"Instance", "NotApplicable", "Type"}
      [] e = "EntityType" -> {"CoManagedEntity", "SelfManagedEntity"}
      [] e = "Direction" -> {"input", "output"}
      [] e = "StateOfEvent" -> {"off", "on"}]

-----------------------------------------------------------------------------
(* Constrained strings: length bounds (-1: none) and form *)
StrNames == {"NameType", "Identifier", "Label", "MessageTopic", "ValueDataType", "Version", "Revision", "NonEmpty",
             "ValueTypeIec61360", "Path", "ContentType", "BlobString", "DateTime", "Duration"}
StrBounds ==
  [s \in StrNames |->
    CASE s = "NameType" -> <<1, 128>>
      [] s = "Identifier" -> <<1, 2000>>
      [] s = "Label" -> <<1, 64>>
      [] s = "MessageTopic" -> <<1, 255>>
      [] s = "ValueDataType" -> <<0, -1>>
      [] s \in {"Version", "Revision"} -> <<1, 4>>
      [] s \in {"NonEmpty", "BlobString", "DateTime", "Duration"} -> <<1, -1>>
      [] s \in {"ValueTypeIec61360", "Path"} -> <<1, 2000>>
      [] s = "ContentType" -> <<1, 100>>]

StrForm(c, v) ==
  CASE c \in {"Version", "Revision"} -> YN(Matches(reVersion, Cps(v)))
    [] c = "ContentType" -> YN(Matches(reContentType, Cps(v)))
    [] c = "Path" -> YN(Matches(reAnyUri, Cps(v)))
    [] c = "DateTime" -> Lex1("dateTime", Cps(v))
    [] c = "Duration" -> Lex1("duration", Cps(v))
    [] OTHER -> "yes"

\* "yes", "no" or "any"
StrOk(c, v) ==
  LET n == StrLen(v) b == StrBounds[c]
  IN IF n < b[1] \/ (b[2] # -1 /\ n > b[2]) \/ ~XmlString(v) THEN "no" ELSE StrForm(c, v)

LangMax == [c \in LangClasses |-> CASE c = "MultiLanguageNameType" -> 128
                                    [] c \in {"MultiLanguageTextType", "DefinitionTypeIec61360"} -> 1023
                                    [] c = "PreferredNameTypeIec61360" -> 255
                                    [] c = "ShortNameTypeIec61360" -> 18]
=============================================================================
