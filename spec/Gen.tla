-------------------------------- MODULE Gen ---------------------------------
(* Documents: minimal and full valid instances of every class, edits of     *)
(* documents, and the places an object of a class may occur.                *)
EXTENDS Judge

NoAttrs == [x \in {} |-> Z]

ExtRef(v) == O([type |-> S("ExternalReference"), keys |-> A(<<O([type |-> S("GlobalReference"), value |-> S(v)])>>)])
ModRef(v) == O([type |-> S("ModelReference"), keys |-> A(<<O([type |-> S("Submodel"), value |-> S(v)])>>)])
Lang(l, x) == O([language |-> S(l), text |-> S(x)])
Key(k, v) == O([type |-> S(k), value |-> S(v)])

SampleStr(s) ==
  CASE s = "Version" -> "1" [] s = "Revision" -> "0" [] s = "Path" -> "file:/a/b" [] s = "ContentType" -> "text/plain"
    [] s = "DateTime" -> "2024-01-31T12:00:00Z" [] s = "Duration" -> "PT1M" [] OTHER -> "x1"
SampleEnum(e) ==
  CASE e = "ModellingKind" -> "Instance" [] e = "ReferenceType" -> "ExternalReference" [] e = "KeyType" -> "GlobalReference"
    [] e = "DataTypeDefXsd" -> "xs:string" [] e = "DataTypeIec61360" -> "STRING" [] e = "QualifierKind" -> "ConceptQualifier"
    [] e = "AssetKind" -> "Instance" [] e = "EntityType" -> "SelfManagedEntity" [] e = "Direction" -> "input"
    [] e = "StateOfEvent" -> "on"

RECURSIVE Val(_, _, _)
RECURSIVE Min(_)
\* A valid value for attribute a (of type ty) of class c
Val(c, a, ty) ==
  CASE a \in {"observed", "derivedFrom", "messageBroker"} -> ModRef("s1")
    [] c = "AssetAdministrationShell" /\ a = "submodels" -> A(<<ModRef("s1")>>)
    [] a = "dataSpecification" -> ExtRef(DataSpecUri)
    [] a = "category" -> S("CONSTANT")
    [] a = "language" -> S("en")
    [] a = "typeValueListElement" -> S("Capability")
    [] c = "SubmodelElementList" /\ a \in {"semanticId", "semanticIdListElement"} -> ExtRef("g1")
    [] c = "SubmodelElementList" /\ a = "value" -> A(<<With(Min("Capability"), "semanticId", ExtRef("g1"))>>)
    [] c = "SubmodelElementCollection" /\ a = "value" -> A(<<With(Min("Capability"), "idShort", S("c1"))>>)
    [] a \in {"submodelElements", "statements"} -> A(<<With(Min("Capability"), "idShort", S("c1"))>>)
    [] a = "annotations" -> A(<<With(Min("Property"), "idShort", S("p1"))>>)
    [] c = "OperationVariable" /\ a = "value" -> With(Min("Capability"), "idShort", S("v1"))
    [] a = "outputVariables" -> A(<<O([value |-> With(Min("Capability"), "idShort", S("v2"))])>>)
    [] a = "inoutputVariables" -> A(<<O([value |-> With(Min("Capability"), "idShort", S("v3"))])>>)
    [] ty.k = "str" -> S(SampleStr(ty.c))
    [] ty.k = "enum" -> S(SampleEnum(ty.c))
    [] ty.k = "bool" -> B(TRUE)
    [] ty.k = "text" -> S("x1")
    [] ty.k = "list" -> A(<<Val(c, a, ty.of)>>)
    [] ty.k = "cls" -> IF ty.c = "DataSpecificationContent" THEN Min("DataSpecificationIec61360")
                       ELSE IF ty.c = "Reference" THEN ExtRef("g1") ELSE Min(ty.c)

WithType(c, n) == IF c \in Elements \cup Identifiables \cup {"DataSpecificationIec61360"} THEN With(n, "modelType", S(c)) ELSE n

\* Attributes beyond the mandatory ones without which a minimal instance would violate a constraint
Extra(c) == CASE c = "AssetInformation" -> {"globalAssetId"} [] c = "Entity" -> {"globalAssetId"}
              [] c = "DataSpecificationIec61360" -> {"definition"} [] OTHER -> {}
Inst(c, as) == WithType(c, O([a \in as |-> Val(c, a, Attrs[c][a].ty)]))
Min(c) == Inst(c, ReqNames[c] \cup Extra(c))
MinOf == [c \in Classes |-> Min(c)]

\* Full instances; value and valueList of IEC 61360 content exclude each other
Max(c) == Inst(c, AttrNames[c] \ (IF c = "DataSpecificationIec61360" THEN {"value"} ELSE {}))
MaxOf == [c \in Classes |-> Max(c)]
MaxB == Inst("DataSpecificationIec61360", AttrNames["DataSpecificationIec61360"] \ {"valueList"})

El(c, id) == With(MinOf[c], "idShort", S(id))
Sm(els) == With(MinOf["Submodel"], "submodelElements", A(els))
Env(sms) == O([submodels |-> A(sms)])

-----------------------------------------------------------------------------
(* Where may an object of a class occur?                                    *)
(* Hosts(c): pairs <<class, attribute>> whose type accepts c directly or as *)
(* list item.                                                               *)
Accepts(ty, c) == CASE ty.k = "list" -> ty.of.k = "cls" /\ (ty.of.c = c \/ (ty.of.c \in Abstract /\ c \in Subclasses(ty.of.c)))
                    [] ty.k = "cls" -> ty.c = c \/ (ty.c \in Abstract /\ c \in Subclasses(ty.c))
                    [] OTHER -> FALSE
Hosts(c) == {<<h, a>> \in UNION {{<<h, a>> : a \in AttrNames[h]} : h \in Classes} : Accepts(Attrs[h][a].ty, c)}

\* n put into attribute a of a host instance
Put(host, h, a, n) == With(host, a, IF Attrs[h][a].ty.k = "list" THEN A(<<n>>) ELSE n)

-----------------------------------------------------------------------------
(* Edits *)
Steps == [s \in {ToString(i) : i \in 0..99} |-> CHOOSE i \in 0..99 : ToString(i) = s]

RECURSIVE Apply(_, _)
\* e = [path |-> sequence of attribute names / indices, op |-> "set" | "del", v |-> node]
Apply(n, e) ==
  IF e.path = <<>> THEN e.v
  ELSE LET s == Head(e.path)
           r == [e EXCEPT !.path = Tail(@)]
       IN IF n.t = "a"
          THEN LET i == Steps[s] + 1
               IN IF Len(e.path) = 1 /\ e.op = "del"
                  THEN A(SubSeq(n.e, 1, i - 1) \o SubSeq(n.e, i + 1, Len(n.e)))
                  ELSE IF i = Len(n.e) + 1 THEN A(Append(n.e, e.v))
                  ELSE A([n.e EXCEPT ![i] = Apply(@, r)])
          ELSE IF Len(e.path) = 1 /\ e.op = "del" THEN Without(n, s)
          ELSE IF Len(e.path) = 1 THEN With(n, s, e.v)
          ELSE With(n, s, Apply(n.f[s], r))

SetE(path, v) == [path |-> path, op |-> "set", v |-> v]
DelE(path) == [path |-> path, op |-> "del", v |-> Z]

LowerMap == [c \in {Ch(ASCII, i) : i \in 1..Len(ASCII)} |->
               IF Code[c] \in 65..90 THEN CHOOSE d \in {Ch(ASCII, i) : i \in 1..Len(ASCII)} : Code[d] = Code[c] + 32 ELSE c]
UpperMap == [c \in {Ch(ASCII, i) : i \in 1..Len(ASCII)} |->
               IF Code[c] \in 97..122 THEN CHOOSE d \in {Ch(ASCII, i) : i \in 1..Len(ASCII)} : Code[d] = Code[c] - 32 ELSE c]
RECURSIVE MapStr(_, _, _)
MapStr(s, i, f) == IF i > Len(s) THEN "" ELSE f[Ch(s, i)] \o MapStr(s, i + 1, f)
Lower(s) == MapStr(s, 1, LowerMap)
Upper(s) == MapStr(s, 1, UpperMap)
SnakeMap == [c \in DOMAIN LowerMap |-> IF Code[c] \in 65..90 THEN "_" \o LowerMap[c] ELSE c]
Snake(s) == MapStr(s, 1, SnakeMap)
Capital(s) == UpperMap[Ch(s, 1)] \o SubSeq(s, 2, Len(s))
Uncapital(s) == LowerMap[Ch(s, 1)] \o SubSeq(s, 2, Len(s))

\* Values of another JSON kind than the declared one
OtherKinds(ty, n) ==
  CASE ty.k = "list" -> {Z, N("1"), S("x"), B(TRUE), O(NoAttrs), A(<<>>)} \cup (IF n.t = "a" /\ n.e # <<>> THEN {n.e[1], A(Append(n.e, Z)), A(<<n>>)} ELSE {})
    [] ty.k = "cls" -> {Z, N("0"), S("x"), S(""), B(FALSE), A(<<>>), A(<<n>>), O(NoAttrs)}
    [] ty.k \in {"str", "text"} -> {Z, N("1"), B(TRUE), A(<<>>), O(NoAttrs), A(<<n>>)}
    [] ty.k = "enum" -> {Z, N("0"), B(TRUE), A(<<>>), O(NoAttrs), A(<<n>>), S("")}
    [] ty.k = "bool" -> {Z, N("0"), N("1"), S("true"), S(""), A(<<>>), O(NoAttrs), A(<<n>>), B(FALSE)}

\* Strings close to a literal
\* a few literals of every other enumeration
ForeignLits == [e \in DOMAIN Literals |->
              UNION {LET r == Literals[f] \ Literals[e] IN IF r = {} THEN {} ELSE {CHOOSE x \in r : TRUE} : f \in DOMAIN Literals \ {e}}
              \cup ({"Submodel", "Instance", "xs:string", "ModelReference", "Property", "ConceptQualifier", "STRING", "input", "on"} \ Literals[e])]
EnumVariants(e, v) ==
  LET near == {Lower(v), Upper(v), Capital(v), Uncapital(v), v \o " ", " " \o v, v \o v, SubSeq(v, 1, Len(v) - 1), v \o "{10}", "None", "x"}
  IN {S(x) : x \in near} \cup {S(x) : x \in Literals[e]} \cup {S(x) : x \in ForeignLits[e]}
     \cup (IF e = "AssetKind" THEN {S("INSTANCE"), S("NOT_APPLICABLE"), S("Not_Applicable"), S("Role")}
           ELSE IF e = "DataTypeDefXsd" THEN {S("string"), S("xsd:string"), S("xs:normalizedString"), S("xs:dateTimeStamp"), S("xs:yearMonthDuration"), S("xs:untypedAtomic"), S("rdf:langString"), S("xs:String")}
           ELSE IF e = "KeyType" THEN {S("Key"), S("Environment"), S("Qualifier"), S("AssetInformation"), S("GlobalReferences"), S("Operation_Variable")}
           ELSE {})

UnknownNames(c) == {"foo", "", "ID", "modeltype", "model_type", "ModelType", "__class__", "id_short_path", "idShortPath", "raw_value", "result", "$schema", "@context", "@type", "_id", "_comment", "xmlns", "idshort", "id_short", " id", "id ", "semantic_id", "{65279}id"}
                   \cup {Snake(a) : a \in AttrNames[c]} \cup {Capital(a) : a \in AttrNames[c]} \cup {Upper(a) : a \in AttrNames[c]}
                   \cup {"idShort", "value", "kind", "semanticId", "embeddedDataSpecifications", "text"}
ModelTypes(c) == {S(x) : x \in {"Submodel", "Property", "SubmodelElement", "DataElement", "EventElement", "Capability", "", "Foo",
                                "DataSpecificationIec61360", "DataSpecificationContent", "Environment", "Reference", "Referable",
                                Lower(c), Uncapital(c), Upper(c), c \o " ", c \o "{10}", c}} \cup {Z, N("1"), B(TRUE), A(<<S(c)>>), O(NoAttrs)}

\* All single structural edits of node n (declared type ty) at or below path
RECURSIVE Edits(_, _, _)
Edits(ty, n, path) ==
  {SetE(path, v) : v \in OtherKinds(ty, n)}
  \cup (IF ty.k = "enum" THEN {SetE(path, v) : v \in EnumVariants(ty.c, n.v)} ELSE {})
  \cup (IF ty.k = "list" THEN UNION {Edits(ty.of, n.e[i], Append(path, ToString(i - 1))) : i \in DOMAIN n.e} ELSE {})
  \cup (IF ty.k = "cls"
        THEN LET c == IF ty.c \in Abstract THEN ModelType(n) ELSE ty.c
                 typed == c \in NeedsModelType \/ ty.c \in Abstract
             IN {DelE(Append(path, a)) : a \in DOMAIN n.f \ (IF typed THEN {} ELSE {"modelType"})}
                \cup {SetE(Append(path, a), S("x1")) : a \in UnknownNames(c) \ AttrNames[c]}
                \cup {SetE(Append(path, a), v) : a \in {"foo", "$schema"}, v \in {Z, B(FALSE), N("0"), A(<<>>), O(NoAttrs)}}
                \cup (IF typed THEN {SetE(Append(path, "modelType"), v) : v \in ModelTypes(c)} ELSE {})
                \cup UNION {Edits(Attrs[c][a].ty, n.f[a], Append(path, a)) : a \in DOMAIN n.f \ {"modelType"}}
        ELSE {})
=============================================================================
