-------------------------------- MODULE Judge -------------------------------
(* The verdict on a document: structural findings and, if there are none,   *)
(* constraint findings.  A finding is                                       *)
(*   [p |-> location, id |-> constraint id or "", a |-> attribute or "",    *)
(*    l |-> 1 (warning) / 2 (error), m |-> TRUE (must) / FALSE (may),       *)
(*    k |-> "" or how the code deviates: "-x" if by the known defect x the  *)
(*          finding is not made, "+x" if it is made, without reason, by x]  *)
(* The defects x are those of known_findings.txt; the verdict proper takes  *)
(* no "+x" finding, the one of the code as it is no "-x" finding.  The id   *)
(* RAISE stands for an exception instead of a verdict.                      *)
EXTENDS Meta

Find(p) == [p |-> p, id |-> "", a |-> "", l |-> 2, m |-> TRUE, k |-> ""]
FindA(p, a) == [Find(p) EXCEPT !.a = a]
Viol(p, id) == [Find(p) EXCEPT !.id = id]
Warn(p) == [Find(p) EXCEPT !.l = 1]
May(f) == [f EXCEPT !.m = FALSE]
Tri(x, f) == CASE x = "yes" -> {} [] x = "no" -> {f} [] x = "any" -> {May(f)}
When(b, f) == IF b THEN {f} ELSE {}
\* known deviations of the code
Lost(f, x) == [f EXCEPT !.k = "-" \o x]
Made(f, x) == [f EXCEPT !.k = "+" \o x]
Raise(x) == [p |-> "", id |-> "RAISE", a |-> "", l |-> 2, m |-> TRUE, k |-> "+" \o x]
\* finding f is due if b, but made if q
Instead(b, q, f, x) == IF b = q THEN When(b, f) ELSE IF b THEN {Lost(f, x)} ELSE {Made(f, x)}
Due(f) == f.k = "" \/ Ch(f.k, 1) = "-"
Actual(f) == f.k = "" \/ Ch(f.k, 1) = "+"

Sub(p, a) == p \o "/" \o a
Idx(p, i) == p \o "/" \o ToString(i - 1)

-----------------------------------------------------------------------------
(* Structure (C01, C02) *)

ModelType(n) == IF n.t = "o" /\ Has(n, "modelType") /\ n.f["modelType"].t = "s" THEN n.f["modelType"].v ELSE ""

\* The abstract EventElement is taken for an element
EventAsElement(c, n) == c = "SubmodelElement" /\ ModelType(n) = "EventElement"

RECURSIVE Struct(_, _, _)
StructObj(c, n, p) ==
  IF n.t # "o" THEN {Find(p)}
  ELSE LET names == AttrNames[c]
           given == DOMAIN n.f \ {"modelType"}
       IN When(c \in NeedsModelType /\ ModelType(n) # c, Find(p))
          \cup {FindA(p, a) : a \in ReqNames[c] \ given}
          \cup {FindA(p, a) : a \in given \ names}
          \cup UNION {Struct(Attrs[c][a].ty, n.f[a], Sub(p, a)) : a \in given \cap names}

Struct(ty, n, p) ==
  CASE ty.k = "list" -> IF n.t # "a" \/ n.e = <<>> THEN {Find(p)}
                        ELSE UNION {Struct(ty.of, n.e[i], Idx(p, i)) : i \in DOMAIN n.e}
    [] ty.k = "cls" -> IF ty.c \in Abstract
                       THEN IF ModelType(n) \in Subclasses(ty.c) THEN StructObj(ModelType(n), n, p)
                            ELSE IF EventAsElement(ty.c, n) THEN {Lost(Find(p), "event-element")} \cup {Made(f, "event-element") : f \in StructObj("EventElement", n, p)}
                            ELSE {Find(p)}
                       ELSE StructObj(ty.c, n, p)
    [] ty.k = "str" -> IF n.t # "s" THEN {Find(p)} ELSE Tri(StrOk(ty.c, n.v), Find(p))
    [] ty.k = "enum" -> When(n.t # "s" \/ (n.t = "s" /\ n.v \notin Literals[ty.c]), Find(p))
    [] ty.k = "bool" -> When(n.t # "b", Find(p))
    [] ty.k = "text" -> When(n.t # "s", Find(p))

-----------------------------------------------------------------------------
(* Constraints.  Below, n is an object without structural findings. *)

Str(n, a) == n.f[a].v                       \* a present
Items(n, a) == IF Has(n, a) THEN n.f[a].e ELSE <<>>
StrIs(n, a, v) == Has(n, a) /\ Str(n, a) = v

\* C03: key chains
KT(n, i) == n.f["keys"].e[i].f["type"].v
KV(n, i) == n.f["keys"].e[i].f["value"].v
IntKey(v) == LET w == Cps(v)
             IN IF \A i \in DOMAIN w : w[i] \in 48..57 THEN "yes"
                ELSE IF LexXs("nonNegativeInteger", v) # "no" THEN "any"      \* signs, surrounding whitespace
                ELSE "no"
Worst(X) == IF "no" \in X THEN "no" ELSE IF "any" \in X THEN "any" ELSE "yes"
RefFindings(n, p) ==
  LET k == Len(n.f["keys"].e)
      ext == Str(n, "type") = "ExternalReference"
      mod == ~ext
  IN When(KT(n, 1) \notin GloballyIdentifiables, Viol(p, "AASd-121"))
     \cup When(ext /\ KT(n, 1) \notin GenericGloballyIdentifiables, Viol(p, "AASd-122"))
     \cup When(mod /\ KT(n, 1) \notin AasIdentifiables, Viol(p, "AASd-123"))
     \cup When(ext /\ KT(n, k) \notin GenericGloballyIdentifiables \cup GenericFragmentKeys, Viol(p, "AASd-124"))
     \cup When(mod /\ \E i \in 2..k : KT(n, i) \notin FragmentKeys, Viol(p, "AASd-125"))
     \cup When(mod /\ \E i \in 1..(k - 1) : KT(n, i) \in GenericFragmentKeys, Viol(p, "AASd-126"))
     \cup When(mod /\ \E i \in 2..k : KT(n, i) = "FragmentReference" /\ KT(n, i - 1) \notin {"File", "Blob"}, Viol(p, "AASd-127"))
     \cup (IF mod THEN Tri(Worst({IntKey(KV(n, i)) : i \in {j \in 2..k : KT(n, j - 1) = "SubmodelElementList"}}), Viol(p, "AASd-128"))
           ELSE {})

\* References are compared by type and keys only
SameRef(x, y) == /\ Str(x, "type") = Str(y, "type")
                 /\ Len(x.f["keys"].e) = Len(y.f["keys"].e)
                 /\ \A i \in DOMAIN x.f["keys"].e : KT(x, i) = KT(y, i) /\ KV(x, i) = KV(y, i)
IsModelRef(r) == Str(r, "type") = "ModelReference"

\* id shorts
IdShorts(xs) == {i \in DOMAIN xs : Has(xs[i], "idShort")}
Dup(xs) == \E i, j \in IdShorts(xs) : i < j /\ Str(xs[i], "idShort") = Str(xs[j], "idShort")
Missing(xs) == \E i \in DOMAIN xs : ~Has(xs[i], "idShort")
NameSpaceX(xs, p) == When(Dup(xs), Lost(Viol(p, "AASd-022"), "aasd-022")) \cup When(Missing(xs), Viol(p, "AASd-117"))
NameSpace(xs, p) == When(Dup(xs), Viol(p, "AASd-022")) \cup When(Missing(xs), Viol(p, "AASd-117"))

OpValues(n) == LET vs == Items(n, "inputVariables") \o Items(n, "outputVariables") \o Items(n, "inoutputVariables")
               IN [i \in DOMAIN vs |-> vs[i].f["value"]]

\* All submodel elements below (and including) an element
RECURSIVE AllElements(_)
AllElements(n) ==
  LET c == ModelType(n)
      kids == CASE c \in {"SubmodelElementCollection", "SubmodelElementList"} -> Items(n, "value")
                [] c = "Entity" -> Items(n, "statements")
                [] c = "AnnotatedRelationshipElement" -> Items(n, "annotations")
                [] c = "Operation" -> OpValues(n)
                [] OTHER -> <<>>
  IN {n} \cup UNION {AllElements(kids[i]) : i \in DOMAIN kids}

TemplateQualified(n) == \E i \in DOMAIN Items(n, "qualifiers") : StrIs(n.f["qualifiers"].e[i], "kind", "TemplateQualifier")

TypedValue(n, a, ty, p) == IF Has(n, a) THEN Tri(LexXs(XsOf[ty], Str(n, a)), Find(p)) ELSE {}

\* Best / worst over language sets
AnyEnglish(xs) == LET E == {English(Cps(Str(xs[i], "language"))) : i \in DOMAIN xs}
                  IN IF "yes" \in E THEN "yes" ELSE IF "any" \in E THEN "any" ELSE "no"

ListFindings(n, p) ==
  LET tv == Str(n, "typeValueListElement")
      vs == Items(n, "value")
      sem == {i \in DOMAIN vs : Has(vs[i], "semanticId")}
      odd == \E i \in DOMAIN vs : /\ ModelType(vs[i]) \in {"Property", "Range"}
                                  /\ ~StrIs(n, "valueTypeListElement", Str(vs[i], "valueType"))
  IN When(tv \notin AasSubmodelElements, Find(p))
     \cup When(Has(n, "semanticIdListElement") /\ \E i \in sem : ~SameRef(vs[i].f["semanticId"], n.f["semanticIdListElement"]),
               Viol(p, "AASd-107"))
     \cup When(\E i, j \in sem : i < j /\ ~SameRef(vs[i].f["semanticId"], vs[j].f["semanticId"]), Viol(p, "AASd-114"))
     \cup When(\E i \in DOMAIN vs : ModelType(vs[i]) # tv, Viol(p, "AASd-108"))
     \cup Instead(tv \in {"Property", "Range"} /\ (~Has(n, "valueTypeListElement") \/ odd), odd, Viol(p, "AASd-109"), "aasd-109")
     \cup When(\E i \in DOMAIN vs : Has(vs[i], "idShort"), Viol(p, "AASd-120"))

AasC004 == {"DATE", "STRING", "STRING_TRANSLATABLE", "INTEGER_MEASURE", "INTEGER_COUNT", "INTEGER_CURRENCY", "REAL_MEASURE",
            "REAL_COUNT", "REAL_CURRENCY", "BOOLEAN", "RATIONAL", "RATIONAL_MEASURE", "TIME", "TIMESTAMP"}
AasC009 == {"INTEGER_MEASURE", "REAL_MEASURE", "RATIONAL_MEASURE", "INTEGER_CURRENCY", "REAL_CURRENCY"}
ConceptFindings(n, p) ==
  LET ds == Items(n, "embeddedDataSpecifications")
      con(i) == ds[i].f["dataSpecificationContent"]
      cat == IF Has(n, "category") THEN Str(n, "category") ELSE ""
      typed(i, T) == Has(con(i), "dataType") /\ Str(con(i), "dataType") \in T
      bad(T) == \E i \in DOMAIN ds : ~typed(i, T)
      cats(X, T, id) == Instead(cat \in X /\ bad(T), cat \in X /\ ds # <<>>, Viol(p, id), "aasc-3a-004")
      engl(i) == IF Has(con(i), "value") THEN "yes"
                 ELSE IF ~Has(con(i), "definition") THEN "no" ELSE AnyEnglish(Items(con(i), "definition"))
  IN cats({"PROPERTY", "VALUE"}, AasC004, "AASc-3a-004")
     \cup cats({"REFERENCE"}, {"STRING", "IRI", "IRDI"}, "AASc-3a-005")
     \cup cats({"DOCUMENT"}, {"FILE", "BLOB", "HTML"}, "AASc-3a-006")
     \cup When(cat = "QUALIFIER_TYPE" /\ bad(IecTypes), Viol(p, "AASc-3a-007"))
     \cup Tri(Worst({engl(i) : i \in DOMAIN ds}), Viol(p, "AASc-3a-008"))

DataSpecUri == "https://admin-shell.io/DataSpecificationTemplates/DataSpecificationIec61360/3"

AssetNameExact(xs) == \E i \in DOMAIN xs : StrIs(xs[i], "name", "globalAssetId")
AssetNameReserved(xs) == \E i \in DOMAIN xs : LowerCps(Cps(Str(xs[i], "name"))) = LowerCps(Cps("globalAssetId"))

\* Findings on object n of class c itself
Own(c, n, p) ==
  (CASE c \in LangClasses ->
          LET t == Str(n, "text") k == StrLen(t)
          IN Tri(LexLanguage(Cps(Str(n, "language"))), Find(p))
             \cup When(k < 1 \/ k > LangMax[c], Find(p))
             \cup When(k >= 1 /\ k <= LangMax[c] /\ ~XmlString(t), Lost(Viol(p, "AASd-130"), "aasd-130"))
     [] c = "Reference" -> RefFindings(n, p)
     [] c = "EmbeddedDataSpecification" ->
          LET r == n.f["dataSpecification"]
          IN When(Len(r.f["keys"].e) # 1 \/ KV(r, 1) # DataSpecUri, Warn(p))
     [] c = "DataSpecificationIec61360" ->
          Tri(AnyEnglish(Items(n, "preferredName")), Viol(p, "AASc-3a-002"))
          \cup When(Has(n, "dataType") /\ Str(n, "dataType") \in AasC009 /\ ~Has(n, "unit") /\ ~Has(n, "unitId"),
                    Viol(p, "AASc-3a-009"))
          \cup When(Has(n, "value") /\ Has(n, "valueList"), Viol(p, "AASc-3a-010"))
     [] c = "AdministrativeInformation" -> When(Has(n, "revision") /\ ~Has(n, "version"), Viol(p, "AASd-005"))
     [] c = "Extension" -> IF Has(n, "valueType") THEN TypedValue(n, "value", Str(n, "valueType"), p) ELSE {}
     [] c = "Qualifier" -> TypedValue(n, "value", Str(n, "valueType"), p)
     [] c = "SpecificAssetId" -> When(Has(n, "externalSubjectId") /\ IsModelRef(n.f["externalSubjectId"]), Viol(p, "AASd-133"))
     [] c = "AssetInformation" ->
          When(~Has(n, "globalAssetId") /\ ~Has(n, "specificAssetIds"), Viol(p, "AASd-131"))
          \cup Instead(AssetNameReserved(Items(n, "specificAssetIds")), AssetNameExact(Items(n, "specificAssetIds")), Viol(p, "AASd-116"), "aasd-116")
     [] c = "AnnotatedRelationshipElement" -> NameSpaceX(Items(n, "annotations"), p)
     [] c = "BasicEventElement" ->
          When(~IsModelRef(n.f["observed"]), Find(p))
          \cup When(Has(n, "messageBroker") /\ ~IsModelRef(n.f["messageBroker"]), Find(p))
     [] c = "Entity" ->
          LET ids == Has(n, "globalAssetId") \/ Has(n, "specificAssetIds")
          IN When((Str(n, "entityType") = "SelfManagedEntity") # ids, Viol(p, "AASd-014"))
             \cup NameSpaceX(Items(n, "statements"), p)
     [] c = "OperationVariable" -> (IF Has(n.f["value"], "idShort") THEN {} ELSE {Lost(Viol(p, "AASd-117"), "opvar"), Raise("opvar")})
     [] c = "Operation" -> When(Dup(OpValues(n)), Viol(p, "AASd-134"))
     [] c = "Property" -> TypedValue(n, "value", Str(n, "valueType"), p)
     [] c = "Range" -> TypedValue(n, "min", Str(n, "valueType"), p) \cup TypedValue(n, "max", Str(n, "valueType"), p)
     [] c = "SubmodelElementCollection" -> NameSpace(Items(n, "value"), p)
     [] c = "SubmodelElementList" -> ListFindings(n, p)
     [] c = "AssetAdministrationShell" ->
          (IF (Has(n, "derivedFrom") /\ ~IsModelRef(n.f["derivedFrom"])) \/ \E i \in DOMAIN Items(n, "submodels") : ~IsModelRef(n.f["submodels"].e[i])
           THEN {Lost(Find(p), "shell-refs"), Raise("shell-refs")} ELSE {})
     [] c = "Submodel" ->
          LET els == Items(n, "submodelElements")
              tpl == StrIs(n, "kind", "Template")
          IN NameSpace(els, p)
             \cup (IF TemplateQualified(n) /\ ~tpl THEN {Lost(Viol(p, "AASd-119"), "aasd-119"), Made(Viol(p, "AASd-129"), "aasd-119")} ELSE {})
             \cup Instead(~tpl /\ \E i \in DOMAIN els : \E e \in AllElements(els[i]) : TemplateQualified(e),
                          ~tpl /\ \E i \in DOMAIN els : TemplateQualified(els[i]), Viol(p, "AASd-129"), "aasd-129")
     [] c = "ConceptDescription" -> ConceptFindings(n, p)
     [] OTHER -> {})
  \cup When("idShort" \in AttrNames[c] /\ Has(n, "idShort") /\ ~Matches(reIdShort, Cps(Str(n, "idShort"))), Viol(p, "AASd-002"))
  \cup When("supplementalSemanticIds" \in AttrNames[c] /\ Has(n, "supplementalSemanticIds") /\ ~Has(n, "semanticId"), Viol(p, "AASd-118"))
  \cup When(c \in DataElements /\ Has(n, "category") /\ Str(n, "category") \notin {"CONSTANT", "PARAMETER", "VARIABLE"}, Viol(p, "AASd-090"))

RECURSIVE Cons(_, _, _)
Cons(ty, n, p) ==
  CASE ty.k = "list" -> UNION {Cons(ty.of, n.e[i], Idx(p, i)) : i \in DOMAIN n.e}
    [] ty.k = "cls" -> LET c == IF ty.c \in Abstract THEN ModelType(n) ELSE ty.c
                       IN Own(c, n, p) \cup UNION {Cons(Attrs[c][a].ty, n.f[a], Sub(p, a)) : a \in AttrNames[c] \cap DOMAIN n.f}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* The verdict on document n checked as class c (templates: see Template) *)
Verdict(c, n, s) ==
  IF \E f \in s : f.m THEN [phase |-> "structure", f |-> s]
  ELSE IF s # {} THEN [phase |-> "either", f |-> s \cup {May(f) : f \in Cons(tCls(c), n, "")}]
  ELSE [phase |-> "constraints", f |-> Cons(tCls(c), n, "")]
Only(r, P(_)) == [r EXCEPT !.f = {[f EXCEPT !.k = ""] : f \in {g \in @ : P(g)}}]
Tags(r) == {f.k : f \in r.f} \ {""}
\* [r |-> the verdict, k |-> the verdict of the code as it is, dev |-> the deviations behind the difference]
Both(c, n) ==
  LET s == Struct(tCls(c), n, "")
      due == {f \in s : Due(f)}
      act == {[f EXCEPT !.k = ""] : f \in {g \in s : Actual(g)}}
  IN IF due = act
     THEN LET v == Verdict(c, n, due) IN [r |-> Only(v, Due), k |-> Only(v, Actual), dev |-> Tags(v)]
     ELSE LET w == Verdict(c, n, act)
          IN [r |-> Only(Verdict(c, n, due), Due), k |-> Only(w, Actual), dev |-> Tags(w) \cup ({f.k : f \in s} \ {""})]
Findings(c, n) == Both(c, n).r

IsErr(fs) == \E f \in fs : f.m /\ f.l = 2
=============================================================================
