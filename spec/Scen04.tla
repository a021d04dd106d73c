------------------------------- MODULE Scen04 -------------------------------
(* C04: scenario families for the constraints on submodels, elements and    *)
(* shells.                                                                  *)
EXTENDS Place

SeqsUpTo(X, n) == UNION {[1..k -> X] : k \in 1..n}
Opt1(n, a, v) == IF v = "-" THEN n ELSE With(n, a, S(v))

\* --- id shorts in name spaces
Child(i, id, cs) == Opt1(Without(MinOf[cs[((i - 1) % Len(cs)) + 1]], "idShort"), "idShort", id)
Kids(ids, cs) == A([i \in DOMAIN ids |-> Child(i, ids[i], cs)])
Mixed == <<"Property", "Capability", "SubmodelElementCollection">>
RECURSIVE Long(_, _)
Long(x, n) == IF n = 0 THEN "" ELSE x \o Long(x, n - 1)
Long127 == Long("aB3_", 31) \o "abc"
NsIds == {<<Long127 \o "d", Long127 \o "e">>, <<Long127, Long127 \o "d">>, <<Long127, "b", Long127>>, <<Long127 \o "d", Long127 \o "D">>} \cup SeqsUpTo({"a", "b", "A", "-"}, 3) \cup {<<"a", "b", "c", "a">>, <<"a", "b", "b", "c">>, <<"a", "b", "c", "d">>, <<"aa", "a", "aaa">>, <<"a_", "a">>}
FamNs == {<<"Submodel", With(MinOf["Submodel"], "submodelElements", Kids(ids, Mixed))>> : ids \in NsIds}
         \cup {<<"SubmodelElementCollection", With(MinOf["SubmodelElementCollection"], "value", Kids(ids, Mixed))>> : ids \in NsIds}
         \cup {<<"Entity", With(MinOf["Entity"], "statements", Kids(ids, Mixed))>> : ids \in NsIds}
         \cup {<<"AnnotatedRelationshipElement", With(MinOf["AnnotatedRelationshipElement"], "annotations", Kids(ids, <<"Property", "File", "Range">>))>> : ids \in NsIds}
\* Equal id shorts in different name spaces are fine
FamNs2 == {<<"Submodel", Sm(<<With(El("SubmodelElementCollection", x), "value", A(<<El("Property", y), El("Property", z)>>)),
                              With(El("Entity", "e"), "statements", A(<<El("Property", y)>>)), El("Property", w)>>)>>
             : x \in {"a", "b"}, y \in {"a", "c"}, z \in {"a", "d"}, w \in {"a", "e", "f"}}
Shorts == {"a", "A", "a1", "a_", "_a", "1a", "a-b", "a b", "{228}", "a{228}", "a.b", "a{10}", "Z9_z", "a[0]"}
FamShort == {<<c, With(MinOf[c], "idShort", S(x))>> : c \in Elements \cup Identifiables, x \in Shorts}

\* --- operation variables
VarKinds == <<"inputVariables", "outputVariables", "inoutputVariables">>
Vars(ids, ks, k) == LET at == {i \in DOMAIN ids : ks[i] = k}
                        ord == [j \in 1..Cardinality(at) |-> CHOOSE i \in at : Cardinality({h \in at : h < i}) = j - 1]
                    IN [j \in DOMAIN ord |-> O([value |-> Child(ord[j], ids[ord[j]], Mixed)])]
OpDoc(ids, ks) == LET v(k) == Vars(ids, ks, k)
                      f1 == IF v(1) = <<>> THEN MinOf["Operation"] ELSE With(MinOf["Operation"], VarKinds[1], A(v(1)))
                      f2 == IF v(2) = <<>> THEN f1 ELSE With(f1, VarKinds[2], A(v(2)))
                  IN IF v(3) = <<>> THEN f2 ELSE With(f2, VarKinds[3], A(v(3)))
FamOp == UNION {{<<"Operation", OpDoc(ids, ks)>> : ids \in [1..n -> {"a", "b", "-"}], ks \in [1..n -> 1..3]} : n \in 1..3}
FamOpVar == {<<"OperationVariable", O([value |-> Opt1(Without(MinOf[c], "idShort"), "idShort", id)])>> : c \in Elements, id \in {"-", "a", "1"}}

\* --- lists
Lst(tv) == With(MinOf["SubmodelElementList"], "typeValueListElement", S(tv))
ListDoc(tv, vt, els) == Opt1(IF els = <<>> THEN Lst(tv) ELSE With(Lst(tv), "value", A(els)), "valueTypeListElement", vt)
Bare(c) == Without(MinOf[c], "idShort")
FamListKind == {<<"SubmodelElementList", ListDoc(tv, "xs:string", <<>>)>> : tv \in KeyTypes}
               \cup {<<"SubmodelElementList", ListDoc(tv, "xs:string", <<Bare(c)>>)>> : tv \in KeyTypes, c \in Elements}
               \cup {<<"SubmodelElementList", ListDoc(tv, "xs:string", <<Bare(tv), Bare(c), Bare(tv)>>)>> : tv \in Elements, c \in Elements}
Typed(c, t) == With(Bare(c), "valueType", S(t))
TypedKids == {Typed(c, t) : c \in {"Property", "Range"}, t \in {"xs:string", "xs:int", "xs:boolean"}} \cup {Bare("Capability")}
FamListType == {<<"SubmodelElementList", ListDoc(tv, vt, els)>> : tv \in {"Property", "Range", "Capability", "MultiLanguageProperty"},
                                                                 vt \in {"-", "xs:string", "xs:int"}, els \in {<<>>} \cup SeqsUpTo(TypedKids, 2)}
\* references equal, and differing in exactly one respect
R1 == ExtRef("g1")
SemRefs == {R1, ExtRef("g2"), With(R1, "referredSemanticId", ExtRef("g9")), With(R1, "type", S("ModelReference")),
            O([type |-> S("ExternalReference"), keys |-> A(<<Key("GlobalReference", "g1"), Key("FragmentReference", "g1")>>)]),
            O([type |-> S("ModelReference"), keys |-> A(<<Key("Submodel", "g1")>>)]), O([type |-> S("ModelReference"), keys |-> A(<<Key("ConceptDescription", "g1")>>)]),
            ExtRef("G1"), ExtRef(" g1"), ExtRef("g1 ")}
NoSem == O([type |-> S("none")])
Sem(n, a, r) == IF r = NoSem THEN n ELSE With(n, a, r)
FamListSem == {<<"SubmodelElementList", Sem(ListDoc("Capability", "-", [i \in DOMAIN rs |-> Sem(Bare("Capability"), "semanticId", rs[i])]), "semanticIdListElement", l)>>
                 : l \in SemRefs \cup {NoSem}, rs \in SeqsUpTo(SemRefs \cup {NoSem}, 2)}
              \cup {<<"SubmodelElementList", Sem(ListDoc("Property", "xs:string", [i \in DOMAIN rs |-> Sem(Bare("Property"), "semanticId", rs[i])]), "semanticIdListElement", l)>>
                 : l \in {R1, ExtRef("g2"), NoSem}, rs \in [1..3 -> {R1, ExtRef("g2"), NoSem}]}
\* values which are easily taken for the same
Near == {<<"http://a.b/c", "http://a.b/c/">>, <<"http://a.b/c", "https://a.b/c">>, <<"http://a.b/c", "http://A.b/c">>, <<"http://a.b/c", "http://a.b/c#">>, <<"http://a.b/c", "http://a.b/c?">>,
         <<"http://a.b/c", "http://a.b:80/c">>, <<"a%2Fb", "a/b">>, <<"a%2Fb", "a%2fb">>, <<"a b", "a%20b">>, <<"a b", "a+b">>, <<"a b", "a{160}b">>, <<"a b", "a  b">>, <<"{228}", "a{776}">>, <<"{228}", "{196}">>,
         <<"{223}", "ss">>, <<"0173-1#02-AAA001#001", "0173-1#02-AAA001#002">>, <<"0173-1#02-AAA001#001", "0173/1///02#AAA001#001">>, <<"a", "a{10}">>, <<"a", "a{65279}">>, <<"{65313}", "A">>, <<"1", "01">>,
         <<"1", "1.0">>, <<"a/b", "a//b">>, <<"urn:a", "URN:a">>, <<"a", "a{9}">>, <<"ab", "ba">>, <<"a", "aa">>} \cup
        {<<Long("x", n) \o "1", Long("x", n) \o "2">> : n \in {15, 31, 63, 64, 99, 127, 128, 255, 256, 511, 1000, 1999}} \cup
        {<<"1" \o Long("x", n), "2" \o Long("x", n)>> : n \in {15, 31, 63, 127, 128, 255, 1999}} \cup
        {<<Long("x", 1000) \o "1" \o Long("x", 999), Long("x", 1000) \o "2" \o Long("x", 999)>>}
FamNear == {<<"SubmodelElementList", Sem(ListDoc("Capability", "-", <<Sem(Bare("Capability"), "semanticId", ExtRef(p[i])), Sem(Bare("Capability"), "semanticId", ExtRef(p[j]))>>), "semanticIdListElement", l)>>
              : p \in Near, i \in 1..2, j \in 1..2, l \in {NoSem}}
           \cup {<<"SubmodelElementList", Sem(ListDoc("Capability", "-", <<Sem(Bare("Capability"), "semanticId", ExtRef(p[i]))>>), "semanticIdListElement", ExtRef(p[j]))>>
              : p \in Near, i \in 1..2, j \in 1..2}
FamListShort == {<<"SubmodelElementList", ListDoc("Capability", "-", [i \in DOMAIN ids |-> Opt1(Bare("Capability"), "idShort", ids[i])])>> : ids \in SeqsUpTo({"-", "a", "b"}, 3)}
\* lists in lists
FamListList == {<<"SubmodelElementList", ListDoc(tv, "-", <<Without(ListDoc(t2, vt, <<Bare(c)>>), "idShort")>>)>>
                  : tv \in {"SubmodelElementList", "SubmodelElementCollection"}, t2 \in {"Property", "Capability", "SubmodelElement"}, vt \in {"-", "xs:string"}, c \in {"Property", "Capability"}}

\* --- entities, assets
Sai(nm) == With(With(MinOf["SpecificAssetId"], "name", S(nm)), "value", S("v"))
AssetNames == {"globalAssetId", "GlobalAssetId", "globalassetid", "GLOBALASSETID", "globalAssetID", "x", "globalAssetIds", "globalAssetI", " globalAssetId", "global_asset_id"}
FamEntity == {<<"Entity", LET n == With(Without(MinOf["Entity"], "globalAssetId"), "entityType", S(t))
                              m == IF g THEN With(n, "globalAssetId", S("g")) ELSE n
                          IN IF s = 0 THEN m ELSE With(m, "specificAssetIds", A([i \in 1..s |-> Sai("x")]))>>
                : t \in Literals["EntityType"], g \in BOOLEAN, s \in 0..2}
FamEntity2 == {<<"Entity", With(MinOf["Entity"], "specificAssetIds", A(<<Sai(x)>>))>> : x \in AssetNames}
FamAsset == {<<"AssetInformation", LET n == With(Without(MinOf["AssetInformation"], "globalAssetId"), "assetKind", S(k))
                                       m == IF g THEN With(n, "globalAssetId", S("g")) ELSE n
                                   IN IF ns = <<>> THEN m ELSE With(m, "specificAssetIds", A([i \in DOMAIN ns |-> Sai(ns[i])]))>>
               : k \in Literals["AssetKind"], g \in BOOLEAN, ns \in {<<>>} \cup SeqsUpTo(AssetNames, 1) \cup SeqsUpTo({"globalAssetId", "x", "GLOBALASSETID"}, 3)}
FamShell == {<<"AssetAdministrationShell", With(MinOf["AssetAdministrationShell"], "assetInformation", s[2])>> : s \in FamAsset}
Subject(r) == With(Sai("x"), "externalSubjectId", r)
FamSubject == {<<"SpecificAssetId", Subject(r)>> : r \in SemRefs}
              \cup {<<"AssetInformation", With(MinOf["AssetInformation"], "specificAssetIds", A(<<Sai("y"), Subject(r)>>))>> : r \in SemRefs}
              \cup {<<"Entity", With(MinOf["Entity"], "specificAssetIds", A(<<Subject(r)>>))>> : r \in SemRefs}

\* --- qualifiers
Qual(k) == Opt1(MinOf["Qualifier"], "kind", k)
QKinds == {"-", "ConceptQualifier", "TemplateQualifier", "ValueQualifier"}
Quals(ks) == A([i \in DOMAIN ks |-> Qual(ks[i])])
SmKind(n, k) == Opt1(n, "kind", k)
FamQualSm == {<<"Submodel", SmKind(With(MinOf["Submodel"], "qualifiers", Quals(ks)), k)>> : k \in {"-", "Instance", "Template"}, ks \in SeqsUpTo(QKinds, 2)}
Ways == {"col", "list", "entity", "in", "out", "inout", "ann"}
Enclose(w, n) ==
  LET e == Fill(n, "e1")
      var(v) == A(<<O([value |-> El("Capability", "z")]), O([value |-> v])>>)
  IN CASE w = "col" -> With(MinOf["SubmodelElementCollection"], "value", A(<<El("Capability", "y"), e>>))
       [] w = "list" -> ListOf(n, <<>>) [] w = "entity" -> With(MinOf["Entity"], "statements", A(<<e>>))
       [] w = "in" -> With(MinOf["Operation"], "inputVariables", var(e)) [] w = "out" -> With(MinOf["Operation"], "outputVariables", var(e))
       [] w = "inout" -> With(MinOf["Operation"], "inoutputVariables", var(e))
       [] w = "ann" -> With(MinOf["AnnotatedRelationshipElement"], "annotations", A(<<e>>))
QualEls == {With(MinOf[c], "qualifiers", Quals(ks)) : c \in {"Property", "Operation", "SubmodelElementList"}, ks \in {<<"TemplateQualifier">>, <<"-", "TemplateQualifier">>, <<"ValueQualifier">>}}
FamQualEl == {<<"Submodel", SmKind(Sm(<<El("File", "f"), Fill(q, "q")>>), k)>> : k \in {"-", "Instance", "Template"}, q \in {With(MinOf[c], "qualifiers", Quals(ks)) : c \in Elements, ks \in SeqsUpTo(QKinds, 2)}}
             \cup {<<"Submodel", SmKind(Sm(<<Fill(Enclose(w, q), "w")>>), k)>> : k \in {"-", "Instance", "Template"}, w \in Ways \ {"ann"}, q \in QualEls}
             \cup {<<"Submodel", SmKind(Sm(<<Fill(Enclose(w, Enclose(v, q)), "w")>>), k)>> : k \in {"-", "Template"}, w \in Ways \ {"ann"}, v \in Ways \ {"ann"}, q \in QualEls}
             \cup {<<"Submodel", SmKind(Sm(<<Fill(Enclose("ann", With(MinOf["Property"], "qualifiers", Quals(<<"TemplateQualifier">>))), "w")>>), k)>> : k \in {"-", "Template"}}
             \cup {<<"Submodel", SmKind(With(Sm(<<Fill(q, "q")>>), "qualifiers", Quals(<<"TemplateQualifier">>)), k)>> : k \in {"-", "Instance", "Template"}, q \in QualEls}

\* --- semantic ids, categories, kinds of references
HasSup == {c \in Classes : "supplementalSemanticIds" \in AttrNames[c]}
FamSup == {<<c, Sem(IF s THEN With(Without(MinOf[c], "semanticId"), "supplementalSemanticIds", A(<<ExtRef("g3")>>)) ELSE Without(MinOf[c], "semanticId"), "semanticId", r)>>
             : c \in HasSup, s \in BOOLEAN, r \in {NoSem, R1}}
FamCat == {<<c, With(MinOf[c], "category", S(x))>> : c \in (Elements \cup Identifiables) \ {"ConceptDescription"},
                                                   x \in {"CONSTANT", "PARAMETER", "VARIABLE", "constant", "CONSTANT ", "Variable", "x", "PROPERTY", "CONSTANTS", "PARAMETERVARIABLE"}}
Refs2 == {ExtRef("g1"), ModRef("s1"), O([type |-> S("ModelReference"), keys |-> A(<<Key("Submodel", "s"), Key("Property", "p")>>)])}
FamRefKind == {<<"BasicEventElement", Sem(With(MinOf["BasicEventElement"], "observed", r), "messageBroker", b)>> : r \in Refs2, b \in Refs2 \cup {NoSem}}
              \cup {<<"AssetAdministrationShell", Sem(MinOf["AssetAdministrationShell"], "derivedFrom", r)>> : r \in Refs2 \cup {NoSem}}
              \cup {<<"AssetAdministrationShell", With(MinOf["AssetAdministrationShell"], "submodels", A(rs))>> : rs \in SeqsUpTo(Refs2, 3)}

Scens == FamNs \cup FamNs2 \cup FamShort \cup FamOp \cup FamOpVar \cup FamListKind \cup FamListType \cup FamListSem \cup FamNear \cup FamListShort \cup FamListList
         \cup FamEntity \cup FamEntity2 \cup FamAsset \cup FamShell \cup FamSubject \cup FamQualSm \cup FamQualEl \cup FamSup \cup FamCat \cup FamRefKind
=============================================================================
