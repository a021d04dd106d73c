-------------------------------- MODULE Wrap --------------------------------
(* C10, C22: a fragment with findings is put into ever larger documents.    *)
(*                                                                          *)
(* bad is the document, good the same without violations, exp the findings  *)
(* on bad as they follow from those on the fragments: each step puts the    *)
(* document, among company that is valid or bad itself, into an attribute   *)
(* of a larger object; this moves the findings and changes nothing else.    *)
EXTENDS Xml, Randomization

\* --- fragments with constraint findings: <<class, bad, good>>
BadRef == O([type |-> S("ExternalReference"), keys |-> A(<<Key("Submodel", "x")>>)])
Deep2 == O([type |-> S("ModelReference"), keys |-> A(<<Key("Submodel", "x"), Key("SubmodelElementList", "y"), Key("Property", "z")>>)])
IntProp(v) == With(With(MinOf["Property"], "valueType", S("xs:int")), "value", S(v))
Iec == MinOf["DataSpecificationIec61360"]
ConFrags == {
  <<"Reference", BadRef, ExtRef("x")>>, <<"Reference", Deep2, ModRef("x")>>,
  <<"Property", IntProp("x"), IntProp("1")>>, <<"Property", With(MinOf["Property"], "category", S("x")), MinOf["Property"]>>,
  <<"Property", With(MinOf["Property"], "valueId", BadRef), With(MinOf["Property"], "valueId", ExtRef("x"))>>,
  <<"Range", With(With(MinOf["Range"], "valueType", S("xs:byte")), "max", S("128")), With(With(MinOf["Range"], "valueType", S("xs:byte")), "max", S("127"))>>,
  <<"Qualifier", With(With(MinOf["Qualifier"], "valueType", S("xs:boolean")), "value", S("yes")), MinOf["Qualifier"]>>,
  <<"Extension", With(With(MinOf["Extension"], "valueType", S("xs:date")), "value", S("2023-02-29")), MinOf["Extension"]>>,
  <<"AdministrativeInformation", With(MinOf["AdministrativeInformation"], "revision", S("1")), MinOf["AdministrativeInformation"]>>,
  <<"Entity", Without(MinOf["Entity"], "globalAssetId"), MinOf["Entity"]>>,
  <<"SpecificAssetId", With(MinOf["SpecificAssetId"], "externalSubjectId", ModRef("x")), MinOf["SpecificAssetId"]>>,
  <<"AssetInformation", Without(MinOf["AssetInformation"], "globalAssetId"), MinOf["AssetInformation"]>>,
  <<"DataSpecificationIec61360", With(Iec, "dataType", S("REAL_MEASURE")), Iec>>,
  <<"DataSpecificationIec61360", With(With(Iec, "value", S("v")), "valueList", MinOf["ValueList"]), Iec>>,
  <<"EmbeddedDataSpecification", With(MinOf["EmbeddedDataSpecification"], "dataSpecification", ExtRef("x")), MinOf["EmbeddedDataSpecification"]>>,
  <<"SubmodelElementCollection", With(MinOf["SubmodelElementCollection"], "value", A(<<El("File", "a"), El("Blob", "b"), El("Blob", "a")>>)), MinOf["SubmodelElementCollection"]>>,
  <<"SubmodelElementCollection", With(MinOf["SubmodelElementCollection"], "value", A(<<El("File", "a"), MinOf["Blob"]>>)), MinOf["SubmodelElementCollection"]>>,
  <<"SubmodelElementList", With(MinOf["SubmodelElementList"], "value", A(<<MinOf["Capability"], MinOf["File"]>>)), With(MinOf["SubmodelElementList"], "value", A(<<MinOf["Capability"]>>))>>,
  <<"BasicEventElement", With(MinOf["BasicEventElement"], "observed", ExtRef("x")), MinOf["BasicEventElement"]>>,
  <<"Capability", With(MinOf["Capability"], "supplementalSemanticIds", A(<<ExtRef("x")>>)), MinOf["Capability"]>>,
  <<"File", With(MinOf["File"], "displayName", A(<<Lang("en", "x"), Lang("e", "x")>>)), MinOf["File"]>>,
  <<"MultiLanguageTextType", Lang("en", ""), Lang("en", "x")>>, <<"MultiLanguageNameType", Lang("x y", "x"), Lang("en", "x")>>,
  <<"ShortNameTypeIec61360", Lang("en", "{97*19}"), Lang("en", "{97*18}")>>, <<"DefinitionTypeIec61360", Lang("en", ""), Lang("en", "x")>>,
  <<"Submodel", Sm(<<El("File", "a"), El("Blob", "a")>>), Sm(<<El("File", "a")>>)>>,
  <<"ConceptDescription", With(MinOf["ConceptDescription"], "isCaseOf", A(<<ExtRef("x"), BadRef>>)), MinOf["ConceptDescription"]>>}

\* --- fragments with structural findings: a random edit of a minimal or full instance
Bases == [c \in Classes |-> <<MinOf[c], IF c \in {"Environment", "AssetAdministrationShell", "Submodel", "ConceptDescription", "SubmodelElementList"} THEN MinOf[c] ELSE MaxOf[c]>>]
EditTable == [c \in Classes |-> [i \in {1, 2} |-> {e \in Edits(tCls(c), Bases[c][i], <<>>) : e.path # <<"modelType">> /\ e.path # <<"idShort">> /\ e.path # <<>>}]]
Edited(c, i, e) == <<c, Apply(Bases[c][i], e), Bases[c][i]>>

FragClasses == Classes \ {"Environment"}

\* --- placing
Named == {"submodelElements", "statements", "annotations"}
Given(n, id) == IF n.t = "o" /\ ~Has(n, "idShort") THEN With(n, "idShort", S(id)) ELSE n
Bare(n) == IF n.t = "o" THEN Without(n, "idShort") ELSE n
Naming(h, a, i, n) == CASE a \in Named \/ (h = "SubmodelElementCollection" /\ a = "value") -> Given(n, "e" \o ToString(i))
                        [] h = "OperationVariable" -> Given(n, "v")
                        [] h = "SubmodelElementList" /\ a = "value" -> Bare(n)
                        [] OTHER -> n
\* the object of class h that holds the sequence ns (or the single n) of objects of class c in attribute a
HostOf(h, a, c) ==
  LET m == MinOf[h]
  IN CASE h = "SubmodelElementList" /\ a = "value" -> With(With(m, "typeValueListElement", S(c)), "valueTypeListElement", S("xs:int"))
       [] a = "supplementalSemanticIds" -> With(m, "semanticId", ExtRef("s"))
       [] a = "qualifiers" /\ h = "Submodel" -> With(m, "kind", S("Template"))
       [] a = "valueList" -> Without(m, "value")
       [] OTHER -> m
Holding(h, a, c, ns) == With(HostOf(h, a, c), a, IF Attrs[h][a].ty.k = "list" THEN A([i \in DOMAIN ns |-> Naming(h, a, i, ns[i])]) ELSE Naming(h, a, 1, ns[1]))
Moved(fs, p) == {[f EXCEPT !.p = p \o @] : f \in fs}

\* walk: tells walks from the same fragment apart
VARIABLES cls, bad, good, exp, ph, depth, num, walk
vars == <<cls, bad, good, exp, ph, depth, num, walk>>

Clean(c, d) == LET b == Both(c, d) IN b.r.f = {} /\ b.k = b.r
Fine(b) == b.r = b.k /\ b.r.f # {} /\ \A f \in b.r.f : f.m
Start(x, phase) ==
  LET b == Both(x[1], x[2])
  IN /\ Fine(b) /\ b.r.phase = phase /\ Clean(x[1], x[3])
     /\ cls = x[1] /\ bad = x[2] /\ good = x[3] /\ exp = b.r.f /\ ph = phase /\ depth = 0 /\ num = Cardinality(b.r.f)
Init == \/ walk \in 1..(IF Thorough THEN 30 ELSE 6) /\ \E x \in ConFrags : Start(x, "constraints")
        \/ walk = 0 /\ \E c \in FragClasses : \E i \in {1, 2} : \E e \in RandomSubset(IF Thorough THEN 30 ELSE 5, EditTable[c][i]) : Start(Edited(c, i, e), "structure")

\* company: valid objects of the class, and bad ones
BadOf(c) == IF ph = "constraints" THEN {x[2] : x \in {y \in ConFrags : y[1] = c}}
            ELSE LET i == RandomElement({1, 2}) IN {Apply(Bases[c][i], e) : e \in {RandomElement(EditTable[c][i])}}
Ok(c, n) == Fine(Both(c, n)) /\ Both(c, n).r.phase = ph

MaxDepth == IF Thorough THEN 16 ELSE 8
Grow ==
  /\ depth < MaxDepth /\ cls # "Environment"
  /\ \E ha \in {RandomElement(Hosts(cls))} :
     LET h == ha[1]
         a == ha[2]
         list == Attrs[h][a].ty.k = "list"
     IN \E before \in {RandomElement(IF list THEN {0, 0, 0, 1, 1, 2, 3, 11} ELSE {0})} :
        \E after \in {RandomElement(IF list THEN {0, 0, 1, 2, 5} ELSE {0})} :
        \E extra \in {IF list /\ BadOf(cls) # {} /\ RandomElement(1..3) = 1 THEN RandomElement(BadOf(cls)) ELSE Z} :
        \E at \in {RandomElement(1..(before + after + 1))} :
        LET total == before + after + 1
            me == before + 1
            second == list /\ extra # Z /\ at # me /\ Ok(cls, extra)
            fill(n, o) == [i \in 1..total |-> IF i = me THEN n ELSE IF second /\ i = at THEN o ELSE Bases[cls][1]]
            loc(i) == IF list THEN Idx("/" \o a, i) ELSE "/" \o a
            more == IF second THEN Moved(Findings(cls, extra).f, loc(at)) ELSE {}
        IN /\ Clean(h, Holding(h, a, cls, fill(good, Bases[cls][1])))
           /\ cls' = h /\ good' = Holding(h, a, cls, fill(good, Bases[cls][1]))
           /\ bad' = Holding(h, a, cls, fill(bad, extra))
           /\ exp' = Moved(exp, loc(me)) \cup more
           /\ num' = num + Cardinality(more)
           /\ depth' = depth + 1 /\ UNCHANGED <<ph, walk>>
Next == Grow
Spec == Init /\ [][Next]_vars

\* What contexts add on their own: an id short given or taken changes the membership rules only
R == Findings(cls, bad)
\* C10: the findings are those of the fragments, moved
Same == R.phase = ph /\ R.f = exp
\* C22: findings on different objects have different locations
Apart == Cardinality(exp) = num
EmitW == Same /\ Apart /\ EmitDoc(cls, bad) /\ (depth % 4 = 3 /\ good # Z => EmitDoc(cls, good))
\* the same with a rendering in XML
EmitX == /\ Same /\ Apart
         /\ WriteCase([c |-> cls, d |-> bad, r |-> R, x |-> IF Expressible(tCls(cls), bad) THEN <<XmlDoc(cls, bad)>> ELSE <<>>, st |-> StyleOf(Len(ToString(exp)))])
=============================================================================
