------------------------------- MODULE XmlGen -------------------------------
(* C07: renderings of instances of every class and of their edits, and all  *)
(* deviations at all elements of full instances.                            *)
EXTENDS Xml

GroupSeq == <<"Property", "Range", "Blob", "File", "MultiLanguageProperty", "ReferenceElement", "BasicEventElement",
  "AnnotatedRelationshipElement", "Capability", "Entity", "Operation", "RelationshipElement", "SubmodelElementCollection",
  "SubmodelElementList", "AssetAdministrationShell", "Submodel", "ConceptDescription", "MultiLanguageNameType",
  "MultiLanguageTextType", "DefinitionTypeIec61360", "PreferredNameTypeIec61360", "ShortNameTypeIec61360", "Environment",
  "Reference", "Key", "Extension", "AdministrativeInformation", "EmbeddedDataSpecification", "DataSpecificationIec61360",
  "ValueList", "ValueReferencePair", "LevelType", "Qualifier", "SpecificAssetId", "Resource", "AssetInformation",
  "OperationVariable">>
Mine == {GroupSeq[i] : i \in {j \in DOMAIN GroupSeq : Ours(j)}}
Views(c) == {c} \cup (IF c \in Elements THEN {"SubmodelElement"} ELSE {}) \cup (IF c \in DataElements THEN {"DataElement"} ELSE {})
            \cup (IF c = "DataSpecificationIec61360" THEN {"DataSpecificationContent"} ELSE {})
Deep == O([submodels |-> A(<<MaxOf["Submodel"]>>), conceptDescriptions |-> A(<<MaxOf["ConceptDescription"]>>),
           assetAdministrationShells |-> A(<<MaxOf["AssetAdministrationShell"], MinOf["AssetAdministrationShell"]>>)])
Bases(c) == {"min", "max"} \cup (IF c = "Environment" THEN {"deep"} ELSE {})
Base(c, b) == CASE b = "min" -> MinOf[c] [] b = "max" -> MaxOf[c] [] b = "deep" -> Deep

\* v: an edit of the document before it is rendered
VARIABLES cls, as, base, v
vars == <<cls, as, base, v>>
NoEdit == [path |-> <<>>, op |-> "none", v |-> Z]
Doc == IF v.op = "none" THEN Base(cls, base) ELSE Apply(Base(cls, base), v)
Init == cls \in Mine /\ as \in Views(cls) /\ base \in Bases(cls) /\ v = NoEdit
Edit == /\ v = NoEdit /\ base # "deep"
        /\ v' \in (IF as = cls THEN Edits(tCls(as), Base(cls, base), <<>>) ELSE {e \in Edits(tCls(as), Base(cls, base), <<>>) : Len(e.path) <= 1})
        /\ Expressible(tCls(as), Apply(Base(cls, base), v'))
        /\ UNCHANGED <<cls, as, base>>
Spec == Init /\ [][Edit]_vars
Rank(x) == Len(ToString(x))

\* Every instance can be rendered; reading the rendering gives the document back; what is read has the same verdict
AllExpressible == v = NoEdit => Expressible(tCls(as), Doc)
ReadBack == LET x == XmlDoc(as, Doc)
                r == ReadCls(as, x)
                b == Both(as, Doc)
            IN /\ r = Essence(tCls(as), Doc)
               /\ OverCls(as, x) = {}
               /\ Both(as, r) = b
               /\ WriteCase([c |-> as, x |-> x, st |-> StyleOf(Len(cls) + Rank(v.path) + Rank(v.v)), kind |-> "", bad |-> FALSE, r |-> b.r, k |-> b.k, dev |-> b.dev])
\* All deviations of an instance are noticed as such
EmitDevs == v = NoEdit => LET r == XmlDoc(as, Doc)
                          IN \A p \in PathsOf(r) : \A w \in Deviations(r, p) :
                               LET q == XVerdict(as, w.d)
                               IN q.bad /\ WriteCase([c |-> as, x |-> w.d, st |-> StyleOf(Rank(p) + Len(w.kind)), kind |-> w.kind, bad |-> q.bad, r |-> q.r, k |-> q.k, dev |-> q.dev])
=============================================================================
