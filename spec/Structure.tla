------------------------------ MODULE Structure -----------------------------
(* C01: editing instances of every class.  A state is a base document and   *)
(* at most one edit of it; the outcome the specification demands is emitted *)
(* for each state.                                                          *)
EXTENDS Emit

\* Groups are the classes, abstract positions included; assigned to parts by index
GroupSeq == <<"Property", "Range", "Blob", "File", "MultiLanguageProperty", "ReferenceElement", "BasicEventElement",
  "AnnotatedRelationshipElement", "Capability", "Entity", "Operation", "RelationshipElement", "SubmodelElementCollection",
  "SubmodelElementList", "AssetAdministrationShell", "Submodel", "ConceptDescription", "MultiLanguageNameType",
  "MultiLanguageTextType", "DefinitionTypeIec61360", "PreferredNameTypeIec61360", "ShortNameTypeIec61360", "Environment",
  "Reference", "Key", "Extension", "AdministrativeInformation", "EmbeddedDataSpecification", "DataSpecificationIec61360",
  "ValueList", "ValueReferencePair", "LevelType", "Qualifier", "SpecificAssetId", "Resource", "AssetInformation",
  "OperationVariable">>
Mine == {GroupSeq[i] : i \in {j \in DOMAIN GroupSeq : Ours(j)}}

\* Checked as: the class itself, and as the abstract class where it is abstractly typed
Views(c) == {c} \cup (IF c \in Elements THEN {"SubmodelElement"} ELSE {}) \cup (IF c \in DataElements THEN {"DataElement"} ELSE {})
            \cup (IF c = "DataSpecificationIec61360" THEN {"DataSpecificationContent"} ELSE {})

VARIABLES cls, as, base, edit
vars == <<cls, as, base, edit>>

NoEdit == [path |-> <<>>, op |-> "none", v |-> Z]
BaseDoc == CASE base = "min" -> MinOf[cls] [] base = "max" -> MaxOf[cls] [] base = "maxb" -> MaxB
Bases(c) == {"min", "max"} \cup (IF c = "DataSpecificationIec61360" THEN {"maxb"} ELSE {})
Doc == IF edit.op = "none" THEN BaseDoc ELSE Apply(BaseDoc, edit)

Init == /\ cls \in Mine
        /\ as \in Views(cls)
        /\ base \in Bases(cls)
        /\ edit = NoEdit
\* The abstract view differs only in what happens at the root
Next == /\ edit.op = "none"
        /\ edit' \in (IF as = cls THEN Edits(tCls(as), BaseDoc, <<>>)
                      ELSE {e \in Edits(tCls(as), BaseDoc, <<>>) : Len(e.path) <= 1})
        /\ UNCHANGED <<cls, as, base>>
Spec == Init /\ [][Next]_vars

\* The instances we start from are valid
BasesValid == edit.op = "none" => Findings(as, Doc).f = {}
EmitAll == EmitDoc(as, Doc)
=============================================================================
