------------------------------ MODULE Session -------------------------------
(* C12: histories of checks in one process.                                 *)
(*                                                                          *)
(* The process holds objects given by the user (o1, o2: JSON values which   *)
(* are kept and edited between checks) and results returned so far.  A step *)
(* checks a document of the pool in some form:                              *)
(*   data     a fresh JSON value        text, bytes   a JSON file           *)
(*   shuffled the same with its attributes in another order                 *)
(*   o1, o2   a kept JSON value, edited in place to hold the document       *)
(*   named    a file which always has the same name and object              *)
(*   again    as data, checked twice, both values kept                      *)
(*   tree, xml    an XML tree or file                                       *)
(*   o3       a kept XML tree, edited in place                              *)
(*   pack     an AASX package (of environments)                             *)
(* The verdict of a step is a function of the document alone, results       *)
(* returned before do not change and neither do the values given.           *)
EXTENDS Xml, Template

Types == {"xs:" \o x : x \in {"byte", "int", "boolean", "string", "date", "dateTime", "double", "decimal", "gYear", "duration", "hexBinary", "base64Binary", "anyURI", "unsignedByte", "negativeInteger", "time"}}
Texts == {"1", "-1", "300", "2024-01-31", "true", "P1Y", "", "00", "1.0", "12:00:00Z", "a b"}
PoolTyped == {<<"Property", With(With(MinOf["Property"], "valueType", S(t)), "value", S(x))>> : t \in Types, x \in Texts}
             \cup {<<"Range", With(With(MinOf["Range"], "valueType", S(t)), "min", S(x))>> : t \in {"xs:int", "xs:byte", "xs:date"}, x \in {"1", "300", "2024-01-31"}}
             \cup {<<"Qualifier", With(With(MinOf["Qualifier"], "valueType", S(t)), "value", S(x))>> : t \in {"xs:int", "xs:byte", "xs:date"}, x \in {"1", "300", "2024-01-31"}}
Words == {"1", "01", "en", "a_b", "a b", "text/plain", "2024-01-31T12:00:00Z", "P1Y", "Instance", "Submodel", "x1", "", "{97*130}", "{97*65}"}
PoolWords == {<<"AdministrativeInformation", With(MinOf["AdministrativeInformation"], "version", S(w))>> : w \in Words}
             \cup {<<"File", With(MinOf["File"], "contentType", S(w))>> : w \in Words}
             \cup {<<"File", With(MinOf["File"], "value", S(w))>> : w \in Words}
             \cup {<<"Capability", With(MinOf["Capability"], "idShort", S(w))>> : w \in Words}
             \cup {<<"SpecificAssetId", With(MinOf["SpecificAssetId"], "name", S(w))>> : w \in Words}
             \cup {<<"MultiLanguageNameType", Lang("en", w)>> : w \in Words} \cup {<<"MultiLanguageTextType", Lang(w, "x")>> : w \in Words}
             \cup {<<"ShortNameTypeIec61360", Lang("en", w)>> : w \in Words}
             \cup {<<"BasicEventElement", With(MinOf["BasicEventElement"], "lastUpdate", S(w))>> : w \in Words}
             \cup {<<"BasicEventElement", With(MinOf["BasicEventElement"], "maxInterval", S(w))>> : w \in Words}
             \cup {<<"AssetInformation", With(MinOf["AssetInformation"], "assetKind", S(w))>> : w \in Words}
             \cup {<<"Submodel", With(MinOf["Submodel"], "kind", S(w))>> : w \in Words}
             \cup {<<"Key", With(MinOf["Key"], "type", S(w))>> : w \in Words}
\* the same values checked as several classes
Same == {MinOf["Property"], MinOf["Capability"], MinOf["Submodel"], MinOf["File"], MaxOf["Environment"], MinOf["Key"], Lang("en", "{97*100}"), O(NoAttrs)}
PoolViews == {<<c, d>> : c \in {"Environment", "Submodel", "Property", "Capability", "SubmodelElement", "DataElement", "Key", "ShortNameTypeIec61360", "MultiLanguageTextType"}, d \in Same}
PoolFull == {<<c, MinOf[c]>> : c \in Classes} \cup {<<c, MaxOf[c]>> : c \in Classes}
PoolBad == {<<c, With(MaxOf[c], "foo", S("x"))>> : c \in Classes} \cup {<<c, Without(MaxOf[c], a)>> : c \in {"Submodel", "Property", "Reference"}, a \in {"id", "valueType", "keys"}}
           \cup {<<"Submodel", Sm(<<El("Capability", x), El("Property", y)>>)>> : x \in {"a", "b"}, y \in {"a", "b"}}
           \cup {<<"Environment", Env(<<Sm(<<El("Capability", x), El("Property", y)>>)>>)>> : x \in {"a", "b"}, y \in {"a", "1"}}
           \cup {<<"Environment", Env(<<Sm(<<With(El("Property", "p"), "value", S(x))>>)>>)>> : x \in {"a", "b"}}
           \cup {<<"Environment", Env(<<Sm(<<With(With(El("Property", "p"), "valueType", S("xs:int")), "value", S(x))>>)>>)>> : x \in {"7", "b"}}
           \cup {<<c, With(MinOf[c], a, v)>> : c \in {"Submodel", "Property", "Key"}, a \in {"foo", "$schema", "idShort"}, v \in {Z, B(TRUE), N("1"), N("1.5"), A(<<>>), O(NoAttrs), A(<<Z>>)}}
\* submodels of a template, with and without a problem
TplSms == {TSub("ContactInformations", LeastOf["ContactInformations"]), TSub("DigitalNameplate", LeastOf["DigitalNameplate"]), TSub("ContactInformations", <<El("Capability", "x")>>),
           TSub("DigitalNameplate", Tail(LeastOf["DigitalNameplate"])), TSub("DigitalNameplate", SelectSeq(LeastOf["DigitalNameplate"], LAMBDA e : FirstKey(e) # FamilySid)),
           Semantic(Sm(<<El("Capability", "x")>>), "foreign")}
PoolTpl == {<<"Submodel", n>> : n \in TplSms} \cup {<<"Environment", Env(<<n>>)>> : n \in TplSms}
PoolSet == PoolTpl \cup {s \in PoolTyped \cup PoolWords \cup PoolViews \cup PoolFull \cup PoolBad : LET b == Both(s[1], s[2]) IN b.r = b.k}
\* (the order is that of the process: each part has its own numbers)
Pool == SeqOf(PoolSet)

JsonForms == {"data", "text", "bytes", "shuffled", "o1", "o2", "named", "again"}
XmlForms == {"tree", "xml", "o3"}
CanXml == [i \in DOMAIN Pool |-> Expressible(tCls(Pool[i][1]), Pool[i][2])]
FormsOf(i) == JsonForms \cup (IF CanXml[i] THEN XmlForms ELSE {}) \cup (IF Pool[i][1] = "Environment" THEN {"pack"} ELSE {})

Num == Len(Pool)
PoolEntry(i) == [i |-> i, c |-> Pool[i][1], d |-> Pool[i][2], r |-> Findings(Pool[i][1], Pool[i][2]), ok |-> TVerdict(Pool[i][1], Pool[i][2]).ok,
                 x |-> IF CanXml[i] THEN <<XmlDoc(Pool[i][1], Pool[i][2])>> ELSE <<>>]

\* kept: which document the kept values hold (0: not used yet); seen: the verdicts of the steps
VARIABLES hist, kept
vars == <<hist, kept>>
Slots == {"o1", "o2", "o3", "named"}
Init == hist = <<>> /\ kept = [s \in Slots |-> 0]
Step(i, f) == /\ hist' = Append(hist, [i |-> i, f |-> f])
              /\ kept' = IF f \in Slots THEN [kept EXCEPT ![f] = i] ELSE kept

\* --- long random histories (simulation); the length is that of the simulated behaviour
Depth == IF Thorough THEN 600 ELSE 250
RandomStep == \E i \in {RandomElement(1..Num)} : \E f \in {RandomElement(FormsOf(i))} : Step(i, f)
Next == Len(hist) < Depth /\ RandomStep
Spec == Init /\ [][Next]_vars
\* A kept value holds what it was last given
KeptIsLast == \A s \in Slots : kept[s] = LET at == {j \in DOMAIN hist : hist[j].f = s}
                                         IN IF at = {} THEN 0 ELSE hist[CHOOSE j \in at : \A m \in at : m <= j].i
EmitAll == (Len(hist) = Depth => WriteCase([h |-> hist])) /\ (hist = <<>> => \A i \in 1..Num : WriteCase(PoolEntry(i)))
=============================================================================
