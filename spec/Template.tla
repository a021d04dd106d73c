------------------------------ MODULE Template ------------------------------
(* C09: the supported submodel templates.                                   *)
(*                                                                          *)
(* A template is a tree of fields: a field is known by its semantic id, has *)
(* a cardinality lo..hi (hi = 0: no limit) and a kind: str, date, lang,     *)
(* enum (literals x) or coll (a collection with the fields of class x).     *)
EXTENDS Emit

Fld(n, sid, lo, hi, k, x) == [n |-> n, sid |-> sid, lo |-> lo, hi |-> hi, k |-> k, x |-> x]
ReqF(n, sid, k, x) == Fld(n, sid, 1, 1, k, x)
OptF(n, sid, k, x) == Fld(n, sid, 0, 1, k, x)
OptLang(n, sid) == OptF(n, sid, "lang", "")

Zvei == "https://admin-shell.io/zvei/nameplate/"
CiSid == Zvei \o "1/0/ContactInformations"
NpSid == Zvei \o "2/0/Nameplate"
Ci(x) == CiSid \o "/ContactInformation" \o x
Role(i) == "0173-1#07-AAS" \o i \o "#001"

LitsOf == [role |-> {Role(i) : i \in {"927", "928", "929", "930", "931"}},
           phone |-> {Role(i) : i \in {"754", "755", "756", "757", "758", "759"}},
           fax |-> {Role(i) : i \in {"754", "756", "758"}},
           email |-> {Role(i) : i \in {"754", "756", "757", "758"}}]
AllLits == UNION {LitsOf[x] : x \in DOMAIN LitsOf}

ContactFields == <<
  OptF("RoleOfContactPerson", "0173-1#02-AAO204#003", "enum", "role"),
  OptLang("NationalCode", "0173-1#02-AAO134#002"),
  Fld("Language", Ci("/Language"), 0, 0, "str", ""),
  OptF("TimeZone", Ci("/TimeZone"), "str", ""),
  OptLang("CityTown", "0173-1#02-AAO132#002"),
  OptLang("Company", "0173-1#02-AAW001#001"),
  OptLang("Department", "0173-1#02-AAO127#003"),
  OptF("Phone", Ci("/Phone"), "coll", "Phone"),
  OptF("Fax", "0173-1#02-AAQ834#005", "coll", "Fax"),
  OptF("Email", "0173-1#02-AAQ836#005", "coll", "Email"),
  Fld("IPCommunication", Ci("/IPCommunication"), 0, 0, "coll", "IPCommunication"),
  OptLang("Street", "0173-1#02-AAO128#002"),
  OptLang("ZipCode", "0173-1#02-AAO129#002"),
  OptLang("PoBox", "0173-1#02-AAO130#002"),
  OptLang("ZipCodeOfPoBox", "0173-1#02-AAO131#002"),
  OptLang("StateCounty", "0173-1#02-AAO133#002"),
  OptLang("NameOfContact", "0173-1#02-AAO205#002"),
  OptLang("FirstName", "0173-1#02-AAO206#002"),
  OptLang("MiddleName", "0173-1#02-AAO207#002"),
  OptLang("Title", "0173-1#02-AAO208#003"),
  OptLang("AcademicTitle", "0173-1#02-AAO209#003"),
  OptLang("FurtherDetailsOfContact", "0173-1#02-AAO210#002"),
  OptF("AddressOfAdditionalLink", "0173-1#02-AAQ326#002", "str", "")>>

FieldsOf == [
  ContactInformations |-> << Fld("ContactInformation", Ci(""), 1, 0, "coll", "ContactInformation") >>,
  DigitalNameplate |-> <<
    ReqF("URIOfTheProduct", "0173-1#02-AAY811#001", "str", ""),
    ReqF("ManufacturerName", "0173-1#02-AAO677#002", "lang", ""),
    ReqF("ManufacturerProductDesignation", "0173-1#02-AAW338#001", "lang", ""),
    ReqF("ContactInformation", Ci(""), "coll", "ContactInformation"),
    OptLang("ManufacturerProductRoot", "0173-1#02-AAU732#001"),
    OptLang("ManufacturerProductFamily", "0173-1#02-AAU731#001"),
    OptLang("ManufacturerProductType", "0173-1#02-AAO057#002"),
    OptLang("OrderCodeOfManufacturer", "0173-1#02-AAO227#002"),
    OptLang("ProductArticleNumberOfManufacturer", "0173-1#02-AAO676#003"),
    OptF("SerialNumber", "0173-1#02-AAM556#002", "str", ""),
    ReqF("YearOfConstruction", "0173-1#02-AAP906#001", "str", ""),
    OptF("DateOfManufacture", "0173-1#02-AAR972#002", "date", ""),
    OptLang("HardwareVersion", "0173-1#02-AAN270#002"),
    OptLang("FirmwareVersion", "0173-1#02-AAM985#002"),
    OptLang("SoftwareVersion", "0173-1#02-AAM737#002"),
    OptF("CountryOfOrigin", "0173-1#02-AAO259#004", "str", "")>>,
  ContactInformation |-> ContactFields,
  Phone |-> << ReqF("TelephoneNumber", "0173-1#02-AAO136#002", "lang", ""),
               OptF("TypeOfTelephone", "0173-1#02-AAO137#003", "enum", "phone"),
               OptLang("AvailableTime", Ci("/AvailableTime/")) >>,
  Fax |-> << ReqF("FaxNumber", "0173-1#02-AAO195#002", "lang", ""),
             OptF("TypeOfFaxNumber", "0173-1#02-AAO196#003", "enum", "fax") >>,
  Email |-> << ReqF("EmailAddress", "0173-1#02-AAO198#002", "str", ""),
               OptLang("PublicKey", "0173-1#02-AAO200#002"),
               OptF("TypeOfEmailAddress", "0173-1#02-AAO199#003", "enum", "email"),
               OptLang("TypeOfPublicKey", "0173-1#02-AAO201#002") >>,
  IPCommunication |-> << ReqF("AddressOfAdditionalLink", "0173-1#02-AAQ326#002", "str", ""),
                         OptF("TypeOfCommunication", Ci("/IPCommunication/TypeOfCommunication"), "str", ""),
                         OptF("AvailableTime", Ci("/AvailableTime/"), "str", "") >>]
TemplateOf == (CiSid :> "ContactInformations") @@ (NpSid :> "DigitalNameplate")
FamilySid == "0173-1#02-AAU731#001"
TypeSid == "0173-1#02-AAO057#002"

-----------------------------------------------------------------------------
(* The verdict on a submodel that is valid by the metamodel.                *)
(* A verdict is the set of its problems, each [k |-> "" or a deviation,     *)
(* raise |-> whether the code raises]: "-x" as for findings in Judge.       *)
Problem == [k |-> "", raise |-> FALSE]
TDev(x, r) == [k |-> x, raise |-> r]
ItemsOf(n, a) == IF Has(n, a) THEN n.f[a].e ELSE <<>>
FirstKey(n) == IF Has(n, "semanticId") THEN n.f["semanticId"].f["keys"].e[1].f["value"].v ELSE "-"
With2(n, sid) == {i \in DOMAIN n : FirstKey(n[i]) = sid}

\* Dates the code reads: four-digit years without time zone
PlainDate(s) == Len(s) = 10 /\ SubSeq(s, 1, 4) # "0000" /\ ~(Ch(s, 1) = "-")

RECURSIVE Content(_, _)
FieldVal(f, e) ==
  LET c == ModelType(e)
  IN CASE f.k = "str" -> When(c # "Property" \/ ~Has(e, "value") \/ (c = "Property" /\ Str(e, "valueType") # "xs:string"), Problem)
       [] f.k = "enum" -> When(c # "Property" \/ ~Has(e, "value") \/ (c = "Property" /\ (Str(e, "valueType") # "xs:string" \/ Str(e, "value") \notin LitsOf[f.x])), Problem)
       [] f.k = "date" -> IF c = "Property" /\ Has(e, "value") /\ Str(e, "valueType") = "xs:date"
                          THEN When(~PlainDate(Str(e, "value")), TDev("+tpl-date", TRUE))
                          ELSE {Problem}
       [] f.k = "lang" -> When(c # "MultiLanguageProperty" \/ ~Has(e, "value"), Problem)
       [] f.k = "coll" -> IF c = "SubmodelElementCollection"
                          THEN IF Has(e, "value") THEN Content(f.x, e.f["value"].e) ELSE {Problem}
                          ELSE IF ~Has(e, "value") /\ c \in {"Property", "MultiLanguageProperty", "File", "Blob", "ReferenceElement", "SubmodelElementList"} THEN {Problem}
                          ELSE IF c = "SubmodelElementList" THEN {TDev("-tpl-not-a-collection", FALSE)} \cup {TDev("+tpl-not-a-collection", p.raise) : p \in {q \in Content(f.x, e.f["value"].e) : TRUE}}
                          ELSE {TDev("-tpl-not-a-collection", FALSE), TDev("+tpl-not-a-collection", TRUE)}
Field(f, es) ==
  LET at == With2(es, f.sid)
      n == Cardinality(at)
  IN IF n < f.lo \/ (f.hi > 0 /\ n > f.hi) THEN {Problem} ELSE UNION {FieldVal(f, es[i]) : i \in at}
Content(x, es) == UNION {Field(FieldsOf[x][j], es) : j \in DOMAIN FieldsOf[x]}

TDue(p) == p.k = "" \/ Ch(p.k, 1) = "-"
TActual(p) == p.k = "" \/ Ch(p.k, 1) = "+"
SubmodelProblems(n) ==
  LET sid == FirstKey(n)
      es == ItemsOf(n, "submodelElements")
  IN IF sid \notin DOMAIN TemplateOf THEN {}
     ELSE IF es = <<>> THEN {TDev("-tpl-no-elements", FALSE), TDev("+tpl-no-elements", TRUE)}
     ELSE LET ps == Content(TemplateOf[sid], es)
          \* the rule of the template itself
          IN ps \cup When(sid = NpSid /\ With2(es, FamilySid) = {} /\ With2(es, TypeSid) = {}, Problem)
\* d is a document of class Environment or Submodel without errors by the metamodel
Problems(c, d) == CASE c = "Submodel" -> SubmodelProblems(d)
                    [] c = "Environment" -> UNION {SubmodelProblems(ItemsOf(d, "submodels")[i]) : i \in DOMAIN ItemsOf(d, "submodels")}
                    [] OTHER -> {}
\* [ok |-> to be accepted, kok, kraise |-> what the code does by the deviations dev]
TVerdict(c, d) ==
  LET b == Both(c, d)
      clean == \A f \in b.r.f : f.l = 1
      ps == IF clean /\ b.r = b.k THEN Problems(c, d) ELSE {}
  IN [clean |-> clean, ok |-> clean /\ ~\E p \in ps : TDue(p),
      kok |-> clean /\ ~\E p \in ps : TActual(p), kraise |-> \E p \in ps : TActual(p) /\ p.raise,
      same |-> b.r = b.k,
      dev |-> {p.k : p \in {q \in ps : q.k # ""}}]

-----------------------------------------------------------------------------
(* Instances *)
Semantic(e, sid) == With(e, "semanticId", ExtRef(sid))
Text(id, v) == With(El("Property", id), "value", S(v))
RECURSIVE Whole(_, _)
\* the element for field f; full: with all optional fields
Elem(f, id, full) ==
  Semantic(CASE f.k = "str" -> Text(id, "x")
             [] f.k = "enum" -> Text(id, CHOOSE v \in LitsOf[f.x] : TRUE)
             [] f.k = "date" -> With(Text(id, "2024-02-29"), "valueType", S("xs:date"))
             [] f.k = "lang" -> With(El("MultiLanguageProperty", id), "value", A(<<Lang("en", "x"), Lang("de", "y")>>))
             [] f.k = "coll" -> LET es == Whole(f.x, full)
                                IN IF es = <<>> THEN With(El("SubmodelElementCollection", id), "value", A(<<El("Capability", "other")>>))
                                   ELSE With(El("SubmodelElementCollection", id), "value", A(es)), f.sid)
Whole(x, full) ==
  LET fs == SelectSeq(FieldsOf[x], LAMBDA f : full \/ f.lo > 0 \/ f.sid = FamilySid)
  IN [i \in DOMAIN fs |-> Elem(fs[i], fs[i].n, full)]
SidOf == [x \in {"ContactInformations", "DigitalNameplate"} |-> CHOOSE s \in DOMAIN TemplateOf : TemplateOf[s] = x]
Roots == {"ContactInformations", "DigitalNameplate"}
FullOf == [x \in Roots |-> Whole(x, TRUE)]
LeastOf == [x \in Roots |-> Whole(x, FALSE)]
TSub(x, es) == Semantic(IF es = <<>> THEN MinOf["Submodel"] ELSE Sm(es), SidOf[x])
=============================================================================
