--------------------------------- MODULE Api --------------------------------
(* C17-C20: a compliance run against a server.                              *)
(*                                                                          *)
(* A request is written canonically: path, then the query sorted by name.   *)
(* {aas} {sm} {asset} {cursor} {el:T} {bad} stand for the identifiers of    *)
(* the server's first shell and submodel, the asset id of that shell, the   *)
(* cursor it returned, its first element of type T (path), and an           *)
(* identifier that is no base64.                                            *)
(* A response is named by what is (or is not) wrong with it.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, Json, IOUtils

Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)
Thorough == IOEnv.TIER = "thorough"
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxOf(_)
MaxOf(s) == IF s = <<>> THEN 0 ELSE Max2(s[1], MaxOf(Tail(s)))

-----------------------------------------------------------------------------
(* Responses                                                                *)
Server == {"s500", "s503", "s599"}
Lost == {"drop", "timeout"}
\* A client error with a proper error result
Refusals == {"s400f", "s400o", "s404e", "s499e", "s400p"}
BadRefusals == {"s400html", "s400none", "s400scalar", "s400list", "s400extra", "s400type", "s400kind"}
Statuses == {"s201", "s204", "s302", "s304", "s200e"}
\* Proper answers in which something optional is absent: id short, global asset id (but specific ones), submodels of a shell; content of containers
Bare == {"noids", "nogid", "nosms", "noval"}
Bodies == {"html", "scalar", "null", "wrong", "extra", "missing", "constraint", "empty", "two", "other"} \cup Bare

\* Does the response kind k have such a variant?
Paged == {"shells", "refs", "erefs", "submodels", "values", "paths", "elements"}
HasVariant(k, c) ==
  CASE c \in {"html", "scalar", "null", "wrong", "extra"} -> TRUE
    [] c = "missing" -> k \notin {"environment", "strings"}
    [] c = "constraint" -> k \in {"shells", "refs", "submodels", "elements", "shell", "reference", "assetinfo", "submodel", "element", "environment"}
    [] c = "empty" -> k \in Paged \cup {"strings"}
    [] c = "two" -> k \in Paged
    [] c \in {"noids", "nogid", "nosms"} -> k \in {"shells", "shell"}
    [] c = "noval" -> k = "elements"
    [] c = "other" -> k \in {"shell", "reference", "submodel", "shells", "description", "environment"}
    [] OTHER -> TRUE
Open == 9   \* nothing is claimed about the level
\* The level a response gets in a positive test; chk is what the test demands of the content
ByContent(chk, c) ==
  CASE c = "empty" -> (IF chk \in {"one", "nonempty", "idshort"} THEN 2 ELSE 0)
    [] c = "two" -> (IF chk \in {"one", "empty"} THEN 2 ELSE 0)
    [] c = "other" -> (IF chk \in {"id", "idshort", "empty"} THEN 2 ELSE IF chk \in {"profile", "cds"} THEN 1 ELSE 0)
    [] c = "noids" -> (IF chk = "idshort" THEN 2 ELSE 0)
    [] OTHER -> 0
LevelNeg(c) == CASE c = "good" \/ c \in Refusals -> 0
                 [] c \in Server \cup Lost -> 3
                 [] OTHER -> 2
LevelPos(k, chk, c) ==
  CASE chk = "refuse" -> LevelNeg(c)
    [] c = "good" -> 0
    [] c \in Lost -> 3
    [] k \in {"any", "bytes"} -> Open
    [] c \in Server -> 3
    [] c \in Statuses \cup Refusals \cup BadRefusals -> 2
    [] c \in {"html", "scalar", "null", "wrong", "extra", "missing", "constraint"} -> 2
    [] OTHER -> ByContent(chk, c)

-----------------------------------------------------------------------------
(* Operations                                                               *)
\* A request with its response kind and what is demanded
Rq(u, k, chk) == [u |-> u, k |-> k, chk |-> chk]
Test(rs) == [rs |-> rs, warn |-> FALSE, dev |-> <<>>]
\* A test which cannot be carried out (completely) with the server's data
Lacking(rs) == [rs |-> rs, warn |-> TRUE, dev |-> <<>>]
T1(u, k, chk) == Test(<<Rq(u, k, chk)>>)
\* Known: what is sent instead
Instead(t, u) == [t EXCEPT !.dev = <<u>>]

Types == <<"SubmodelElementCollection", "SubmodelElementList", "Entity", "BasicEventElement", "Capability", "Operation", "Property",
           "MultiLanguageProperty", "Range", "ReferenceElement", "RelationshipElement", "AnnotatedRelationshipElement", "Blob", "File">>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
\* The server's data: does it have a cursor (more than one page), and which element types
\* (a collection holds a range)
HasType(w, t) == \E i \in DOMAIN w.types : w.types[i] = t \/ (t = "Range" /\ w.types[i] = "SubmodelElementCollection")
\* One request per element type
PerType(w, F(_)) == LET rs == Cat([i \in DOMAIN Types |-> IF HasType(w, Types[i]) THEN <<F(Types[i])>> ELSE <<>>])
                    IN [rs |-> rs, warn |-> Len(rs) < Len(Types), dev |-> <<>>]

Page(w, u, k) == <<T1(u \o "?limit=1", k, "one"),
                   IF w.cursor THEN Instead(T1(u \o "?cursor={cursor}&limit=1", k, "one"), u \o "?limit=1") ELSE Lacking(<<>>)>>
BadLevel(u) == u \o "?level=#####"
BadExtent(u) == u \o "?extent=#################"
BadLimit(u) == u \o "?limit=-1"
Levels(u, k) == <<T1(u \o "?level=core", k, "none"), T1(u \o "?level=deep", k, "none")>>
Opts == <<"", "?level=deep", "?level=core", "?extent=withBlobValue", "?extent=withoutBlobValue", "?extent=withoutBlobValue&level=core",
          "?extent=withoutBlobValue&level=deep", "?extent=withBlobValue&level=core", "?extent=withBlobValue&level=deep">>

El(p, t, x) == p \o "/submodel-elements/{el:" \o t \o "}" \o x
NoMeta == {"Capability", "Operation"}
WithPath == {"SubmodelElementCollection", "SubmodelElementList", "Entity"}

\* [neg, pos]: p is the path prefix; aasSide: are submodels reached through a shell?
ListOf(w, u, k, extra) == [neg |-> <<BadLimit(u)>>, pos |-> <<T1(u, k, "none")>> \o extra \o Page(w, u, k)]
ById(u, chkKind, opts) == [neg |-> opts, pos |-> <<T1(u, chkKind, IF chkKind \in {"submodel", "reference"} THEN "id" ELSE "none")>>]
Def(o, p, w) ==
  CASE o = "GetAllAssetAdministrationShells" ->
         [neg |-> <<BadLimit("/shells"), "/shells?assetIds={bad}">>,
          pos |-> <<T1("/shells", "shells", "none"), T1("/shells?idShort=does-not-exist", "shells", "empty"), T1("/shells?assetIds={asset}", "shells", "nonempty"),
                    T1("/shells?idShort={idShort}", "shells", "idshort")>> \o Page(w, "/shells", "shells")]
    [] o = "GetAllAssetAdministrationShells-Reference" ->
         LET u == "/shells/$reference"
         IN [neg |-> <<BadLimit(u), u \o "?assetIds={bad}">>,
             pos |-> <<T1(u, "refs", "none"), T1(u \o "?idShort=does-not-exist", "refs", "empty"), T1(u \o "?assetIds={asset}", "refs", "nonempty"),
                       T1(u \o "?idShort={idShort}", "refs", "nonempty")>> \o Page(w, u, "refs")]
    [] o = "GetAssetAdministrationShellById" -> [neg |-> <<"/shells/{bad}">>, pos |-> <<T1("/shells/{aas}", "shell", "id")>>]
    [] o = "GetAssetAdministrationShellById-Reference" -> [neg |-> <<"/shells/{bad}/$reference">>, pos |-> <<T1("/shells/{aas}/$reference", "reference", "id")>>]
    [] o = "GetAssetAdministrationShell" -> [neg |-> <<>>, pos |-> <<T1(p \o "/", "shell", "none")>>]
    [] o = "GetAssetAdministrationShell-Reference" -> [neg |-> <<>>, pos |-> <<T1(p \o "/$reference", "reference", "none")>>]
    [] o = "GetAssetInformation" -> [neg |-> <<>>, pos |-> <<T1(p \o "/asset-information", "assetinfo", "none")>>]
    [] o = "GetThumbnail" -> [neg |-> <<>>, pos |-> <<T1(p \o "/asset-information/thumbnail", "bytes", "none")>>]
    [] o = "GetAllSubmodelReferences" -> ListOf(w, p \o "/submodel-refs", "refs", <<>>)
    [] o = "GetSubmodelById" ->
         ById(p \o "/submodels/{sm}", "submodel", <<p \o "/submodels/{bad}", BadLevel(p \o "/submodels/{sm}"), BadExtent(p \o "/submodels/{sm}")>>)
    [] o = "GetSubmodelById-Metadata" -> ById(p \o "/submodels/{sm}/$metadata", "submodel", <<p \o "/submodels/{bad}/$metadata">>)
    [] o = "GetSubmodelById-ValueOnly" ->
         LET u == p \o "/submodels/{sm}/$value" IN ById(u, "any", <<p \o "/submodels/{bad}/$value", BadLevel(u), BadExtent(u)>>)
    [] o = "GetSubmodelById-Reference" -> ById(p \o "/submodels/{sm}/$reference", "reference", <<p \o "/submodels/{bad}/$reference">>)
    [] o = "GetSubmodelById-Path" ->
         LET u == p \o "/submodels/{sm}/$path" IN ById(u, "strings", <<p \o "/submodels/{bad}/$path", BadLevel(u)>>)
    [] o = "GetAllSubmodels" -> ListOf(w, "/submodels", "submodels", <<>>)
    [] o = "GetAllSubmodels-Metadata" -> ListOf(w, "/submodels/$metadata", "submodels", <<>>)
    [] o = "GetAllSubmodels-ValueOnly" -> ListOf(w, "/submodels/$value", "values", <<>>)
    [] o = "GetAllSubmodels-Reference" -> ListOf(w, "/submodels/$reference", "refs", <<>>)
    [] o = "GetAllSubmodels-Path" -> ListOf(w, "/submodels/$path", "paths", <<>>)
    [] o = "GetSubmodel" -> [neg |-> <<>>, pos |-> <<T1(p \o "/", "submodel", "none")>>]
    [] o = "GetSubmodel-Metadata" -> [neg |-> <<>>, pos |-> <<T1(p \o "/$metadata", "submodel", "none")>>]
    [] o = "GetSubmodel-ValueOnly" -> [neg |-> <<>>, pos |-> <<T1(p \o "/$value", "any", "none")>>]
    [] o = "GetSubmodel-Reference" -> [neg |-> <<>>, pos |-> <<T1(p \o "/$reference", "ereference", "none")>>]
    [] o = "GetSubmodel-Path" -> [neg |-> <<>>, pos |-> <<T1(p \o "/$path", "strings", "none")>>]
    [] o = "GetAllSubmodelElements" ->
         LET u == p \o "/submodel-elements"
         IN [neg |-> <<BadLevel(u), BadExtent(u), BadLimit(u)>>,
             pos |-> [i \in DOMAIN Opts |-> T1(u \o Opts[i], "elements", "none")] \o Page(w, u, "elements")]
    [] o = "GetAllSubmodelElements-Metadata" -> ListOf(w, p \o "/submodel-elements/$metadata", "elements", <<>>)
    [] o = "GetAllSubmodelElements-ValueOnly" ->
         LET u == p \o "/submodel-elements/$value"
             d == ListOf(w, u, "values", Levels(u, "values"))
         IN [d EXCEPT !.neg = Append(@, BadLevel(u))]
    [] o = "GetAllSubmodelElements-Reference" -> ListOf(w, p \o "/submodel-elements/$reference", "erefs", <<>>)
    [] o = "GetAllSubmodelElements-Path" ->
         LET u == p \o "/submodel-elements/$path"
             d == ListOf(w, u, "paths", Levels(u, "paths"))
         IN [d EXCEPT !.neg = Append(@, BadLevel(u))]
    [] o = "GetSubmodelElementByPath" ->
         [neg |-> <<BadLevel(El(p, w.types[1], "")), BadExtent(El(p, w.types[1], ""))>>,
          pos |-> [i \in DOMAIN Opts |-> PerType(w, LAMBDA t : Rq(El(p, t, Opts[i]), "element", "none"))]]
    [] o = "GetSubmodelElementByPath-Metadata" ->
         [neg |-> <<>>, pos |-> <<PerType(w, LAMBDA t : Rq(El(p, t, "/$metadata"), "any", IF t \in NoMeta THEN "refuse" ELSE "none"))>>]
    [] o = "GetSubmodelElementByPath-ValueOnly" ->
         LET u == El(p, w.types[1], "/$value")
         IN [neg |-> <<BadLevel(u), BadExtent(u)>>, pos |-> [i \in DOMAIN Opts |-> PerType(w, LAMBDA t : Rq(El(p, t, "/$value" \o Opts[i]), "any", "none"))]]
    [] o = "GetSubmodelElementByPath-Reference" ->
         [neg |-> <<>>, pos |-> <<PerType(w, LAMBDA t : Rq(El(p, t, "/$reference"), "ereference", "none"))>>]
    [] o = "GetSubmodelElementByPath-Path" ->
         [neg |-> <<BadLevel(El(p, w.types[1], "/$path"))>>,
          pos |-> <<PerType(w, LAMBDA t : Rq(El(p, t, "/$path"), "strings", IF t \in WithPath THEN "none" ELSE "refuse"))>>]
    [] o = "GetFileByPath" ->
         [neg |-> <<>>, pos |-> <<IF HasType(w, "File") THEN T1(El(p, "File", "/attachment"), "bytes", "none") ELSE Lacking(<<>>)>>]
    [] o = "GenerateSerializationByIds" ->
         LET u == p \o "/serialization"
         IN [neg |-> <<u \o "?aasIds={bad}", u \o "?submodelIds={bad}", u \o "?includeConceptDescriptions=invalid-bool">>,
             pos |-> <<T1(u, "environment", "none"), T1(u \o "?aasIds={aas}", "environment", "none"), T1(u \o "?submodelIds={sm}", "environment", "none"),
                       T1(u \o "?includeConceptDescriptions=true", "environment", "cds")>>]
    [] o = "GetDescription" -> [neg |-> <<>>, pos |-> <<T1("/description", "description", "profile")>>]

-----------------------------------------------------------------------------
(* Setting up: what is fetched before, in order.  [u, k, need]: need tells  *)
(* whether the first entry is used ("first": it must exist; "ids": its id   *)
(* short and asset id are used; "sub": its first submodel; "walk": all of   *)
(* its content) or only the cursor ("cursor").                              *)
St(u, k, need) == [u |-> u, k |-> k, need |-> need]
Shells1(p, need) == St(p \o "/shells?limit=1", "shells", need)
\* How the prefix is found
PrefixReqs(pk) == CASE pk \in {"none", "aas", "submodel"} -> <<>>
                    [] pk = "repo" -> <<Shells1("", "first")>>
                    [] pk = "repo-sm" -> <<Shells1("", "sub")>>
                    [] pk = "sm-repo" -> <<St("/submodels?limit=1", "submodels", "first")>>
                    [] pk = "aas-sm" -> <<St("/", "shell", "sub")>>
PrefixOf(pk) == CASE pk = "none" -> "" [] pk = "aas" -> "/aas" [] pk = "submodel" -> "/submodel" [] pk = "repo" -> "/shells/{aas}"
                  [] pk = "repo-sm" -> "/shells/{aas}/submodels/{sm}" [] pk = "sm-repo" -> "/submodels/{sm}" [] pk = "aas-sm" -> "/aas/submodels/{sm}"
ListOps == {"GetAllSubmodelElements", "GetAllSubmodelElements-Metadata", "GetAllSubmodelElements-ValueOnly", "GetAllSubmodelElements-Path"}
ByPath == {"GetSubmodelElementByPath", "GetSubmodelElementByPath-Metadata", "GetSubmodelElementByPath-ValueOnly", "GetSubmodelElementByPath-Reference",
           "GetSubmodelElementByPath-Path", "GetFileByPath"}
SmById == {"GetSubmodelById", "GetSubmodelById-Metadata", "GetSubmodelById-ValueOnly", "GetSubmodelById-Reference", "GetSubmodelById-Path"}
AllSm == {"GetAllSubmodels", "GetAllSubmodels-Metadata", "GetAllSubmodels-ValueOnly", "GetAllSubmodels-Reference", "GetAllSubmodels-Path"}
OwnSetup(o, pk) ==
  LET p == PrefixOf(pk)
  IN CASE o \in {"GetAllAssetAdministrationShells", "GetAllAssetAdministrationShells-Reference"} -> <<Shells1("", "ids")>>
       [] o \in {"GetAssetAdministrationShellById", "GetAssetAdministrationShellById-Reference"} -> <<Shells1("", "first")>>
       [] o = "GetAllSubmodelReferences" -> <<St(p \o "/submodel-refs?limit=1", "refs", "cursor")>>
       [] o \in SmById -> IF pk = "none" THEN <<St("/submodels?limit=1", "submodels", "first")>> ELSE <<St(p \o "/submodel-refs?limit=1", "refs", "first")>>
       [] o \in AllSm -> <<St("/submodels?limit=1", "submodels", "cursor")>>
       [] o = "GetAllSubmodelElements" -> <<St(p \o "/submodel-elements?limit=1", "elements", "cursor")>>
       [] o = "GetAllSubmodelElements-Metadata" -> <<St(p \o "/submodel-elements/$metadata?limit=1", "elements", "cursor")>>
       [] o = "GetAllSubmodelElements-ValueOnly" -> <<St(p \o "/submodel-elements/$value?limit=1", "values", "cursor")>>
       [] o = "GetAllSubmodelElements-Path" -> <<St(p \o "/submodel-elements/$path?limit=1", "paths", "cursor")>>
       [] o \in ByPath -> <<St(p \o "/submodel-elements", "elements", "walk")>>
       [] o = "GenerateSerializationByIds" -> <<Shells1(p, "sub")>>
       [] OTHER -> <<>>
Setup(e) == PrefixReqs(e.p) \o OwnSetup(e.o, e.p)
\* No first page is fetched for the list of references of elements, so there is no cursor to go on with
NoCursor == {"GetAllSubmodelElements-Reference"}
Tests(e, w) == Def(e.o, PrefixOf(e.p), IF e.o \in NoCursor THEN [w EXCEPT !.cursor = FALSE] ELSE w)

\* Is what is absent needed?  (Nothing is claimed about how far such an operation can be tested.)
Uses(need, c) == (c \in {"noids", "nogid"} /\ need = "ids") \/ (c = "nosms" /\ need = "sub") \/ (c = "noval" /\ need = "walk")
LevelSetup(s, c) == CASE c = "good" -> 0
                      [] c \in Bare -> (IF Uses(s.need, c) THEN Open ELSE 0)
                      [] c \in Server \cup Lost -> 3
                      [] c = "empty" -> (IF s.need = "cursor" THEN 0 ELSE 2)
                      [] c \in {"two", "other"} -> 0
                      [] OTHER -> 2
\* Known: errors that are not answers of the server end the whole run
EscapesSetup(s, c) == c \in Lost \/ (c = "empty" /\ s.need # "cursor") \/ Uses(s.need, c)
EscapesTest(chk, c) == c \in Lost \/ (chk = "idshort" /\ c = "noids")

-----------------------------------------------------------------------------
(* Judging what was recorded of one operation.  A record is                 *)
(* [o, setup, ran, neg, pos]; setup and tests are [l, rs] with level and    *)
(* requests [u, c]: what was asked and how it was answered.                 *)
Urls(t) == [i \in DOMAIN t.rs |-> t.rs[i].u]
\* The requests of two lists of tests are the same, in any order of the tests
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
Bag(ts) == [i \in DOMAIN ts |-> Urls(ts[i])]
\* The tests named after "level=core, extent=withBlobValue" and "level=deep, extent=withBlobValue" send other parameters;
\* nothing is claimed about which parameters these two tests use
LooseUrls == {p \o "/submodel-elements" \o q : p \in {"/submodel", "/aas/submodels/{sm}", "/submodels/{sm}", "/shells/{aas}/submodels/{sm}"},
              q \in {"?extent=withoutBlobValue&level=deep", "?extent=withBlobValue&level=core", "?extent=withBlobValue&level=deep"}}
Loose(o, us) == IF o = "GetAllSubmodelElements" THEN [i \in DOMAIN us |-> IF us[i] = <<>> THEN us[i] ELSE IF us[i][1] \in LooseUrls THEN <<"*">> ELSE us[i]] ELSE us
\* The level of a positive test with these answers (cs: one class per request)
LevelTest(t, cs) ==
  LET ls == [i \in DOMAIN t.rs |-> LevelPos(t.rs[i].k, t.rs[i].chk, cs[i])]
      m == Max2(IF t.warn THEN 1 ELSE 0, MaxOf(ls))
  IN m

-----------------------------------------------------------------------------
(* Profiles                                                                 *)
E(p, os) == [i \in DOMAIN os |-> [o |-> os[i], p |-> p]]
SmElementOps == <<"GetAllSubmodelElements", "GetAllSubmodelElements-Metadata", "GetAllSubmodelElements-ValueOnly", "GetAllSubmodelElements-Reference",
                  "GetAllSubmodelElements-Path", "GetSubmodelElementByPath", "GetSubmodelElementByPath-Metadata", "GetSubmodelElementByPath-ValueOnly",
                  "GetSubmodelElementByPath-Reference", "GetSubmodelElementByPath-Path", "GetFileByPath">>
\* (the reference operation comes before the value-only one in the code's lists; the standard fixes no order)
SmByIdOps == <<"GetSubmodelById", "GetSubmodelById-Metadata", "GetSubmodelById-Reference", "GetSubmodelById-ValueOnly", "GetSubmodelById-Path">>
AasOps == <<"GetAssetInformation", "GetThumbnail", "GetAllSubmodelReferences">> \o SmByIdOps
Profiles ==
  <<[n |-> "AssetAdministrationShellRepositoryServiceSpecification/SSP-002",
     es |-> E("none", <<"GetAllAssetAdministrationShells", "GetAllAssetAdministrationShells-Reference", "GetAssetAdministrationShellById",
                        "GetAssetAdministrationShellById-Reference">>) \o E("repo", AasOps) \o E("repo-sm", SmElementOps)
            \o E("none", <<"GenerateSerializationByIds", "GetDescription">>)],
    [n |-> "SubmodelRepositoryServiceSpecification/SSP-002",
     es |-> E("none", <<"GetAllSubmodels", "GetAllSubmodels-Metadata", "GetAllSubmodels-ValueOnly", "GetAllSubmodels-Reference", "GetAllSubmodels-Path">> \o SmByIdOps)
            \o E("sm-repo", SmElementOps) \o E("none", <<"GenerateSerializationByIds", "GetDescription">>)],
    [n |-> "AssetAdministrationShellServiceSpecification/SSP-002",
     es |-> E("aas", <<"GetAssetAdministrationShell", "GetAssetAdministrationShell-Reference">> \o AasOps) \o E("aas-sm", SmElementOps)
            \o E("aas", <<"GenerateSerializationByIds">>) \o E("none", <<"GetDescription">>)],
    [n |-> "SubmodelServiceSpecification/SSP-002",
     es |-> E("submodel", <<"GetSubmodel", "GetSubmodel-Metadata", "GetSubmodel-ValueOnly", "GetSubmodel-Reference", "GetSubmodel-Path">> \o SmElementOps
                          \o <<"GenerateSerializationByIds">>) \o E("none", <<"GetDescription">>)]>>
=============================================================================
