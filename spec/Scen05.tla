------------------------------- MODULE Scen05 -------------------------------
(* C05: administrative information, IEC 61360 content, concept descriptions *)
EXTENDS Place

Opt1(n, a, v) == IF v = "-" THEN n ELSE With(n, a, S(v))
OptN(n, a, on, v) == IF on THEN With(n, a, v) ELSE n
SeqsUpTo(X, n) == UNION {[1..k -> X] : k \in 1..n}

\* --- AASd-005
Admin(v, r) == Opt1(Opt1(MinOf["AdministrativeInformation"], "version", v), "revision", r)
Vs == {"-", "0", "1", "12"}
FamAdmin == {<<"AdministrativeInformation", Admin(v, r)>> : v \in Vs, r \in Vs}
            \cup {<<"AdministrativeInformation", OptN(OptN(Admin(v, r), "templateId", t, S("t")), "creator", c, ExtRef("g"))>> : v \in {"-", "1"}, r \in {"-", "1"}, t \in BOOLEAN, c \in BOOLEAN}
            \cup {<<c, With(b, "administration", Admin(v, r))>> : v \in {"-", "1"}, r \in {"-", "0", "1"}, c \in Identifiables, b \in {O(NoAttrs)}}
FamAdminHost == {<<c, With(MinOf[c], "administration", Admin(v, r))>> : v \in {"-", "0", "1"}, r \in {"-", "0", "1"}, c \in Identifiables}

\* --- content
Langs == {"en", "EN", "En", "en-US", "EN-GB", "en-Latn-US", "eng", "enx", "de", "de-en", "x-en", "i-enochian", "fr"}
\* further language tags, each alone: every part a tag may have
Heads == {"en", "EN", "En", "eN", "de", "ens", "enm", "ang", "fr"}
Tails == {"-001", "-840", "-us", "-Us", "-USA", "-Latn", "-LATN-GB", "-GB-oed", "-GB-oxendict", "-1997", "-emodeng", "-a-bb", "-US-u-ca-gregory", "-x-y", "-x-en", "-Latn-US-oxendict-x-a", "-en",
          "-US-x-twain", "-GB-1994-biske", "-abc", "-abc-US"}
LangsMore == {h \o t : h \in Heads, t \in Tails} \cup {"x-en-us", "i-en", "sgn-GB-en", "de-x-en", "zh-en", "e", "en-", "en--us"}
Alone == {<<l>> : l \in LangsMore}
Names(ls) == A([i \in DOMAIN ls |-> Lang(ls[i], "t")])
Content == MinOf["DataSpecificationIec61360"]
FamName == {<<"DataSpecificationIec61360", With(Content, "preferredName", Names(ls))>> : ls \in SeqsUpTo(Langs, 2) \cup Alone \cup {<<"de", "fr", "en">>, <<"de", "fr", "es">>, <<"en", "de", "fr">>, <<"de", "en-GB", "fr">>}}
Types == IecTypes \cup {"-"}
FamUnit == {<<"DataSpecificationIec61360", OptN(OptN(Opt1(Content, "dataType", t), "unit", u, S("m")), "unitId", i, ExtRef("u"))>> : t \in Types, u \in BOOLEAN, i \in BOOLEAN}
Vl == MinOf["ValueList"]
FamValue == {<<"DataSpecificationIec61360", OptN(OptN(OptN(Content, "value", v, S("v")), "valueList", l, Vl), "definition", TRUE, Names(<<"en">>))>> : v \in BOOLEAN, l \in BOOLEAN}
            \cup {<<"DataSpecificationIec61360", OptN(OptN(OptN(OptN(With(Content, "dataType", S(t)), "value", v, S("v")), "valueList", l, Vl), "unit", u, S("m")), "levelType", lt, MinOf["LevelType"])>>
                    : t \in {"STRING", "REAL_MEASURE", "INTEGER_CURRENCY"}, v \in BOOLEAN, l \in BOOLEAN, u \in BOOLEAN, lt \in BOOLEAN}

\* --- concept descriptions
Ds(con) == With(MinOf["EmbeddedDataSpecification"], "dataSpecificationContent", con)
Cd(cat, dss) == Opt1(IF dss = <<>> THEN MinOf["ConceptDescription"] ELSE With(MinOf["ConceptDescription"], "embeddedDataSpecifications", A([i \in DOMAIN dss |-> Ds(dss[i])])), "category", cat)
Cats == {"-", "PROPERTY", "VALUE", "REFERENCE", "DOCUMENT", "CAPABILITY", "RELATIONSHIP", "COLLECTION", "FUNCTION", "EVENT", "ENTITY", "APPLICATION_CLASS", "QUALIFIER", "VIEW", "QUALIFIER_TYPE", "property", "x", "PROPERTY ", "DOCUMENTS"}
WithT(t) == OptN(Opt1(Content, "dataType", t), "unit", t \in AasC009, S("m"))
FamCat == {<<"ConceptDescription", Cd(c, <<WithT(t)>>)>> : c \in Cats, t \in Types} \cup {<<"ConceptDescription", Cd(c, <<>>)>> : c \in Cats}
Few == {"-", "STRING", "FILE", "IRI", "DATE", "RATIONAL"}
FamCat2 == {<<"ConceptDescription", Cd(c, <<WithT(t1), WithT(t2)>>)>> : c \in {"-", "PROPERTY", "VALUE", "REFERENCE", "DOCUMENT", "QUALIFIER_TYPE"}, t1 \in Few, t2 \in Few}
           \cup {<<"ConceptDescription", Cd(c, <<WithT(t1), WithT(t2), WithT(t3)>>)>> : c \in {"PROPERTY", "REFERENCE", "DOCUMENT", "QUALIFIER_TYPE"}, t1 \in {"-", "STRING", "FILE"}, t2 \in {"-", "STRING", "FILE"}, t3 \in {"-", "STRING", "FILE"}}
Def(ls, v) == LET n == IF ls = <<>> THEN Without(Content, "definition") ELSE With(Without(Content, "definition"), "definition", Names(ls))
              IN OptN(n, "value", v, S("v"))
Defs == {Def(ls, v) : ls \in {<<>>} \cup SeqsUpTo(Langs, 2) \cup Alone, v \in BOOLEAN}
Def2 == {Def(ls, v) : ls \in {<<>>, <<"en">>, <<"de">>, <<"de", "en">>}, v \in BOOLEAN}
FamDef == {<<"ConceptDescription", Cd("-", <<d>>)>> : d \in Defs}
          \cup {<<"ConceptDescription", Cd(c, <<d1, d2>>)>> : c \in {"-", "VALUE"}, d1 \in Def2, d2 \in Def2}
          \cup {<<"ConceptDescription", Cd(c, <<Def(<<"de">>, FALSE)>>)>> : c \in Cats}
\* content elsewhere than in a concept description knows no definition or type rules
FamElse == {<<c, With(MinOf[c], "embeddedDataSpecifications", A(<<Ds(d)>>))>> : c \in {x \in Classes : "embeddedDataSpecifications" \in AttrNames[x]},
              d \in Def2 \cup {WithT("FILE"), With(Content, "preferredName", Names(<<"de">>)), With(Content, "dataType", S("REAL_MEASURE")), With(With(Content, "value", S("v")), "valueList", Vl)}}

\* --- data specification references
U == DataSpecUri
Uris == {U, "https://admin-shell.io/DataSpecificationTemplates/DataSpecificationIec61360", "http://admin-shell.io/DataSpecificationTemplates/DataSpecificationIEC61360/3/0", "https://admin-shell.io/DataSpecificationTemplates/DataSpecificationIEC61360/3/0",
         "http://admin-shell.io/DataSpecificationTemplates/DataSpecificationIec61360/3", "https://admin-shell.io/aas/3/0/RC02/DataSpecificationIec61360", U \o "/0", U \o " ", "x", "https://admin-shell.io/DataSpecificationTemplates/DataSpecificationIEC61360/3", "HTTPS://ADMIN-SHELL.IO/DATASPECIFICATIONTEMPLATES/DATASPECIFICATIONIEC61360/3"}
FamUri == {<<"EmbeddedDataSpecification", With(MinOf["EmbeddedDataSpecification"], "dataSpecification", ExtRef(u))>> : u \in Uris}
          \cup {<<"EmbeddedDataSpecification", With(MinOf["EmbeddedDataSpecification"], "dataSpecification",
                    O([type |-> S(t), keys |-> A([i \in DOMAIN ks |-> Key(ks[i], IF i = 1 THEN U ELSE "f")])]))>>
                  : t \in Literals["ReferenceType"], ks \in {<<"GlobalReference">>, <<"Submodel">>, <<"GlobalReference", "FragmentReference">>, <<"GlobalReference", "GlobalReference">>, <<"Submodel", "Property">>}}
FamUri2 == {<<"ConceptDescription", With(MinOf["ConceptDescription"], "embeddedDataSpecifications", A([i \in DOMAIN us |-> With(MinOf["EmbeddedDataSpecification"], "dataSpecification", ExtRef(us[i]))]))>>
              : us \in SeqsUpTo({U, "x", U \o "/0"}, 3)}

Scens == FamAdmin \cup FamAdminHost \cup FamName \cup FamUnit \cup FamValue \cup FamCat \cup FamCat2 \cup FamDef \cup FamElse \cup FamUri \cup FamUri2
=============================================================================
