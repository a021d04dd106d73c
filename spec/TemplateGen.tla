----------------------------- MODULE TemplateGen ----------------------------
(* C09: submodels of the supported templates, edited in up to two steps.    *)
EXTENDS Template, Randomization

\* --- sites: paths of indices into nested element sequences, with their fields
RECURSIVE Sites(_, _)
Sites(x, es) ==
  UNION {LET fs == {j \in DOMAIN FieldsOf[x] : FieldsOf[x][j].sid = FirstKey(es[i])}
         IN UNION {{[at |-> <<i>>, f |-> FieldsOf[x][j]]}
                   \cup (IF FieldsOf[x][j].k = "coll" /\ ModelType(es[i]) = "SubmodelElementCollection" /\ Has(es[i], "value")
                         THEN {[at |-> <<i>> \o s.at, f |-> s.f] : s \in Sites(FieldsOf[x][j].x, es[i].f["value"].e)} ELSE {}) : j \in fs}
         : i \in DOMAIN es}

\* the sequence es with what is at path at replaced by the sequence new
RECURSIVE Splice(_, _, _)
Splice(es, at, new) ==
  LET i == at[1]
  IN IF Len(at) = 1 THEN SubSeq(es, 1, i - 1) \o new \o SubSeq(es, i + 1, Len(es))
     ELSE LET in == Splice(es[i].f["value"].e, Tail(at), new)
          IN [es EXCEPT ![i] = IF in = <<>> THEN Without(@, "value") ELSE With(@, "value", A(in))]
RECURSIVE Get(_, _)
Get(es, at) == IF Len(at) = 1 THEN es[at[1]] ELSE Get(es[at[1]].f["value"].e, Tail(at))

GoodXs == [t \in {"xs:boolean", "xs:int", "xs:date", "xs:dateTime", "xs:gYear", "xs:anyURI", "xs:integer", "xs:double"} |->
             CASE t = "xs:boolean" -> "true" [] t = "xs:date" -> "2024-02-29" [] t = "xs:dateTime" -> "2024-02-29T00:00:00" [] t = "xs:gYear" -> "2024" [] t = "xs:anyURI" -> "x" [] OTHER -> "1"]
Dates == {"2024-02-29", "2024-02-29Z", "2024-02-29+02:00", "0001-01-01", "9999-12-31", "10000-01-01", "-0001-01-01", "12024-01-31", "2000-12-31-14:00", "0000-01-01", "-9999-01-01"}
Strange == {"", " ", "{10}", "0", "{97*300}", "2024", "en"}

\* what can be done to the element e of field f: the sequences that may stand in its place
Variants(f, e) ==
  LET id == Str(e, "idShort")
      again(i) == With(e, "idShort", S(id \o ToString(i)))
      semantic(r) == With(e, "semanticId", r)
      sid == f.sid
  IN {<<>>, <<e, again(2)>>, <<again(2), e, again(3)>>, <<Without(e, "semanticId")>>}
     \cup {<<Semantic(IF Has(e, "semanticId") THEN El(c, id) ELSE e, sid)>> : c \in Elements \ {"SubmodelElementCollection"}}
     \cup {<<Semantic(El("SubmodelElementCollection", id), sid)>>}
     \cup {<<Semantic(With(El("SubmodelElementCollection", id), "value", A(<<El("Capability", "z")>>)), sid)>>}
     \cup {<<Semantic(With(El("SubmodelElementCollection", id), "value", A(<<e>>)), sid)>>}
     \cup {<<Semantic(With(El("MultiLanguageProperty", id), "value", A(<<Lang(l, "x")>>)), sid)>> : l \in {"en", "de"}}
     \cup {<<Semantic(Text(id, "x"), sid)>>}
     \cup {<<Semantic(With(El("Range", id), "min", S("x")), sid)>>, <<Semantic(With(El("File", id), "value", S("file:/x")), sid)>>, <<Semantic(With(El("Blob", id), "value", S("AA==")), sid)>>,
           <<Semantic(With(El("ReferenceElement", id), "value", ExtRef("x")), sid)>>}
     \cup {<<Semantic(With(El("Entity", id), "statements", A(<<e>>)), sid)>>}
     \cup {<<Semantic(With(With(El("SubmodelElementList", id), "typeValueListElement", S("SubmodelElement")), "value", A(<<Without(x, "idShort")>>)), sid)>> : x \in {El("Capability", "z"), El("MultiLanguageProperty", "z")}}
     \cup (IF f.k = "coll" /\ Has(e, "value") /\ ModelType(e) = "SubmodelElementCollection"
           THEN {<<Semantic(With(With(El("SubmodelElementList", id), "typeValueListElement", S(ModelType(y))), "value", A(<<Without(y, "idShort")>>)), sid)>>
                   : y \in {e.f["value"].e[i] : i \in DOMAIN e.f["value"].e} \ {y \in {e.f["value"].e[i] : i \in DOMAIN e.f["value"].e} : ModelType(y) \in {"Property", "Range"}}} ELSE {})
     \cup (IF f.k \in {"str", "enum", "date"}
           THEN {<<With(Semantic(Text(id, GoodXs[t]), sid), "valueType", S(t))>> : t \in DOMAIN GoodXs}
                \cup {<<Semantic(Text(id, s), sid)>> : s \in Strange}
                \cup {<<Without(e, "value")>>}
           ELSE {})
     \cup (IF f.k = "date" THEN {<<With(Semantic(Text(id, d), sid), "valueType", S("xs:date"))>> : d \in Dates} ELSE {})
     \cup (IF f.k = "enum" THEN {<<Semantic(Text(id, l), sid)>> : l \in AllLits \cup {Lower(Role("754")), Role("754") \o " ", "Office", "Home", SubSeq(Role("754"), 1, 19), "0173-1#07-AAS754#002"}} ELSE {})
     \cup (IF f.k = "lang" THEN {<<Without(e, "value")>>, <<With(e, "value", A(<<Lang("fr", "{97*20}"), Lang("en-US", "1"), Lang("fr", "x")>>))>>} ELSE {})
     \* semantic ids
     \cup {<<semantic(ExtRef(s))>> : s \in {sid \o "/", sid \o " ", Upper(sid) \o "x", "x", SubSeq(sid, 1, Len(sid) - 1), CiSid, NpSid}}
     \cup {<<semantic(O([type |-> S("ExternalReference"), keys |-> A(<<Key("GlobalReference", k[1]), Key("GlobalReference", k[2])>>)]))>> : k \in {<<"x", sid>>, <<sid, "x">>}}
     \cup {<<semantic(O([type |-> S("ModelReference"), keys |-> A(<<Key("ConceptDescription", sid)>>)]))>>}
     \cup {<<With(semantic(ExtRef("x")), "supplementalSemanticIds", A(<<ExtRef(sid)>>))>>, <<With(e, "supplementalSemanticIds", A(<<ExtRef("x"), ExtRef(NpSid)>>))>>}
     \* placed elsewhere, or with company
     \cup {<<With(El("SubmodelElementCollection", "wrap"), "value", A(<<e>>))>>, <<With(El("Entity", "wrap"), "statements", A(<<e>>))>>,
           <<With(With(El("SubmodelElementList", "wrap"), "typeValueListElement", S("SubmodelElement")), "value", A(<<Without(e, "idShort")>>))>>}
     \cup {<<El("Property", "more"), e, Semantic(El("Capability", "more2"), "foreign"), Semantic(Text("more3", ""), "x y")>>,
           <<e, With(El("SubmodelElementCollection", "wrap"), "value", A(<<again(2), again(3)>>))>>}
     \cup {<<With(With(With(e, "category", S("PARAMETER")), "description", A(<<Lang("en", "x")>>)), "idShort", S("renamed"))>>}
     \* another field of the same level in its place
     \cup {<<Semantic(e, s)>> : s \in {FamilySid, TypeSid, "0173-1#02-AAQ326#002", "0173-1#02-AAO204#003", Ci("/Language"), Ci("/Phone"), "0173-1#02-AAR972#002", Ci("/AvailableTime/")}}

\* --- focused instances: the least content with one more field, given by a path of field numbers
RECURSIVE FieldPaths(_)
FieldPaths(x) == UNION {{<<j>>} \cup (IF FieldsOf[x][j].k = "coll" THEN {<<j>> \o p : p \in FieldPaths(FieldsOf[x][j].x)} ELSE {}) : j \in DOMAIN FieldsOf[x]}
RECURSIVE Focus(_, _)
Focus(x, path) ==
  LET j == path[1]
      f == FieldsOf[x][j]
      e == IF Len(path) = 1 THEN Elem(f, f.n, FALSE)
           ELSE Semantic(With(El("SubmodelElementCollection", f.n), "value", A(Focus(f.x, Tail(path)))), f.sid)
      rest == SelectSeq(Whole(x, FALSE), LAMBDA y : FirstKey(y) # f.sid)
      k == 1 + (j % (Len(rest) + 1))
  IN SubSeq(rest, 1, k - 1) \o <<e>> \o SubSeq(rest, k, Len(rest))
RECURSIVE Mix(_)
Mix(at) == IF at = <<>> THEN 0 ELSE at[1] + (5 * Mix(Tail(at)))
Reversed(es) == [i \in DOMAIN es |-> es[Len(es) + 1 - i]]

VARIABLES tpl, els, steps, host
vars == <<tpl, els, steps, host>>
Hosts2 == {"submodel", "env", "last", "among"}
RandomOf(X, n) == IF n >= Cardinality(X) THEN X ELSE RandomSubset(n, X)
\* the instances are divided among the processes
Init == /\ tpl \in Roots /\ steps = 0 /\ host = "submodel"
        /\ \/ \E p \in {q \in FieldPaths(tpl) : Ours(Mix(q))} : els = Focus(tpl, p)
           \/ Part = 0 /\ els \in {LeastOf[tpl], <<>>, Reversed(FullOf[tpl])}
           \/ els = FullOf[tpl]
\* fields of the least instances: every focused instance has them
Common == {"0173-1#02-AAY811#001", "0173-1#02-AAO677#002", "0173-1#02-AAW338#001", FamilySid, "0173-1#02-AAP906#001", Ci("")}
Odd(es) == Len(ToString(es)) % 4 = 0
Edit1 == /\ steps = 0 /\ els # <<>>
         /\ LET ss == Sites(tpl, els)
                full == Cardinality(ss) > 20
            IN \E s \in ss :
                 /\ full => Ours(Mix(s.at))
                 /\ \E v \in RandomOf(Variants(s.f, Get(els, s.at)), IF full THEN (IF Thorough THEN 20 ELSE 3) ELSE IF els # LeastOf[tpl] /\ FirstKey(Get(els, s.at)) \in Common THEN (IF Thorough THEN 12 ELSE 2) ELSE 999) : els' = Splice(els, s.at, v)
         /\ steps' = 1 /\ UNCHANGED <<tpl, host>>
\* a second edit
Edit2 == /\ steps = 1 /\ els # <<>> /\ host = "submodel" /\ (Thorough \/ Odd(els))
         /\ LET ss == Sites(tpl, els)
            IN ss # {} /\ \E s \in {RandomElement(ss)} : \E v \in {RandomElement(Variants(s.f, Get(els, s.at)))} : els' = Splice(els, s.at, v)
         /\ steps' = 2 /\ UNCHANGED <<tpl, host>>
Move == /\ host = "submodel" /\ steps < 2 /\ host' \in (IF steps = 0 THEN Hosts2 \ {"submodel"} ELSE {RandomElement(Hosts2 \ {"submodel"})}) /\ (steps = 1 => Thorough \/ Odd(els)) /\ steps' = steps + 2 /\ UNCHANGED <<tpl, els>>
Next == Edit1 \/ Edit2 \/ Move
Spec == Init /\ [][Next]_vars

Other(id) == With(TSub("ContactInformations", LeastOf["ContactInformations"]), "id", S(id))
Plain(id) == With(Sm(<<El("Property", "p")>>), "id", S(id))
Foreign(id) == With(Semantic(Plain(id), "foreign"), "id", S(id))
Mine == TSub(tpl, els)
Checked == IF host = "submodel" THEN "Submodel" ELSE "Environment"
Doc == CASE host = "submodel" -> Mine [] host = "env" -> Env(<<Mine>>)
         [] host = "last" -> Env(<<Other("o1"), Plain("o2"), Mine>>)
         [] host = "among" -> With(With(Env(<<Foreign("o1"), Mine, Other("o2")>>), "conceptDescriptions", A(<<MinOf["ConceptDescription"]>>)), "assetAdministrationShells", A(<<MinOf["AssetAdministrationShell"]>>))
\* A problem of a submodel is one of every environment that holds it
EmitT == LET v == TVerdict(Checked, Doc)
         IN /\ (host # "submodel" /\ v.clean /\ v.same) => (v.ok <=> ~\E p \in Problems("Submodel", Mine) : TDue(p))
            /\ WriteCase([c |-> Checked, d |-> Doc, t |-> v])
=============================================================================