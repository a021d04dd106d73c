--------------------------------- MODULE Xml --------------------------------
(* C07: the XML rendering of documents, and deviations from it.             *)
(*                                                                          *)
(* An element is [g |-> local name, ns |-> namespace ("aas", "none",        *)
(* "short", "long", "near"), x |-> text before the first child, tl |-> text *)
(* after the element, c |-> its children, k |-> what it stands for: "obj",  *)
(* "list", "text", "bool", "wrap" (around a value), "odd" (no rendering),   *)
(* ab |-> does its name tell the class?].                                   *)
EXTENDS Emit

Elt(g, k, x, c) == [g |-> g, ns |-> "aas", x |-> x, tl |-> "", c |-> c, k |-> k, ab |-> FALSE]

\* Names which are the same in both formats
NameHead == {Ch(ASCII, i) : i \in {j \in 1..Len(ASCII) : Code[Ch(ASCII, j)] \in (65..90) \cup (97..122)}}
NameRest == {Ch(ASCII, i) : i \in {j \in 1..Len(ASCII) : Code[Ch(ASCII, j)] \in (65..90) \cup (97..122) \cup (48..57) \cup {95}}}
XmlName(s) == s # "" /\ Ch(s, 1) \in NameHead /\ \A i \in 1..Len(s) : Ch(s, i) \in NameRest
\* (the name dataSpecificationContent is taken in XML)
TypeName(s) == XmlName(s) /\ s # "DataSpecificationContent" /\ Code[Ch(s, 1)] \in 65..90

ItemTag(c) == CASE c = "MultiLanguageNameType" -> "langStringNameType" [] c = "MultiLanguageTextType" -> "langStringTextType"
                [] c = "DefinitionTypeIec61360" -> "langStringDefinitionTypeIec61360"
                [] c = "PreferredNameTypeIec61360" -> "langStringPreferredNameTypeIec61360"
                [] c = "ShortNameTypeIec61360" -> "langStringShortNameTypeIec61360" [] OTHER -> Uncapital(c)

\* The class whose attributes object n has at a position of class c ("" if there is none)
ClassAt(c, n) == IF c \notin Abstract THEN c
                 ELSE IF ModelType(n) \in Subclasses(c) THEN ModelType(n) ELSE IF EventAsElement(c, n) THEN "EventElement" ELSE ""
NamesClass(c) == c \in Abstract \cup NeedsModelType

\* Can the node be written as XML (with the same meaning)?
RECURSIVE Expressible(_, _)
Expressible(ty, n) ==
  CASE ty.k = "list" -> n.t = "a" /\ \A i \in DOMAIN n.e : Expressible(ty.of, n.e[i])
    [] ty.k = "cls" ->
         /\ n.t = "o"
         /\ NamesClass(ty.c) => TypeName(ModelType(n))
         /\ LET c == ClassAt(ty.c, n)
            IN \A a \in DOMAIN n.f \ {"modelType"} :
                  IF c # "" /\ a \in AttrNames[c] THEN Expressible(Attrs[c][a].ty, n.f[a])
                  ELSE XmlName(a) /\ n.f[a].t = "s" /\ XmlString(n.f[a].v)
    [] ty.k \in {"str", "enum", "text"} -> n.t = "s" /\ XmlString(n.v)
    [] ty.k = "bool" -> n.t = "b"

RECURSIVE Render(_, _, _)
\* The children of the element standing for object n; as a sequence in an arbitrary but fixed order
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
Attributes(c, n) ==
  LET as == SeqOf(DOMAIN n.f \ {"modelType"})
  IN [i \in DOMAIN as |-> IF c # "" /\ as[i] \in AttrNames[c] THEN Render(Attrs[c][as[i]].ty, as[i], n.f[as[i]])
                          ELSE Elt(as[i], "odd", n.f[as[i]].v, <<>>)]
\* The element named g for n, of declared type ty, as the value of an attribute
TypeTag(c, n) == IF NamesClass(c) THEN Uncapital(ModelType(n)) ELSE ItemTag(c)
Item(c, n) == [Elt(TypeTag(c, n), "obj", "", Attributes(ClassAt(c, n), n)) EXCEPT !.ab = NamesClass(c)]
Render(ty, g, n) ==
  CASE ty.k = "list" -> Elt(g, "list", "", [i \in DOMAIN n.e |-> Item(ty.of.c, n.e[i])])
    [] ty.k = "cls" /\ ty.c \in Abstract -> Elt(g, "wrap", "", <<Item(ty.c, n)>>)
    [] ty.k = "cls" /\ ty.c \notin Abstract -> Elt(g, "obj", "", Attributes(ty.c, n))
    [] ty.k = "bool" -> Elt(g, "bool", n.v, <<>>)
    [] OTHER -> Elt(g, "text", n.v, <<>>)
XmlDoc(c, n) == Item(c, n)

-----------------------------------------------------------------------------
(* Reading: the document an XML tree stands for.  What cannot be read is a  *)
(* node of kind "e", which is in error wherever it stands.                  *)
Unread == [t |-> "e"]
\* What follows, text between elements included, is no part of any rendering
Stray(s) == \E i \in DOMAIN Cps(s) : Cps(s)[i] \notin {9, 10, 13, 32}
\* The class an element's name tells
TypeOf(e) == IF e.ns \in {"aas", "near"} THEN Capital(e.g) ELSE "?"
Wrapper(e) == e.g = "dataSpecificationContent"
Inside(e) == IF Wrapper(e) THEN e.c[1] ELSE e
LastNamed(cs, g) == CHOOSE i \in DOMAIN cs : cs[i].g = g /\ \A j \in DOMAIN cs : cs[j].g = g => j <= i

RECURSIVE Read(_, _)
\* Can the object be taken apart?
Opens(c, e) ==
  /\ e.ns = "aas" /\ ~Stray(e.x)
  /\ Wrapper(e) => Len(e.c) = 1
  /\ \A i \in DOMAIN Inside(e).c : LET k == Inside(e).c[i]
                                   IN k.ns = "aas" /\ (c = "OperationVariable" /\ k.g = "value" => Len(k.c) = 1)
ReadObj(c, e) ==
  IF ~Opens(c, e) THEN Unread
  ELSE LET cs == Inside(e).c
           names == {cs[i].g : i \in DOMAIN cs}
           attr(g) == LET k == cs[LastNamed(cs, g)]
                      IN IF g \in AttrNames[c] THEN Read(Attrs[c][g].ty, IF c = "OperationVariable" /\ g = "value" THEN k.c[1] ELSE k) ELSE S(k.x)
       IN O([g \in names |-> attr(g)])
ReadCls(c, e) ==
  IF c \in Abstract
  THEN IF Wrapper(e) /\ Len(e.c) # 1 THEN Unread
       ELSE LET m == TypeOf(Inside(e))
                d == ClassAt(c, O([modelType |-> S(m)]))
                r == IF d = "" THEN Unread ELSE ReadObj(d, e)
            IN IF r.t = "o" THEN With(r, "modelType", S(m)) ELSE r
  ELSE LET r == ReadObj(c, e) IN IF r.t = "o" /\ c \in NeedsModelType THEN With(r, "modelType", S(TypeOf(e))) ELSE r
Read(ty, e) ==
  CASE ty.k = "list" -> A([i \in DOMAIN e.c |-> ReadCls(ty.of.c, e.c[i])])
    [] ty.k = "cls" -> ReadCls(ty.c, e)
    [] ty.k = "bool" -> IF \E i \in DOMAIN e.c : e.c[1].c # <<>> THEN Unread ELSE B(e.x = "true")
    [] OTHER -> IF \E i \in DOMAIN e.c : e.c[1].c # <<>> THEN Unread ELSE S(e.x)

\* Deviations which the code reads over (see known_findings.txt), wherever it gets to read them
Tails(cs) == IF \E i \in DOMAIN cs : Stray(cs[i].tl) THEN {"xml-stray-text"} ELSE {}
Inner(e) == IF Stray(e.x) THEN {"xml-stray-text"} ELSE {}
RECURSIVE Over(_, _)
NoType(e) == e.ns \in {"none", "short"}
OverObj(c, e) ==
  IF e.ns = "aas" /\ ~Stray(e.x) /\ Wrapper(e) /\ Len(e.c) = 1 /\ NoType(e.c[1]) /\ e.c[1].c # <<>> /\ e.c[1].c[1].ns = "aas" THEN {"xml-short-tag"}
  ELSE IF ~Opens(c, e) THEN {}
  ELSE LET cs == Inside(e).c
           names == {cs[i].g : i \in DOMAIN cs}
           value(k) == IF c = "OperationVariable" /\ k.g = "value" THEN k.c[1] ELSE k
       IN (IF Cardinality(names) < Len(cs) THEN {"xml-repeated"} ELSE {})
          \cup Tails(cs) \cup (IF Wrapper(e) THEN Tails(e.c) \cup Inner(e.c[1]) \cup (IF e.c[1].ns # "aas" THEN {"xml-content-namespace"} ELSE {}) ELSE {})
          \cup UNION {IF value(cs[i]) # cs[i] THEN Inner(cs[i]) \cup Tails(cs[i].c) ELSE {} : i \in DOMAIN cs}
          \cup UNION {IF cs[i].g \in AttrNames[c] THEN Over(Attrs[c][cs[i].g].ty, value(cs[i])) ELSE {} : i \in DOMAIN cs}
OverCls(c, e) ==
  IF c \in Abstract
  THEN IF Wrapper(e) /\ Len(e.c) # 1 THEN {}
       ELSE IF NoType(Inside(e)) THEN {"xml-short-tag"}
       ELSE LET d == ClassAt(c, O([modelType |-> S(TypeOf(Inside(e)))])) IN IF d = "" THEN {} ELSE OverObj(d, e)
  ELSE OverObj(c, e)
Over(ty, e) ==
  CASE ty.k = "list" -> Inner(e) \cup Tails(e.c) \cup UNION {OverCls(ty.of.c, e.c[i]) : i \in DOMAIN e.c}
    [] ty.k = "cls" -> OverCls(ty.c, e)
    [] OTHER -> (IF e.c # <<>> /\ e.c[1].c = <<>> THEN {"xml-child-of-text"} ELSE {})
                \cup (IF ty.k = "bool" /\ e.x \notin {"true", "false", "1", "0"} THEN {"xml-bool"} ELSE {})

RECURSIVE HasUnread(_)
HasUnread(n) == CASE n.t = "e" -> TRUE [] n.t = "o" -> \E a \in DOMAIN n.f : HasUnread(n.f[a])
                  [] n.t = "a" -> \E i \in DOMAIN n.e : HasUnread(n.e[i]) [] OTHER -> FALSE

\* [bad |-> is it no rendering at all (it must be reported, wherever), r |-> the verdict otherwise,
\*  k, dev |-> the verdict of the code as it is and the deviations behind it]
XVerdict(c, x) ==
  LET d == ReadCls(c, x)
      o == OverCls(c, x)
      b == Both(c, d)
  IN [bad |-> HasUnread(d) \/ o # {}, r |-> b.r, k |-> b.k, dev |-> b.dev \cup {"-" \o i : i \in o}]

\* What reading leaves of a document: model types are read only where they are needed
RECURSIVE Essence(_, _)
Essence(ty, n) ==
  CASE ty.k = "list" -> A([i \in DOMAIN n.e |-> Essence(ty.of, n.e[i])])
    [] ty.k = "cls" ->
         LET c == ClassAt(ty.c, n)
         IN IF c = "" THEN Unread
            ELSE O([a \in DOMAIN n.f \ (IF NamesClass(ty.c) THEN {} ELSE {"modelType"}) |->
                      IF a \in AttrNames[c] THEN Essence(Attrs[c][a].ty, n.f[a]) ELSE n.f[a]])
    [] OTHER -> n

-----------------------------------------------------------------------------
(* Deviations.  A path is a sequence of child numbers. *)
RECURSIVE At(_, _)
At(e, p) == IF p = <<>> THEN e ELSE At(e.c[Head(p)], Tail(p))
RECURSIVE Upd(_, _, _)
Upd(e, p, v) == IF p = <<>> THEN v ELSE [e EXCEPT !.c[Head(p)] = Upd(@, Tail(p), v)]
RECURSIVE PathsOf(_)
PathsOf(e) == {<<>>} \cup UNION {{<<i>> \o p : p \in PathsOf(e.c[i])} : i \in DOMAIN e.c}

\* [d |-> the deviating tree, kind |-> what deviates]
Dev(d, kind) == [d |-> d, kind |-> kind]
Alien(t) == Elt(t, "odd", "", <<>>)
Deviations(r, p) ==
  LET e == At(r, p)
      up(v) == Upd(r, p, v)
  IN {Dev(up([e EXCEPT !.ns = s]), "namespace") : s \in {"none", "short", "long", "near"}}
     \cup (IF e.k \in {"obj", "list", "wrap"}
           THEN {Dev(up([e EXCEPT !.x = "x"]), "text"), Dev(up([e EXCEPT !.x = " y "]), "text")}
                \cup {Dev(up([e EXCEPT !.c[i].tl = "z"]), "tail") : i \in DOMAIN e.c} ELSE {})
     \cup (IF e.k = "obj" THEN {Dev(up([e EXCEPT !.c = @ \o <<e.c[i]>>]), "repeated") : i \in DOMAIN e.c}
                               \cup {Dev(up([e EXCEPT !.c = <<e.c[i]>> \o @]), "repeated") : i \in DOMAIN e.c} ELSE {})
     \cup (IF e.k \in {"text", "bool"}
           THEN {Dev(up([e EXCEPT !.c = cs]), "child") : cs \in {<<Alien("foo")>>, <<[Alien(e.g) EXCEPT !.x = "x"]>>,
                   <<[Alien("foo") EXCEPT !.c = <<Alien("foo")>>]>>, <<[Alien("foo") EXCEPT !.c = <<Alien("foo")>>], Alien("foo")>>}}
           ELSE {})
     \cup (IF e.k = "bool" THEN {Dev(up([e EXCEPT !.x = v]), "bool") : v \in {"True", "FALSE", "", "2", "yes", "tru e", "null"}} ELSE {})
     \cup (IF e.k = "wrap" THEN {Dev(up([e EXCEPT !.c = cs]), "wrapped") : cs \in {<<>>, e.c \o e.c, e.c \o <<Alien("foo")>>}} ELSE {})

Styles == <<"plain", "prefixed", "indented", "comments", "utf16", "cdata", "latin1", "refs", "declared">>
StyleOf(n) == Styles[1 + (n % Len(Styles))]
=============================================================================
