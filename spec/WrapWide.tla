------------------------------ MODULE WrapWide ------------------------------
(* C10, C22: long lists with many findings, and towers of one container.    *)
EXTENDS Wrap

\* --- wide: n objects of class c in attribute a of h, the bad ones at the positions of the set at
Lens == {10, 11, 40, 120} \cup (IF Thorough THEN {99, 100, 101, 300, 1010} ELSE {})
Where(n) == {{1}, {n}, {n - 1}, {1, n}, 1..n, {i \in 1..n : i % 2 = 0}, {i \in 1..n : i % 7 = 3}, RandomSubset(3, 1..n)}
WideDoc(h, a, x, n, at) == Holding(h, a, x[1], [i \in 1..n |-> IF i \in at THEN x[2] ELSE x[3]])
WideExp(a, x, at) == UNION {Moved(Findings(x[1], x[2]).f, Idx("/" \o a, i)) : i \in at}
ListHosts(c) == {p \in Hosts(c) : Attrs[p[1]][p[2]].ty.k = "list"}

\* --- tall: n containers of a kind around the fragment
TallHosts == {<<"SubmodelElementCollection", "value">>, <<"SubmodelElementList", "value">>, <<"Entity", "statements">>, <<"Operation", "inputVariables">>}
RECURSIVE Tall(_, _, _, _)
\* <<class, document, location>>
Tall(p, c, d, n) ==
  IF n = 0 THEN <<c, d, "">>
  ELSE LET b == Tall(p, c, d, n - 1)
       IN IF p[1] = "Operation"
          THEN <<"Operation", With(MinOf["Operation"], "inputVariables", A(<<O([value |-> Given(b[2], "v")])>>)), "/inputVariables/0/value" \o b[3]>>
          ELSE <<p[1], Holding(p[1], p[2], b[1], <<b[2]>>), "/" \o p[2] \o "/0" \o b[3]>>
Heights == {5, 12, 30, 60}

ElemFrags == {x \in ConFrags : x[1] \in Elements}
StructFrags == {Edited(c, 1, e) : c \in {"Property", "Capability", "File", "Entity", "SubmodelElementList", "Operation"}, e \in {SetE(<<"foo">>, S("x")), SetE(<<"semanticId">>, N("1"))}}

\* --- many warnings and an error among them
Warned == With(MinOf["EmbeddedDataSpecification"], "dataSpecification", ExtRef("x"))
Wrong == With(MinOf["EmbeddedDataSpecification"], "dataSpecificationContent", With(Iec, "dataType", S("REAL_MEASURE")))
MixDoc(p, n, k) == Holding(p[1], p[2], "EmbeddedDataSpecification", [i \in 1..n |-> IF i = k THEN Wrong ELSE Warned])
MixExp(p, n, k) == UNION {Moved(Findings("EmbeddedDataSpecification", IF i = k THEN Wrong ELSE Warned).f, Idx("/" \o p[2], i)) : i \in 1..n}

WInit == walk = 0 /\ (
  \/ \E p \in ListHosts("EmbeddedDataSpecification") : \E n \in {11, 45, 120} : \E k \in {1, n \div 2, n} :
       /\ Ours(n + k + Len(p[1])) /\ cls = p[1] /\ bad = MixDoc(p, n, k) /\ good = Z /\ exp = MixExp(p, n, k) /\ ph = "constraints" /\ depth = 1 /\ num = Cardinality(exp)
  \/ \E x \in ConFrags \cup StructFrags : \E p \in {RandomElement(ListHosts(x[1])) : i \in {j \in {1, 2} : ListHosts(x[1]) # {}}} : \E n \in {RandomElement(Lens)} : \E at \in Where(n) :
       /\ Ours(n + Cardinality(at) + Len(x[1]) + Len(p[1])) /\ Clean(p[1], WideDoc(p[1], p[2], x, n, {}))
       /\ cls = p[1] /\ bad = WideDoc(p[1], p[2], x, n, at) /\ good = Z /\ exp = WideExp(p[2], x, at) /\ ph = Findings(x[1], x[2]).phase /\ depth = 1
       /\ num = Cardinality(at) * Cardinality(Findings(x[1], x[2]).f)
  \/ \E x \in ElemFrags \cup StructFrags : \E p \in TallHosts : \E n \in Heights :
       LET t == Tall(p, x[1], x[2], n)
           f == Findings(x[1], x[2])
       IN /\ Ours(n + Len(x[1]) + Len(p[1])) /\ Clean(p[1], Tall(p, x[1], x[3], n)[2])
          /\ cls = p[1] /\ bad = t[2] /\ good = Z /\ exp = Moved(f.f, t[3]) /\ ph = f.phase /\ depth = n /\ num = Cardinality(f.f))
WSpec == WInit /\ [][FALSE]_vars
=============================================================================
