--------------------------------- MODULE Opc --------------------------------
(* C08: AASX packages.  A package is a graph: parts, and relationships from *)
(* the package root or from parts to parts.                                 *)
(*                                                                          *)
(* package  [ct, root, parts]                                               *)
(*   ct     state of the content types part: "ok" or what is wrong with it  *)
(*   root   [rs, r]: state and entries of the root relationships            *)
(*   parts  sequence of [n, x, c, rs, r]: name (sequence of segments),      *)
(*          extension ("json", "xml", "other"), content, relationships      *)
(* rs is "ok", "none" (there is no such part) or what is wrong with it; an  *)
(* entry is [k, y, p]: k = "ok" or what is wrong with it, y = type, and     *)
(* p = [abs, s] the target as written (absolute?, tokens between slashes).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, Json, IOUtils

Num(s) == CHOOSE i \in 0..99 : ToString(i) = s
Part == Num(IOEnv.PART)
Parts == Num(IOEnv.PARTS)
Thorough == IOEnv.TIER = "thorough"

\* Deprecated types count as the current ones
Canon(y) == CASE y = "dorigin" -> "origin" [] y = "dspec" -> "spec" [] y = "dsuppl" -> "suppl" [] OTHER -> y
Deprecated(y) == Canon(y) # y

RECURSIVE Walk(_, _)
Walk(at, s) == IF s = <<>> THEN at
               ELSE Walk(CASE s[1] \in {"", "."} -> at
                           [] s[1] = ".." -> (IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1))
                           [] OTHER -> Append(at, s[1]), Tail(s))
\* The part a target denotes, seen from a directory
Resolve(dir, p) == Walk(IF p.abs THEN <<>> ELSE dir, p.s)

DirOf(n) == SubSeq(n, 1, Len(n) - 1)
\* Sources of relationships: 0 is the package itself
Sources(g) == 0..Len(g.parts)
Rs(g, s) == IF s = 0 THEN g.root.rs ELSE g.parts[s].rs
Rels(g, s) == IF Rs(g, s) # "ok" THEN <<>> ELSE IF s = 0 THEN g.root.r ELSE g.parts[s].r
Dir(g, s) == IF s = 0 THEN <<>> ELSE DirOf(g.parts[s].n)
Good(g, s) == {i \in DOMAIN Rels(g, s) : Rels(g, s)[i].k = "ok"}
Path(g, s, i) == Resolve(Dir(g, s), Rels(g, s)[i].p)
\* Index of the part of that name, 0 if there is none
At(g, n) == IF \E i \in DOMAIN g.parts : g.parts[i].n = n THEN CHOOSE i \in DOMAIN g.parts : g.parts[i].n = n ELSE 0
\* The administrative parts exist as well
RelsName(n) == IF n = <<>> THEN <<"_rels", ".rels">> ELSE DirOf(n) \o <<"_rels", n[Len(n)] \o ".rels">>
Exists(g, n) == \/ At(g, n) # 0
                \/ n = <<"[Content_Types].xml">>
                \/ \E s \in Sources(g) : Rs(g, s) # "none" /\ n = RelsName(IF s = 0 THEN <<>> ELSE g.parts[s].n)

\* The sources that can be reached from some
Next1(g, S) == UNION {{At(g, Path(g, s, i)) : i \in Good(g, s)} : s \in S} \ {0}
RECURSIVE Reach(_, _)
Reach(g, S) == LET N == Next1(g, S) IN IF N \subseteq S THEN S ELSE Reach(g, S \cup N)
Reached(g) == Reach(g, {0})

\* What is wrong with the package, given the reachable sources
BadEntries(g, R) == UNION {{<<s, i>> : i \in DOMAIN Rels(g, s) \ Good(g, s)} : s \in R}
BadParts(g, R) == {s \in R : Rs(g, s) # "ok" /\ (s = 0 \/ Rs(g, s) # "none")}
Followed(g, R) == UNION {{<<s, i>> : i \in Good(g, s)} : s \in R}
Missing(g, R) == {Path(g, e[1], e[2]) : e \in {f \in Followed(g, R) : ~Exists(g, Path(g, f[1], f[2]))}}
Errors(g, R) == IF g.ct # "ok" THEN 1 ELSE Cardinality(BadEntries(g, R)) + Cardinality(BadParts(g, R)) + Cardinality(Missing(g, R))

\* Specifications: relationships of type spec from the targets of root relationships of type origin
Typed(g, s, y) == {i \in Good(g, s) : Canon(Rels(g, s)[i].y) = y}
OriginRels(g) == Typed(g, 0, "origin")
OriginOf(g, i) == At(g, Path(g, 0, i))
SpecRels(g, o) == IF o = 0 THEN {} ELSE Typed(g, o, "spec")
SpecOf(g, o, j) == At(g, Path(g, o, j))
Specs(g) == UNION {{SpecOf(g, OriginOf(g, i), j) : j \in SpecRels(g, OriginOf(g, i))} : i \in OriginRels(g)} \ {0}
SpecOccs(g) == UNION {{<<i, j>> : j \in SpecRels(g, OriginOf(g, i))} : i \in OriginRels(g)}
IsBad(q) == CASE q.x = "json" -> q.c # "jok" [] q.x = "xml" -> q.c # "xok" [] OTHER -> FALSE
BadSpecs(g) == {s \in Specs(g) : IsBad(g.parts[s])}

Bare(g) == {i \in OriginRels(g) : SpecRels(g, OriginOf(g, i)) = {}}
Count1(g) == IF Cardinality(OriginRels(g)) = 1 THEN 0 ELSE 1
\* An administrative part as specification (it has no index) has an unknown extension unless it is a .xml
NoIndex(g) == {e \in SpecOccs(g) : SpecOf(g, OriginOf(g, e[1]), e[2]) = 0}
Strange(g) == {e \in SpecOccs(g) : LET s == SpecOf(g, OriginOf(g, e[1]), e[2]) IN s # 0 /\ g.parts[s].x = "other"}
DeprecatedRels(g, R) == {e \in Followed(g, R) : Deprecated(Rels(g, e[1])[e[2]].y)}
\* Number of warnings, at least and at most (a part that is referred to repeatedly may be warned about once or each time)
WarnMax(g, R) == Cardinality(DeprecatedRels(g, R)) + Count1(g) + Cardinality(Bare(g)) + Cardinality(Strange(g))
WarnMin(g, R) == Cardinality(DeprecatedRels(g, R)) + Count1(g) + Cardinality({OriginOf(g, i) : i \in Bare(g)})
                   + Cardinality({SpecOf(g, OriginOf(g, e[1]), e[2]) : e \in Strange(g)})

Verdict(g, R) ==
  LET n == Errors(g, R)
  IN [errors |-> n,
      bad |-> IF n = 0 THEN BadSpecs(g) ELSE {},
      wmin |-> IF n = 0 THEN WarnMin(g, R) ELSE 0,
      wmax |-> IF n = 0 THEN WarnMax(g, R) ELSE 0,
      open |-> NoIndex(g) # {},
      level |-> IF n > 0 \/ BadSpecs(g) # {} THEN 2 ELSE IF WarnMin(g, R) > 0 THEN 1 ELSE 0]
=============================================================================
