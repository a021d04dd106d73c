------------------------------- MODULE OpcScan ------------------------------
(* Packages are built, then scanned: from the root, relationships are       *)
(* followed in any order (in the quick tier: in one order for packages that *)
(* have root relationships), each part's relationships once.                *)
EXTENDS Opc

Tgt(abs, s) == [abs |-> abs, s |-> s]
Rel(y, p) == [k |-> "ok", y |-> y, p |-> p]
NoRels == [rs |-> "none", r |-> <<>>]
PartOf(n, x, c) == [n |-> n, x |-> x, c |-> c, rs |-> "none", r |-> <<>>]
WithRels(q, r) == [q EXCEPT !.rs = "ok", !.r = r]
Pkg(root, ps) == [ct |-> "ok", root |-> [rs |-> "ok", r |-> root], parts |-> ps]

nO == <<"aasx", "o">>
nJ == <<"d.json">>
nX == <<"aasx", "xml", "y.xml">>
nP == <<"aasx", "p">>
nU == <<"aasx", "z.txt">>
nMissing == <<"none", "q.json">>
To(n) == Tgt(TRUE, n)
\* The same target written relative to a directory
RECURSIVE Ups(_)
Ups(k) == IF k = 0 THEN <<>> ELSE <<"..">> \o Ups(k - 1)
RelTo(dir, n) == IF Len(dir) > 0 /\ Len(n) > 1 /\ dir[1] = n[1]
                 THEN Tgt(FALSE, Ups(Len(dir) - 1) \o Tail(n))
                 ELSE Tgt(FALSE, Ups(Len(dir)) \o n)

-----------------------------------------------------------------------------
(* Paths: every spelling of up to four tokens, from sources at three depths *)
Tokens == {"..", ".", "", "d", "e", "f.json"}
Spellings == {Tgt(a, s) : a \in BOOLEAN, s \in UNION {[1..k -> Tokens] : k \in 1..(IF Thorough THEN 5 ELSE 4)}}
PathParts == <<PartOf(<<"o">>, "other", "jok"), PartOf(<<"d", "o">>, "other", "jok"), PartOf(<<"d", "e", "o">>, "other", "jok"),
               PartOf(<<"f.json">>, "json", "jok"), PartOf(<<"d", "f.json">>, "json", "jbad"), PartOf(<<"d", "e", "f.json">>, "json", "garbage"),
               PartOf(<<"d", "d", "f.json">>, "json", "jok"), PartOf(<<"e", "f.json">>, "json", "jbad"), PartOf(<<"d", "e", "d">>, "other", "jok")>>
PathPkg(o, sp) == Pkg(<<Rel("origin", To(PathParts[o].n))>>, [PathParts EXCEPT ![o] = WithRels(@, <<Rel("spec", sp)>>)])
\* Not: spellings with an empty first token (absolute after all, or with two leading slashes, which denote a host)
Written(sp) == sp.s[1] # ""
Weight(sp) == Len(sp.s) + Cardinality({i \in DOMAIN sp.s : sp.s[i] = ".."}) * 3 + Cardinality({i \in DOMAIN sp.s : sp.s[i] = "d"}) * 5
                + Cardinality({i \in DOMAIN sp.s : sp.s[i] = "f.json"}) * 2 + (IF sp.abs THEN 1 ELSE 0)
PathPkgs == {PathPkg(o, sp) : o \in 1..3, sp \in {t \in Spellings : Written(t) /\ Weight(t) % Parts = Part}}

-----------------------------------------------------------------------------
(* Damage: of the administrative parts and of entries, at several places    *)
Damages == {"notxml", "badroot", "badns", "damaged", "encrypted", "empty", "encoding"}
EntryDamages == {"badtag", "badns", "notype", "notarget", "neither"}
Chain == Pkg(<<Rel("origin", To(nO))>>,
             <<WithRels(PartOf(nO, "other", "jok"), <<Rel("spec", To(nJ)), Rel("suppl", To(nP))>>), WithRels(PartOf(nJ, "json", "jok"), <<Rel("suppl", To(nU))>>),
               WithRels(PartOf(nX, "xml", "xbad"), <<Rel("suppl", To(nMissing))>>), WithRels(PartOf(nP, "other", "jok"), <<Rel("other", To(nO))>>),
               PartOf(nU, "other", "jok")>>)
\* Part 3 is not reachable: nothing about it matters
SetRs(g, s, d) == IF s = 0 THEN [g EXCEPT !.root.rs = d] ELSE [g EXCEPT !.parts[s].rs = d]
AddRel(g, s, e, front) ==
  LET q == IF s = 0 THEN g.root.r ELSE g.parts[s].r
      n == IF front THEN <<e>> \o q ELSE Append(q, e)
      h == SetRs(g, s, "ok")
  IN IF s = 0 THEN [h EXCEPT !.root.r = n] ELSE [h EXCEPT !.parts[s].r = n]
\* Names that differ from existing ones in case or by an affix (were they taken for the same: those parts are bad)
NearMiss == {To(<<"aasx", "xml", "Y.xml">>), To(<<"aasx", "xml", "y.XML">>), To(<<"AASX", "xml", "y.xml">>), To(<<"aasx", "xml", "y.xml.xml">>), To(<<"aasx", "xml", "y">>),
             To(<<"xml", "y.xml">>), To(<<"aasx", "xml">>), To(<<"y.xml">>), To(<<"xaasx", "xml", "y.xml">>), To(<<"aasx", "xml", "y.xm">>)}
BadEntry(k) == [k |-> k, y |-> "suppl", p |-> To(nMissing)]
Damaged1 == {[Chain EXCEPT !.ct = d] : d \in Damages \cup {"none"}}
            \cup {SetRs(Chain, s, d) : s \in 0..5, d \in Damages \cup {"none"}}
            \cup {AddRel(Chain, s, BadEntry(k), f) : s \in 0..5, k \in EntryDamages, f \in BOOLEAN}
            \cup {AddRel(Chain, s, Rel(y, To(nMissing)), f) : s \in 0..5, y \in {"origin", "spec", "suppl", "thumb", "dspec"}, f \in BOOLEAN}
            \cup {AddRel(Chain, s, Rel(y, p), f) : s \in 0..5, y \in {"spec", "suppl"}, p \in NearMiss, f \in BOOLEAN}
            \cup {AddRel(Chain, s, Rel(y, To(n)), f) : s \in 0..5, y \in {"origin", "spec", "dorigin", "dspec", "dsuppl", "other"},
                                                     n \in {<<"_rels", ".rels">>, nX, nO, nJ}, f \in BOOLEAN}
DamagePkgs == IF Thorough THEN Damaged1 \cup {AddRel(g, s, BadEntry("notype"), FALSE) : g \in Damaged1, s \in {0, 1, 4}}
                                        \cup {SetRs(g, s, d) : g \in Damaged1, s \in {1, 3, 4}, d \in Damages}
              ELSE Damaged1
\* Administrative parts as specifications are not claimed about
Claimed(g) == NoIndex(g) = {}

-----------------------------------------------------------------------------
(* Contents: extensions and contents of up to two specifications below up   *)
(* to two origins                                                           *)
Contents == {"jok", "jbad", "xok", "xbad", "garbage", "empty", "damaged"}
Files == {<<<<"s", "a.json">>, "json">>, <<<<"s", "a.xml">>, "xml">>, <<<<"s", "a.txt">>, "other">>, <<<<"s", "json">>, "other">>,
          <<<<"s", "a.xml.json">>, "json">>, <<<<"s", "a.json.xml">>, "xml">>, <<<<"s", "a.json.txt">>, "other">>, <<<<"x.xml", "b">>, "other">>, <<<<"a.xml">>, "xml">>}
\* Whether unknown extensions are read at all is left open
FilePkg(f, c, f2, c2, y, orig) ==
  LET s1 == Rel(y, To(f[1]))
      s2 == Rel("spec", To(<<"t">> \o f2[1]))
      o2 == <<"aasx", "o2">>
      base == <<PartOf(nO, "other", "jok"), PartOf(o2, "other", "jok"), PartOf(f[1], f[2], c), PartOf(<<"t">> \o f2[1], f2[2], c2)>>
  IN CASE orig = "both" -> Pkg(<<Rel("origin", To(nO))>>, [base EXCEPT ![1] = WithRels(@, <<s1, s2>>)])
       [] orig = "two" -> Pkg(<<Rel("origin", To(nO)), Rel("dorigin", To(o2))>>, [base EXCEPT ![1] = WithRels(@, <<s1>>), ![2] = WithRels(@, <<s2>>)])
       [] orig = "bare" -> Pkg(<<Rel("origin", To(o2)), Rel("origin", To(nO))>>, [base EXCEPT ![1] = WithRels(@, <<s1, s1>>)])
       [] orig = "zero" -> Pkg(<<Rel("suppl", To(nO)), Rel("spec", To(f[1]))>>, [base EXCEPT ![1] = WithRels(@, <<s1, s2>>)])
FilePkgs == {FilePkg(f, c, f2, c2, y, orig) : f \in Files, c \in Contents, f2 \in {<<<<"a.json">>, "json">>, <<<<"a.xml">>, "xml">>, <<<<"a">>, "other">>},
                                              c2 \in {"jok", "jbad", "xbad"}, y \in {"spec", "dspec"}, orig \in {"both", "two", "bare", "zero"}}
Readable(g) == \A i \in DOMAIN g.parts : g.parts[i].x = "other" => g.parts[i].c # "damaged"

-----------------------------------------------------------------------------
(* Graphs: relationships are added one by one                               *)
GraphParts == <<PartOf(nO, "other", "jok"), PartOf(nJ, "json", "jbad"), PartOf(nX, "xml", "xok"), PartOf(nP, "other", "jok")>>
GraphTypes == {"origin", "spec", "suppl", "dorigin", "dspec"}
GraphTargets == {nO, nJ, nX, nMissing}
Graph0 == Pkg(<<>>, GraphParts)
Graph1 == Pkg(<<Rel("origin", To(nO))>>, GraphParts)
Ways(g, s, n) == IF (s + Len(Rels(g, s))) % 2 = 0 THEN To(n) ELSE RelTo(Dir(g, s), n)

VARIABLES pkg, phase, left, visited, agenda
vars == <<pkg, phase, left, visited, agenda>>
First == {<<s, y, n>> : s \in 0..3, y \in GraphTypes, n \in GraphTargets}
HashOf(e) == e[1] + (CASE e[2] = "origin" -> 0 [] e[2] = "spec" -> 1 [] e[2] = "suppl" -> 2 [] e[2] = "dorigin" -> 3 [] OTHER -> 4)
               + (CASE e[3] = nO -> 0 [] e[3] = nJ -> 3 [] e[3] = nX -> 6 [] OTHER -> 5)
MyFirst == {e \in First : HashOf(e) % Parts = Part}
Mine(S) == IF Part = 0 THEN S ELSE {}
\* The larger families are dealt out by a simple weight
Heavy(g) == (IF g.ct = "ok" THEN 0 ELSE 1) + Len(g.root.r) + Len(g.parts[1].r) * 2 + Len(g.parts[2].r)
              + Cardinality({i \in DOMAIN g.parts : g.parts[i].c = "jok"}) * 3 + Cardinality({i \in DOMAIN g.parts : g.parts[i].c = "jbad"}) + Cardinality({i \in DOMAIN g.parts : g.parts[i].x = "other"})
Deal(S) == {g \in S : Claimed(g) /\ Readable(g) /\ Heavy(g) % Parts = Part}
Init == /\ visited = {} /\ agenda = {}
        /\ \/ phase = "scan0" /\ left = 0 /\ pkg \in PathPkgs
           \/ phase = "scan0" /\ left = 0 /\ pkg \in Deal(DamagePkgs)
           \/ phase = "scan0" /\ left = 0 /\ pkg \in Deal(FilePkgs)
           \/ /\ phase = "build"
              /\ \E e \in MyFirst, g \in {Graph0, Graph1} :
                    /\ pkg = AddRel(g, e[1], Rel(e[2], Ways(g, e[1], e[3])), FALSE)
                    /\ left = IF g = Graph0 THEN (IF Thorough THEN 2 ELSE 1) ELSE (IF Thorough THEN 3 ELSE 2)
Add == /\ phase = "build" /\ left > 0
       /\ \E e \in First :
            /\ left <= (IF Thorough THEN 2 ELSE 1) => e[2] \in {"origin", "spec", "dspec"}
            /\ (~Thorough /\ left = 1 /\ pkg.root.r # <<>>) => (e[1] \in {0, 1} /\ e[2] # "dspec")
            /\ pkg' = AddRel(pkg, e[1], Rel(e[2], Ways(pkg, e[1], e[3])), FALSE)
       /\ left' = left - 1
       /\ UNCHANGED <<phase, visited, agenda>>
\* From here on the package is read
Open == /\ phase \in {"build", "scan0"}
        /\ phase' = IF pkg.ct = "ok" THEN "scan" ELSE "done"
        /\ visited' = {0} /\ agenda' = Followed(pkg, {0})
        /\ left' = 0 /\ UNCHANGED pkg
Follow == /\ phase = "scan" /\ agenda # {}
          /\ \E e \in (IF Thorough \/ pkg.root.r = <<>> THEN agenda ELSE {CHOOSE e \in agenda : TRUE}) :
               LET t == At(pkg, Path(pkg, e[1], e[2]))
                   new == t # 0 /\ t \notin visited
               IN /\ visited' = visited \cup (IF new THEN {t} ELSE {})
                  /\ agenda' = (agenda \ {e}) \cup (IF new THEN Followed(pkg, {t}) ELSE {})
          /\ UNCHANGED <<pkg, phase, left>>
Finish == /\ phase = "scan" /\ agenda = {} /\ phase' = "done" /\ UNCHANGED <<pkg, left, visited, agenda>>
Next == Add \/ Open \/ Follow \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ Follow \/ Finish)

Scanning == phase = "scan"
\* The scan visits only what can be reached and, when done, all of it
Sound == Scanning => visited \subseteq Reached(pkg)
Complete == (phase = "done" /\ pkg.ct = "ok") => visited = Reached(pkg)
\* Each relationship is followed once: the number of steps left is bounded
Bounded == agenda \subseteq Followed(pkg, visited)
\* Whatever the graph, a scan ends
Terminates == <>(phase = "done")
\* Parts that are not visited do not matter
Blind(g, R) == [g EXCEPT !.parts = [i \in DOMAIN g.parts |-> IF i \in R THEN g.parts[i] ELSE [g.parts[i] EXCEPT !.r = <<>>, !.rs = "none", !.c = "garbage"]]]
Irrelevant == (phase = "done" /\ pkg.ct = "ok") => Verdict(Blind(pkg, visited), visited) = Verdict(pkg, visited)
EmitAll == phase = "done" => CSVWrite("%1$s", <<ToJson([g |-> pkg, v |-> Verdict(pkg, Reached(pkg))])>>, IOEnv.OUT)
=============================================================================
