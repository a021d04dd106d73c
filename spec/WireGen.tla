------------------------------- MODULE WireGen ------------------------------
(* Requests and identifiers with what has to be seen on the wire            *)
EXTENDS Wire

\* "/aas" "/a" "/shells" "/x/y" "/" ""
aas == <<47, 97, 97, 115>>
a == <<47, 97>>
shells == <<47, 115, 104, 101, 108, 108, 115>>
xy == <<47, 120, 47, 121>>
root == <<47>>
ref == <<47, 36, 114, 101, 102>>                      \* /$ref
Bases == {<<>>, <<47, 98>>, <<47, 98, 47, 99>>, aas}
Pres == {<<>>, <<<<>>>>, <<aas>>, <<shells \o xy>>, <<aas, xy>>, <<aas, aas>>, <<a, aas, xy>>}
PathsS == {<<>>, root, a, aas, aas \o <<115>>, xy, ref, shells \o ref}
Removes == {<<>>, aas, a, shells, aas \o aas, xy, <<97, 97, 115>>, aas \o root, shells \o xy \o ref, root, <<47, 65, 65, 83>>, <<47, 120>>}

\* Names and values of query parameters
name1 == <<108, 105, 109, 105, 116>>
name2 == <<99, 38, 117, 61>>          \* c&u=
Vals == {[k |-> "none", v |-> <<>>], [k |-> "bool", v |-> <<1>>], [k |-> "bool", v |-> <<0>>], [k |-> "int", v |-> <<48>>], [k |-> "int", v |-> <<49>>],
         [k |-> "int", v |-> <<45, 49>>], [k |-> "text", v |-> <<>>],
         [k |-> "text", v |-> <<97>>], [k |-> "text", v |-> <<97, 32, 98>>], [k |-> "text", v |-> <<43>>], [k |-> "text", v |-> <<37, 50, 48>>],
         [k |-> "text", v |-> <<38, 61, 63, 35>>], [k |-> "text", v |-> <<47, 46, 46, 47>>], [k |-> "text", v |-> <<233>>], [k |-> "text", v |-> <<20013, 128512>>],
         [k |-> "text", v |-> <<9, 10, 13>>], [k |-> "text", v |-> <<34, 60, 62, 92, 94, 96, 123, 124, 125>>], [k |-> "text", v |-> <<84, 114, 117, 101>>],
         [k |-> "text", v |-> <<78, 111, 110, 101>>], [k |-> "text", v |-> <<48>>], [k |-> "text", v |-> <<127, 1>>]}
Prm(n, x) == [n |-> n, k |-> x.k, v |-> x.v]
Params == {<<>>} \cup {<<Prm(name1, x)>> : x \in Vals} \cup {<<Prm(name1, x), Prm(name2, y)>> : x, y \in Vals}
          \cup {<<Prm(name2, x), Prm(<<97>>, y), Prm(name1, x)>> : x \in Vals, y \in {[k |-> "none", v |-> <<>>], [k |-> "text", v |-> <<122>>]}}
\* Header names h1, h2, content-type and values
h1 == <<88, 45, 65>>
h2 == <<120, 45, 98>>
ct == <<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>
H(n, v) == [n |-> n, v |-> v]
Adds == {<<>>, <<H(h1, <<49>>)>>, <<H(h1, <<49>>), H(h2, <<50, 58, 51>>)>>, <<H(ct, <<120, 47, 121>>), H(h1, <<>>)>>}
Owns == {<<>>, <<H(h1, <<57>>)>>, <<H(ct, <<97, 47, 98>>)>>, <<H(h2, <<56>>), H(ct, <<97, 47, 98>>)>>}

\* Characters whose UTF-8 forms have one to four bytes
Chars == {0, 65, 62, 63, 126, 127, 128, 255, 233, 2047, 2048, 20013, 65533, 65536, 128512, 1114111}
Texts == {<<>>} \cup {<<x>> : x \in Chars} \cup {<<x, y>> : x, y \in Chars} \cup {<<x, y, 65>> : x, y \in Chars} \cup {<<62, x, 63, y>> : x, y \in Chars}

VARIABLE q
Plain == [kind |-> "req", base |-> <<>>, remove |-> <<>>, pre |-> <<>>, path |-> a, params |-> <<>>, add |-> <<>>, own |-> <<>>, slash |-> FALSE]
Code(s) == Len(s) * 7 + (IF s = <<>> THEN 0 ELSE s[Len(s)])
Init == \/ \E b \in Bases, r \in Removes, p \in Pres, x \in PathsS, s \in BOOLEAN :
             /\ (Code(Cat(p)) + Code(x) + Code(r)) % Parts = Part
             /\ q = [Plain EXCEPT !.base = b, !.remove = r, !.pre = p, !.path = x, !.slash = s]
        \/ \E ps \in Params, r \in {<<>>, aas, a} :
             /\ Part = Len(ps) + (IF r = <<>> THEN 0 ELSE 3)
             /\ q = [Plain EXCEPT !.params = ps, !.pre = <<aas>>, !.path = xy, !.remove = r]
        \/ \E x \in Adds, y \in Owns, s \in BOOLEAN : Part = 6 % Parts /\ q = [Plain EXCEPT !.add = x, !.own = y, !.pre = <<aas>>, !.slash = s]
        \/ \E t \in Texts : Part = 7 % Parts /\ q = [Plain EXCEPT !.kind = "id", !.path = t]
Spec == Init /\ [][UNCHANGED q]_q

\* Laws of the specification itself
Inverse == q.kind = "id" => Dec(Utf8(q.path), 1) = q.path /\ Unpadded(Identifier(q.path))
                            /\ Len(Identifier(q.path)) = (Len(Utf8(q.path)) * 4 + 2) \div 3
OnlyWhole == q.kind = "req" => \E n \in {0, Len(q.remove)} : SubSeq(Whole(q), n + 1, Len(Whole(q))) = Removed(q)
EmitAll == CSVWrite("%1$s", <<ToJson(
   IF q.kind = "id" THEN [kind |-> "id", s |-> q.path, e |-> Identifier(q.path)]
   ELSE [kind |-> "req", q |-> q, path |-> Shown(Path(q)), pairs |-> Given(q.params), headers |-> Headers(q), open |-> Left(q)])>>, IOEnv.OUT)
=============================================================================
