------------------------------- MODULE Strings ------------------------------
(* C02: constrained strings in every attribute that has them.  A state is a *)
(* string in an attribute of a class, possibly placed in a host object;     *)
(* steps edit single characters or place the object.                        *)
EXTENDS Emit, Corpus

Kind(c, a) == IF c \in LangClasses THEN (IF a = "language" THEN "Language" ELSE c)
              ELSE IF a = "idShort" THEN "IdShort" ELSE Attrs[c][a].ty.c
Pairs == UNION {{<<c, a>> : a \in {x \in AttrNames[c] : Attrs[c][x].ty.k \in {"str", "text"}}} : c \in Classes}
Corp(k) == CASE k \in {"Version", "Revision"} -> "version" [] k = "Path" -> "anyURI" [] k = "ContentType" -> "contentType"
             [] k = "DateTime" -> "dateTime" [] k = "Duration" -> "duration" [] k = "IdShort" -> "idShort"
             [] k = "Language" -> "language" [] OTHER -> ""

Bounds(k) == IF k = "Language" THEN <<1, -1>> ELSE IF k \in LangClasses THEN <<1, LangMax[k]>>
             ELSE IF k = "IdShort" THEN StrBounds["NameType"] ELSE StrBounds[k]
\* Strings of length n which are fine apart from their length, of narrow, wide and astral characters
OfLength(k, n) ==
  IF n = 0 THEN {""}
  ELSE LET r(c, m) == "{" \o ToString(c) \o "*" \o ToString(m) \o "}"
       IN CASE k \in {"Version", "Revision"} -> {"1" \o r(48, n - 1)}
            [] k = "ContentType" -> IF n < 3 THEN {} ELSE {"a/" \o r(98, n - 2), "a/b;c=\"" \o r(233, n - 8) \o "\""}
            [] k = "IdShort" -> {r(97, n), "Z" \o r(95, n - 1)}
            [] k \in {"DateTime", "Duration", "Language"} -> {r(97, n)}
            [] OTHER -> {r(97, n), r(228, n), r(65536, n), r(32, n)}
Lengths(k) == LET b == Bounds(k)
              IN {0, 1, 2} \cup (IF b[2] = -1 THEN {3000} ELSE {b[2] - 1, b[2], b[2] + 1, 2 * b[2]})
GoodCps == {9, 10, 13, 32, 127, 133, 55295, 57344, 65533, 65536, 131071, 1114111}
BadCps == {0, 1, 8, 11, 12, 14, 31, 55296, 56320, 57343, 65534, 65535}
CharStrings == {"x1{" \o ToString(c) \o "}" : c \in GoodCps \cup BadCps} \cup {"{" \o ToString(c) \o "}x1" : c \in {0, 10, 31, 55296, 65534}}
               \cup {"{" \o ToString(c) \o "}" : c \in GoodCps \cup BadCps \cup {160, 173, 768, 8203, 8232, 8239, 12288, 65279}}
Seeds(k) == (UNION {OfLength(k, n) : n \in Lengths(k)}) \cup CharStrings \cup (IF Corp(k) = "" THEN {} ELSE FormSeeds(Corp(k)))
Probes(k) == LET b == Bounds(k) IN OfLength(k, IF b[2] = -1 THEN 1 ELSE b[2] + 1) \cup {"x1{1}", ""}

\* Each form is edited character by character in one class; the others get the seeds
Edited == {<<"AdministrativeInformation", "version">>, <<"AdministrativeInformation", "revision">>, <<"Resource", "path">>, <<"File", "value">>,
           <<"Blob", "contentType">>, <<"BasicEventElement", "lastUpdate">>, <<"BasicEventElement", "minInterval">>, <<"Property", "idShort">>,
           <<"Submodel", "idShort">>, <<"MultiLanguageTextType", "language">>, <<"ShortNameTypeIec61360", "language">>}

VARIABLES cls, attr, str, host, edits
vars == <<cls, attr, str, host, edits>>
Kd == Kind(cls, attr)
Base == IF cls = "AdministrativeInformation" THEN MaxOf[cls] ELSE MinOf[cls]
Obj == With(Base, attr, S(str))
HostBase(h) == MinOf[h]
Placed == IF host = <<>> THEN Obj ELSE Put(HostBase(host[1]), host[1], host[2], Obj)
Checked == IF host = <<>> THEN cls ELSE host[1]

Init == /\ \E pr \in Pairs : cls = pr[1] /\ attr = pr[2]
        /\ str \in Seeds(Kind(cls, attr)) \cup (IF <<cls, attr>> \in Edited THEN EditSeeds(Corp(Kind(cls, attr))) \cup Family(Corp(Kind(cls, attr))) ELSE {})
        /\ Ours(Len(cls) * 5 + Len(attr) * 3 + Len(str))
        /\ host = <<>> /\ edits = 0
EditChar == /\ host = <<>> /\ edits = 0 /\ <<cls, attr>> \in Edited /\ str \in EditSeeds(Corp(Kd))
            /\ edits' = 1 /\ str' \in CharEdits(Corp(Kd), str)
            /\ UNCHANGED <<cls, attr, host>>
Place == /\ host = <<>> /\ edits = 0 /\ str \in Probes(Kd)
         /\ host' \in Hosts(cls) /\ UNCHANGED <<cls, attr, str, edits>>
Next == EditChar \/ Place
Spec == Init /\ [][Next]_vars
EmitAll == EmitDoc(Checked, Placed)
=============================================================================
