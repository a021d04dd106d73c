--------------------------------- MODULE Cli --------------------------------
(* C15: the command line.  A command line is chosen, then worked off: find  *)
(* the command, read the options, find the suite, make the check, print,    *)
(* exit.                                                                    *)
EXTENDS Api

None == "-"
Many == {"j253", "j254", "j255", "j256", "j512"}
\* ---- check_file: what is in the file, and what the check of it says
Contents == {"jok", "jerr", "jsub", "jsuberr", "xok", "xerr", "xsub", "aok", "aerr", "awarn", "garbage", "empty", "missing",
             "jodd", "jwarn", "xodd", "aodd"} \cup Many
\* Documents with that many errors (an exit status has eight bits)
Formats == {None, "aasx", "json", "xml", "yaml", "JSON"}
\* Encodings of standard output (None: UTF-8).  Findings quote the input, so that they may contain characters which can not be printed as such
\* (lone surrogates in any encoding); the exit status does not depend on it, and all other characters are printed.
Encodings == {None, "ascii", "latin-1", "cp1252", "utf-16"}
Models == {None, "Environment", "Submodel", "NoSuchClass"}
Strangers == {"submodel", "bmodel", "Submodels", "", "Element", "Environmen", "nvironment", "Shell", "Submodel'>", ".Submodel", "*", "Submodel "}
Outputs == {None, "text", "json", "html", "pdf", "TEXT"}
KnownFormat(f) == f \in {None, "aasx", "json", "xml"}
KnownOutput(o) == o \in {None, "text", "json", "html"}
Format(f) == IF f = None THEN "aasx" ELSE f
Model(m) == IF m = None THEN "Environment" ELSE m
Output(o) == IF o = None THEN "text" ELSE o
OkFor(f, m) == CASE f = "json" -> (IF m = "Environment" THEN {"jok", "jwarn"} ELSE {"jsub"})
                 [] f = "xml" -> (IF m = "Environment" THEN {"xok"} ELSE {"xsub"})
                 [] f = "aasx" -> {"aok", "awarn", "aodd"}

\* ---- check_server
Suites == {Profiles[p].n : p \in DOMAIN Profiles} \cup
          {"", "SSP", "SubmodelRepository", "SubmodelService", "ShellService", "ShellRepository", "AssetAdministrationShellServiceSpecification", "submodelrepository",
           "Shell", "Submodel", "https://admin-shell.io/aas/API/3/0/Submodel", "NoSuch", "RepositoryService", "/SubmodelS", "*"}
Occurs(x, s) == \E i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x
FullName(p) == "https://admin-shell.io/aas/API/3/0/" \o Profiles[p].n
Meant(x) == {p \in DOMAIN Profiles : Occurs(x, FullName(p))}
Versions == {None, "3.0", "3.1", "3"}
KnownVersion(v) == v \in {None, "3.0"}
Moods == {"good", "s500", "drop"}
Filters == {None, "GetDescription", "NoSuch*", "a~b~c"}
HeaderSets == {None, "one", "two", "colons", "blanks", "broken"}
Removes == {None, "/description"}

VARIABLES cl, pc, code, printed, checked, sends
vars == <<cl, pc, code, printed, checked, sends>>
FileLine == [cmd |-> "check_file", c |-> "jok", f |-> None, m |-> None, o |-> None, s |-> "", v |-> None, mood |-> "good", flt |-> None, dry |-> FALSE, h |-> None,
             rm |-> None, nv |-> FALSE, extra |-> FALSE, enc |-> None, w |-> 0]
ServerLine == [FileLine EXCEPT !.cmd = "check_server", !.s = "SubmodelService", !.flt = "GetDescription"]
\* (w: options after or before the other arguments, or as one word)
FileLines == {[FileLine EXCEPT !.c = c, !.f = f, !.m = m, !.o = o, !.w = w] : c \in {"jok", "jsub", "jerr", "xsub", "aok"}, f \in {"aasx", "json", "xml"}, m \in {None, "Submodel"}, o \in {None, "json"},
                                                                   w \in 1..2} \cup
             {[FileLine EXCEPT !.c = c, !.f = f, !.m = m, !.o = o] : c \in Contents, f \in Formats, m \in Models, o \in {None, "text", "json", "html"}}
             \cup {[FileLine EXCEPT !.c = c, !.f = f, !.m = m, !.o = o] : c \in {"jok", "jsub", "xsub"}, f \in {"json", "xml"}, m \in Strangers, o \in {None, "json"}}
             \cup {[FileLine EXCEPT !.c = c, !.f = "json", !.o = o, !.extra = x] : c \in {"jok", "jerr"}, o \in Outputs, x \in BOOLEAN}
             \cup {[FileLine EXCEPT !.c = c, !.f = f, !.o = o, !.enc = e] : c \in {"jodd", "jwarn", "xodd", "aodd", "jok", "jerr", "awarn"}, f \in {"json", "xml", "aasx"},
                    o \in {None, "text", "json", "html"}, e \in Encodings}
ServerLines == {[ServerLine EXCEPT !.dry = d, !.nv = n, !.h = h, !.rm = r, !.o = o, !.w = w] : d \in BOOLEAN, n \in BOOLEAN, h \in {None, "two"}, r \in Removes, o \in {None, "json"}, w \in 1..2} \cup
               {[ServerLine EXCEPT !.s = s, !.v = v, !.dry = d] : s \in Suites, v \in Versions, d \in BOOLEAN}
               \cup {[ServerLine EXCEPT !.mood = m, !.flt = f, !.dry = d, !.o = o] : m \in Moods, f \in Filters, d \in BOOLEAN, o \in Outputs}
               \cup {[ServerLine EXCEPT !.h = h, !.rm = r, !.nv = n, !.mood = m, !.o = o] : h \in HeaderSets, r \in Removes, n \in BOOLEAN, m \in {"good", "s500"}, o \in {None, "json", "html"}}
OtherLines == {[FileLine EXCEPT !.cmd = c] : c \in {None, "", "check", "check_file ", "check_server\t", "help", "__init__", "file", "CHECK_FILE", "check_files", "check-file", "--help-me"}}
\* (spread over the parts by the sizes of its texts)
Size(l) == Len(l.c) + Len(l.f) * 3 + Len(l.m) * 5 + Len(l.o) * 7 + Len(l.s) + Len(l.flt) + Len(l.h) + Len(l.enc) * 11 + l.w * 13 + (IF l.dry THEN 1 ELSE 0) + (IF l.nv THEN 2 ELSE 0)
Init == /\ cl \in FileLines \cup ServerLines \cup OtherLines
        /\ Size(cl) % Parts = Part /\ pc = "command" /\ code = 0 /\ printed = None /\ checked = FALSE /\ sends = FALSE
Exit(n) == pc' = "exit" /\ code' = n /\ UNCHANGED <<cl, printed, checked, sends>>
Go(p) == pc' = p /\ UNCHANGED <<cl, code, printed, checked, sends>>
Command == pc = "command" /\ IF cl.cmd \in {"check_file", "check_server"} THEN Go("options") ELSE Exit(1)
Options == /\ pc = "options"
           /\ IF ~KnownOutput(cl.o) \/ cl.extra THEN Exit(1)
              ELSE IF cl.cmd = "check_file" THEN
                 (IF ~KnownFormat(cl.f) \/ cl.c = "missing" THEN Exit(1)
                  ELSE IF Format(cl.f) = "aasx" /\ Model(cl.m) # "Environment" THEN Exit(1)
                  ELSE IF Model(cl.m) \in Strangers \cup {"NoSuchClass"} THEN Exit(1) ELSE Go("check"))
              ELSE IF cl.flt = "a~b~c" \/ cl.h = "broken" \/ ~KnownVersion(cl.v) THEN Exit(1) ELSE Go("suite")
Suite == pc = "suite" /\ IF Cardinality(Meant(cl.s)) = 1 THEN Go("check") ELSE Exit(1)
Fine == IF cl.cmd = "check_file" THEN cl.c \in OkFor(Format(cl.f), Model(cl.m))
        ELSE cl.dry \/ cl.mood = "good" \/ (cl.mood = "s500" /\ cl.flt = "NoSuch*")
Check == /\ pc = "check" /\ pc' = "print" /\ checked' = TRUE /\ code' = (IF Fine THEN 0 ELSE 1)
         /\ sends' = (cl.cmd = "check_server" /\ ~cl.dry)
         /\ UNCHANGED <<cl, printed>>
Show == pc = "print" /\ pc' = "exit" /\ printed' = Output(cl.o) /\ UNCHANGED <<cl, code, checked, sends>>
Next == Command \/ Options \/ Suite \/ Check \/ Show
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Success == pc = "exit" /\ code = 0 => checked /\ Fine /\ printed # None
Failure == pc = "exit" /\ checked /\ ~Fine => code # 0 /\ printed # None
SilentBefore == ~checked => printed = None /\ ~sends
Ends == <>(pc = "exit")
\* Whether these mistakes are reported by a message or by an exception is left open
Abrupt == cl.flt = "a~b~c" \/ (cl.cmd = "check_file" /\ Format(cl.f) = "aasx" /\ Model(cl.m) # "Environment") \/ Model(cl.m) \in Strangers \cup {"NoSuchClass"}
EmitAll == pc = "exit" =>
  CSVWrite("%1$s", <<ToJson([cl |-> cl, zero |-> code = 0, checked |-> checked, printed |-> printed, sends |-> sends, abrupt |-> Abrupt,
                             suite |-> IF cl.cmd = "check_server" /\ checked THEN FullName(CHOOSE p \in Meant(cl.s) : TRUE) ELSE ""])>>, IOEnv.OUT)
=============================================================================
