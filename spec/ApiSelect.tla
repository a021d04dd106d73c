------------------------------ MODULE ApiSelect -----------------------------
(* Which operations of a profile a filter selects                           *)
EXTENDS Api
F == INSTANCE Filter

Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz-"
Codes == [i \in 1..53 |-> IF i <= 26 THEN 64 + i ELSE IF i <= 52 THEN 70 + i ELSE 45]
Char(s, i) == SubSeq(s, i, i)
Code == [c \in {Char(Alphabet, i) : i \in 1..53} |-> Codes[CHOOSE i \in 1..53 : Char(Alphabet, i) = c]]
Cps(s) == [i \in 1..Len(s) |-> Code[Char(s, i)]]
AllOps == UNION {{Profiles[p].es[i].o : i \in DOMAIN Profiles[p].es} : p \in DOMAIN Profiles}
NameOf == [o \in AllOps |-> Cps(o)]
\* f: a filter as code points; has: is there a filter at all?
Chosen(has, f, o) == ~has \/ F!Selects(f, NameOf[o]) = "yes"
Unclear(f) == \E o \in AllOps : F!Selects(f, NameOf[o]) = "any"
Selected(has, f, p) == SelectSeq(Profiles[p].es, LAMBDA e : Chosen(has, f, e.o))
=============================================================================
