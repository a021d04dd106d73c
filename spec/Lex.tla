-------------------------------- MODULE Lex --------------------------------
(* Strings and lexical spaces.                                              *)
(*                                                                          *)
(* A string of a document is written as a TLA+ string of printable ASCII    *)
(* characters with escapes: {n} is the character with code point n and      *)
(* {n*k} a run of k such characters (so that non-ASCII characters and very  *)
(* long strings can be written, and lengths are counted in characters).     *)
(* Cps(s) is the sequence of code points such a string denotes.             *)
(*                                                                          *)
(* Lexical spaces are given as regular expressions (records), matched by    *)
(* position sets, plus arithmetic on digit sequences where a value range or *)
(* the calendar matters.  Membership is "yes", "no" or "any"; "any" marks   *)
(* strings on which the standards or their versions differ and about which  *)
(* nothing is claimed.                                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

Ch(s, i) == SubSeq(s, i, i)

Code == [c \in {Ch(ASCII, i) : i \in 1..Len(ASCII)} |-> 31 + (CHOOSE i \in 1..Len(ASCII) : Ch(ASCII, i) = c)]

HasEsc(s) == \E i \in 1..Len(s) : Ch(s, i) = "{"

RECURSIVE NumAt(_, _, _)
NumAt(s, i, acc) == IF Code[Ch(s, i)] \in 48..57 THEN NumAt(s, i + 1, acc * 10 + Code[Ch(s, i)] - 48) ELSE <<acc, i>>

\* Runs <<code point, count>> of s from position i on
RECURSIVE RunsFrom(_, _)
RunsFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF Ch(s, i) = "{"
       THEN LET a == NumAt(s, i + 1, 0)
            IN IF Ch(s, a[2]) = "}" THEN <<<<a[1], 1>>>> \o RunsFrom(s, a[2] + 1)
               ELSE LET b == NumAt(s, a[2] + 1, 0) IN <<<<a[1], b[1]>>>> \o RunsFrom(s, b[2] + 1)
       ELSE <<<<Code[Ch(s, i)], 1>>>> \o RunsFrom(s, i + 1)

RECURSIVE Expand(_, _)
Expand(r, i) == IF i > Len(r) THEN <<>> ELSE [j \in 1..r[i][2] |-> r[i][1]] \o Expand(r, i + 1)

RECURSIVE SumRuns(_, _)
SumRuns(r, i) == IF i > Len(r) THEN 0 ELSE r[i][2] + SumRuns(r, i + 1)

Cps(s) == <<>> \o (IF HasEsc(s) THEN Expand(RunsFrom(s, 1), 1) ELSE [i \in 1..Len(s) |-> Code[Ch(s, i)]])

StrLen(s) == IF HasEsc(s) THEN SumRuns(RunsFrom(s, 1), 1) ELSE Len(s)

\* Characters XML 1.0 can carry (AASd-130)
XmlChar(c) == c \in {9, 10, 13} \/ c \in 32..55295 \/ c \in 57344..65533 \/ c \in 65536..1114111
XmlString(s) == HasEsc(s) => LET r == RunsFrom(s, 1) IN \A i \in DOMAIN r : r[i][2] = 0 \/ XmlChar(r[i][1])

-----------------------------------------------------------------------------
(* Regular expressions *)

In(c, rs) == \E r \in rs : r[1] <= c /\ c <= r[2]

C(rs) == [k |-> "c", r |-> rs]
L(s) == [k |-> "l", w |-> Cps(s)]
Cat(xs) == [k |-> "cat", x |-> xs]
Alt(xs) == [k |-> "alt", x |-> xs]
Rep(x, lo, hi) == [k |-> "rep", x |-> x, lo |-> lo, hi |-> hi]     \* hi = -1: unbounded
Star(x) == Rep(x, 0, -1)
Plus(x) == Rep(x, 1, -1)
Opt(x) == Rep(x, 0, 1)
Eps == [k |-> "cat", x |-> <<>>]

Least(X) == CHOOSE i \in X : \A j \in X : i <= j
\* The first position from p on where a character outside rs stands (or the end)
RunEnd(rs, w, p) == Least({q \in p..Len(w) : ~In(w[q], rs)} \cup {Len(w) + 1})

RECURSIVE M(_, _, _)
RECURSIVE MCat(_, _, _, _)
RECURSIVE MTimes(_, _, _, _)
RECURSIVE MClose(_, _, _, _, _)
\* M(x, w, S): the positions reachable after x when started at one of S
M(x, w, S) ==
  IF S = {} THEN {}
  ELSE CASE x.k = "c" -> {p + 1 : p \in {q \in S : q <= Len(w) /\ In(w[q], x.r)}}
         [] x.k = "l" -> {p + Len(x.w) : p \in {q \in S : /\ q + Len(x.w) - 1 <= Len(w)
                                                           /\ \A i \in 1..Len(x.w) : w[q + i - 1] = x.w[i]}}
         [] x.k = "cat" -> MCat(x.x, 1, w, S)
         [] x.k = "alt" -> UNION {M(x.x[i], w, S) : i \in 1..Len(x.x)}
         [] x.k = "rep" /\ x.x.k = "c" /\ x.hi = -1 -> UNION {p..RunEnd(x.x.r, w, p) : p \in MTimes(x.x, x.lo, w, S)}
         [] x.k = "rep" /\ ~(x.x.k = "c" /\ x.hi = -1) ->
                           LET T == MTimes(x.x, x.lo, w, S)
                           IN MClose(x.x, w, T, T, IF x.hi = -1 THEN -1 ELSE x.hi - x.lo)
MCat(xs, i, w, S) == IF i > Len(xs) THEN S ELSE MCat(xs, i + 1, w, M(xs[i], w, S))
MTimes(x, n, w, S) == IF n = 0 \/ S = {} THEN S ELSE MTimes(x, n - 1, w, M(x, w, S))
MClose(x, w, all, front, n) ==
  IF front = {} \/ n = 0 THEN all
  ELSE LET new == M(x, w, front) \ all IN MClose(x, w, all \cup new, new, IF n = -1 THEN -1 ELSE n - 1)

Matches(x, w) == (Len(w) + 1) \in M(x, w, {1})

-----------------------------------------------------------------------------
(* Character classes and common fragments *)

rDigit == {<<48, 57>>}
rAlpha == {<<65, 90>>, <<97, 122>>}
rAlnum == rDigit \cup rAlpha
rHex == {<<48, 57>>, <<65, 70>>, <<97, 102>>}
Digit == C(rDigit)
Alpha == C(rAlpha)
Alnum == C(rAlnum)
Hex == C(rHex)
One(s) == LET w == Cps(s) IN {<<w[i], w[i]>> : i \in DOMAIN w}   \* set of single characters

Digits == Plus(Digit)
Sign == Opt(C(One("+-")))

-----------------------------------------------------------------------------
(* Numbers *)

reInteger == Cat(<<Sign, Digits>>)
reDecimal == Cat(<<Sign, Alt(<<Cat(<<Digits, Opt(Cat(<<L("."), Star(Digit)>>))>>), Cat(<<L("."), Digits>>)>>)>>)
reFloat == Cat(<<reDecimal, Opt(Cat(<<C(One("eE")), Sign, Digits>>))>>)

IsDigit(c) == c \in 48..57
DigitSeq(w) == LET ds == SelectSeq(w, IsDigit) IN <<>> \o [i \in DOMAIN ds |-> ds[i] - 48]

StripZeros(d) == SubSeq(d, Least({i \in DOMAIN d : d[i] # 0} \cup {Len(d) + 1}), Len(d))

\* -1, 0, 1 for digit sequences of the same kind (no leading zeros), compared as naturals
Lexi(a, b) == IF a = b THEN 0
              ELSE LET i == CHOOSE i \in 1..Len(a) : a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
                   IN IF a[i] < b[i] THEN -1 ELSE 1
CmpNat(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE Lexi(a, b)

\* A signed integer: [s |-> -1/0/1, d |-> digits]
IntOf(w) == LET d == StripZeros(DigitSeq(w)) IN [s |-> IF d = <<>> THEN 0 ELSE IF w[1] = 45 THEN -1 ELSE 1, d |-> d]
CmpInt(a, b) == IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1)
                ELSE IF a.s = 0 THEN 0 ELSE IF a.s = 1 THEN CmpNat(a.d, b.d) ELSE CmpNat(b.d, a.d)
I(s) == IntOf(Cps(s))

IntBounds ==
  [x \in {"byte", "short", "int", "long", "unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong"} |->
     CASE x = "byte" -> <<I("-128"), I("127")>>
       [] x = "short" -> <<I("-32768"), I("32767")>>
       [] x = "int" -> <<I("-2147483648"), I("2147483647")>>
       [] x = "long" -> <<I("-9223372036854775808"), I("9223372036854775807")>>
       [] x = "unsignedByte" -> <<I("0"), I("255")>>
       [] x = "unsignedShort" -> <<I("0"), I("65535")>>
       [] x = "unsignedInt" -> <<I("0"), I("4294967295")>>
       [] x = "unsignedLong" -> <<I("0"), I("18446744073709551615")>>]

YN(b) == IF b THEN "yes" ELSE "no"

IntegerKinds == {"byte", "short", "int", "long", "unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong",
                 "integer", "positiveInteger", "nonNegativeInteger", "negativeInteger", "nonPositiveInteger"}

LexInteger(x, w) ==
  IF ~Matches(reInteger, w) THEN "no"
  ELSE LET v == IntOf(w)
       IN YN(CASE x = "integer" -> TRUE
               [] x = "positiveInteger" -> v.s > 0
               [] x = "nonNegativeInteger" -> v.s >= 0
               [] x = "negativeInteger" -> v.s < 0
               [] x = "nonPositiveInteger" -> v.s <= 0
               [] OTHER -> CmpInt(IntBounds[x][1], v) <= 0 /\ CmpInt(v, IntBounds[x][2]) <= 0)

\* Largest finite values and the least values which round to infinity
FloatMax == <<3,4,0,2,8,2,3,4,6,6,3,8,5,2,8,8,5,9,8,1,1,7,0,4,1,8,3,4,8,4,5,1,6,9,2,5,4,4,0>>
FloatBound == <<3,4,0,2,8,2,3,5,6,7,7,9,7,3,3,6,6,1,6,3,7,5,3,9,3,9,5,4,5,8,1,4,2,5,6,8,4,4,8>>
DoubleMax == <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,7,0,8,1,4,5,2,7,4,2,3,7,3,1,7,0,4,3,5,6,7,9,8,0,7,0,5,6,7,5,2,5,8,4,4,9,9,6,5,9,8,9,1,7,4,7,6,8,0,3,1,5,7,2,6,0,7,8,0,0,2,8,5,3,8,7,6,0,5,8,9,5,5,8,6,3,2,7,6,6,8,7,8,1,7,1,5,4,0,4,5,8,9,5,3,5,1,4,3,8,2,4,6,4,2,3,4,3,2,1,3,2,6,8,8,9,4,6,4,1,8,2,7,6,8,4,6,7,5,4,6,7,0,3,5,3,7,5,1,6,9,8,6,0,4,9,9,1,0,5,7,6,5,5,1,2,8,2,0,7,6,2,4,5,4,9,0,0,9,0,3,8,9,3,2,8,9,4,4,0,7,5,8,6,8,5,0,8,4,5,5,1,3,3,9,4,2,3,0,4,5,8,3,2,3,6,9,0,3,2,2,2,9,4,8,1,6,5,8,0,8,5,5,9,3,3,2,1,2,3,3,4,8,2,7,4,7,9,7,8,2,6,2,0,4,1,4,4,7,2,3,1,6,8,7,3,8,1,7,7,1,8,0,9,1,9,2,9,9,8,8,1,2,5,0,4,0,4,0,2,6,1,8,4,1,2,4,8,5,8,3,6,8>>
DoubleBound == <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,8,0,7,9,3,7,2,8,9,7,1,4,0,5,3,0,3,4,1,5,0,7,9,9,3,4,1,3,2,7,1,0,0,3,7,8,2,6,9,3,6,1,7,3,7,7,8,9,8,0,4,4,4,9,6,8,2,9,2,7,6,4,7,5,0,9,4,6,6,4,9,0,1,7,9,7,7,5,8,7,2,0,7,0,9,6,3,3,0,2,8,6,4,1,6,6,9,2,8,8,7,9,1,0,9,4,6,5,5,5,5,4,7,8,5,1,9,4,0,4,0,2,6,3,0,6,5,7,4,8,8,6,7,1,5,0,5,8,2,0,6,8,1,9,0,8,9,0,2,0,0,0,7,0,8,3,8,3,6,7,6,2,7,3,8,5,4,8,4,5,8,1,7,7,1,1,5,3,1,7,6,4,4,7,5,7,3,0,2,7,0,0,6,9,8,5,5,5,7,1,3,6,6,9,5,9,6,2,2,8,4,2,9,1,4,8,1,9,8,6,0,8,3,4,9,3,6,4,7,5,2,9,2,7,1,9,0,7,4,1,6,8,4,4,4,3,6,5,5,1,0,7,0,4,3,4,2,7,1,1,5,5,9,6,9,9,5,0,8,0,9,3,0,4,2,8,8,0,1,7,7,9,0,4,1,7,4,4,9,7,7,9,2>>
Pos(w, cs) == LET P == {i \in DOMAIN w : w[i] \in cs} IN IF P = {} THEN Len(w) + 1 ELSE CHOOSE i \in P : \A j \in P : i <= j

RECURSIVE Nat10(_, _)
Nat10(d, acc) == IF d = <<>> THEN acc ELSE Nat10(Tail(d), acc * 10 + Head(d))

Pad(d, n) == [i \in 1..n |-> IF i <= Len(d) THEN d[i] ELSE 0]
\* Compare 0.d * 10^e (d without leading zero) with the natural number whose digits are m
CmpScaled(d, e, m) ==
  IF e # Len(m) THEN (IF e < Len(m) THEN -1 ELSE 1)
  ELSE LET n == IF Len(d) > Len(m) THEN Len(d) ELSE Len(m) IN Lexi(Pad(d, n), Pad(m, n))

LexFloat(w, max, bound) ==
  IF w = Cps("INF") \/ w = Cps("-INF") \/ w = Cps("NaN") THEN "yes"
  ELSE IF w = Cps("+INF") THEN "any"
  ELSE IF ~Matches(reFloat, w) THEN "no"
  ELSE LET pe == Pos(w, {69, 101})                        \* position of e/E
           mant == SubSeq(w, 1, pe - 1)
           ex == SubSeq(w, pe + 1, Len(w))
           pd == Pos(mant, {46})
           ip == DigitSeq(SubSeq(mant, 1, pd - 1))
           fp == DigitSeq(SubSeq(mant, pd + 1, Len(mant)))
           all == ip \o fp
           d == StripZeros(all)
           lead == Len(all) - Len(d)
           exd == StripZeros(DigitSeq(ex))
           exneg == Len(ex) > 0 /\ ex[1] = 45
       IN IF d = <<>> THEN "yes"
          ELSE IF Len(exd) > 6 THEN (IF exneg THEN "yes" ELSE "no")
          ELSE LET e == Len(ip) - lead + (IF exneg THEN -Nat10(exd, 0) ELSE Nat10(exd, 0))
               IN IF CmpScaled(d, e, max) <= 0 THEN "yes" ELSE IF CmpScaled(d, e, bound) < 0 THEN "any" ELSE "no"

-----------------------------------------------------------------------------
(* Dates and times *)

D2(lo, hi) == \* two digits denoting lo..hi
  Alt([i \in 1..(hi - lo + 1) |-> [k |-> "l", w |-> <<48 + ((lo + i - 1) \div 10), 48 + ((lo + i - 1) % 10)>>]])
Month == D2(1, 12)
Day == D2(1, 31)
Hour == D2(0, 23)
Sixty == Cat(<<C({<<48, 53>>}), Digit>>)
Tz == Alt(<<L("Z"), Cat(<<C(One("+-")), Alt(<<Cat(<<D2(0, 13), L(":"), Sixty>>), L("14:00")>>)>>)>>)
\* at least four digits, no leading zero if more than four
Year == Cat(<<Opt(L("-")), Alt(<<Rep(Digit, 4, 4), Cat(<<C({<<49, 57>>}), Rep(Digit, 4, -1)>>)>>)>>)
Frac == Opt(Cat(<<L("."), Digits>>))
TimeOfDay == Alt(<<Cat(<<Hour, L(":"), Sixty, L(":"), Sixty, Frac>>),
                   Cat(<<L("24:00:00"), Opt(Cat(<<L("."), Plus(L("0"))>>))>>)>>)
reDate == Cat(<<Year, L("-"), Month, L("-"), Day, Opt(Tz)>>)
reDateTime == Cat(<<Year, L("-"), Month, L("-"), Day, L("T"), TimeOfDay, Opt(Tz)>>)
reTime == Cat(<<TimeOfDay, Opt(Tz)>>)
reGYear == Cat(<<Year, Opt(Tz)>>)
reGYearMonth == Cat(<<Year, L("-"), Month, Opt(Tz)>>)
reGMonthDay == Cat(<<L("--"), Month, L("-"), Day, Opt(Tz)>>)
reGDay == Cat(<<L("---"), Day, Opt(Tz)>>)
reGMonth == Cat(<<L("--"), Month, Opt(Tz)>>)

YearDigits(w) == LET v == IF w[1] = 45 THEN Tail(w) ELSE w IN SubSeq(v, 1, Pos(v, {45}) - 1)
\* Year modulo 400 from its last four digits (10000 is a multiple of 400)
Mod400(ds) == LET n == Len(ds)
                  last == SubSeq(ds, IF n > 4 THEN n - 3 ELSE 1, n)
              IN Nat10([i \in DOMAIN last |-> last[i] - 48], 0) % 400
Leap(m) == (m % 4 = 0 /\ m % 100 # 0) \/ m = 0
MonthLen(mo) == CASE mo \in {4, 6, 9, 11} -> 30 [] mo = 2 -> 29 [] OTHER -> 31
Two(w, i) == (w[i] - 48) * 10 + w[i + 1] - 48

\* w matches reDate or reDateTime: is the day in the calendar?
Calendar(w) ==
  LET neg == w[1] = 45
      ys == YearDigits(w)
      off == (IF neg THEN 1 ELSE 0) + Len(ys) + 1
      mo == Two(w, off + 1)
      da == Two(w, off + 4)
  IN IF \A i \in DOMAIN ys : ys[i] = 48 THEN "no"                    \* there is no year 0
     ELSE IF da > MonthLen(mo) THEN "no"
     ELSE IF mo = 2 /\ da = 29 THEN YN(Leap(IF neg THEN (Mod400(ys) + 399) % 400 ELSE Mod400(ys)))  \* -0001 precedes 0001
     ELSE "yes"

YearZero(w) == LET v == IF w[1] = 45 THEN Tail(w) ELSE w IN SubSeq(v, 1, 4) = <<48, 48, 48, 48>>

NumU(u) == Cat(<<Digits, L(u)>>)
TimePart == Cat(<<L("T"), Alt(<<Cat(<<NumU("H"), Opt(NumU("M")), Opt(Cat(<<Digits, Frac, L("S")>>))>>),
                                 Cat(<<NumU("M"), Opt(Cat(<<Digits, Frac, L("S")>>))>>),
                                 Cat(<<Digits, Frac, L("S")>>)>>)>>)
DatePart == Alt(<<Cat(<<NumU("Y"), Opt(NumU("M")), Opt(NumU("D"))>>), Cat(<<NumU("M"), Opt(NumU("D"))>>), NumU("D")>>)
reDuration == Cat(<<Opt(L("-")), L("P"), Alt(<<Cat(<<DatePart, Opt(TimePart)>>), TimePart>>)>>)

-----------------------------------------------------------------------------
(* Binary *)

reHexBinary == Star(Cat(<<Hex, Hex>>))
rB64 == rAlnum \cup One("+/")
B64 == C(rB64)
Sp == Opt(L(" "))
B64S == Cat(<<B64, Sp>>)
reBase64 ==
  Alt(<<Eps,
        Cat(<<Star(Rep(B64S, 4, 4)),
              Alt(<<Cat(<<Rep(B64S, 3, 3), B64>>),
                    Cat(<<Rep(B64S, 2, 2), C(One("AEIMQUYcgkosw048")), Sp, L("=")>>),
                    Cat(<<B64S, C(One("AQgw")), Sp, L("="), Sp, L("=")>>)>>)>>)>>)

-----------------------------------------------------------------------------
(* IRI references (RFC 3987) *)

rUcs == {<<160, 55295>>, <<63744, 64975>>, <<65008, 65519>>}
        \cup {<<65536 * i, 65536 * i + 65533>> : i \in 1..13} \cup {<<921600, 983037>>}
rPrivate == {<<57344, 63743>>, <<983040, 1048573>>, <<1048576, 1114109>>}
rUnres == rAlnum \cup One("-._~")
rIUnres == rUnres \cup rUcs
rSub == One("!$&'()*+,;=")
Pct == Cat(<<L("%"), Hex, Hex>>)
H16 == Rep(Hex, 1, 4)
H16c == Cat(<<H16, L(":")>>)
DecOctet == Alt(<<Digit, Cat(<<C({<<49, 57>>}), Digit>>), Cat(<<L("1"), Digit, Digit>>),
                  Cat(<<L("2"), C({<<48, 52>>}), Digit>>), Cat(<<L("25"), C({<<48, 53>>})>>)>>)
IPv4 == Cat(<<DecOctet, L("."), DecOctet, L("."), DecOctet, L("."), DecOctet>>)
Ls32 == Alt(<<Cat(<<H16, L(":"), H16>>), IPv4>>)
\* at most n groups followed by a group, all optional
Pre(n) == Opt(Cat(<<Rep(H16c, 0, n), H16>>))
IPv6 == Alt(<<Cat(<<Rep(H16c, 6, 6), Ls32>>),
              Cat(<<L("::"), Rep(H16c, 5, 5), Ls32>>),
              Cat(<<Pre(0), L("::"), Rep(H16c, 4, 4), Ls32>>),
              Cat(<<Pre(1), L("::"), Rep(H16c, 3, 3), Ls32>>),
              Cat(<<Pre(2), L("::"), Rep(H16c, 2, 2), Ls32>>),
              Cat(<<Pre(3), L("::"), H16c, Ls32>>),
              Cat(<<Pre(4), L("::"), Ls32>>),
              Cat(<<Pre(5), L("::"), H16>>),
              Cat(<<Pre(6), L("::")>>)>>)
IPvF == Cat(<<C(One("vV")), Plus(Hex), L("."), Plus(C(rUnres \cup rSub \cup One(":")))>>)
IpLit == Cat(<<L("["), Alt(<<IPv6, IPvF>>), L("]")>>)
Auth == Cat(<<Opt(Cat(<<Star(Alt(<<C(rIUnres \cup rSub \cup One(":")), Pct>>)), L("@")>>)),
              Alt(<<IpLit, Star(Alt(<<C(rIUnres \cup rSub), Pct>>))>>),
              Opt(Cat(<<L(":"), Star(Digit)>>))>>)
rPchar == rIUnres \cup rSub \cup One(":@")
Pchar == Alt(<<C(rPchar), Pct>>)
Segs == Star(Cat(<<L("/"), Star(Pchar)>>))
PAbs == Cat(<<L("/"), Opt(Cat(<<Plus(Pchar), Segs>>))>>)
PRootless == Cat(<<Plus(Pchar), Segs>>)
PNoScheme == Cat(<<Plus(Alt(<<C(rIUnres \cup rSub \cup One("@")), Pct>>)), Segs>>)
Query == Opt(Cat(<<L("?"), Star(Alt(<<C(rPchar \cup rPrivate \cup One("/?")), Pct>>))>>))
Frag == Opt(Cat(<<L("#"), Star(Alt(<<C(rPchar \cup One("/?")), Pct>>))>>))
Scheme == Cat(<<Alpha, Star(C(rAlnum \cup One("+-.")))>>)
reIri == Cat(<<Scheme, L(":"), Alt(<<Cat(<<L("//"), Auth, Segs>>), PAbs, PRootless, Eps>>), Query, Frag>>)
reRel == Cat(<<Alt(<<Cat(<<L("//"), Auth, Segs>>), PAbs, PNoScheme, Eps>>), Query, Frag>>)
reAnyUri == Alt(<<reIri, reRel>>)
\* RFC 3987 forbids fewer prefix groups than the address needs, so "at most n" is what the grammar says.

-----------------------------------------------------------------------------
(* Language tags (RFC 5646) *)

Ext3 == Rep(Alpha, 3, 3)
reLangtag ==
  Cat(<<Alt(<<Cat(<<Rep(Alpha, 2, 3), Opt(Cat(<<L("-"), Ext3, Rep(Cat(<<L("-"), Ext3>>), 0, 2)>>))>>),
              Rep(Alpha, 4, 4), Rep(Alpha, 5, 8)>>),
        Opt(Cat(<<L("-"), Rep(Alpha, 4, 4)>>)),
        Opt(Cat(<<L("-"), Alt(<<Rep(Alpha, 2, 2), Rep(Digit, 3, 3)>>)>>)),
        Star(Cat(<<L("-"), Alt(<<Rep(Alnum, 5, 8), Cat(<<Digit, Rep(Alnum, 3, 3)>>)>>)>>)),
        Star(Cat(<<L("-"), C({<<48, 57>>, <<65, 87>>, <<89, 90>>, <<97, 119>>, <<121, 122>>}),
                   Plus(Cat(<<L("-"), Rep(Alnum, 2, 8)>>))>>)),
        Opt(Cat(<<L("-"), C(One("xX")), Plus(Cat(<<L("-"), Rep(Alnum, 1, 8)>>))>>))>>)
rePrivUse == Cat(<<C(One("xX")), Plus(Cat(<<L("-"), Rep(Alnum, 1, 8)>>))>>)
Irregular == {"en-GB-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux", "i-mingo",
              "i-navajo", "i-pwn", "i-tao", "i-tay", "i-tsu", "sgn-BE-FR", "sgn-BE-NL", "sgn-CH-DE"}
Regular == {"art-lojban", "cel-gaulish", "no-bok", "no-nyn", "zh-guoyu", "zh-hakka", "zh-min", "zh-min-nan", "zh-xiang"}
LowerCps(w) == [i \in DOMAIN w |-> IF w[i] \in 65..90 THEN w[i] + 32 ELSE w[i]]
Grandfathered == {LowerCps(Cps(s)) : s \in Irregular \cup Regular}

LexLanguage(w) ==
  IF Matches(reLangtag, w) \/ Matches(rePrivUse, w) THEN "yes"
  ELSE IF \E s \in Irregular \cup Regular : Cps(s) = w THEN "yes"
  ELSE IF LowerCps(w) \in Grandfathered THEN "any"
  ELSE "no"

\* Is w (a language tag) English?
English(w) == LET p == SubSeq(w, 1, 2)
              IN IF Len(w) < 2 THEN "no"
                 ELSE IF LowerCps(p) # Cps("en") \/ ~(Len(w) = 2 \/ w[3] = 45) THEN "no"
                 ELSE IF p \in {Cps("en"), Cps("EN")} THEN "yes" ELSE "any"

-----------------------------------------------------------------------------
(* Content types *)

Token == Plus(C(rAlnum \cup One("!#$%&'*+-.^_`|~")))
Ows == Star(C({<<9, 9>>, <<32, 32>>}))
Quoted == Cat(<<L("\""),
                Star(Alt(<<C({<<9, 9>>, <<32, 33>>, <<35, 91>>, <<93, 126>>, <<128, 255>>}),
                           Cat(<<L("\\"), C({<<9, 9>>, <<32, 126>>, <<128, 255>>})>>)>>)),
                L("\"")>>)
reContentType == Cat(<<Token, L("/"), Token, Star(Cat(<<Ows, L(";"), Ows, Token, L("="), Alt(<<Token, Quoted>>)>>))>>)

reVersion == Alt(<<L("0"), Cat(<<C({<<49, 57>>}), Star(Digit)>>)>>)
reIdShort == Cat(<<Alpha, Star(C(rAlnum \cup One("_")))>>)

-----------------------------------------------------------------------------
(* XML Schema types *)

XsKinds == IntegerKinds \cup {"anyURI", "base64Binary", "boolean", "date", "dateTime", "decimal", "double", "duration",
             "float", "gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth", "hexBinary", "string", "time"}

Lex1(x, w) ==
  CASE x \in IntegerKinds -> LexInteger(x, w)
    [] x = "string" -> "yes"
    [] x = "boolean" -> YN(\E s \in {"true", "false", "1", "0"} : Cps(s) = w)
    [] x = "decimal" -> YN(Matches(reDecimal, w))
    [] x = "float" -> LexFloat(w, FloatMax, FloatBound)
    [] x = "double" -> LexFloat(w, DoubleMax, DoubleBound)
    [] x = "date" -> IF Matches(reDate, w) THEN Calendar(w) ELSE "no"
    [] x = "dateTime" -> IF Matches(reDateTime, w) THEN Calendar(w) ELSE "no"
    [] x = "time" -> YN(Matches(reTime, w))
    [] x = "gYear" -> IF ~Matches(reGYear, w) THEN "no" ELSE IF YearZero(w) THEN "any" ELSE "yes"
    [] x = "gYearMonth" -> IF ~Matches(reGYearMonth, w) THEN "no" ELSE IF YearZero(w) THEN "any" ELSE "yes"
    [] x = "gMonth" -> YN(Matches(reGMonth, w))
    [] x = "gDay" -> YN(Matches(reGDay, w))
    [] x = "gMonthDay" -> YN(Matches(reGMonthDay, w) /\ Two(w, 6) <= MonthLen(Two(w, 3)))
    [] x = "duration" -> YN(Matches(reDuration, w))
    [] x = "hexBinary" -> YN(Matches(reHexBinary, w))
    [] x = "base64Binary" -> YN(Matches(reBase64, w))
    [] x = "anyURI" -> YN(Matches(reAnyUri, w))

IsWs(c) == c \in {9, 10, 13, 32}
\* Whitespace as XML Schema's "collapse" leaves it
RECURSIVE Collapse(_, _)
Collapse(w, i) == IF i > Len(w) THEN <<>>
                  ELSE IF ~IsWs(w[i]) THEN <<w[i]>> \o Collapse(w, i + 1)
                  ELSE IF i < Len(w) /\ IsWs(w[i + 1]) THEN Collapse(w, i + 1)
                  ELSE <<32>> \o Collapse(w, i + 1)
Trim(w) == LET a == IF Len(w) > 0 /\ w[1] = 32 THEN Tail(w) ELSE w
           IN IF Len(a) > 0 /\ a[Len(a)] = 32 THEN SubSeq(a, 1, Len(a) - 1) ELSE a

\* Is the string s in the lexical space of the XML Schema type x?
LexXs(x, s) ==
  LET w == Cps(s)
  IN IF x = "string" THEN "yes"
     ELSE IF \A i \in DOMAIN w : ~IsWs(w[i]) THEN Lex1(x, w)
     ELSE LET v == Trim(Collapse(w, 1))
          IN IF Lex1(x, v) = "no" THEN "no" ELSE IF v = w /\ x = "base64Binary" THEN "yes" ELSE "any"
=============================================================================
