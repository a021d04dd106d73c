------------------------------- MODULE Corpus -------------------------------
(* Strings from which explorations start, per lexical space, and the        *)
(* alphabet with which they are edited.                                     *)
EXTENDS Lex

IntSeeds == {"0", "-0", "+0", "1", "-1", "+1", "00", "007", "-007", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769",
  "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
  "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
  "18446744073709551615", "18446744073709551616", "00000000000000000000000000127", "-000000000000000000000000128", "-000000000000000000000000129",
  "{57*5000}", "-{57*5000}", "{48*5000}", "{48*4999}1", "1e3", "1.0", "1.", "0x10", "1_000", "1,000", "--1", "+-1", "- 1", "1-", "+", "-", "", "{1633}", "{65297}",
  "{178}", "1{160}", "{8722}1", "INF", "12a", "a", "1 2", " 1", "1 ", "1{10}", "{9}1", "1{11}", "{65279}1", "{8203}1", "0b1", "0o7", "1L", "NaN", "128{0}"}
DecSeeds == {"0.0", "1.5", "-1.5", "+1.5", ".5", "5.", "-.5", "+.5", "-5.", ".", "-.", "+", "", "1.5.", "1..5", "1.5.5", "1e5", "1.5E3", "INF", "NaN", "1,5", "{49*400}.{49*400}",
  "0{48*400}", "1.{1633}", "1_0.5", "1.5f", " 1.5 ", "1. 5", "-INF", "Infinity", "inf", "0.1{10}", "--1.0", "1.-5", "1e", "{65294}5"}
FloatSeeds == {"1e5", "1E5", "1e+5", "1e-5", "1.5e5", ".5e5", "5.e5", "-1.5E-3", "+1.5e+3", "INF", "-INF", "+INF", "NaN", "-NaN", "+NaN", "inf", "Inf", "-inf", "nan", "Infinity", "-Infinity", "infinity", "INFINITY",
  "1e", "e5", "1e5.5", "1e+", "1ee5", "1 e5", ".e5", ".", "", "0e0", "-0", "0x1p3", "1_0e5", "1e1_0", "1d5", "1.5f", "{1633}e5", "1e{1633}", "iNF", "NAN",
  "3.4028234663852886e38", "3.4028235e38", "3.4028234663852887e38", "340282346638528859811704183484516925440", "340282346638528859811704183484516925441", "340282356779733661637539395458142568447",
  "340282356779733661637539395458142568448", "3.5e38", "-3.5e38", "-3.4028234663852886e38", "1e38", "1e39", "-1e39", "0.00034e42", "0.00035e42", "34028234663852886{48*25}e-3",
  "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.8e308", "-1.7976931348623157e308", "-1.8e308", "1e308", "1e309", "-1e309", "1e400", "1e-400", "-1e-400", "1e99999999999", "1e-99999999999", "0e99999999999",
  "0.{48*400}1e401", "{49*309}", "{49*310}", "{49*39}", "{49*40}", "1e-46", "1e0000038", "1e0000039", "1e-0000039"}
BoolSeeds == {"true", "false", "1", "0", "True", "TRUE", "False", "yes", "no", "", " true", "true ", "true{10}", "t", "01", "10", "-1", "+1", "1.0", "{1633}", "truefalse", "null", "tru", "on", "00"}
DateSeeds == {"2024-01-31", "2024-02-29", "2023-02-29", "2023-02-28", "2000-02-29", "1900-02-29", "2100-02-29", "2400-02-29", "0004-02-29", "0001-01-01", "0000-01-01", "-0001-01-01", "-0004-02-29", "-0005-02-29", "-0001-02-29", "-0002-02-29", "-0101-02-29", "-0401-02-29", "-0100-02-29", "-0400-02-29", "-12345-02-29", "-10001-02-29", "-10000-02-29", "-10101-02-29", "-0004-02-28", "-0005-02-30", "12024-02-29",
  "12023-02-29", "10000-01-01", "02024-01-01", "999-01-01", "2024-04-31", "2024-06-31", "2024-09-31", "2024-11-31", "2024-04-30", "2024-13-01", "2024-00-01", "2024-01-00", "2024-01-32", "2024-1-1", "2024-01-01Z", "2024-01-01+01:00",
  "2024-01-01-14:00", "2024-01-01+14:00", "2024-01-01+14:01", "2024-01-01+15:00", "2024-01-01+13:59", "2024-01-01+13:60", "2024-01-01z", "2024-01-01+1:00", "2024-01-01+0100", "2024-01-01 ", "2024-01-01{10}", "2024-01-01T00:00:00", "+2024-01-01",
  "20240101", "2024/01/01", "24-01-01", "", "{1634}024-01-01", "{49*5000}-01-01", "-{49*5000}-12-31", "2024-02-30", "2024-01-01Z ", "2024-01-01ZZ", "1{48*20}-02-29", "1{48*20}1-02-29", "123456-02-29", "10100-02-29", "12000-02-29", "2024-08-31", "2024-07-31", "2024-12-31", "2024-10-31", "2024-05-31", "2024-03-31"}
DateTimeSeeds == {"2024-01-31T12:30:45", "2024-01-31T12:30:45Z", "2024-01-31T12:30:45.123Z", "2024-01-31T12:30:45.", "2024-01-31T24:00:00", "2024-01-31T24:00:00.000", "2024-01-31T24:00:01", "2024-01-31T24:01:00", "2024-01-31T24:00:00.001", "2024-01-31T25:00:00",
  "2024-01-31T23:60:00", "2024-01-31T23:59:60", "2024-01-31T23:59:59.999999999999", "2024-01-31 12:30:45", "2024-01-31t12:30:45", "2024-01-31T12:30", "2024-01-31T12:30:45+01:00", "2024-01-31T12:30:45-14:00", "2024-01-31T12:30:45+14:01", "2024-01-31T12:30:45+00:00",
  "2024-01-31T12:30:45z", "2024-02-30T12:30:45", "2023-02-29T12:30:45Z", "2024-02-29T12:30:45Z", "0000-01-01T00:00:00", "-0001-01-01T00:00:00", "12024-01-31T12:30:45", "2024-01-31", "T12:30:45", "", "2024-01-31T12:30:45 ", "2024-01-31T12:30:45Z{10}", "2024-01-31T1:30:45", "2024-01-31T12:3:45",
  "2024-01-31T12:30:4", "2024-01-31TT12:30:45", "2024-01-31T12:30:45,5", "2024-04-31T00:00:00Z", "2024-01-31T12:30:45+1:00", "{49*5000}-01-01T00:00:00", "2024-01-31T24:00:00Z", "2024-01-31T24:00:00.0+14:00", "2024-01-31T{1633}2:30:45", "1900-02-29T00:00:00Z"}
TimeSeeds == {"12:30:45", "12:30:45Z", "00:00:00", "23:59:59.999", "24:00:00", "24:00:00.00", "24:00:00.01", "24:00:01", "24:30:00", "25:00:00", "12:60:00", "12:30:60", "12:30", "1:30:45", "12:30:45.", "12:30:45+14:00", "12:30:45+14:30", "12:30:45-13:59", "12:30:45 Z", "T12:30:45", "", "12:30:45{10}", "12-30-45", "123045", "12:30:45z", "12:30:45+15:00", "{1633}2:30:45", "12:30:45.5-05:30", "12:30:45,5"}
GYearSeeds == {"2024", "-2024", "0001", "0000", "-0000", "12024", "02024", "999", "24", "+2024", "2024Z", "2024+01:00", "2024-14:00", "2024-14:01", "2024-15:00", "2024z", "", "202a", "2024 ", "2024{10}", "{49*3000}", "--2024", "{1634}024", "2024-01"}
GYearMonthSeeds == {"2024-01", "2024-12", "2024-13", "2024-00", "2024-1", "-2024-01", "12024-05", "02024-05", "0000-01", "2024-01Z", "2024-01+01:00", "2024-01-14:00", "2024-01-14:01", "2024/01", "202401", "", "2024-01-01", "2024-01{10}", "24-01", "+2024-01", "2024-{1633}1"}
GMonthSeeds == {"--01", "--12", "--13", "--00", "--1", "-01", "01", "---01", "--01Z", "--01+01:00", "--01-14:00", "--01+14:01", "--01--", "--01z", "", "--01{10}", "--{1633}1", "--0a"}
GDaySeeds == {"---01", "---31", "---32", "---00", "---1", "--01", "01", "----01", "---01Z", "---01+01:00", "---30-14:00", "---01+14:01", "---01z", "", "---01{10}", "---{1633}1", "---39", "---29"}
GMonthDaySeeds == {"--01-31", "--01-32", "--02-29", "--02-30", "--04-30", "--04-31", "--06-31", "--09-31", "--11-31", "--12-31", "--13-01", "--00-01", "--01-00", "--1-1", "-01-01", "01-01", "--01-01Z", "--01-01+01:00", "--01-01-14:00", "--01-01+14:01", "", "--02-29{10}", "--0101", "--02-28z", "--{1633}1-01", "--08-31", "--10-31", "--07-31", "--03-31", "--05-31"}
DurationSeeds == {"P1Y", "P1M", "P1D", "PT1H", "PT1M", "PT1S", "PT1.5S", "P1Y2M3DT4H5M6.7S", "-P1D", "+P1D", "P", "PT", "-P", "P1YT", "P1Y1D", "P1DT1S", "PT1H1S", "P1S", "PT1Y", "P1H", "PT1.S", "PT.5S", "P1.5Y", "PT1.5H", "P1M1Y", "P1D1M", "PT1S1M", "1Y", "p1y", "P1y", "P-1Y", "P 1Y", "", "P1YT1H1M1S1", "{80}1Y{10}", "P{49*3000}Y", "P1W", "PT0S", "P0Y", "P{1633}Y", "PT1,5S", "P1Y2M", "P2M3D", "PT5M6S", "P1YT5M", "P1Y2MT6S", "PP1Y", "--P1Y", "P1YP1M", "P1DT"}
HexSeeds == {"", "00", "0f", "0F", "aF09", "0", "000", "0g", "g0", "0x0f", "0f 0f", " 0f", "0f ", "0f{10}", "{1633}{1633}", "ABCDEF0123456789abcdef", "-0", "0f0", "{97*1000}", "{97*1001}", "{228}{228}", "GG"}
B64Seeds == {"", "TWFu", "TWE=", "TQ==", "TWFuTWFu", "TWFuTQ==", "TWFuTWE=", "TWF", "TW", "T", "TWFuT", "====", "=", "==", "T===", "TQ=", "TQ=a", "TR==", "TWF=", "TWE==", "TWFu=", "TQ==TWFu", "TW Fu", "T W F u", "TWFu TWFu", "TQ= =", "TWE =", "TW  Fu", " TWFu", "TWFu ", "TW-u", "TW_u", "+/+/", "TWFu{10}", "TW{10}Fu", "TWFu{10}TWFu", "TW.u", "AAAA", "AA==", "AAA=", "AB==", "AAB=", "A===", "{97*1000}", "{97*1001}", "{228}WFu", "TQ=", "TWF u", "T  WFu", "TWFu  ", "TWE= ", "=TWF"}
PlaneEdges == UNION {{p * 65536 - 3, p * 65536 - 2, p * 65536, p * 65536 + 4096} : p \in 1..16} \cup {1114109, 1114110, 57344, 63743, 63744, 64975, 64976, 65007, 65008, 65519, 65520, 160, 159, 55295, 921599}
RECURSIVE Groups(_)
Groups(k) == IF k = 0 THEN "" ELSE IF k = 1 THEN "a1" ELSE Groups(k - 1) \o ":" \o ToString(k)
Ip6 == {Groups(a) \o "::" \o Groups(b) : a \in 0..8, b \in 0..8} \cup {Groups(a) : a \in 1..9}
       \cup {Groups(a) \o "::" \o (IF b = 0 THEN "" ELSE Groups(b) \o ":") \o "1.2.3.4" : a \in 0..7, b \in 0..7} \cup {Groups(a) \o ":1.2.3.4" : a \in 1..8}
UriSeeds == {"http://[" \o x \o "]" : x \in Ip6} \cup {pre \o "{" \o ToString(n) \o "}" : pre \in {"", "?", "#", "http://", "http://h/"}, n \in PlaneEdges} \cup
  {"http://[::255.255.255.255]", "http://[::256.1.1.1]", "http://[::249.199.99.9]", "http://[::250.200.100.10]", "http://[::01.1.1.1]", "http://[::1.1.1]", "http://[::1.1.1.1.1]", "http://[::300.1.1.1]", "http://[::260.1.1.1]", "http://[::1.1.1.255]", "http://[::1.1.1.254]", "http://[::1.1.1.0]", "http://[::1.1.1.]", "http://[1:2:3:4:5:6:7:1.2.3.4]", "http://[1::1.2.3.4:5]", "http://[1:2:3:4:5::1.2.3.4]", "http://[ABCD:abcd::]", "http://[::g]", "http://[v1F.a:b]", "http://[vg.a]", "", "a", "/", "//", "/a/b", "a/b", "http://a", "http://a/b?c#d", "http://u@h:80/", "http://h:port", "http://[::1]/", "http://[1:2:3:4:5:6:7:8]", "http://[1:2:3:4:5:6:7:8:9]", "http://[1::8]", "http://[1::2::3]", "http://[::]", "http://[::1.2.3.4]", "http://[::1.2.3.256]", "http://[1:2:3:4:5:6:1.2.3.4]",
  "http://[1:2:3:4:5:6:7::]", "http://[1:2:3:4:5:6::8]", "http://[v1.a]", "http://[v.a]", "http://[12345::]", "http://[", "http://]", "http://a b", "a b", "a%20b", "a%2", "a%zz", "%41", "%", "urn:a:b", "urn:", ":a", "1a:b", "a:b", "a+b-.c:d", "?q", "#f", "?", "#", "##", "a#b#c", "a?b?c", "{228}", "http://{228}.de/{28450}", "{57344}", "?{57344}", "#{57344}", "{65520}",
  "{128}", "{127}", "{159}", "{160}", "{55295}", "{63744}", "{64976}", "{65008}", "{65519}", "{65536}", "{131070}", "{131071}", "{917504}", "{921600}", "{983040}", "?{983040}", "?{1114109}", "?{1114110}", "\\", "a\\b", "<a>", "\"a\"", "a|b", "a^b", "a`b", "{123}a{125}", "a[b]", "[a]", "file:///a b", "file:///a%20b", "a{10}", " a", "a ", "{0}", "{9}", "mailto:a@b.c", "http://a:b@c:1/d;e=f?g=h&i=j#k", "http://1.2.3.4:8080", "///a", "http:////a", "http:a", "http:/a",
  "http://h:", "http://@", "http://@@", "http://a@b@c", "http://a:b:c@d", "!$&'()*+,;=", "a:b:c", "a/b:c", "./a:b", "../a", "0173-1#02-AAO677#002", "~", "-._~", "http://[::ffff:1.2.3.4]:80/x", "http://[1:2]", "http://%41", "http://%zz", "//h", "//h/p?q#f", "//h:80", "//[::1]", "x://", "x:?q", "x:#f", "a://b#%20", "a://b#%2"}
LangSeeds == Irregular \cup Regular \cup {"en", "EN", "En", "de", "e", "eng", "engl", "engli", "english1", "english", "abcdefgh", "abcdefghi", "en-US", "en-us", "en-USA", "en-Latn", "en-Latn-US", "en-US-Latn", "en-419", "en-41", "en-4190", "de-1996", "de-996", "sl-rozaj", "sl-rozaj-biske", "sl-rozaj-biske-1994", "zh-cmn", "zh-cmn-yue", "zh-cmn-yue-abc", "zh-cmn-yue-abc-def", "zh-cmn-Hans-CN", "en-a-bbb", "en-a-b", "en-a", "en-a-bbb-ccc", "en-a-bbb-x-a", "en-x-a", "en-x", "x-a", "X-a", "x", "x-", "x-abcdefgh", "x-abcdefghi", "x-1", "en-", "-en", "en--US", "en_US", "en US", "", " en", "en ", "en{10}", "e1", "1en", "en-b-warble", "en-x-b-c",
  "i-klingon", "i-ami", "I-AMI", "i-foo", "i-", "en-GB-oed", "en-gb-oed", "sgn-BE-FR", "sgn-be-fr", "art-lojban", "zh-min-nan", "zh-min", "cel-gaulish", "no-bok", "i-default", "{228}n", "en-{228}{228}", "*", "en-*", "de-CH-1901", "de-CH-19012", "de-CH-1901a", "en-abcde", "en-abcd", "en-1abc", "en-1ab", "en-Latn-US-1abc-a-bb-x-a", "enx", "en-0-aa", "en-x-123456789", "abcd-efg", "abcde-US", "ab-cde-fgh-ijk", "ab-cde-fgh-ijk-lmn", "en-y-abc", "en-Y-abc", "en-w-abc", "en-z-abc", "en-a-abcdefgh", "en-a-abcdefghi", "en-aa-bb"}
ContentSeeds == {"text/plain", "a/b", "a/", "/b", "/", "a", "", "a/b/c", "a /b", "a/ b", "text/plain;charset=utf-8", "text/plain; charset=utf-8", "text/plain ;charset=utf-8", "text/plain ; charset=utf-8 ", "text/plain;", "text/plain;charset", "text/plain;charset=", "text/plain;=utf-8", "text/plain;a=b;c=d", "text/plain;a=\"b\"", "text/plain;a=\"\"", "text/plain;a=\"b c\"", "text/plain;a=\"b\\\"c\"", "text/plain;a=\"b\\\\\"", "text/plain;a=\"b", "text/plain;a=b\"", "text/plain;a=\"b\\\"", "text/plain;a=\"b\"c",
  "application/vnd.a+xml", "!#$%&'*+-.^_`|~/!#$%&'*+-.^_`|~", "a(b)/c", "a/b;c=(d)", "a/b{10}", " a/b", "a/b ", "a/b;{9}c=d", "a/b;{10}c=d", "a/b;c=\"{9}\"", "a/b;c=\"{228}\"", "a/b;c={228}", "{228}/b", "a/b;c=\"{127}\"", "a/b;c=\"{128}\"", "a/b;c=\"{255}\"", "a/b;c=\"{256}\"", "a/b;c=\"\\{9}\"", "a/b;c=\"\\{255}\"", "a/b;c=\"\\{127}\"", "a@b/c", "a/b,c", "a/b;c=d e", "a/b; ; c=d", "a/b;;c=d", "a\\b", "a/b;c=\"[]\"", "a/b;c=\"\\\"\"", "text/plain;  {9} a=b"}
VersionSeeds == {"0", "1", "9", "10", "9999", "10000", "00", "01", "-1", "+1", "1.0", "", " 1", "1 ", "1{10}", "a", "1a", "{1633}", "{178}", "0x1", "1e1", "000", "0{10}", "123", "100", "0000"}
IdShortSeeds == {"a", "A", "z9", "a_b", "_a", "9a", "a-b", "a.b", "a b", "", "{228}", "a{228}", "a{10}", "a{1633}", "A1_", "a__", "Z", "@", "[a", "a`", "a{128}", "{65313}", "a/", "a:"}

FormSeeds(x) ==
  CASE x \in IntegerKinds -> IntSeeds
    [] x = "decimal" -> DecSeeds \cup {"1", "-1", "+0", "00"}
    [] x \in {"float", "double"} -> FloatSeeds \cup DecSeeds
    [] x = "boolean" -> BoolSeeds
    [] x = "date" -> DateSeeds [] x = "dateTime" -> DateTimeSeeds [] x = "time" -> TimeSeeds
    [] x = "gYear" -> GYearSeeds [] x = "gYearMonth" -> GYearMonthSeeds [] x = "gMonth" -> GMonthSeeds [] x = "gDay" -> GDaySeeds
    [] x = "gMonthDay" -> GMonthDaySeeds [] x = "duration" -> DurationSeeds
    [] x = "hexBinary" -> HexSeeds [] x = "base64Binary" -> B64Seeds [] x = "anyURI" -> UriSeeds
    [] x = "string" -> {"", "a", " ", "{10}", "{65536}", "1", "{97*3000}"}
    [] x = "language" -> LangSeeds [] x = "contentType" -> ContentSeeds [] x = "version" -> VersionSeeds [] x = "idShort" -> IdShortSeeds

\* Small seeds which are edited character by character, and the characters used
EditSeeds(x) ==
  CASE x \in {"byte"} -> {"-128", "127"} [] x = "unsignedByte" -> {"255", "+0"} [] x = "short" -> {"-32768", "32767"} [] x = "unsignedShort" -> {"65535"}
    [] x = "int" -> {"-2147483648", "2147483647"} [] x = "unsignedInt" -> {"4294967295"} [] x = "long" -> {"-9223372036854775808", "9223372036854775807"} [] x = "unsignedLong" -> {"18446744073709551615"}
    [] x = "integer" -> {"-10", "+7"} [] x = "positiveInteger" -> {"1", "+10"} [] x = "nonNegativeInteger" -> {"0", "-0", "10"} [] x = "negativeInteger" -> {"-1", "-10"} [] x = "nonPositiveInteger" -> {"0", "-10"}
    [] x = "decimal" -> {"-1.5", ".5"} [] x = "float" -> {"-1.5e3", "3.4e38", "-INF"} [] x = "double" -> {"+1.5E-3", "1.7e308", "NaN"}
    [] x = "boolean" -> {"true", "0"} [] x = "date" -> {"2024-02-29", "1999-12-31Z", "0100-01-01-14:00"} [] x = "dateTime" -> {"2024-02-29T23:59:59.9Z", "2023-04-30T24:00:00+14:00"}
    [] x = "time" -> {"23:59:59.9Z", "24:00:00-13:59"} [] x = "gYear" -> {"-2024Z", "2024+14:00"} [] x = "gYearMonth" -> {"-2024-12Z", "10000-01-14:00"}
    [] x = "gMonth" -> {"--12Z", "--01+14:00"} [] x = "gDay" -> {"---31Z", "---01-14:00"} [] x = "gMonthDay" -> {"--02-29Z", "--04-30+14:00"}
    [] x = "duration" -> {"-P1Y2M3DT4H5M6.7S", "PT1H"} [] x = "hexBinary" -> {"0aF9"} [] x = "base64Binary" -> {"TWFuTQ==", "T WE="}
    [] x = "anyURI" -> {"http://u@h:80/p%20/q?r#s", "a:b", "//[1::2]/", "http://[::1.2.3.4]"} [] x = "string" -> {"ab"}
    [] x = "language" -> {"en-Latn-US-1abc-a-bb-x-1", "zh-cmn", "i-lux", "x-ab"} [] x = "contentType" -> {"a/b;c=d", "a/b; c=\"\\d\""} [] x = "version" -> {"10", "0"} [] x = "idShort" -> {"a_9", "Z"}
Alphabet(x) ==
  CASE x \in IntegerKinds \cup {"decimal", "float", "double"} -> {"0", "1", "9", "+", "-", ".", "e", "E", " ", "_", "{1633}", "{10}", "N", "I"}
    [] x \in {"date", "dateTime", "time", "gYear", "gYearMonth", "gMonth", "gDay", "gMonthDay"} -> {"0", "1", "2", "3", "4", "5", "6", "9", "-", "+", ":", ".", "Z", "T", " ", "{10}", "{1633}", "z"}
    [] x = "duration" -> {"0", "1", "-", "P", "Y", "M", "D", "T", "H", "S", ".", " ", "{10}", "{1633}", "W"}
    [] x = "boolean" -> {"t", "e", "1", "0", " ", "T", "{10}"}
    [] x = "hexBinary" -> {"0", "a", "G", "f", "F", " ", "{10}", "{1633}", "-"} [] x = "base64Binary" -> {"A", "B", "=", " ", "+", "/", "-", "_", "{10}", "Q"}
    [] x = "anyURI" -> {"a", "1", ":", "/", "?", "#", "[", "]", "@", "%", ".", " ", "{228}", "{57344}", "<", "\\", "{10}", "v"} [] x = "string" -> {"a", " ", "{10}"}
    [] x = "language" -> {"a", "1", "-", "x", "_", "{10}", "{228}"} [] x = "contentType" -> {"a", "/", ";", "=", "\"", "\\", " ", "{9}", "{10}", "{228}", "(", "@"} [] x = "version" -> {"0", "1", "-", "+", ".", " ", "{10}", "{1633}", "a"} [] x = "idShort" -> {"a", "Z", "0", "_", "-", ".", " ", "{10}", "{228}", "{1633}"}

\* Families of strings which are complete in one respect
Subst(s, cs) == {SubSeq(s, 1, i - 1) \o c \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s), c \in cs}
Subs(ss, cs) == UNION {Subst(s, cs) : s \in ss}
Ascii == {"{" \o ToString(n) \o "}" : n \in 32..126}
Latin == Ascii \cup {"{" \o ToString(n) \o "}" : n \in {9, 127, 128, 159, 160, 170, 178, 186, 223, 228, 255, 256, 305, 383, 8490, 1632, 65313}}
Dig == {ToString(i) : i \in 0..9}
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Zones == {sg \o Pad2(h) \o ":" \o Pad2(m) : sg \in {"+", "-"}, h \in 0..15 \cup {19, 20, 24}, m \in {0, 1, 9, 10, 30, 39, 49, 50, 59, 60, 99}} \cup {"Z", "+14", "-0000", "00:00", "+9:00", "+00:0", "ZZ", "+00:00Z"}
FewZones == {"", "Z", "+09:59", "-13:50", "-14:00"}
Zoned(x) ==
  CASE x = "date" -> {"2024-10-30", "-0001-01-01"} [] x = "dateTime" -> {"2024-10-01T19:09:29.0", "0999-01-10T24:00:00"} [] x = "time" -> {"09:00:59", "24:00:00.0"} [] x = "gYear" -> {"0990"}
    [] x = "gYearMonth" -> {"0999-10"} [] x = "gMonth" -> {"--10"} [] x = "gDay" -> {"---20"} [] x = "gMonthDay" -> {"--10-20"}
Years == {"1", "12", "99", "999", "0099", "099", "9999", "0009", "00001", "02024", "12024", "99999", "{48*4}", "{48*5}", "-0000", "-999", "-0999", "-09999", "-99999", "+0001", "--2024"}
YearOf(x, y) == CASE x = "date" -> y \o "-01-01" [] x = "dateTime" -> y \o "-01-01T00:00:00Z" [] x = "gYear" -> y [] x = "gYearMonth" -> y \o "-10"
MonthOf(x, m) == CASE x = "date" -> "2023-" \o m \o "-01" [] x = "dateTime" -> "2023-" \o m \o "-10T10:00:00Z" [] x = "gYearMonth" -> "2023-" \o m [] x = "gMonth" -> "--" \o m [] x = "gMonthDay" -> "--" \o m \o "-01"
DayOf(x, m, d) == CASE x = "date" -> "2023-" \o m \o "-" \o d [] x = "dateTime" -> "2023-" \o m \o "-" \o d \o "T10:00:00Z" [] x = "gDay" -> "---" \o d [] x = "gMonthDay" -> "--" \o m \o "-" \o d
Fractions == {"", ".", ".0", ".00", ".000", ".1", ".01", ".10", ".9", ".99", ",0", ".0.0", "x0"}
ClockOf(x, t) == CASE x = "dateTime" -> "2023-10-30T" \o t [] x = "time" -> t
Clocks == {Pad2(h) \o ":30:30" : h \in 0..29} \cup {"10:" \o Pad2(m) \o ":30" : m \in 0..69} \cup {"10:30:" \o Pad2(n) : n \in 0..69} \cup {c \o f : c \in {"24:00:00", "23:59:59", "24:00:01", "24:10:00"}, f \in Fractions}
DateFamily(x) ==
  {b \o z : b \in Zoned(x), z \in Zones} \cup Subs({b \o "+09:30" : b \in Zoned(x)}, Dig)
  \cup (IF x \in {"date", "dateTime", "gYear", "gYearMonth"} THEN {YearOf(x, y) : y \in Years} ELSE {})
  \cup (IF x \in {"date", "dateTime", "gYearMonth", "gMonth", "gMonthDay"} THEN {MonthOf(x, Pad2(m)) : m \in 0..39} ELSE {})
  \cup (IF x \in {"date", "dateTime", "gDay", "gMonthDay"} THEN {DayOf(x, Pad2(m), Pad2(d)) : m \in 1..12, d \in 0..41} ELSE {})
  \cup (IF x \in {"dateTime", "time"} THEN {ClockOf(x, t) \o z : t \in Clocks, z \in {"", "Z"}} ELSE {})
\* Durations: any choice of components, numbers of one or two digits or missing
NumParts(ks, num) == [i \in DOMAIN ks |-> num \o ks[i]]
RECURSIVE Choose(_, _)
Choose(ps, mask) == IF ps = <<>> THEN "" ELSE (IF mask % 2 = 1 THEN Head(ps) ELSE "") \o Choose(Tail(ps), mask \div 2)
DurationFamily ==
  {sg \o "P" \o Choose(NumParts(<<"Y", "M", "D">>, n), a) \o t \o Choose(NumParts(<<"H", "M">>, n), b) \o sc :
     sg \in {"", "-"}, n \in {"1", "09", "90"}, a \in 0..7, t \in {"", "T"}, b \in 0..3, sc \in {"", "S", "1S", "09S", "90.90S", "0.09S", "1.S", ".5S", "1x5S", "1.5.5S", "1S1S"}}
  \cup {pre \o x : pre \in {"P", "P1Y", "P1M", "P1D", "PT", "PT1H", "PT1M", "P1DT", "P1DT1H", "P1DT1M"}, x \in {"D", "M", "H", "S", "1D1D", "1M1M", "1H1H", "T1S", "T1M1M", "T1H1H"}}
B64Chars == {"{" \o ToString(n) \o "}" : n \in (65..90) \cup (97..122) \cup (48..57) \cup {43, 47, 45, 95, 61, 44, 64, 91, 96, 123, 58, 32}}
B64Family == Subs({"TWFuTWFu", "TWE=", "TQ==", "TWFuTWE=", "TWFuTQ=="}, B64Chars)
LangChars == {"a", "z", "A", "Z", "0", "9", "x", "X", "w", "W", "y", "Y", "-", "_"}
LangFamily == Subs({"ab", "abc", "abcd", "abcde", "abcdefgh", "ab-cde-fgh-ijk", "ab-cdef", "ab-cd", "ab-123", "ab-cdefg", "ab-1cdefghi", "ab-cdefghij", "ab-1bcd", "ab-a-bc", "ab-a-bcdefghi", "x-a", "x-abcdefgh", "ab-x-ab"}, LangChars)
              \cup {"ab-cdef-ghij", "ab-cd-ef", "ab-cdefghi", "ab-cdefghij", "ab-cdefghijk", "ab-0bcd", "ab-9bcd", "ab-x-a-x-b", "ab-x-a-b"}
IpGroup5 == {"12345" \o y : y \in {"::", "::1", "::1:2", "::1:2:3", "::1:2:3:4", "::1:2:3:4:5", "::1:2:3:4:5:6"}} \cup {"1:12345" \o y : y \in {"::", "::1", "::1:2", "::1:2:3", "::1:2:3:4", "::1:2:3:4:5"}}
UriFamily == Subs({"sA0:b", "//u@h:1/p?q#f", "s://u@h:1/p?q#f", "%aF", "//[v1.a]", "//[V9aF.zZ]", "//[a1::f]", "//1.2.3.4", "s:p/q", "a/b", "//[::1.2.3.4]"}, Latin)
             \cup {"//[" \o g \o "]" : g \in IpGroup5} \cup {"//h:port", "//h:a:b", "//u:p@h:b", "//[v1.]", "//[v.]", "//[v1a]", "//[v1x]", "//[v1.~._-]", "//a b", "///", "////a"}
             \cup {pre \o "{" \o ToString(n) \o "}" : pre \in {"", "?", "#"}, n \in {(p * 65536) - 1 : p \in 1..17} \cup {63743, 63744, 63999, 64000, 57343, 57344, 55296}}
Negs(ss) == {"-" \o s : s \in ss} \cup {"+" \o s : s \in ss}
FloatFamily == LET pos == {"3.4028234663852885e38", "3.4028234663852886e38", "3.402823e38", "3.40282e38", "3.41e38", "3.5e38", "4.4e38", "2.4e38", "3.3e38", "3.4e37", "3.4e48", "4e38", "3.403e38", "3.4029e38", "3.40283e38", "3.402824e38", "3.4028238e38", "3.40282357e38", "3.402823568e38", "9e37", "1e38", "1e39", "1e48", "1e40",
                               "1.797693134862315e308", "1.7976931348623157e308", "1.79769313486232e308", "1.7977e308", "1.798e308", "1.8e308", "1.89e308", "2.8e308", "1.7976931348623157e298", "1.7976931348623157e309", "1.7976931348623157e318", "9e307", "1e308", "1e309", "1e318", "1e400", "1.797693134862319e308", "1.79769313486233e308", "1.7976931348624e308", "1.797693134863e308", "1.79769313487e308", "1.7976931349e308", "1.797693135e308", "1.79769314e308", "1.7976932e308", "1.797694e308", "1.79770e308"}
               IN pos \cup Negs(pos) \cup Negs({".09", ".90", ".99e9", ".0e0", ".12e5", ".9E+09", "09.90e-09", "90.09E90"}) \cup {".09", ".90", ".99e9", ".0e0", ".12e5"}
               \cup {SubSeq("3.4028234663852886", 1, i - 1) \o d \o SubSeq("3.4028234663852886", i + 1, 18) \o "e38" : i \in (1..18) \ {2}, d \in Dig}
               \cup {"-" \o SubSeq("3.4028234663852886", 1, i - 1) \o d \o SubSeq("3.4028234663852886", i + 1, 18) \o "e38" : i \in (1..18) \ {2}, d \in Dig}
NumFamily == Subs({"-128", "127", "255", "32767", "-32768", "65535", "2147483647", "-2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "18446744073709551615"}, Dig)
             \cup {m \o d : m \in {"127", "255", "-128", "32767", "-32768", "65535", "2147483647", "-2147483648", "4294967295", "9223372036854775807", "-9223372036854775808", "18446744073709551615"}, d \in {"0", "9"}}
ContentFamily == Subs({"a/b", "a/b;c=d", "a/b; c=\"d\"", "a/b;c=\"\\d\"", "ab/cd;ef=gh;ij=kl"}, Latin)
Family(x) ==
  CASE x \in IntegerKinds -> NumFamily [] x = "decimal" -> Negs({".09", ".90", "09.90", "90", "9."}) \cup Subs({"-0.0", "+.9"}, Latin) [] x \in {"float", "double"} -> FloatFamily \cup Subs({"-1.0e+9", ".9E-0", "NaN", "-INF"}, Latin)
    [] x \in {"date", "dateTime", "time", "gYear", "gYearMonth", "gMonth", "gDay", "gMonthDay"} -> DateFamily(x)
    [] x = "duration" -> DurationFamily [] x = "base64Binary" -> B64Family [] x = "anyURI" -> UriFamily [] x = "language" -> LangFamily [] x = "contentType" -> ContentFamily
    [] x = "version" -> Subs({"0", "1", "10", "9999"}, Latin) [] x = "idShort" -> Subs({"a", "ab", "a9_Z"}, Latin) [] x = "hexBinary" -> Subs({"0a", "aF09"}, Latin) [] x = "boolean" -> Subs({"true", "false", "1"}, Latin) [] OTHER -> {}

CharEdits(x, s) ==
  {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s)}
  \cup {SubSeq(s, 1, i - 1) \o c \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s), c \in Alphabet(x)}
  \cup {SubSeq(s, 1, i) \o c \o SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s), c \in Alphabet(x)}
=============================================================================
