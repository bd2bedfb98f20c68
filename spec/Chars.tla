-------------------------------- MODULE Chars --------------------------------
(***************************************************************************)
(* Text as the DOM sees it: a string is a sequence of Unicode code points. *)
(* UTF-8 widths, XML names, escaping, end-of-line and attribute-value      *)
(* normalization are defined here from the XML 1.1 and DOM Level 2 texts.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

-----------------------------------------------------------------------------
(* ASCII literals of this specification, as code point sequences. *)
AsciiTable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf(c) == CHOOSE k \in 32..126 : SubSeq(AsciiTable, k - 31, k - 31) = c
Codes(str) == <<>> \o [i \in 1..Len(str) |-> CodeOf(SubSeq(str, i, i))]
(* All the literals. TLC evaluates this constant once, as no bound variable *)
(* is in it.                                                               *)
CpTable ==
    (" PUBLIC " :> Codes(" PUBLIC "))
 @@ (" SYSTEM " :> Codes(" SYSTEM "))
 @@ (" ]]>" :> Codes(" ]]>"))
 @@ (" encoding=" :> Codes(" encoding="))
 @@ (" standalone=" :> Codes(" standalone="))
 @@ ("#cdata-section" :> Codes("#cdata-section"))
 @@ ("#comment" :> Codes("#comment"))
 @@ ("#document" :> Codes("#document"))
 @@ ("#document-fragment" :> Codes("#document-fragment"))
 @@ ("#text" :> Codes("#text"))
 @@ ("&" :> Codes("&"))
 @@ (", " :> Codes(", "))
 @@ ("-->" :> Codes("-->"))
 @@ ("00000" :> Codes("00000"))
 @@ ("0b" :> Codes("0b"))
 @@ ("1.0" :> Codes("1.0"))
 @@ ("1.1" :> Codes("1.1"))
 @@ ("2.0" :> Codes("2.0"))
 @@ (";" :> Codes(";"))
 @@ ("<!--" :> Codes("<!--"))
 @@ ("<!DOCTYPE " :> Codes("<!DOCTYPE "))
 @@ ("<!ENTITY " :> Codes("<!ENTITY "))
 @@ ("<!NOTATION " :> Codes("<!NOTATION "))
 @@ ("<![CDATA[ " :> Codes("<![CDATA[ "))
 @@ ("<![CDATA[#document-fragment " :> Codes("<![CDATA[#document-fragment "))
 @@ ("</" :> Codes("</"))
 @@ ("<?" :> Codes("<?"))
 @@ ("<?xml version=" :> Codes("<?xml version="))
 @@ ("=" :> Codes("="))
 @@ (">" :> Codes(">"))
 @@ ("?>" :> Codes("?>"))
 @@ ("AddNamespaces" :> Codes("AddNamespaces"))
 @@ ("AssumeIDs" :> Codes("AssumeIDs"))
 @@ ("ParseEntities" :> Codes("ParseEntities"))
 @@ ("ProcessingOptions {" :> Codes("ProcessingOptions {"))
 @@ ("]]>" :> Codes("]]>"))
 @@ ("PUBLIC" :> Codes("PUBLIC"))
 @@ ("SYSTEM" :> Codes("SYSTEM"))
 @@ ("core" :> Codes("core"))
 @@ ("http://www.w3.org/2000/xmlns/" :> Codes("http://www.w3.org/2000/xmlns/"))
 @@ ("http://www.w3.org/XML/1998/namespace" :> Codes("http://www.w3.org/XML/1998/namespace"))
 @@ ("id" :> Codes("id"))
 @@ ("no" :> Codes("no"))
 @@ ("xml" :> Codes("xml"))
 @@ ("xmlns" :> Codes("xmlns"))
 @@ ("yes" :> Codes("yes"))
 @@ ("&#37;" :> Codes("&#37;"))
 @@ ("--" :> Codes("--"))
 @@ ("<!" :> Codes("<!"))
 @@ ("<!DOCTYPE" :> Codes("<!DOCTYPE"))
 @@ ("<![CDATA[" :> Codes("<![CDATA["))
 @@ ("amp" :> Codes("amp"))
 @@ ("apos" :> Codes("apos"))
 @@ ("encoding" :> Codes("encoding"))
 @@ ("gt" :> Codes("gt"))
 @@ ("lt" :> Codes("lt"))
 @@ ("quot" :> Codes("quot"))
 @@ ("standalone" :> Codes("standalone"))
 @@ ("version" :> Codes("version"))
 @@ ("}" :> Codes("}"))
Cp(str) == CpTable[str]

None == <<>>
Some(x) == <<x>>

-----------------------------------------------------------------------------
(* UTF-8 *)
Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

RECURSIVE ByteLenR(_, _, _)
ByteLenR(s, i, acc) == IF i > Len(s) THEN acc ELSE ByteLenR(s, i + 1, acc + Width(s[i]))
ByteLen(s) == ByteLenR(s, 1, 0)

(* The number of characters in the first `off` bytes; -1: `off` divides a  *)
(* character, or is past the end.                                          *)
RECURSIVE CharsAtR(_, _, _, _)
CharsAtR(s, off, i, acc) ==
    IF acc = off THEN i - 1
    ELSE IF acc > off \/ i > Len(s) THEN -1
    ELSE CharsAtR(s, off, i + 1, acc + Width(s[i]))
CharsAt(s, off) == CharsAtR(s, off, 1, 0)

(* The text which bytes encode: [ok, s]. *)
RECURSIVE Utf8R(_, _, _)
Utf8R(b, i, acc) ==
    LET n == Len(b)
        x == b[i]
        cont(k) == i + k <= n /\ b[i + k] \in 128..191
        low(k) == b[i + k] % 64
    IN IF i > n THEN [ok |-> TRUE, s |-> acc]
       ELSE IF x < 128 THEN Utf8R(b, i + 1, Append(acc, x))
       ELSE IF x \in 194..223 /\ cont(1) THEN Utf8R(b, i + 2, Append(acc, (x % 32) * 64 + low(1)))
       ELSE IF x \in 224..239 /\ cont(1) /\ cont(2) /\ (x = 224 => b[i + 1] >= 160) /\ (x = 237 => b[i + 1] < 160)
            THEN Utf8R(b, i + 3, Append(acc, ((x % 16) * 64 + low(1)) * 64 + low(2)))
       ELSE IF x \in 240..244 /\ cont(1) /\ cont(2) /\ cont(3) /\ (x = 240 => b[i + 1] >= 144) /\ (x = 244 => b[i + 1] < 144)
            THEN Utf8R(b, i + 4, Append(acc, (((x % 8) * 64 + low(1)) * 64 + low(2)) * 64 + low(3)))
       ELSE [ok |-> FALSE, s |-> <<>>]
Utf8(b) == Utf8R(b, 1, <<>>)

-----------------------------------------------------------------------------
(* XML 1.1 names: NameStartChar and NameChar. The colon separates a prefix *)
(* from a local name, so it never occurs in either part.                   *)
Between(c, a, b) == a <= c /\ c <= b
IsAlpha(c) == Between(c, 65, 90) \/ Between(c, 97, 122)
IsDigit(c) == Between(c, 48, 57)
IsNameStart(c) ==
    \/ IsAlpha(c) \/ c = 95
    \/ Between(c, 192, 214) \/ Between(c, 216, 246) \/ Between(c, 248, 767)
    \/ Between(c, 880, 893) \/ Between(c, 895, 8191) \/ Between(c, 8204, 8205)
    \/ Between(c, 8304, 8591) \/ Between(c, 11264, 12271) \/ Between(c, 12289, 55295)
    \/ Between(c, 63744, 64975) \/ Between(c, 65008, 65533) \/ Between(c, 65536, 983039)
IsNameChar(c) ==
    \/ IsNameStart(c) \/ c = 45 \/ c = 46 \/ IsDigit(c)
    \/ c = 183 \/ Between(c, 768, 879) \/ Between(c, 8255, 8256)
IsNCName(s) == s # <<>> /\ IsNameStart(s[1]) /\ \A i \in 1..Len(s) : IsNameChar(s[i])

COLON == 58
Colons(s) == {i \in 1..Len(s) : s[i] = COLON}

(* Parsing a qualified name: [ok, e, ns, pf, ln]; e is the set of the      *)
(* errors any of which may be reported.                                    *)
NameErr(e) == [ok |-> FALSE, e |-> e, ns |-> None, pf |-> None, ln |-> <<>>]
NameOk(ns, pf, ln) == [ok |-> TRUE, e |-> {}, ns |-> ns, pf |-> pf, ln |-> ln]
PartErr(p) == IF p = <<>> THEN {"Syntax"} ELSE IF IsNCName(p) THEN {} ELSE {"InvalidCharacter"}
PartsErr(s) ==      \* two colons or more
    {"Syntax"} \cup IF \A i \in 1..Len(s) : s[i] = COLON \/ IsNameChar(s[i]) THEN {} ELSE {"InvalidCharacter"}
ParseName(s) ==
    LET C == Colons(s) IN
    IF Cardinality(C) = 0
      THEN IF PartErr(s) # {} THEN NameErr(PartErr(s)) ELSE NameOk(None, None, s)
    ELSE IF Cardinality(C) = 1
      THEN LET c == CHOOSE i \in C : TRUE
               p == SubSeq(s, 1, c - 1)
               l == SubSeq(s, c + 1, Len(s))
               E == PartErr(p) \cup PartErr(l)
           IN IF E # {} THEN NameErr(E) ELSE NameOk(None, Some(p), l)
    ELSE NameErr(PartsErr(s))

XML    == Cp("xml")
XMLNS  == Cp("xmlns")
IDNAME == Cp("id")
XMLURI   == Cp("http://www.w3.org/XML/1998/namespace")
XMLNSURI == Cp("http://www.w3.org/2000/xmlns/")

(* The reserved prefixes and names belong to their own namespace only.     *)
ParseNameNs(uri, s) ==
    LET n == ParseName(s)
        res(x) == (x = XML /\ uri # XMLURI) \/ (x = XMLNS /\ uri # XMLNSURI)
        E == n.e \cup (IF uri = <<>> THEN {"Syntax"} ELSE {})
                 \cup (IF n.ok /\ ((n.pf # None /\ res(n.pf[1])) \/ res(n.ln)) THEN {"Namespace"} ELSE {})
    IN IF E # {} THEN NameErr(E) ELSE [n EXCEPT !.ns = Some(uri)]

(* Another prefix for a name; it has to agree with the namespace, if any.  *)
WithPrefix(n, p) ==
    LET res(x) == (x = XML /\ n.ns # Some(XMLURI)) \/ (x = XMLNS /\ n.ns # Some(XMLNSURI))
        E == (IF p = None THEN {} ELSE PartErr(p[1]))
             \cup (IF p # None /\ n.ns # None /\ res(p[1]) THEN {"Namespace"} ELSE {})
    IN IF E # {} THEN NameErr(E) ELSE [n EXCEPT !.pf = p]

QName(pf, ln) == IF pf = None THEN ln ELSE pf[1] \o <<COLON>> \o ln

-----------------------------------------------------------------------------
(* Escaping of & ' > < " as decimal character references.                  *)
RECURSIVE Dec(_)
Dec(k) == IF k < 10 THEN <<48 + k>> ELSE Dec(k \div 10) \o <<48 + (k % 10)>>
Escaped == {38, 39, 60, 62, 34}
EscapeTable == [c \in Escaped |-> <<38, 35>> \o Dec(c) \o <<59>>]
RECURSIVE EscapeR(_, _, _)
EscapeR(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE EscapeR(s, i + 1, IF s[i] \in Escaped THEN acc \o EscapeTable[s[i]] ELSE Append(acc, s[i]))
Escape(s) == IF \E i \in 1..Len(s) : s[i] \in Escaped THEN EscapeR(s, 1, <<>>) ELSE s

(* XML 1.1 2.11: every line break becomes a line feed.                     *)
RECURSIVE EolR(_, _, _)
EolR(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF s[i] = 13 THEN
        EolR(s, IF i < Len(s) /\ s[i + 1] \in {10, 133} THEN i + 2 ELSE i + 1, Append(acc, 10))
    ELSE IF s[i] \in {133, 8232} THEN EolR(s, i + 1, Append(acc, 10))
    ELSE EolR(s, i + 1, Append(acc, s[i]))
Eol(s) == IF \E i \in 1..Len(s) : s[i] \in {13, 133, 8232} THEN EolR(s, 1, <<>>) ELSE s

(* The letters of the alphabets which this specification is used with.     *)
IsLetter(c) ==
    \/ IsAlpha(c) \/ c \in {170, 181, 186}
    \/ Between(c, 192, 214) \/ Between(c, 216, 246) \/ Between(c, 248, 705)
    \/ Between(c, 913, 929) \/ Between(c, 931, 1013)
    \/ Between(c, 19968, 40956) \/ Between(c, 66560, 66639)

(* A string which no operation can deliver: it would rather panic.         *)
PANIC == <<-1>>

MaxChar == 1114111
IsScalar(k) == k <= MaxChar /\ ~Between(k, 55296, 57343)
HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF Between(c, 97, 102) THEN c - 87
             ELSE IF Between(c, 65, 70) THEN c - 55 ELSE -1

InClass(c, k) ==
    CASE k = "dec" -> IsDigit(c)
      [] k = "hex" -> HexVal(c) >= 0
      [] k = "ent" -> IsLetter(c) \/ c = 46 \/ IsDigit(c) \/ c = 95 \/ c = 45
RECURSIVE SpanEnd(_, _, _)
SpanEnd(s, i, k) == IF i <= Len(s) /\ InClass(s[i], k) THEN SpanEnd(s, i + 1, k) ELSE i
RECURSIVE NumR(_, _, _, _, _)
NumR(s, i, end, base, acc) ==      \* saturates above MaxChar
    IF i >= end THEN acc
    ELSE LET v == acc * base + HexVal(s[i])
         IN NumR(s, i + 1, end, base, IF v > MaxChar THEN MaxChar + 1 ELSE v)

(* What starts at s[i]: the end of a reference (exclusive) and its kind.   *)
RefAt(s, i) ==
    LET n == Len(s)
    IN IF s[i] \in {38, 37} /\ i < n /\ (IsLetter(s[i + 1]) \/ s[i + 1] = 95)
          THEN LET e == SpanEnd(s, i + 2, "ent")
               IN IF e <= n /\ s[e] = 59 THEN [k |-> "ent", end |-> e + 1, v |-> 0]
                  ELSE [k |-> "no", end |-> i, v |-> 0]
       ELSE IF s[i] = 38 /\ i + 1 < n /\ s[i + 1] = 35 /\ IsDigit(s[i + 2])
          THEN LET e == SpanEnd(s, i + 2, "dec")
               IN IF e <= n /\ s[e] = 59
                  THEN [k |-> "chr", end |-> e + 1, v |-> NumR(s, i + 2, e, 10, 0)]
                  ELSE [k |-> "no", end |-> i, v |-> 0]
       ELSE IF s[i] = 38 /\ i + 2 < n /\ s[i + 1] = 35 /\ s[i + 2] = 120 /\ HexVal(s[i + 3]) >= 0
          THEN LET e == SpanEnd(s, i + 3, "hex")
               IN IF e <= n /\ s[e] = 59
                  THEN [k |-> "chr", end |-> e + 1, v |-> NumR(s, i + 3, e, 16, 0)]
                  ELSE [k |-> "no", end |-> i, v |-> 0]
       ELSE [k |-> "no", end |-> i, v |-> 0]

RECURSIVE NormR(_, _, _)
NormR(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET r == RefAt(s, i) IN
         CASE r.k = "ent" -> PANIC
           [] r.k = "chr" -> NormR(s, r.end,
                                   acc \o IF IsScalar(r.v) THEN <<r.v>> ELSE SubSeq(s, i, r.end - 1))
           [] OTHER -> NormR(s, i + 1, Append(acc, IF s[i] \in {9, 10, 13} THEN 32 ELSE s[i]))

RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] = 32 THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* XML 1.1 3.3.3, then escaped: the value that an attribute reports for    *)
(* the raw text of its children. No entity is ever declared through this   *)
(* API, so an entity reference cannot be resolved (known finding).         *)
AttrText(raw) ==
    LET t == Eol(raw)
        n == IF \E i \in 1..Len(t) : t[i] \in {9, 10, 13, 37, 38} THEN NormR(t, 1, <<>>) ELSE t
    IN IF n = PANIC THEN PANIC ELSE Escape(TrimL(TrimR(n)))

-----------------------------------------------------------------------------
LowerChar(c) == IF Between(c, 65, 90) THEN c + 32 ELSE c
Lower(s) == TLCEval([i \in 1..Len(s) |-> LowerChar(s[i])])

(* Lexicographic order on strings. *)
RECURSIVE LessR(_, _, _)
LessR(a, b, i) ==
    IF i > Len(b) THEN FALSE
    ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i]
    ELSE LessR(a, b, i + 1)
StrLess(a, b) == LessR(a, b, 1)

(* Encoding names of an XML declaration: EncName, with "-" anywhere after  *)
(* the first letter.                                                       *)
IsEncoding(s) ==
    /\ s # <<>> /\ IsAlpha(s[1])
    /\ \A i \in 2..Len(s) : IsAlpha(s[i]) \/ IsDigit(s[i]) \/ s[i] \in {45, 46, 95}
=============================================================================
