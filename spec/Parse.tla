--------------------------------- MODULE Parse ---------------------------------
(***************************************************************************)
(* Reading a document from text: the part of XML that the parser has       *)
(* (declaration, comments, processing instructions, elements, attributes,  *)
(* text without the white space around it, CDATA sections, the predefined  *)
(* entities and character references), and what it is that is read.        *)
(*                                                                         *)
(* ParseDoc(S, t) is [k, S, d]: k is "ok" (d is the new document), "err"   *)
(* (this is not well formed, or not supported), or "any": the text is not  *)
(* well formed in a way that a lenient parser may overlook.                *)
(***************************************************************************)
EXTENDS Dom

IsWs(c) == c \in {9, 10, 13, 32}
RECURSIVE WsTrimL(_), WsTrimR(_)
WsTrimL(s) == IF s # <<>> /\ IsWs(s[1]) THEN WsTrimL(Tail(s)) ELSE s
WsTrimR(s) == IF s # <<>> /\ IsWs(s[Len(s)]) THEN WsTrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE SkipWs(_, _)
SkipWs(t, i) == IF i <= Len(t) /\ IsWs(t[i]) THEN SkipWs(t, i + 1) ELSE i
RECURSIVE FindLit(_, _, _)      \* the first place of lit at i or later; 0: none
FindLit(t, i, lit) ==
    IF i + Len(lit) - 1 > Len(t) THEN 0
    ELSE IF SubSeq(t, i, i + Len(lit) - 1) = lit THEN i
    ELSE FindLit(t, i + 1, lit)
HasLit(t, lit) == FindLit(t, 1, lit) # 0

(* Characters that a text had better not have: XML does not allow them, or *)
(* would have them changed (carriage returns) before anything is read.     *)
OddChar(c) == (c < 32 /\ c \notin {9, 10}) \/ c \in {65279, 65534, 65535}
(* White space which is none in XML.                                       *)
OddSpace(c) == c \in {11, 12, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ Between(c, 8192, 8202)

-----------------------------------------------------------------------------
(* References: [k, v]: the text with the references replaced.              *)
Predefined ==
    (Cp("lt") :> 60) @@ (Cp("gt") :> 62) @@ (Cp("amp") :> 38) @@ (Cp("apos") :> 39) @@ (Cp("quot") :> 34)
AllIn(s, k) == s # <<>> /\ \A i \in 1..Len(s) : InClass(s[i], k)
(* The character which the name between & and ; stands for; -1: none, -2:  *)
(* it depends.                                                             *)
RefChar(n) ==
    IF n \in DOMAIN Predefined THEN Predefined[n]
    ELSE IF n = <<>> \/ n[1] # 35 THEN -1
    ELSE LET hex == Len(n) > 1 /\ n[2] = 120
             digits == SubSeq(n, IF hex THEN 3 ELSE 2, Len(n))
             v == NumR(digits, 1, Len(digits) + 1, IF hex THEN 16 ELSE 10, 0)
         IN IF ~AllIn(digits, IF hex THEN "hex" ELSE "dec")
            THEN IF digits # <<>> /\ digits[1] = 43 THEN -2 ELSE -1
            ELSE IF v = 0 \/ ~IsScalar(v) THEN -1
            ELSE IF Len(digits) > (IF hex THEN 6 ELSE 7) THEN -2      \* quick-xml has a limit
            ELSE IF OddChar(v) /\ v # 13 THEN -2
            ELSE v
RECURSIVE SemiAt(_, _)
SemiAt(s, i) == IF i > Len(s) \/ s[i] = 38 THEN 0 ELSE IF s[i] = 59 THEN i ELSE SemiAt(s, i + 1)
(* forValue: what is left of it for Attribute::value to read.              *)
RECURSIVE RefsR(_, _, _, _, _)
RefsR(s, i, forValue, k, acc) ==
    IF i > Len(s) THEN [k |-> k, v |-> acc]
    ELSE IF s[i] # 38
         THEN RefsR(s, i + 1, forValue, k,
                    IF forValue /\ s[i] = 37 THEN acc \o Cp("&#37;") ELSE Append(acc, s[i]))
    ELSE LET e == SemiAt(s, i + 1)
             n == SubSeq(s, i + 1, e - 1)
             c == IF e = 0 THEN -1 ELSE RefChar(n)
             text == IF ~forValue THEN <<c>>
                     ELSE IF n \in DOMAIN Predefined THEN EscapeTable[c] ELSE SubSeq(s, i, e)
         IN IF c = -1 THEN [k |-> "err", v |-> <<>>]
            ELSE RefsR(s, e + 1, forValue, IF c = -2 THEN "any" ELSE k, acc \o IF c = -2 THEN <<>> ELSE text)
Refs(s, forValue) ==
    IF \E i \in 1..Len(s) : s[i] \in {37, 38} THEN RefsR(s, 1, forValue, "ok", <<>>) ELSE [k |-> "ok", v |-> s]

-----------------------------------------------------------------------------
(* The attributes of a tag, from position i of its content: [k, q], q a    *)
(* sequence of <<name, raw value>>.                                        *)
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF i <= Len(s) /\ ~IsWs(s[i]) /\ s[i] # 61 THEN NameEnd(s, i + 1) ELSE i
RECURSIVE AttsR(_, _, _, _)
AttsR(s, i, k, q) ==
    LET a == SkipWs(s, i)
        b == NameEnd(s, a)
        e == SkipWs(s, b)
        v == SkipWs(s, e + 1)
        z == IF v <= Len(s) /\ s[v] \in {34, 39} THEN FindLit(s, v + 1, <<s[v]>>) ELSE 0
    IN IF a > Len(s) THEN [k |-> k, q |-> q]
       ELSE IF e > Len(s) \/ s[e] # 61 \/ z = 0 THEN [k |-> "err", q |-> <<>>]
       ELSE AttsR(s, z + 1, IF a = i \/ Has(SubSeq(s, v + 1, z - 1), 60) THEN "any" ELSE k,
                  Append(q, <<SubSeq(s, a, b - 1), SubSeq(s, v + 1, z - 1)>>))

(* Where the tag that starts before i ends: at the next > outside quotes.  *)
RECURSIVE TagEnd(_, _, _)
TagEnd(t, i, quote) ==
    IF i > Len(t) THEN 0
    ELSE IF quote # 0 THEN TagEnd(t, i + 1, IF t[i] = quote THEN 0 ELSE quote)
    ELSE IF t[i] = 62 THEN i
    ELSE TagEnd(t, i + 1, IF t[i] \in {34, 39} THEN t[i] ELSE 0)
RECURSIVE FirstWs(_, _)
FirstWs(s, i) == IF i <= Len(s) /\ ~IsWs(s[i]) THEN FirstWs(s, i + 1) ELSE i
RECURSIVE NextLt(_, _)
NextLt(t, i) == IF i <= Len(t) /\ t[i] # 60 THEN NextLt(t, i + 1) ELSE i

(* Tokens: [k, nm, v, at]. *)
Token(k, nm, v, at) == [k |-> k, nm |-> nm, v |-> v, at |-> at]
AnyToken == Token("any", <<>>, <<>>, <<>>)
ErrToken == Token("err", <<>>, <<>>, <<>>)

StartToken(s, kind) ==
    LET e == FirstWs(s, 1)
        A == AttsR(s, e, "ok", <<>>)
    IN IF A.k = "ok" THEN Token(kind, SubSeq(s, 1, e - 1), <<>>, A.q)
       ELSE IF A.k = "any" THEN AnyToken ELSE ErrToken
PiToken(s) ==
    LET e == FirstWs(s, 1)
        target == SubSeq(s, 1, e - 1)
        data == WsTrimR(WsTrimL(SubSeq(s, e, Len(s))))
        A == AttsR(s, e, "ok", <<>>)
    IN IF target = XML THEN IF A.k = "ok" THEN Token("decl", <<>>, <<>>, A.q) ELSE AnyToken
       ELSE IF data # <<>> /\ (OddSpace(data[1]) \/ OddSpace(data[Len(data)])) THEN AnyToken
       ELSE Token("pi", target, IF data = <<>> THEN None ELSE Some(data), <<>>)

(* The token at t[i], and where the next one is.                           *)
Next1(t, i) ==
    LET tok(x, j) == [x |-> x, j |-> j] IN
    IF t[i] # 60
      THEN LET j == NextLt(t, i)  s == WsTrimR(WsTrimL(SubSeq(t, i, j - 1)))
               r == Refs(s, FALSE)
           IN IF s = <<>> THEN tok(Token("none", <<>>, <<>>, <<>>), j)
              ELSE IF r.k = "err" THEN tok(ErrToken, j)
              ELSE IF r.k = "any" \/ HasLit(s, Cp("]]>")) THEN tok(AnyToken, j)
              ELSE tok(Token("text", <<>>, r.v, <<>>), j)
    ELSE IF At(t, i, Cp("<!--"))
      THEN LET j == FindLit(t, i + 4, Cp("-->"))  s == SubSeq(t, i + 4, j - 1)
           IN IF j = 0 THEN tok(ErrToken, 0)
              ELSE IF HasLit(s, Cp("--")) \/ (s # <<>> /\ s[Len(s)] = 45) THEN tok(AnyToken, j + 3)
              ELSE tok(Token("comment", <<>>, s, <<>>), j + 3)
    ELSE IF At(t, i, Cp("<![CDATA["))
      THEN LET j == FindLit(t, i + 9, Cp("]]>"))
           IN IF j = 0 THEN tok(ErrToken, 0) ELSE tok(Token("cdata", <<>>, SubSeq(t, i + 9, j - 1), <<>>), j + 3)
    ELSE IF At(t, i, Cp("<!")) THEN tok(IF At(t, i, Cp("<!DOCTYPE")) THEN ErrToken ELSE AnyToken, 0)
    ELSE IF At(t, i, Cp("<?"))
      THEN LET j == FindLit(t, i + 2, Cp("?>"))
           IN IF j = 0 THEN tok(ErrToken, 0) ELSE tok(PiToken(SubSeq(t, i + 2, j - 1)), j + 2)
    ELSE IF At(t, i, Cp("</"))
      THEN LET j == FindLit(t, i + 2, <<62>>)
           IN IF j = 0 THEN tok(ErrToken, 0)
              ELSE tok(Token("end", WsTrimR(SubSeq(t, i + 2, j - 1)), <<>>, <<>>), j + 1)
    ELSE LET j == TagEnd(t, i + 1, 0)
         IN IF j = 0 THEN tok(ErrToken, 0)
            ELSE tok(IF t[j - 1] = 47 /\ j - 1 > i THEN StartToken(SubSeq(t, i + 1, j - 2), "empty")
                     ELSE StartToken(SubSeq(t, i + 1, j - 1), "start"), j + 1)
RECURSIVE TokensR(_, _, _)
TokensR(t, i, q) ==
    IF i > Len(t) THEN q
    ELSE LET r == Next1(t, i) IN
         IF r.j = 0 THEN Append(q, r.x)
         ELSE TokensR(t, r.j, IF r.x.k = "none" THEN q ELSE Append(q, r.x))

-----------------------------------------------------------------------------
(* The document. *)
Bad(S) == [k |-> "err", S |-> S]
Good(S) == [k |-> "ok", S |-> S]

AddLeaf(S, p, node) ==
    LET id == Len(S) + 1 IN [Append(S, [node EXCEPT !.par = p]) EXCEPT ![p].kids = Append(@, id)]

NameLess(x, y) == StrLess(x[1], y[1])
RECURSIVE AddAtts(_, _, _, _)
AddAtts(S, el, q, d) ==
    IF q = <<>> THEN Good(S)
    ELSE LET nm == ParseName(q[1][1])
             v == Refs(q[1][2], TRUE)
             S1 == AddAttr(S, nm, Some(v.v), d)
             r == SetAttr(S1, el, Len(S) + 1)
         IN IF v.k = "any" THEN [k |-> "any", S |-> S]
            ELSE IF v.k = "err" \/ ~nm.ok THEN Bad(S)
            ELSE IF r.R # {RNode(Len(S) + 1)} THEN Bad(S)
            ELSE AddAtts(r.S, el, Tail(q), d)
Distinct(q) == \A i, j \in 1..Len(q) : q[i][1] = q[j][1] => i = j
AddElement(S, p, d, tok) ==
    LET nm == ParseName(tok.nm)
        id == Len(S) + 1
    IN IF ~nm.ok \/ ~Distinct(tok.at) THEN Bad(S)
       ELSE IF p = d /\ RootElement(S, d) # 0 THEN Bad(S)
       ELSE AddAtts(AddLeaf(S, p, NewNode("Element", nm, None, d)), id, SortSeq(tok.at, NameLess), d)

(* version, encoding and standalone, in this order.                        *)
DeclOf(q) ==
    LET named(x, i) == i <= Len(q) /\ q[i][1] = x
        e == IF named(Cp("encoding"), 2) THEN 2 ELSE 0
        s == IF named(Cp("standalone"), IF e = 0 THEN 2 ELSE 3) THEN IF e = 0 THEN 2 ELSE 3 ELSE 0
        size == 1 + (IF e = 0 THEN 0 ELSE 1) + (IF s = 0 THEN 0 ELSE 1)
        val(i) == IF i = 0 THEN None ELSE Some(q[i][2])
    IN IF ~named(Cp("version"), 1) THEN [k |-> IF Len(q) = 0 THEN "err" ELSE "any", v |-> None]
       ELSE IF Len(q) # size THEN [k |-> "any", v |-> None]
       ELSE IF \/ q[1][2] \notin {Cp("1.0"), Cp("1.1")}
               \/ (e # 0 /\ ~IsEncoding(q[e][2]))
               \/ (s # 0 /\ q[s][2] \notin {Cp("yes"), Cp("no")})
            THEN [k |-> "err", v |-> None]
       ELSE [k |-> "ok", v |-> Some(<<val(1), val(e), val(s)>>)]

RECURSIVE Build(_, _, _, _)
Build(S, d, up, q) ==      \* up: the open elements, the innermost last
    LET p == IF up = <<>> THEN d ELSE up[Len(up)] IN
    IF q = <<>>
    THEN IF up # <<>> THEN Bad(S)
         ELSE IF RootElement(S, d) = 0 THEN [k |-> "any", S |-> S]
         ELSE Good(S)
    ELSE LET x == q[1] IN
      CASE x.k \in {"any", "err"} -> [k |-> x.k, S |-> S]
        [] x.k = "decl" ->
             LET r == DeclOf(x.at) IN
             IF up # <<>> \/ S[d].decl # None \/ S[d].kids # <<>> THEN Bad(S)
             ELSE IF r.k # "ok" THEN [k |-> r.k, S |-> S]
             ELSE Build([S EXCEPT ![d].decl = r.v], d, up, Tail(q))
        [] x.k = "comment" ->
             Build(AddLeaf(S, p, NewNode("Comment", CommentName, Some(x.v), d)), d, up, Tail(q))
        [] x.k = "pi" ->
             LET nm == ParseName(x.nm) IN
             IF ~nm.ok \/ Lower(x.nm) = XML THEN Bad(S)
             ELSE Build(AddLeaf(S, p, NewNode("ProcessingInstruction", nm, x.v, d)), d, up, Tail(q))
        [] x.k = "text" ->
             IF up = <<>> THEN Bad(S)
             ELSE Build(AddLeaf(S, p, NewText(x.v, d)), d, up, Tail(q))
        [] x.k = "cdata" ->
             IF up = <<>> THEN Bad(S)
             ELSE Build(AddLeaf(S, p, NewNode("CData", CDataName, Some(x.v), d)), d, up, Tail(q))
        [] x.k = "end" ->
             IF up = <<>> THEN Bad(S)
             ELSE IF QN(S, p) # x.nm THEN Bad(S)
             ELSE Build(S, d, SubSeq(up, 1, Len(up) - 1), Tail(q))
        [] x.k \in {"start", "empty"} ->
             LET id == Len(S) + 1
                 r == AddElement(S, p, d, x)
             IN IF r.k # "ok" THEN r
                ELSE Build(r.S, d, IF x.k = "start" THEN Append(up, id) ELSE up, Tail(q))

ParseDoc(S, t) ==
    LET d == Len(S) + 1
        doc == [NewNode("Document", DocumentName, None, 0) EXCEPT !.opt = {"ns"}]
        q == TokensR(t, 1, <<>>)
        r == Build(Append(S, doc), d, <<>>, q)
    IN IF (\E i \in 1..Len(t) : OddChar(t[i])) \/ (\E i \in 1..Len(q) : q[i].k = "any")
       THEN [k |-> "any", S |-> S, d |-> 0]
       ELSE [k |-> r.k, S |-> IF r.k = "ok" THEN r.S ELSE S, d |-> IF r.k = "ok" THEN d ELSE 0]

ReadXml(S, t) ==
    LET r == ParseDoc(S, t)
    IN CASE r.k = "ok" -> Out(r.S, RNode(r.d))
         [] r.k = "err" -> Fail(S, "Parse")
         [] r.k = "any" -> [S |-> S, R |-> {}, m |-> "any"]

(* reread: the text form of a node is read again.                          *)
ParseOps == {"read_xml", "read_reader", "read_bytes", "read_broken", "reread"}
(* What is written is what was read: the text form of a document which has *)
(* nothing that the text form does not keep gives it again.                *)
RECURSIVE Below(_, _)
Below(S, n) == {n} \cup UNION {Below(S, k) : k \in Elems(S[n].kids)}
RECURSIVE SameTree(_, _, _, _)
SameTree(S, a, T, b) ==
    LET x == S[a]  y == T[b] IN
    /\ x.ty = y.ty /\ x.pf = y.pf /\ x.ln = y.ln /\ NodeVal(S, a) = NodeVal(T, b) /\ x.decl = y.decl
    /\ Cardinality(x.attrs) = Cardinality(y.attrs)
    /\ \A k \in x.attrs : \E m \in y.attrs : QN(S, k) = QN(T, m) /\ AttrVal(S, k) = AttrVal(T, m)
    /\ Len(x.kids) = Len(y.kids)
    /\ \A i \in 1..Len(x.kids) : SameTree(S, x.kids[i], T, y.kids[i])
Trimmed(s) == s = WsTrimR(WsTrimL(s))
PlainChars(s) == \A i \in 1..Len(s) : ~OddChar(s[i]) /\ s[i] \notin {133, 8232}
Plainly(S, n) ==      \* can this node be written and read again as it is?
    LET x == S[n]
        v == IF x.val = None THEN <<>> ELSE x.val[1]
        follows == PrevSib(S, n) # 0 /\ Is(S, PrevSib(S, n), "Text")
    IN PlainChars(v) /\
       CASE x.ty = "Document" -> x.dt = 0 /\ RootElement(S, n) # 0 /\ (x.decl = None \/ x.decl[1][1] # None)
         [] x.ty = "Comment" -> Escape(v) = v /\ ~HasLit(v, Cp("--")) /\ (v = <<>> \/ v[Len(v)] # 45)
         [] x.ty = "Text" -> v # <<>> /\ Trimmed(v) /\ ~OddSpace(v[1]) /\ ~OddSpace(v[Len(v)]) /\ ~follows
         [] x.ty = "ProcessingInstruction" -> Trimmed(v) /\ x.val # Some(<<>>) /\ ~HasLit(v, Cp("?>"))
                                              /\ (v # <<>> => ~OddSpace(v[1]) /\ ~OddSpace(v[Len(v)]))
         [] x.ty = "Element" -> \A a \in x.attrs :
                LET w == AttrVal(S, a) IN
                /\ w # None /\ PlainChars(w[1])
                /\ w[1] = AttrText(w[1])
                /\ ~\E b \in x.attrs \ {a} : QN(S, b) = QN(S, a)
         [] OTHER -> FALSE
RoundTrip(S, d) ==
    (\A n \in Below(S, d) : Plainly(S, n)) =>
        LET r == ParseDoc(S, Ser(S, d)) IN r.k = "ok" /\ SameTree(S, d, r.S, r.d)

(* Reading adds a document, or nothing. *)
ParseStepOk(S, e, c) ==
    /\ e.op \in ParseOps =>
          /\ SubSeq(c.S, 1, Len(S)) = S
          /\ c.S # S => LET d == Len(S) + 1 IN
                /\ c.R = {RNode(d)} /\ Is(c.S, d, "Document") /\ RootElement(c.S, d) # 0
                /\ \A k \in d + 1..Len(c.S) : c.S[k].doc = d
                /\ RoundTrip(c.S, d)
    /\ (e.op = "reread" /\ Is(S, e.n[1], "Document")) => RoundTrip(S, e.n[1])
=============================================================================
