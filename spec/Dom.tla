--------------------------------- MODULE Dom ---------------------------------
(***************************************************************************)
(* DOM Level 2 Core as xml_dom provides it: the state of a set of nodes,   *)
(* and the effect and result of every operation of the public interface.   *)
(*                                                                         *)
(* A state S is a sequence of node records; a node is its index, 0 is no   *)
(* node. An operation is a record [op, n, s, i]: its name, the nodes, the  *)
(* (optional) strings and the integers which are its arguments, n[1] being *)
(* the node it is called on. Apply(S, e) is [S, R, m]: the next state, the *)
(* set of results which are right, and how to compare the result.          *)
(* New nodes are numbered in the order: the result, then depth first an    *)
(* element's attributes by name, then children.                            *)
(***************************************************************************)
EXTENDS Chars

Types == {"Element", "Attribute", "Text", "CData", "EntityReference", "Entity",
          "ProcessingInstruction", "Comment", "Document", "DocumentType",
          "DocumentFragment", "Notation"}

NewNode(ty, name, val, doc) ==
    [ty |-> ty, ns |-> name.ns, pf |-> name.pf, ln |-> name.ln, val |-> val,
     par |-> 0, kids |-> <<>>, doc |-> doc, own |-> 0, attrs |-> {},
     nsm |-> {}, ids |-> {}, dt |-> 0, opt |-> {}, decl |-> None,
     pub |-> None, sys |-> None, copied |-> FALSE]   \* copied: an attribute of a cloned element

Fixed(str) == NameOk(None, None, Cp(str))
TextName == Fixed("#text")
CDataName == Fixed("#cdata-section")
CommentName == Fixed("#comment")
DocumentName == Fixed("#document")
FragmentName == Fixed("#document-fragment")

(* What is left of a node that nothing holds any more: its number.         *)
Gone == NewNode("Gone", [ns |-> None, pf |-> None, ln |-> <<>>], None, 0)

NewText(data, doc) == NewNode("Text", TextName, Some(data), doc)

-----------------------------------------------------------------------------
(* Results: [k, e, n, s]; s is a sequence of optional strings.             *)
Res(k, n, s) == [k |-> k, e |-> "", n |-> n, s |-> s]
RUnit == Res("unit", <<>>, <<>>)
RErr(x) == [k |-> "err", e |-> x, n |-> <<>>, s |-> <<>>]
RPanic == Res("panic", <<>>, <<>>)
RNode(x) == Res("node", <<x>>, <<>>)
ROptNode(x) == Res("optnode", <<x>>, <<>>)
RNodes(x) == Res("nodes", x, <<>>)
RStr(o) == Res("str", <<>>, <<o>>)
RBool(b) == Res("bool", <<IF b THEN 1 ELSE 0>>, <<>>)
RInt(x) == Res("int", <<x>>, <<>>)

Out(S, r) == [S |-> S, R |-> {r}, m |-> "set"]
OutAny(S, rs) == [S |-> S, R |-> rs, m |-> "set"]
Fail(S, x) == Out(S, RErr(x))
FailAny(S, E) == OutAny(S, {RErr(x) : x \in E})
FailName(S, nm) == FailAny(S, nm.e)
Panics(S) == Out(S, RPanic)

-----------------------------------------------------------------------------
(* Sequences of nodes. *)
Pos(q, x) == IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
Has(q, x) == \E i \in 1..Len(q) : q[i] = x
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
InsertPos(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Elems(q) == {q[i] : i \in 1..Len(q)}

Is(S, n, ty) == S[n].ty = ty
QN(S, n) == QName(S[n].pf, S[n].ln)
IsChar(S, n) == S[n].ty \in {"Text", "CData", "Comment"}
DataOf(S, n) == IF S[n].val = None THEN <<>> ELSE S[n].val[1]

PrevSib(S, n) ==
    IF S[n].par = 0 THEN 0
    ELSE LET q == S[S[n].par].kids  i == Pos(q, n) IN IF i > 1 THEN q[i - 1] ELSE 0
NextSib(S, n) ==
    IF S[n].par = 0 THEN 0
    ELSE LET q == S[S[n].par].kids  i == Pos(q, n) IN IF i > 0 /\ i < Len(q) THEN q[i + 1] ELSE 0

(* A node knows its document for as long as that is there; which document  *)
(* it was is not forgotten.                                                *)
Owner(S, n) == IF S[n].doc # 0 /\ Is(S, S[n].doc, "Gone") THEN 0 ELSE S[n].doc

(* The node above: an attribute is not a child, its owner element is above. *)
Up(S, n) == IF S[n].ty = "Attribute" THEN S[n].own ELSE S[n].par
RECURSIVE IncAnc(_, _, _)
IncAnc(S, a, n) == IF n = 0 THEN FALSE ELSE IF n = a THEN TRUE ELSE IncAnc(S, a, Up(S, n))

-----------------------------------------------------------------------------
(* DOM Level 2, 1.1.1: which types may be children of which.               *)
Content == {"Element", "Text", "Comment", "ProcessingInstruction", "CData", "EntityReference"}
AllowedKids(ty) ==
    CASE ty \in {"Element", "EntityReference", "Entity", "DocumentFragment"} -> Content
      [] ty = "Attribute" -> {"Text", "EntityReference"}
      [] ty = "Document" -> {"Element", "Comment", "ProcessingInstruction"}
      [] OTHER -> {}
ChildAllowed(S, p, c) == S[c].ty \in AllowedKids(S[p].ty)

InsertionOk(S, p, c, replacing) ==
    /\ ChildAllowed(S, p, c)
    /\ ~IncAnc(S, c, p)
    /\ (Is(S, p, "Document") /\ Is(S, c, "Element")) =>
          \A k \in Elems(S[p].kids) : Is(S, k, "Element") => k \in {c, replacing}

SameDocument(S, p, c) ==
    \/ S[c].doc = 0
    \/ S[c].doc = (IF Is(S, p, "Document") THEN p ELSE S[p].doc)

Detach(S, c) ==
    IF S[c].par = 0 THEN S
    ELSE [S EXCEPT ![S[c].par].kids = Without(@, c), ![c].par = 0]

(* Put c among the children of p before ref, or last if ref is 0.          *)
Place(S, p, c, ref) ==
    IF ref = c THEN S
    ELSE LET S1 == Detach(S, c)
             q == S1[p].kids
             i == IF ref = 0 THEN Len(q) + 1 ELSE Pos(q, ref)
             d == IF Is(S, p, "Document") THEN p ELSE S[p].doc
         IN [S1 EXCEPT ![p].kids = InsertPos(q, i, c), ![c].par = p, ![c].doc = d]

(* Where more than one error applies, any of them may be reported.         *)
InsertBefore(S, p, c, ref) ==
    LET E == (IF InsertionOk(S, p, c, 0) THEN {} ELSE {"HierarchyRequest"})
             \cup (IF ref # 0 /\ ~Has(S[p].kids, ref) THEN {"NotFound"} ELSE {})
             \cup (IF SameDocument(S, p, c) THEN {} ELSE {"WrongDocument"})
    IN IF E # {} THEN FailAny(S, E) ELSE Out(Place(S, p, c, ref), RNode(c))

ReplaceChild(S, p, c, old) ==
    LET E == (IF InsertionOk(S, p, c, old) THEN {} ELSE {"HierarchyRequest"})
             \cup (IF Has(S[p].kids, old) THEN {} ELSE {"NotFound"})
             \cup (IF SameDocument(S, p, c) THEN {} ELSE {"WrongDocument"})
    IN IF E # {} THEN FailAny(S, E)
       ELSE IF c = old THEN Out(S, RNode(old))
       ELSE LET next == NextSib(S, old)
                S1 == Detach(S, old)
            IN Out(Place(S1, p, c, IF next = c THEN NextSib(S, c) ELSE next), RNode(old))

RemoveChild(S, p, old) ==
    IF ~Has(S[p].kids, old) THEN Fail(S, "NotFound")
    ELSE Out(Detach(S, old), RNode(old))

(* What DOM Level 2 asks for when the new child is a document fragment: its *)
(* children are moved. xml_dom rejects it (known finding), see Ideal below. *)
RECURSIVE PlaceAll(_, _, _, _)
PlaceAll(S, p, q, ref) ==
    IF q = <<>> THEN S ELSE PlaceAll(Place(S, p, q[1], ref), p, Tail(q), ref)
FragmentOk(S, p, f, replacing) ==
    /\ \A k \in Elems(S[f].kids) : ChildAllowed(S, p, k) /\ ~IncAnc(S, k, p)
    /\ ~IncAnc(S, f, p)
    /\ Is(S, p, "Document") =>
          Cardinality({k \in Elems(S[f].kids) \cup (Elems(S[p].kids) \ {replacing}) : Is(S, k, "Element")}) <= 1
FragmentInsert(S, p, f, ref, result, replacing) ==
    LET E == (IF FragmentOk(S, p, f, replacing) THEN {} ELSE {"HierarchyRequest"})
             \cup (IF ref # 0 /\ ~Has(S[p].kids, ref) THEN {"NotFound"} ELSE {})
             \cup (IF SameDocument(S, p, f) THEN {} ELSE {"WrongDocument"})
    IN IF E # {} THEN FailAny(S, E)
    ELSE LET S1 == PlaceAll(S, p, S[f].kids, ref)
         IN Out(IF replacing = 0 THEN S1 ELSE Detach(S1, replacing), RNode(result))

-----------------------------------------------------------------------------
(* Attribute values. *)
RECURSIVE RawR(_, _, _)
RawR(S, q, acc) ==
    IF q = <<>> THEN acc
    ELSE RawR(S, Tail(q),
              IF S[q[1]].ty \in {"Text", "EntityReference"} THEN acc \o DataOf(S, q[1]) ELSE acc)
AttrVal(S, a) == IF S[a].kids = <<>> THEN None ELSE Some(AttrText(RawR(S, S[a].kids, <<>>)))
IsPanic(o) == o # None /\ o[1] = PANIC
NodeVal(S, n) == IF Is(S, n, "Attribute") THEN AttrVal(S, n) ELSE S[n].val

(* xmlns attributes and ID attributes, by their names. *)
IsNsName(nm) == nm.ns = Some(XMLNSURI) /\ ((nm.ln = XMLNS /\ nm.pf = None) \/ nm.pf = Some(XMLNS))
DeclaredPrefix(nm) == IF nm.pf = None THEN None ELSE Some(nm.ln)
IsIdName(nm, lax) == nm.ln = IDNAME /\ (lax \/ nm.ns = Some(XMLURI) \/ nm.pf = Some(XML))
LaxIds(S, n) == S[n].doc # 0 /\ "id" \in S[S[n].doc].opt
NsOn(S, n) == S[n].doc # 0 /\ "ns" \in S[S[n].doc].opt
IsIdAttr(S, a) == IsIdName(S[a], LaxIds(S, a))
IdVal(S, a) == IF IsIdAttr(S, a) THEN AttrVal(S, a) ELSE None

IdLookup(S, d, v) ==
    IF \E x \in S[d].ids : x[1] = v THEN (CHOOSE x \in S[d].ids : x[1] = v)[2] ELSE 0
NsLookup(S, n, pf) == {x \in S[n].nsm : x[1] = pf}

MapNs(S, el, nm, v) ==      \* v: the attribute's value, optional
    IF IsNsName(nm) /\ v # None /\ NsOn(S, el)
    THEN [S EXCEPT ![el].nsm = {x \in @ : x[1] # DeclaredPrefix(nm)} \cup {<<DeclaredPrefix(nm), v[1]>>}]
    ELSE S
UnmapNs(S, el, nm) ==
    IF IsNsName(nm) /\ NsOn(S, el)
    THEN [S EXCEPT ![el].nsm = {x \in @ : x[1] # DeclaredPrefix(nm)}] ELSE S
MapId(S, el, v) ==
    IF v # None /\ Owner(S, el) # 0
    THEN [S EXCEPT ![S[el].doc].ids = {x \in @ : x[1] # v[1]} \cup {<<v[1], el>>}] ELSE S
(* a: an attribute which el has, or has just lost, with the value v.       *)
UnmapId(S, el, a, v) ==
    IF v # None /\ S[el].doc # 0 /\ IdLookup(S, S[el].doc, v[1]) = el
       /\ ~\E b \in S[el].attrs \ {a} : IdVal(S, b) = v
    THEN [S EXCEPT ![S[el].doc].ids = {x \in @ : x[1] # v[1]}] ELSE S
DuplicateId(S, el, v) ==
    v # None /\ S[el].doc # 0 /\ IdLookup(S, S[el].doc, v[1]) \notin {0, el}

DropAttr(S, el, a) ==
    LET S1 == [S EXCEPT ![el].attrs = @ \ {a}, ![a].own = 0]
    IN UnmapId(UnmapNs(S1, el, S[a]), el, a, IdVal(S1, a))

SameAttr(x, y) == QName(x.pf, x.ln) = QName(y.pf, y.ln) \/ (x.ns # None /\ x.ns = y.ns /\ x.ln = y.ln)

RECURSIVE DropAll(_, _, _)
DropAll(S, el, A) == IF A = {} THEN S
                     ELSE LET a == CHOOSE a \in A : TRUE IN DropAll(DropAttr(S, el, a), el, A \ {a})

(* Would setting, replacing or removing these attributes need a value that *)
(* cannot be had?                                                          *)
NeedsValue(S, a) == IsIdAttr(S, a) \/ IsNsName(S[a])
AttrPanics(S, a) == NeedsValue(S, a) /\ IsPanic(AttrVal(S, a))

SetAttr(S, el, a) ==
    LET E == (IF SameDocument(S, el, a) THEN {} ELSE {"WrongDocument"})
             \cup (IF S[a].own \notin {0, el} THEN {"InUseAttribute"} ELSE {})
             \cup (IF IncAnc(S, a, el) THEN {"HierarchyRequest"} ELSE {})
             \cup (IF ~AttrPanics(S, a) /\ DuplicateId(S, el, IdVal(S, a)) THEN {"Syntax"} ELSE {})
    IN IF ~Is(S, a, "Attribute") THEN Fail(S, "InvalidState")
       ELSE IF E # {} THEN FailAny(S, E)
       ELSE IF AttrPanics(S, a) THEN Panics(S)
       ELSE LET others == {b \in S[el].attrs \ {a} : SameAttr(S[b], S[a])}
            IN IF \E b \in others : IsIdAttr(S, b) /\ AttrPanics(S, b) THEN Panics(S)
               ELSE LET S1 == DropAll(S, el, others)
                     S2 == [S1 EXCEPT ![a].own = el, ![el].attrs = @ \cup {a}, ![a].copied = FALSE]
                     S3 == MapNs(S2, el, S[a], AttrVal(S2, a))
                 IN Out(MapId(S3, el, IdVal(S3, a)), RNode(a))

RemoveAttr(S, el, a) ==
    IF a \notin S[el].attrs THEN Fail(S, "NotFound")
    ELSE IF IsIdAttr(S, a) /\ IsPanic(AttrVal(S, a)) THEN Panics(S)
    ELSE Out(DropAttr(S, el, a), RNode(a))

(* A new attribute, and a text node for its value; it is node Len(S) + 1.  *)
AddAttr(S, name, val, doc) ==
    LET id == Len(S) + 1
        at == NewNode("Attribute", name, None, doc)
    IN IF val = None THEN Append(S, at)
       ELSE S \o <<[at EXCEPT !.kids = <<id + 1>>], [NewText(val[1], doc) EXCEPT !.par = id]>>

SetNewAttr(S, el, name, val) ==
    LET S1 == AddAttr(S, name, Some(val), S[el].doc)
        r == SetAttr(S1, el, Len(S) + 1)
    IN IF r.R = {RNode(Len(S) + 1)} THEN Out(r.S, RUnit) ELSE OutAny(S, r.R)

ClearKids(S, n) ==
    LET K == Elems(S[n].kids)
    IN [TLCEval([j \in 1..Len(S) |-> IF j \in K THEN [S[j] EXCEPT !.par = 0] ELSE S[j]]) EXCEPT ![n].kids = <<>>]

UnsetValue(S, a) ==
    LET el == S[a].own IN
    IF el # 0 /\ IsIdAttr(S, a) /\ IsPanic(AttrVal(S, a)) THEN Panics(S)
    ELSE LET S1 == IF el = 0 THEN S ELSE UnmapId(UnmapNs(S, el, S[a]), el, a, IdVal(S, a))
         IN Out(ClearKids(S1, a), RUnit)

SetValue(S, a, v) ==
    LET el == S[a].own
        new == IF el # 0 /\ NeedsValue(S, a) THEN AttrText(v) ELSE <<>>
        newId == IF IsIdAttr(S, a) THEN Some(new) ELSE None
    IN IF new = PANIC THEN Panics(S)
       ELSE IF el # 0 /\ DuplicateId(S, el, newId) THEN Fail(S, "Syntax")
       ELSE LET u == UnsetValue(S, a) IN
            IF u.R = {RPanic} THEN u
            ELSE LET id == Len(S) + 1
                     S1 == Append([u.S EXCEPT ![a].kids = <<id>>, ![a].copied = FALSE],
                                  [NewText(v, S[a].doc) EXCEPT !.par = a])
                     S2 == IF el = 0 THEN S1 ELSE MapId(MapNs(S1, el, S[a], Some(new)), el, newId)
                 IN Out(S2, RUnit)

SetNodeValue(S, n, v) ==
    IF Is(S, n, "Attribute") THEN SetValue(S, n, v)
    ELSE IF S[n].ty \in {"Document", "DocumentFragment", "DocumentType", "Element", "Notation"} THEN Out(S, RUnit)
    ELSE Out([S EXCEPT ![n].val = Some(v)], RUnit)
UnsetNodeValue(S, n) ==
    IF Is(S, n, "Attribute") THEN UnsetValue(S, n) ELSE Out([S EXCEPT ![n].val = None], RUnit)

(* Attributes by name. *)
AttrsNamed(S, el, qn) == {a \in S[el].attrs : QN(S, a) = qn}
AttrsNamedNs(S, el, uri, ln) == {a \in S[el].attrs : S[a].ns = Some(uri) /\ S[a].ln = ln}
The(A) == IF A = {} THEN 0 ELSE CHOOSE a \in A : TRUE
FindAttr(S, el, qn) == IF ParseName(qn).ok THEN The(AttrsNamed(S, el, qn)) ELSE 0
FindAttrNs(S, el, uri, ln) == IF ParseNameNs(uri, ln).ok THEN The(AttrsNamedNs(S, el, uri, ln)) ELSE 0

StrOrPanic(S, o) == IF IsPanic(o) THEN Panics(S) ELSE Out(S, RStr(o))

-----------------------------------------------------------------------------
(* Namespace resolution. Optional strings; sets, as a URI may have several *)
(* prefixes.                                                               *)
GetNs(S, n, pf) ==
    IF NsOn(S, n) /\ Is(S, n, "Element") /\ NsLookup(S, n, pf) # {}
    THEN Some((CHOOSE x \in NsLookup(S, n, pf) : TRUE)[2]) ELSE None
RECURSIVE ResolveNs(_, _, _)
ResolveNs(S, n, pf) ==
    IF n = 0 \/ ~NsOn(S, n) THEN None
    ELSE IF GetNs(S, n, pf) # None THEN GetNs(S, n, pf)
    ELSE ResolveNs(S, IF Is(S, n, "Attribute") THEN 0 ELSE S[n].par, pf)
PrefixesOf(S, n, uri) ==
    IF NsOn(S, n) /\ Is(S, n, "Element") THEN {x[1] : x \in {y \in S[n].nsm : y[2] = uri}} ELSE {}
RECURSIVE ResolvePf(_, _, _)
ResolvePf(S, n, uri) ==
    IF n = 0 \/ ~NsOn(S, n) THEN {}
    ELSE IF PrefixesOf(S, n, uri) # {} THEN PrefixesOf(S, n, uri)
    ELSE ResolvePf(S, IF Is(S, n, "Attribute") THEN 0 ELSE S[n].par, uri)
RPrefix(p) == IF p = None THEN Res("prefix", <<1>>, <<None>>) ELSE Res("prefix", <<2>>, <<p>>)
RPrefixes(P) == IF P = {} THEN {Res("prefix", <<0>>, <<None>>)} ELSE {RPrefix(p) : p \in P}

-----------------------------------------------------------------------------
(* Character data: offsets and counts are in bytes of UTF-8; -1 is the     *)
(* largest usize.                                                          *)
ByteRange(s, off, cnt) ==
    LET L == ByteLen(s)
        end == IF cnt = -1 \/ off + cnt > L THEN L ELSE off + cnt
    IN IF off = -1 \/ off > L THEN [ok |-> FALSE, a |-> 0, b |-> 0]
       ELSE LET a == CharsAt(s, off)  b == CharsAt(s, end)
            IN [ok |-> a # -1 /\ b # -1, a |-> a, b |-> b]

ReplaceData(S, n, off, cnt, new) ==
    LET s == DataOf(S, n)  r == ByteRange(s, off, cnt) IN
    IF ~r.ok THEN Fail(S, "IndexSize")
    ELSE LET t == SubSeq(s, 1, r.a) \o new \o SubSeq(s, r.b + 1, Len(s))
         IN Out([S EXCEPT ![n].val = IF @ = None /\ t = <<>> THEN None ELSE Some(t)], RUnit)

SubstringData(S, n, off, cnt) ==
    LET s == DataOf(S, n)  r == ByteRange(s, off, cnt) IN
    IF ~r.ok THEN Fail(S, "IndexSize") ELSE Out(S, RStr(Some(SubSeq(s, r.a + 1, r.b))))

AppendData(S, n, new) ==
    IF new = <<>> THEN Out(S, RUnit) ELSE Out([S EXCEPT ![n].val = Some(DataOf(S, n) \o new)], RUnit)

Split(S, n, off) ==
    LET s == DataOf(S, n)
        past == off = -1 \/ off >= ByteLen(s)
        k == IF past THEN Len(s) ELSE CharsAt(s, off)
        id == Len(S) + 1
        p == S[n].par
    IN IF k = -1 THEN Fail(S, "IndexSize")
       ELSE LET S1 == IF past THEN S ELSE [S EXCEPT ![n].val = Some(SubSeq(s, 1, k))]
                S2 == Append(S1, [S[n] EXCEPT !.val = Some(SubSeq(s, k + 1, Len(s))), !.par = p])
                S3 == IF p = 0 THEN S2
                      ELSE [S2 EXCEPT ![p].kids = InsertPos(@, Pos(@, n) + 1, id)]
            IN Out(S3, RNode(id))

RECURSIVE Normal(_, _), NormalKids(_, _, _), NormalAll(_, _)
Normal(S, n) ==
    LET S1 == NormalKids(S, n, S[n].kids)
    IN IF Is(S, n, "Element") THEN NormalAll(S1, S[n].attrs) ELSE S1
NormalKids(S, p, q) ==
    IF q = <<>> THEN S
    ELSE LET c == q[1]  v == PrevSib(S, c) IN
         IF ~Is(S, c, "Text") THEN NormalKids(Normal(S, c), p, Tail(q))
         ELSE IF DataOf(S, c) = <<>> THEN NormalKids(Detach(S, c), p, Tail(q))
         ELSE IF v # 0 /\ Is(S, v, "Text")
              THEN NormalKids([Detach(S, c) EXCEPT ![v].val = Some(DataOf(S, v) \o DataOf(S, c))], p, Tail(q))
         ELSE NormalKids(S, p, Tail(q))
NormalAll(S, A) == IF A = {} THEN S ELSE LET a == CHOOSE a \in A : TRUE IN NormalAll(Normal(S, a), A \ {a})

-----------------------------------------------------------------------------
(* Cloning. *)
AttrsSorted(S, n) == SetToSortSeq(S[n].attrs, LAMBDA a, b : StrLess(QN(S, a), QN(S, b)))
RECURSIVE Clone(_, _, _, _, _), CloneList(_, _, _, _, _, _)
Clone(S, n, deep, par, own) ==
    LET id == Len(S) + 1
        S1 == Append(S, [S[n] EXCEPT !.par = par, !.own = own, !.kids = <<>>, !.attrs = {},
                                      !.copied = (own # 0)])
        A == CloneList(S1, AttrsSorted(S, n), TRUE, 0, id, <<>>)
        K == IF deep \/ Is(S, n, "Attribute") THEN CloneList(A.S, S[n].kids, deep, id, 0, <<>>)
             ELSE [S |-> A.S, l |-> <<>>]
    IN [K.S EXCEPT ![id].attrs = Elems(A.l), ![id].kids = K.l]
CloneList(S, q, deep, par, own, acc) ==
    IF q = <<>> THEN [S |-> S, l |-> acc]
    ELSE CloneList(Clone(S, q[1], deep, par, own), Tail(q), deep, par, own, Append(acc, Len(S) + 1))
(* The clone of a document owns what is in it; its document type is a      *)
(* clone, too, and its IDs lead to the clones of the elements.             *)
RECURSIVE TopOf(_, _), Image(_, _, _, _)
TopOf(S, n) == IF S[n].par = 0 THEN n ELSE TopOf(S, S[n].par)
Image(T, n, m, x) ==      \* the clone of x: m is the clone of n, which is above it
    IF x = n THEN m ELSE LET p == T[x].par IN T[Image(T, n, m, p)].kids[Pos(T[p].kids, x)]
CloneDocument(S, n, deep) ==
    LET m == Len(S) + 1
        T == Clone(S, n, deep, 0, 0)
        U == IF T[n].dt = 0 THEN T ELSE Clone(T, T[n].dt, TRUE, 0, 0)
        ids == {<<x[1], Image(T, n, m, x[2])>> : x \in {y \in S[n].ids : deep /\ TopOf(S, y[2]) = n}}
    IN TLCEval([k \in 1..Len(U) |->
           IF k < m THEN U[k]
           ELSE IF k = m THEN [U[k] EXCEPT !.dt = IF @ = 0 THEN 0 ELSE Len(T) + 1, !.ids = ids]
           ELSE [U[k] EXCEPT !.doc = m]])

-----------------------------------------------------------------------------
(* Searching by tag name: the element itself, then its element descendants, *)
(* in document order.                                                       *)
STAR == <<42>>
StrMatch(x, y) == x = y \/ x = STAR \/ y = STAR
RECURSIVE Preorder(_, _)
Preorder(S, n) ==
    <<n>> \o FlattenSeq(TLCEval([i \in 1..Len(S[n].kids) |->
                 IF Is(S, S[n].kids[i], "Element") THEN Preorder(S, S[n].kids[i]) ELSE <<>>]))
ByTag(S, n, tag) == SelectSeq(Preorder(S, n), LAMBDA x : StrMatch(QN(S, x), tag))
ByTagNs(S, n, uri, ln) ==
    SelectSeq(Preorder(S, n),
              LAMBDA x : /\ StrMatch(S[x].ln, ln)
                         /\ IF S[x].ns = None THEN uri = STAR ELSE StrMatch(S[x].ns[1], uri))
RootElement(S, d) ==
    LET q == SelectSeq(S[d].kids, LAMBDA k : Is(S, k, "Element")) IN IF q = <<>> THEN 0 ELSE q[1]

-----------------------------------------------------------------------------
(* Documents. *)
OptFlags(bits) == (IF bits % 2 = 1 THEN {"id"} ELSE {}) \cup
                  (IF (bits \div 2) % 2 = 1 THEN {"ent"} ELSE {}) \cup
                  (IF (bits \div 4) % 2 = 1 THEN {"ns"} ELSE {})
CreateDocument(S, ns, qn, dt, opt) ==
    LET id == Len(S) + 1
        nm == IF qn = None THEN NameErr(IF ns = None THEN {} ELSE {"Namespace"})
              ELSE IF ns = None THEN ParseName(qn[1]) ELSE ParseNameNs(ns[1], qn[1])
        E == nm.e \cup (IF dt # 0 /\ Owner(S, dt) # 0 THEN {"WrongDocument"} ELSE {})
                  \cup (IF dt # 0 /\ ~Is(S, dt, "DocumentType") THEN {"InvalidState"} ELSE {})
        S0 == IF dt = 0 THEN S ELSE [S EXCEPT ![dt].doc = id]
        doc == [NewNode("Document", DocumentName, None, 0) EXCEPT !.dt = dt, !.opt = opt]
    IN IF E # {} THEN FailAny(S, E)
       ELSE IF qn = None THEN Out(Append(S0, doc), RNode(id))
       ELSE Out(S0 \o <<[doc EXCEPT !.kids = <<id + 1>>],
                         [NewNode("Element", nm, None, id) EXCEPT !.par = id]>>, RNode(id))

CreateNamed(S, ty, nm, val, doc) ==
    IF ~nm.ok THEN FailName(S, nm)
    ELSE Out(Append(S, NewNode(ty, nm, val, doc)), RNode(Len(S) + 1))
CreateExt(S, ty, name, val, pub, sys, doc) ==
    LET nm == ParseName(name)
        E == nm.e \cup (IF doc # 0 /\ ~Is(S, doc, "Document") THEN {"InvalidState"} ELSE {})
    IN IF E # {} THEN FailAny(S, E)
       ELSE Out(Append(S, [NewNode(ty, nm, val, doc) EXCEPT !.pub = pub, !.sys = sys]), RNode(Len(S) + 1))
CreateAttr(S, nm, val, doc) ==
    IF ~nm.ok THEN FailName(S, nm) ELSE Out(AddAttr(S, nm, val, doc), RNode(Len(S) + 1))

Feature(f, v) == Lower(f) \in {Cp("core"), XML} /\ v \in {<<>>, Cp("1.0"), Cp("2.0")}

-----------------------------------------------------------------------------
(* Lifetimes. Nodes hold their children and attributes, documents also     *)
(* their document type, and never what is above. The observer holds every  *)
(* node that it has seen; when it lets go of one which no other node holds, *)
(* that one is gone, and what it held is on its own.                       *)
HeldByNode(S, n) == S[n].par # 0 \/ S[n].own # 0 \/ \E d \in 1..Len(S) : S[d].dt = n
Release(S, n) ==
    Out(TLCEval([k \in 1..Len(S) |->
            IF k = n THEN Gone
            ELSE [S[k] EXCEPT !.par = IF @ = n THEN 0 ELSE @, !.own = IF @ = n THEN 0 ELSE @,
                              !.ids = {x \in @ : x[2] # n}]]), RUnit)

-----------------------------------------------------------------------------
(* Serialization. The order of an element's attributes is not determined,  *)
(* so it is a relation: SerEnd(S, n, t, i) is the position after the text  *)
(* of n, if t has that text at i, and otherwise 0.                         *)
Quote(s) == <<34>> \o s \o <<34>>
SP == <<32>>
OptSer(o) == IF o = None THEN <<>> ELSE o[1]
At(t, i, lit) == i # 0 /\ i + Len(lit) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(lit) - 1) = lit
Lit(t, i, lit) == IF At(t, i, lit) THEN i + Len(lit) ELSE 0

AttrSer(S, a) == QN(S, a) \o Cp("=") \o Quote(OptSer(AttrVal(S, a)))
ExternalId(pub, sys) ==
    IF pub # None THEN Cp(" PUBLIC ") \o Quote(pub[1]) \o (IF sys # None THEN SP \o Quote(sys[1]) ELSE <<>>)
    ELSE IF sys # None THEN Cp(" SYSTEM ") \o Quote(sys[1]) ELSE <<>>
DeclSer(d) ==      \* <<version, encoding, standalone>>, optional strings
    Cp("<?xml version=") \o Quote(d[1][1])
    \o (IF d[2] = None THEN <<>> ELSE Cp(" encoding=") \o Quote(d[2][1]))
    \o (IF d[3] = None THEN <<>> ELSE Cp(" standalone=") \o Quote(d[3][1]))
    \o Cp("?>")
DocTypeSer(S, n) ==
    Cp("<!DOCTYPE ") \o QN(S, n)
    \o (IF S[n].pub = None THEN <<>> ELSE Cp(" PUBLIC ") \o Quote(S[n].pub[1]))
    \o (IF S[n].sys = None THEN <<>> ELSE Cp(" SYSTEM ") \o Quote(S[n].sys[1]))
    \o Cp(">")

(* The text of a node which has no unordered part. *)
LeafSer(S, n) ==
    LET x == S[n] IN
    CASE x.ty = "Text" -> IF x.val = None THEN <<>> ELSE Escape(x.val[1])
      [] x.ty = "CData" -> IF x.val = None THEN <<>> ELSE Cp("<![CDATA[ ") \o x.val[1] \o Cp(" ]]>")
      [] x.ty = "Comment" -> IF x.val = None THEN <<>> ELSE Cp("<!--") \o Escape(x.val[1]) \o Cp("-->")
      [] x.ty = "ProcessingInstruction" ->
            Cp("<?") \o QN(S, n) \o (IF x.val = None THEN <<>> ELSE SP \o x.val[1]) \o Cp("?>")
      [] x.ty = "EntityReference" -> Cp("&") \o QN(S, n) \o Cp(";")
      [] x.ty = "Attribute" -> AttrSer(S, n)
      [] x.ty = "DocumentType" -> DocTypeSer(S, n)
      [] x.ty = "Entity" ->
            Cp("<!ENTITY ") \o QN(S, n)
            \o (IF x.pub = None /\ x.sys = None THEN SP \o Quote(OptSer(x.val)) ELSE ExternalId(x.pub, x.sys))
            \o Cp(">")
      [] x.ty = "Notation" -> Cp("<!NOTATION ") \o QN(S, n) \o ExternalId(x.pub, x.sys) \o Cp(">")

(* F of a value which is computed once, and first. *)
Forced(F(_), v) == CHOOSE r \in {F(x) : x \in {v}} : TRUE
RECURSIVE SerEnd(_, _, _, _), SerKids(_, _, _, _), SerAttrs(_, _, _, _)
SerEnd(S, n, t, i) ==
    IF i = 0 THEN 0
    ELSE CASE S[n].ty = "Element" ->
                Forced(LAMBDA a : Forced(LAMBDA k : Lit(t, k, Cp("</") \o QN(S, n) \o <<62>>), SerKids(S, S[n].kids, t, a)),
                    Lit(t, SerAttrs(S, S[n].attrs, t, Lit(t, i, <<60>> \o QN(S, n))), <<62>>))
           [] S[n].ty = "Document" ->
                LET j == IF S[n].decl = None THEN i ELSE Lit(t, i, DeclSer(S[n].decl[1]))
                    k == IF S[n].dt = 0 THEN j ELSE Lit(t, j, DocTypeSer(S, S[n].dt))
                IN Forced(LAMBDA a : SerKids(S, S[n].kids, t, a), k)
           [] S[n].ty = "DocumentFragment" ->
                Forced(LAMBDA a : Forced(LAMBDA k : Lit(t, k, Cp("]]>")), SerKids(S, S[n].kids, t, a)),
                    Lit(t, i, Cp("<![CDATA[#document-fragment ")))
           [] OTHER -> Lit(t, i, LeafSer(S, n))
SerKids(S, q, t, i) ==
    IF q = <<>> \/ i = 0 THEN i ELSE Forced(LAMBDA j : SerKids(S, Tail(q), t, j), SerEnd(S, q[1], t, i))
SerAttrs(S, A, t, i) ==
    IF A = {} \/ i = 0 THEN i
    ELSE LET M == {a \in A : At(t, i, SP \o AttrSer(S, a))}
         IN IF M = {} THEN 0
            ELSE LET a == CHOOSE a \in M : TRUE
                 IN SerAttrs(S, A \ {a}, t, i + 1 + Len(AttrSer(S, a)))
SerOk(S, n, t) == SerEnd(S, n, t, 1) = Len(t) + 1

(* One text that SerOk accepts: attributes in the order of their names.    *)
RECURSIVE Ser(_, _)
Ser(S, n) ==
    LET kids == FlattenSeq(TLCEval([i \in 1..Len(S[n].kids) |-> Ser(S, S[n].kids[i])]))
        at == AttrsSorted(S, n)
    IN CASE S[n].ty = "Element" ->
              <<60>> \o QN(S, n) \o FlattenSeq([i \in 1..Len(at) |-> SP \o AttrSer(S, at[i])]) \o <<62>>
              \o kids \o Cp("</") \o QN(S, n) \o <<62>>
         [] S[n].ty = "Document" ->
              (IF S[n].decl = None THEN <<>> ELSE DeclSer(S[n].decl[1]))
              \o (IF S[n].dt = 0 THEN <<>> ELSE DocTypeSer(S, S[n].dt)) \o kids
         [] S[n].ty = "DocumentFragment" -> Cp("<![CDATA[#document-fragment ") \o kids \o Cp("]]>")
         [] OTHER -> LeafSer(S, n)

RECURSIVE SubTree(_, _)
SubTree(S, n) ==      \* what the text of n shows
    IF S[n].ty = "EntityReference" THEN {n}
    ELSE {n} \cup S[n].attrs \cup UNION {SubTree(S, S[n].kids[i]) : i \in 1..Len(S[n].kids)}
SerPanics(S, n) ==
    \E x \in SubTree(S, n) : Is(S, x, "Attribute") /\ IsPanic(AttrVal(S, x))

-----------------------------------------------------------------------------
(* The type test and cast functions, in the order in which they are called. *)
Casts == <<"Attribute", "Element", "CharacterData", "Text", "CData", "EntityReference", "Entity",
           "ProcessingInstruction", "Comment", "Document", "DocumentType", "DocumentFragment",
           "Notation", "DocumentDecl", "Namespaced">>
CastOk(ty, c) ==
    CASE c = "CharacterData" -> ty \in {"Text", "CData", "Comment"}
      [] c = "DocumentDecl" -> ty = "Document"
      [] c = "Namespaced" -> ty = "Element"
      [] OTHER -> ty = c

Bits3(x, i) == (x \div (CASE i = 0 -> 1 [] i = 1 -> 2 [] i = 2 -> 4)) % 2
BinStr(x) == Cp("00000") \o <<48 + Bits3(x, 2), 48 + Bits3(x, 1), 48 + Bits3(x, 0)>>
RECURSIVE JoinComma(_)
JoinComma(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o Cp(", ") \o JoinComma(Tail(q))
OptionsStr(x) ==
    Cp("ProcessingOptions {")
    \o JoinComma((IF Bits3(x, 0) = 1 THEN <<Cp("AssumeIDs")>> ELSE <<>>)
                 \o (IF Bits3(x, 1) = 1 THEN <<Cp("ParseEntities")>> ELSE <<>>)
                 \o (IF Bits3(x, 2) = 1 THEN <<Cp("AddNamespaces")>> ELSE <<>>))
    \o Cp("}")

RName(nm) ==
    Res("name", <<IF IsNsName(nm) THEN 1 ELSE 0, IF IsIdName(nm, FALSE) THEN 1 ELSE 0,
                  IF IsIdName(nm, TRUE) THEN 1 ELSE 0>>,
        <<nm.ns, nm.pf, Some(nm.ln), Some(QName(nm.pf, nm.ln))>>)

Version(i) == IF i = 0 THEN Cp("1.0") ELSE Cp("1.1")
DeclOfArgs(v, enc, sa) ==
    <<Some(Version(v)), enc, IF sa = 2 THEN None ELSE Some(IF sa = 1 THEN Cp("yes") ELSE Cp("no"))>>
MadeName(uri, s) == IF uri = None THEN ParseName(s) ELSE ParseNameNs(uri[1], s)
ROptions(b) ==
    Res("options", <<IF b = 0 THEN 1 ELSE 0, Bits3(b, 0), Bits3(b, 1), Bits3(b, 2), 1>>,
        <<Some(OptionsStr(b)), Some(BinStr(b)), Some(Cp("0b") \o BinStr(b))>>)
(* The bits which at least k of x and y have. *)
BitFold(x, y, k) ==
    LET b(i) == IF Bits3(x, i) + Bits3(y, i) >= k THEN 1 ELSE 0 IN b(0) + 2 * b(1) + 4 * b(2)

-----------------------------------------------------------------------------
(* Operations, by the interface to which they belong. Calling one on a     *)
(* node of another type fails in the cast, before anything else.           *)
TreeOps == {"insert_before", "append_child", "replace_child", "remove_child"}
NodeOps == TreeOps \cup {"clone_node", "normalize", "set_node_value", "unset_node_value",
                         "is_supported", "to_string", "debug", "casts", "views"}
AttrOps == {"set_value", "unset_value"}
CharOps == {"substring_data", "append_data", "insert_data", "delete_data", "replace_data",
            "set_data", "unset_data"}
TextOps == {"split"}
PIOps == {"pi_set_data", "pi_unset_data"}
ElemReadOps == {"get_attribute", "get_attribute_ns", "get_attribute_node", "get_attribute_node_ns",
                "has_attribute", "has_attribute_ns"}
ElemWriteOps == {"set_attribute", "set_attribute_ns", "set_attribute_node", "set_attribute_node_ns",
                 "remove_attribute", "remove_attribute_ns", "remove_attribute_node"}
ElemFindOps == {"elem_by_tag", "elem_by_tag_ns"}
NsOps == {"contains_mapping", "get_namespace", "resolve_namespace", "contains_mapped_namespace",
          "get_prefix", "resolve_prefix"}
DocCreateOps == {"create_attribute", "create_attribute_with", "create_attribute_ns",
                 "create_cdata_section", "create_document_fragment", "create_entity_reference",
                 "create_comment", "create_element", "create_element_ns",
                 "create_processing_instruction", "create_text_node"}
DocFindOps == {"doc_by_tag", "doc_by_tag_ns", "get_element_by_id"}
DeclOps == {"set_xml_declaration"}
FactoryOps == {"create_document", "create_document_with_options", "create_document_type",
               "create_notation", "create_entity", "create_internal_entity", "has_feature"}
LifeOps == {"release"}
PureOps == {"name_parse", "name_new_ns", "name_bytes", "name_raw", "name_set_prefix", "name_for", "name_eq",
            "options", "options_seq", "options_and", "options_or", "xml_version", "xml_decl", "prefix_value", "codes"}

ElemOps == ElemReadOps \cup ElemWriteOps \cup ElemFindOps \cup NsOps
DocOps == DocCreateOps \cup DocFindOps \cup DeclOps
Needs(op) ==
    CASE op \in AttrOps -> {"Attribute"}
      [] op \in CharOps -> {"Text", "CData", "Comment"}
      [] op \in TextOps -> {"Text", "CData"}
      [] op \in PIOps -> {"ProcessingInstruction"}
      [] op \in ElemOps -> {"Element"}
      [] op \in DocOps -> {"Document"}
      [] OTHER -> Types

(* What all the methods that only read say of a node.                       *)
Views(S, n) ==
    LET x == S[n]
        v == NodeVal(S, n)
        at == x.ty = "Attribute"
        ids(ty) == IF x.ty = ty THEN <<x.pub, x.sys>> ELSE <<None, None>>
        bytes == IF v = None THEN 0 ELSE ByteLen(v[1])
    IN Res("views", <<x.own, x.dt, bytes, bytes, 0, 1>>,
           <<IF at THEN v ELSE None, IF x.ty \in {"Text", "Comment"} /\ v # None THEN Some(Escape(v[1])) ELSE v, v,
             Some(QN(S, n)), Some(QN(S, n)), IF x.decl = None THEN None ELSE Some(DeclSer(x.decl[1]))>>
           \o ids("DocumentType") \o <<None>> \o ids("Entity") \o <<None>> \o ids("Notation"))

ApplyNode(S, e, t) ==
    LET op == e.op IN
    CASE op = "insert_before" -> InsertBefore(S, t, e.n[2], e.n[3])
      [] op = "append_child" -> InsertBefore(S, t, e.n[2], 0)
      [] op = "replace_child" -> ReplaceChild(S, t, e.n[2], e.n[3])
      [] op = "remove_child" -> RemoveChild(S, t, e.n[2])
      [] op = "clone_node" ->
           Out(IF Is(S, t, "Document") THEN CloneDocument(S, t, e.i[1] = 1) ELSE Clone(S, t, e.i[1] = 1, 0, 0),
               RNode(Len(S) + 1))
      [] op = "normalize" -> Out(Normal(S, t), RUnit)
      [] op = "set_node_value" -> SetNodeValue(S, t, e.s[1][1])
      [] op = "unset_node_value" -> UnsetNodeValue(S, t)
      [] op = "is_supported" -> Out(S, RBool(Feature(e.s[1][1], e.s[2][1])))
      [] op = "casts" ->
           Out(S, Res("casts", [k \in 1..Len(Casts) |-> IF CastOk(S[t].ty, Casts[k]) THEN 1 ELSE 0], <<>>))
      [] op = "views" -> IF IsPanic(NodeVal(S, t)) THEN Panics(S) ELSE Out(S, Views(S, t))
      [] op = "debug" -> Out(S, RBool(TRUE))       \* there is a description of every node
      [] op = "to_string" ->
           IF SerPanics(S, t) THEN Panics(S)
           ELSE [S |-> S, R |-> {RStr(Some(Ser(S, t)))}, m |-> "ser"]

ApplyChar(S, e, t) ==
    LET op == e.op IN
    CASE op = "substring_data" -> SubstringData(S, t, e.i[1], e.i[2])
      [] op = "append_data" -> AppendData(S, t, e.s[1][1])
      [] op = "insert_data" -> ReplaceData(S, t, e.i[1], 0, e.s[1][1])
      [] op = "delete_data" -> ReplaceData(S, t, e.i[1], e.i[2], <<>>)
      [] op = "replace_data" -> ReplaceData(S, t, e.i[1], e.i[2], e.s[1][1])
      [] op \in {"set_data", "pi_set_data"} -> SetNodeValue(S, t, e.s[1][1])
      [] op \in {"unset_data", "pi_unset_data"} -> UnsetNodeValue(S, t)
      [] op = "split" -> Split(S, t, e.i[1])

ApplyElem(S, e, t) ==
    LET op == e.op IN
    CASE op = "get_attribute" ->
           LET a == FindAttr(S, t, e.s[1][1]) IN StrOrPanic(S, IF a = 0 THEN None ELSE AttrVal(S, a))
      [] op = "get_attribute_ns" ->
           LET a == FindAttrNs(S, t, e.s[1][1], e.s[2][1])
           IN StrOrPanic(S, IF a = 0 THEN None ELSE AttrVal(S, a))
      [] op = "get_attribute_node" -> Out(S, ROptNode(FindAttr(S, t, e.s[1][1])))
      [] op = "get_attribute_node_ns" -> Out(S, ROptNode(FindAttrNs(S, t, e.s[1][1], e.s[2][1])))
      [] op = "has_attribute" -> Out(S, RBool(FindAttr(S, t, e.s[1][1]) # 0))
      [] op = "has_attribute_ns" ->
           LET nm == ParseNameNs(e.s[1][1], e.s[2][1])
           IN Out(S, RBool(nm.ok /\ AttrsNamedNs(S, t, e.s[1][1], nm.ln) # {}))
      [] op = "set_attribute" ->
           LET nm == ParseName(e.s[1][1])
           IN IF nm.ok THEN SetNewAttr(S, t, nm, e.s[2][1]) ELSE FailName(S, nm)
      [] op = "set_attribute_ns" ->
           LET nm == ParseNameNs(e.s[1][1], e.s[2][1])
           IN IF nm.ok THEN SetNewAttr(S, t, nm, e.s[3][1]) ELSE FailName(S, nm)
      [] op \in {"set_attribute_node", "set_attribute_node_ns"} -> SetAttr(S, t, e.n[2])
      [] op \in {"remove_attribute", "remove_attribute_ns"} ->
           LET a == IF op = "remove_attribute" THEN FindAttr(S, t, e.s[1][1])
                    ELSE FindAttrNs(S, t, e.s[1][1], e.s[2][1])
               r == RemoveAttr(S, t, a)
           IN IF a = 0 THEN Out(S, RUnit) ELSE IF r.R = {RPanic} THEN r ELSE Out(r.S, RUnit)
      [] op = "remove_attribute_node" -> RemoveAttr(S, t, e.n[2])
      [] op = "elem_by_tag" -> Out(S, RNodes(ByTag(S, t, e.s[1][1])))
      [] op = "elem_by_tag_ns" -> Out(S, RNodes(ByTagNs(S, t, e.s[1][1], e.s[2][1])))
      [] op = "contains_mapping" -> Out(S, RBool(GetNs(S, t, e.s[1]) # None))
      [] op = "get_namespace" -> Out(S, RStr(GetNs(S, t, e.s[1])))
      [] op = "resolve_namespace" -> Out(S, RStr(ResolveNs(S, t, e.s[1])))
      [] op = "contains_mapped_namespace" -> Out(S, RBool(PrefixesOf(S, t, e.s[1][1]) # {}))
      [] op = "get_prefix" -> OutAny(S, RPrefixes(PrefixesOf(S, t, e.s[1][1])))
      [] op = "resolve_prefix" -> OutAny(S, RPrefixes(ResolvePf(S, t, e.s[1][1])))

ApplyDoc(S, e, t) ==
    LET op == e.op IN
    CASE op = "create_attribute" -> CreateAttr(S, ParseName(e.s[1][1]), None, t)
      [] op = "create_attribute_with" -> CreateAttr(S, ParseName(e.s[1][1]), e.s[2], t)
      [] op = "create_attribute_ns" -> CreateAttr(S, ParseNameNs(e.s[1][1], e.s[2][1]), None, t)
      [] op = "create_cdata_section" -> CreateNamed(S, "CData", CDataName, e.s[1], t)
      [] op = "create_document_fragment" -> CreateNamed(S, "DocumentFragment", FragmentName, None, t)
      [] op = "create_entity_reference" -> CreateNamed(S, "EntityReference", ParseName(e.s[1][1]), None, t)
      [] op = "create_comment" -> CreateNamed(S, "Comment", CommentName, e.s[1], t)
      [] op = "create_element" -> CreateNamed(S, "Element", ParseName(e.s[1][1]), None, t)
      [] op = "create_element_ns" -> CreateNamed(S, "Element", ParseNameNs(e.s[1][1], e.s[2][1]), None, t)
      [] op = "create_processing_instruction" ->
           IF Lower(e.s[1][1]) = XML THEN Fail(S, "Syntax")
           ELSE CreateNamed(S, "ProcessingInstruction", ParseName(e.s[1][1]), e.s[2], t)
      [] op = "create_text_node" -> CreateNamed(S, "Text", TextName, e.s[1], t)
      [] op = "get_element_by_id" -> Out(S, ROptNode(IdLookup(S, t, e.s[1][1])))
      [] op = "doc_by_tag" ->
           Out(S, RNodes(IF RootElement(S, t) = 0 THEN <<>> ELSE ByTag(S, RootElement(S, t), e.s[1][1])))
      [] op = "doc_by_tag_ns" ->
           Out(S, RNodes(IF RootElement(S, t) = 0 THEN <<>>
                         ELSE ByTagNs(S, RootElement(S, t), e.s[1][1], e.s[2][1])))
      [] op = "set_xml_declaration" ->
           Out([S EXCEPT ![t].decl = Some(DeclOfArgs(e.i[1], e.s[1], e.i[2]))], RUnit)

ApplyFactory(S, e) ==
    LET op == e.op IN
    CASE op = "create_document" -> CreateDocument(S, e.s[1], e.s[2], e.n[1], {"ns"})
      [] op = "create_document_with_options" ->
           CreateDocument(S, e.s[1], e.s[2], e.n[1], OptFlags(e.i[1]))
      [] op = "create_document_type" -> CreateExt(S, "DocumentType", e.s[1][1], None, e.s[2], e.s[3], 0)
      [] op = "create_notation" -> CreateExt(S, "Notation", e.s[1][1], None, e.s[2], e.s[3], e.n[1])
      [] op = "create_entity" -> CreateExt(S, "Entity", e.s[1][1], None, e.s[2], e.s[3], e.n[1])
      [] op = "create_internal_entity" -> CreateExt(S, "Entity", e.s[1][1], e.s[2], None, None, e.n[1])
      [] op = "has_feature" -> Out(S, RBool(Feature(e.s[1][1], e.s[2][1])))

(* The numbers which DOM gives to the node types and the exceptions, each in *)
(* its order; each exception has its own description.                       *)
Codes12 == [k \in 1..12 |-> k]
Codes15 == [k \in 1..15 |-> k]
ApplyPure(S, e) ==
    LET op == e.op IN
    CASE op \in {"name_parse", "name_bytes"} ->
           LET nm == ParseName(e.s[1][1]) IN IF nm.ok THEN Out(S, RName(nm)) ELSE FailName(S, nm)
      [] op = "name_new_ns" ->
           LET nm == ParseNameNs(e.s[1][1], e.s[2][1]) IN IF nm.ok THEN Out(S, RName(nm)) ELSE FailName(S, nm)
      [] op = "name_raw" ->
           LET t == Utf8(e.i)
               nm == ParseName(t.s)
           IN IF ~t.ok THEN Fail(S, "InvalidCharacter") ELSE IF nm.ok THEN Out(S, RName(nm)) ELSE FailName(S, nm)
      [] op = "name_set_prefix" ->
           LET nm == MadeName(e.s[1], e.s[2][1])
               new == WithPrefix(nm, e.s[3])
           IN IF ~nm.ok THEN FailName(S, nm) ELSE IF new.ok THEN Out(S, RName(new)) ELSE FailName(S, new)
      [] op = "name_for" ->
           Out(S, RName(CASE e.i[1] = 0 -> CDataName [] e.i[1] = 1 -> CommentName [] e.i[1] = 2 -> DocumentName
                          [] e.i[1] = 3 -> FragmentName [] e.i[1] = 4 -> TextName
                          [] e.i[1] = 5 -> NameOk(None, None, Cp("PUBLIC")) [] e.i[1] = 6 -> NameOk(None, None, Cp("SYSTEM"))
                          [] e.i[1] = 7 -> NameOk(Some(XMLURI), Some(XML), IDNAME)
                          [] OTHER -> IF e.s[1] = None THEN NameOk(Some(XMLNSURI), None, XMLNS)
                                      ELSE NameOk(Some(XMLNSURI), Some(XMLNS), e.s[1][1])))
      [] op = "name_eq" ->
           LET a == MadeName(e.s[1], e.s[2][1])
               b == MadeName(e.s[3], e.s[4][1])
           IN IF ~a.ok THEN FailName(S, a) ELSE IF ~b.ok THEN FailName(S, b)
              ELSE Out(S, Res("equal", <<IF a = b THEN 1 ELSE 0, 1>>, <<>>))
      [] op = "options" -> Out(S, ROptions(e.i[1]))
      [] op = "options_seq" ->
           Out(S, ROptions((IF Has(e.i, 0) THEN 1 ELSE 0) + (IF Has(e.i, 1) THEN 2 ELSE 0) + (IF Has(e.i, 2) THEN 4 ELSE 0)))
      [] op = "options_and" -> Out(S, ROptions(BitFold(e.i[1], e.i[2], 2)))
      [] op = "options_or" -> Out(S, ROptions(BitFold(e.i[1], e.i[2], 1)))
      [] op = "xml_decl" ->
           LET d == IF e.i[1] = 9 THEN <<Some(Version(0)), None, None>> ELSE DeclOfArgs(e.i[1], e.s[1], e.i[2])
           IN Out(S, IF d[2] # None /\ ~IsEncoding(d[2][1]) THEN Res("decl", <<0>>, <<>>)
                     ELSE Res("decl", <<1>>, d \o <<Some(DeclSer(d)), Some(DeclSer(d))>>))
      [] op = "prefix_value" ->
           Out(S, CASE e.i[1] = 0 -> Res("prefix", <<0>>, <<None>>) [] e.i[1] = 1 -> RPrefix(None) [] OTHER -> RPrefix(e.s[1]))
      [] op = "codes" -> Out(S, Res("codes", Codes12 \o Codes15 \o <<1>>, <<>>))
      [] op = "xml_version" ->
           Out(S, RStr(IF e.s[1][1] \in {Cp("1.0"), Cp("1.1")} THEN e.s[1] ELSE None))

ApplyKind(S, e) ==      \* t is of a kind which has the operation
    LET t == e.n[1] IN
    CASE e.op \in NodeOps -> ApplyNode(S, e, t)
      [] e.op \in ElemOps -> ApplyElem(S, e, t)
      [] e.op \in DocOps -> ApplyDoc(S, e, t)
      [] e.op \in AttrOps -> IF e.op = "set_value" THEN SetValue(S, t, e.s[1][1]) ELSE UnsetValue(S, t)
      [] OTHER -> ApplyChar(S, e, t)

(* A node has the methods of every interface, also where no view of it as  *)
(* one can be had. Called directly on a node of another kind they find      *)
(* nothing, or fail; but every kind has a node value, and knows the         *)
(* namespaces and the document above it.                                    *)
IsDirect(op) == Len(op) > 7 /\ SubSeq(op, 1, 7) = "direct "
Method(op) == SubSeq(op, 8, Len(op))
Misdirected(S, op, e) ==
    LET t == e.n[1] IN
    CASE op \in {"set_data", "pi_set_data"} -> SetNodeValue(S, t, e.s[1][1])
      [] op \in {"unset_data", "pi_unset_data"} -> UnsetNodeValue(S, t)
      [] op \in {"get_attribute", "get_attribute_ns", "get_namespace"} -> Out(S, RStr(None))
      [] op \in {"get_attribute_node", "get_attribute_node_ns", "get_element_by_id"} -> Out(S, ROptNode(0))
      [] op \in {"has_attribute", "has_attribute_ns", "contains_mapping", "contains_mapped_namespace"} ->
           Out(S, RBool(FALSE))
      [] op \in {"remove_attribute", "remove_attribute_ns"} -> OutAny(S, {RUnit, RErr("InvalidState")})
      [] op \in {"elem_by_tag", "elem_by_tag_ns"} -> Out(S, RNodes(<<>>))
      [] op = "get_prefix" -> OutAny(S, RPrefixes({}))
      [] op = "resolve_namespace" -> Out(S, RStr(ResolveNs(S, t, e.s[1])))
      [] op = "resolve_prefix" -> OutAny(S, RPrefixes(ResolvePf(S, t, e.s[1][1])))
      [] op = "create_comment" -> CreateNamed(S, "Comment", CommentName, e.s[1], S[t].doc)
      [] op = "create_text_node" -> CreateNamed(S, "Text", TextName, e.s[1], S[t].doc)
      [] op \in {"doc_by_tag", "doc_by_tag_ns"} -> [S |-> S, R |-> {}, m |-> "still"]   \* it is not said what is found
      [] OTHER -> Fail(S, "InvalidState")
ApplyDirect(S, e) ==
    LET op == Method(e.op) IN
    IF S[e.n[1]].ty \in Needs(op) THEN ApplyKind(S, [e EXCEPT !.op = op]) ELSE Misdirected(S, op, e)

ApplyDom(S, e) ==
    IF e.op \in PureOps THEN ApplyPure(S, e)
    ELSE IF e.op \in FactoryOps THEN ApplyFactory(S, e)
    ELSE IF e.op \in LifeOps THEN IF HeldByNode(S, e.n[1]) THEN Out(S, RUnit) ELSE Release(S, e.n[1])
    ELSE IF e.op \in {"set_xml_declaration", "direct set_xml_declaration"} /\ e.s[1] # None /\ ~IsEncoding(e.s[1][1]) THEN Panics(S)
    ELSE IF IsDirect(e.op) THEN ApplyDirect(S, e)
    ELSE IF S[e.n[1]].ty \notin Needs(e.op) THEN Fail(S, "InvalidState")
    ELSE ApplyKind(S, e)

(* Where this implementation is known to fall short of DOM Level 2, what it *)
(* ought to do; it is accepted as well.                                     *)
HasIdeal(S, e) == e.op \in {"insert_before", "append_child", "replace_child"}
                  /\ Is(S, e.n[2], "DocumentFragment")
ApplyIdeal(S, e) ==
    LET p == e.n[1]  f == e.n[2] IN
    CASE e.op = "append_child" -> FragmentInsert(S, p, f, 0, f, 0)
      [] e.op = "insert_before" -> FragmentInsert(S, p, f, e.n[3], f, 0)
      [] e.op = "replace_child" -> FragmentInsert(S, p, f, e.n[3], e.n[3], e.n[3])

-----------------------------------------------------------------------------
(* What can be observed of a node through the interface. pr.pf, pr.id and  *)
(* pr.uri are the prefixes, the IDs and the namespaces which the observer  *)
(* asks for. upf and upr are, for each namespace, the set of the prefixes  *)
(* of which any one may be found (nothing if there are none).              *)
PrefixCodes(P) == IF P = {} THEN {<<>>} ELSE {<<p>> : p \in P}
Proj(S, n, pr) ==
    LET x == S[n]
        el == x.ty = "Element"
        at == x.ty = "Attribute"
        ch == x.ty \in {"Text", "CData", "Comment"}
        pi == x.ty = "ProcessingInstruction"
        d == x.ty = "Document"
        v == IF at THEN AttrVal(S, n) ELSE x.val
    IN [ty |-> x.ty, ns |-> x.ns, pf |-> x.pf, ln |-> x.ln, qn |-> QName(x.pf, x.ln),
        val |-> v, par |-> x.par, kids |-> x.kids,
        first |-> IF x.kids = <<>> THEN 0 ELSE x.kids[1],
        last |-> IF x.kids = <<>> THEN 0 ELSE x.kids[Len(x.kids)],
        prev |-> PrevSib(S, n), next |-> NextSib(S, n),
        hk |-> IF x.kids = <<>> THEN 0 ELSE 1,
        doc |-> Owner(S, n), attrs |-> x.attrs, ha |-> IF x.attrs = {} THEN 0 ELSE 1, ak |-> 1,
        own |-> x.own, spec |-> IF at THEN 1 ELSE 0,
        len |-> IF (ch \/ pi) /\ v # None THEN ByteLen(v[1]) ELSE 0,
        data |-> IF pi \/ x.ty = "CData" THEN v
                 ELSE IF ch /\ v # None THEN Some(Escape(v[1])) ELSE None,
        dt |-> x.dt, de |-> IF d THEN RootElement(S, n) ELSE 0,
        decl |-> IF x.decl = None THEN <<>> ELSE x.decl[1],
        pub |-> x.pub, sys |-> x.sys,
        nsp |-> IF el THEN TLCEval([i \in 1..Len(pr.pf) |-> GetNs(S, n, pr.pf[i])]) ELSE <<>>,
        nsr |-> IF el THEN TLCEval([i \in 1..Len(pr.pf) |-> ResolveNs(S, n, pr.pf[i])]) ELSE <<>>,
        upf |-> IF el THEN TLCEval([i \in 1..Len(pr.uri) |-> PrefixCodes(PrefixesOf(S, n, pr.uri[i]))]) ELSE <<>>,
        upr |-> IF el THEN TLCEval([i \in 1..Len(pr.uri) |-> PrefixCodes(ResolvePf(S, n, pr.uri[i]))]) ELSE <<>>,
        ids |-> IF d THEN TLCEval([i \in 1..Len(pr.id) |-> IdLookup(S, n, pr.id[i])]) ELSE <<>>]
Fields == {"ty", "ns", "pf", "ln", "qn", "val", "par", "kids", "first", "last", "prev", "next", "hk",
           "doc", "attrs", "ha", "ak", "own", "spec", "len", "data", "dt", "de", "decl",
           "pub", "sys", "nsp", "nsr", "upf", "upr", "ids"}
=============================================================================
