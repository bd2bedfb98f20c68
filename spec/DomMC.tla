-------------------------------- MODULE DomMC --------------------------------
(***************************************************************************)
(* Exhaustive exploration of Dom, in families: each starts from the nodes  *)
(* which a script makes and takes every operation of an alphabet, to a     *)
(* depth. The properties are checked on every state (invariant Good) and   *)
(* every transition (action property Steps); the behaviours are printed,   *)
(* to be replayed through the implementation.                              *)
(***************************************************************************)
EXTENDS DomSteps, Json, IOUtils

Fam == IOEnv.FAMILY
MaxDepth == CHOOSE d \in 0..15 : ToString(d) = IOEnv.DEPTH
Emitting == IOEnv.EMIT = "1"
(* A family with one state is explored in parts, each by a TLC of its own. *)
NumEnv(x) == CHOOSE d \in 0..15 : ToString(d) = x
Parts == NumEnv(IOEnv.PARTS)
Part == NumEnv(IOEnv.PART)

VARIABLES vS, vHist
vars == <<vS, vHist>>

Op(op, n, s, i) == [op |-> op, n |-> n, s |-> s, i |-> i]
RECURSIVE RunOps(_, _)
RunOps(S, q) == IF q = <<>> THEN S ELSE RunOps(Apply(S, q[1]).S, Tail(q))

(* The prefixes and IDs which the harness asks for. *)
PR == [pf |-> <<None, Some(Codes("p")), Some(Codes("q")), Some(Codes("xmlns")), Some(Codes("id"))>>,
       id |-> <<Codes("i1"), Codes("i2"), Codes("i3"), Codes("a&#60;b"), <<>>>>,
       uri |-> <<Codes("u:1"), Codes("u:2")>>]

A_ == Codes("a")
B_ == Codes("b")
X_ == Codes("x")
V_ == Codes("v")
W_ == Codes("w")
U1 == Codes("u:1")
U2 == Codes("u:2")
PA == Codes("p:a")
PY == Codes("p:y")
QY == Codes("q:y")
Y_ == Codes("y")
XI == Codes("xml:id")
ID == Codes("id")
I1 == Codes("i1")
I2 == Codes("i2")
XN == Codes("xmlns")
XP == Codes("xmlns:p")
XQ == Codes("xmlns:q")
S1(v) == <<Some(v)>>
S2(v, w) == <<Some(v), Some(w)>>
S3(v, w, x) == <<Some(v), Some(w), Some(x)>>

NewDoc(bits, qn) == Op("create_document_with_options", <<0>>, <<None, qn>>, <<bits>>)
NewEl(d, nm) == Op("create_element", <<d>>, S1(nm), <<>>)
NewElNs(d, u, nm) == Op("create_element_ns", <<d>>, S2(u, nm), <<>>)
NewTxt(d, v) == Op("create_text_node", <<d>>, S1(v), <<>>)
NewAt(d, nm) == Op("create_attribute", <<d>>, S1(nm), <<>>)
NewAtV(d, nm, v) == Op("create_attribute_with", <<d>>, S2(nm, v), <<>>)
NewAtNs(d, u, nm) == Op("create_attribute_ns", <<d>>, S2(u, nm), <<>>)
Mk(op, d, s) == Op(op, <<d>>, s, <<>>)
App(p, c) == Op("append_child", <<p, c>>, <<>>, <<>>)

(* One node of each type: 1 doctype, 2 document, 3 its root, 4 text,       *)
(* 5 CDATA, 6 comment, 7 PI, 8 entity reference, 9 fragment, 10 attribute, *)
(* 11 its text, 12 notation, 13 entity, 14 element.                        *)
OneOfEach == <<
    Op("create_document_type", <<>>, <<Some(A_), None, None>>, <<>>),
    Op("create_document_with_options", <<1>>, <<None, Some(A_)>>, <<4>>),
    NewTxt(2, X_), Mk("create_cdata_section", 2, S1(X_)), Mk("create_comment", 2, S1(X_)),
    Mk("create_processing_instruction", 2, <<Some(X_), Some(V_)>>),
    Mk("create_entity_reference", 2, S1(X_)), Mk("create_document_fragment", 2, <<>>),
    NewAtV(2, X_, V_), Mk("create_notation", 2, <<Some(X_), None, None>>),
    Mk("create_internal_entity", 2, S2(X_, V_)), NewEl(2, B_)>>

MixedText == <<97, 233, 28450>>      \* one, two and three bytes

Script ==
    CASE Fam \in {"tree", "tree5"} ->
           <<NewDoc(4, Some(A_)), NewEl(1, B_), NewEl(1, B_), NewTxt(1, X_)>>
           \o (IF Fam = "tree5" THEN <<Mk("create_comment", 1, S1(X_))>> ELSE <<>>)
      [] Fam \in {"types", "kinds", "wrong", "direct"} -> OneOfEach
      [] Fam = "kids3" ->      \* parents 2 document, 3 root, 8 fragment, 12 attribute, 16 reference; three children each
           <<Op("create_document_type", <<>>, <<Some(A_), None, None>>, <<>>),
             Op("create_document_with_options", <<1>>, <<None, Some(A_)>>, <<4>>),
             Mk("create_comment", 2, S1(X_)), App(2, 4),
             NewEl(2, B_), NewTxt(2, X_), Mk("create_cdata_section", 2, S1(X_)), App(3, 5), App(3, 6), App(3, 7),
             Mk("create_document_fragment", 2, <<>>), NewTxt(2, V_), NewEl(2, X_), Mk("create_processing_instruction", 2, <<Some(X_), None>>),
             App(8, 9), App(8, 10), App(8, 11),
             NewAtV(2, X_, V_), Mk("create_entity_reference", 2, S1(X_)), NewTxt(2, W_), App(12, 14), App(12, 15),
             Mk("create_entity_reference", 2, S1(B_)), NewTxt(2, Y_), Mk("create_comment", 2, S1(W_)), NewEl(2, Y_),
             App(16, 17), App(16, 18), App(16, 19)>>
      [] Fam = "docs2" ->
           <<NewDoc(4, Some(A_)), NewDoc(4, Some(A_)), NewEl(1, B_), NewEl(3, B_), NewTxt(3, X_),
             NewAt(1, X_), NewAt(3, X_), Op("create_document_type", <<>>, <<Some(A_), None, None>>, <<>>)>>
      [] Fam = "attrs" ->
           <<NewDoc(4, Some(A_)), NewEl(1, B_), NewAtV(1, X_, V_), NewAtNs(1, U1, PY), NewAtNs(1, U1, QY),
             NewAt(1, X_)>>
      [] Fam \in {"ids", "idslax"} ->
           <<NewDoc(IF Fam = "ids" THEN 4 ELSE 1, Some(A_)), NewEl(1, B_), NewAtNs(1, XMLURI, XI),
             Op("set_value", <<4>>, S1(I1), <<>>), NewAtV(1, ID, I1), NewAtV(1, XI, I2)>>
      [] Fam = "ns" ->
           <<NewDoc(4, Some(A_)), NewEl(1, B_), App(2, 3), NewEl(1, B_), NewAtNs(1, XMLNSURI, XP),
             Op("set_value", <<5>>, S1(U1), <<>>)>>
      [] Fam = "ns3" -> <<NewDoc(4, Some(A_)), NewEl(1, B_), NewEl(1, X_), App(2, 3), App(3, 4)>>
      [] Fam \in {"chars", "chars2"} ->
           <<NewDoc(4, None), NewTxt(1, MixedText), Mk("create_comment", 1, S1(MixedText)),
             Mk("create_cdata_section", 1, S1(MixedText))>>
      [] Fam = "texts" ->
           <<NewDoc(4, Some(A_)), NewTxt(1, Codes("ab")), NewTxt(1, <<>>), NewEl(1, B_), NewTxt(1, <<233>>),
             App(2, 3), App(2, 4), App(2, 6), Op("set_attribute", <<2>>, S2(X_, V_), <<>>)>>
      [] Fam = "texts2" ->
           <<NewDoc(4, Some(A_)), NewTxt(1, X_), NewTxt(1, <<>>), NewTxt(1, <<233>>),
             Mk("create_entity_reference", 1, S1(X_)), Mk("create_comment", 1, S1(X_)),
             Mk("create_cdata_section", 1, S1(X_)), NewEl(1, B_)>>
      [] Fam = "esc" ->
           <<NewDoc(4, Some(A_)), NewTxt(1, X_), Mk("create_comment", 1, S1(X_)), Mk("create_cdata_section", 1, S1(X_)),
             Mk("create_processing_instruction", 1, <<Some(X_), Some(V_)>>), NewAtV(1, X_, X_)>>
      [] Fam = "clone" ->
           <<NewDoc(5, Some(A_)), NewElNs(1, U1, PA), App(2, 3), NewTxt(1, X_), App(3, 4),
             Op("set_attribute", <<3>>, S2(X_, V_), <<>>), Op("set_attribute_ns", <<3>>, S3(XMLNSURI, XP, U1), <<>>),
             Mk("create_comment", 1, S1(V_)), App(2, 9)>>
      [] Fam = "clone2" ->      \* 2 document, 3 root, 4 reference, 5 text, 6 element with an attribute, all nested
           <<Op("create_document_type", <<>>, <<Some(A_), Some(V_), Some(W_)>>, <<>>),
             Op("create_document_with_options", <<1>>, <<None, Some(A_)>>, <<4>>),
             Mk("create_entity_reference", 2, S1(X_)), NewTxt(2, X_), NewEl(2, PA), App(3, 4), App(4, 5), App(4, 6),
             Op("set_attribute", <<6>>, S2(X_, V_), <<>>), Mk("create_cdata_section", 2, S1(X_)), App(6, 9),
             Mk("create_comment", 2, S1(<<>>)), App(6, 10), Mk("create_processing_instruction", 2, <<Some(X_), Some(V_)>>), App(3, 11),
             Mk("create_document_fragment", 2, <<>>), NewEl(2, B_), App(12, 13),
             Op("set_xml_declaration", <<2>>, <<Some(A_)>>, <<1, 1>>), Mk("create_internal_entity", 2, S2(X_, V_)), NewTxt(2, W_), App(14, 15)>>
      [] Fam = "find" ->
           <<NewDoc(4, Some(A_)), NewElNs(1, U1, PA), NewElNs(1, U2, B_), NewEl(1, A_), NewTxt(1, A_)>>
      [] Fam = "ser" ->
           <<Op("create_document_type", <<>>, <<Some(A_), Some(V_), Some(W_)>>, <<>>),
             Op("create_document_with_options", <<1>>, <<None, Some(A_)>>, <<4>>),
             NewTxt(2, Codes("<&'>")), Mk("create_comment", 2, S1(Codes("a<b"))),
             Mk("create_cdata_section", 2, S1(Codes("<&]]"))),
             Mk("create_processing_instruction", 2, <<Some(X_), Some(V_)>>),
             Mk("create_entity_reference", 2, S1(X_)), Mk("create_document_fragment", 2, <<>>), NewEl(2, PA)>>
      [] Fam = "life" ->      \* 4 has the ID i1, 7 is its text, 8 hangs loose, 10 is of the second document
           <<Op("create_document_type", <<>>, <<Some(A_), None, None>>, <<>>),
             Op("create_document_with_options", <<1>>, <<None, Some(A_)>>, <<4>>),
             NewEl(2, B_), App(3, 4), Op("set_attribute_ns", <<3>>, S3(XMLNSURI, XP, U1), <<>>),
             Op("set_attribute_ns", <<4>>, S3(XMLURI, XI, I1), <<>>), NewTxt(2, X_), App(4, 9),
             NewAtV(2, X_, V_), NewDoc(0, Some(A_)), NewEl(2, X_)>>
      [] Fam = "dead" ->      \* 1 is a document that is gone, of which 2..11 were; 12 is one that is there
           <<NewDoc(4, None), NewEl(1, B_), NewTxt(1, X_), NewAtV(1, X_, V_), Mk("create_entity_reference", 1, S1(X_)),
             Mk("create_document_fragment", 1, <<>>), Mk("create_cdata_section", 1, S1(X_)), Mk("create_comment", 1, S1(X_)),
             Mk("create_processing_instruction", 1, <<Some(X_), Some(V_)>>), NewTxt(1, W_), App(2, 11),
             NewDoc(4, Some(A_)), NewEl(12, B_), NewTxt(12, Y_), NewAt(12, Y_), Mk("create_entity_reference", 12, S1(Y_)),
             Mk("create_document_fragment", 12, <<>>), Mk("create_comment", 12, S1(Y_)),
             Op("create_document_type", <<>>, <<Some(A_), None, None>>, <<>>), Op("release", <<1>>, <<>>, <<>>)>>
      [] Fam = "ids2" -> <<NewDoc(4, Some(A_)), NewEl(1, B_), App(2, 3)>>
      [] Fam = "ids2lax" -> <<NewDoc(1, Some(A_)), NewEl(1, B_), App(2, 3)>>
      [] Fam = "ns4" -> <<NewDoc(4, Some(A_)), NewEl(1, B_), App(2, 3)>>
      [] Fam = "find2" ->      \* a below A below p:a below P:a below a
           <<NewDoc(4, Some(A_)), NewElNs(1, U1, Codes("P:a")), NewElNs(1, U1, PA), NewElNs(1, Codes("U:1"), Codes("A")), NewEl(1, Codes("aa")),
             App(2, 3), App(3, 4), App(4, 5)>>
      [] Fam = "attrkids" ->      \* 3 the attribute, 4 its text
           <<NewDoc(4, Some(A_)), NewAtV(1, X_, Codes("v")), Op("set_attribute_node", <<2, 3>>, <<>>, <<>>), NewTxt(1, Codes("<b")), NewTxt(1, <<>>),
             Mk("create_entity_reference", 1, S1(Codes("amp"))), Mk("create_comment", 1, S1(X_))>>
      [] Fam \in {"values", "values4"} -> <<NewDoc(4, Some(A_)), NewAt(1, X_)>>
      [] OTHER -> <<>>      \* names, docs

S0 == RunOps(<<>>, Script)

-----------------------------------------------------------------------------
(* Alphabets. *)
TreeAll(P, C) ==
    {Op("append_child", <<p, c>>, <<>>, <<>>) : p \in P, c \in C}
    \cup {Op("insert_before", <<p, c, r>>, <<>>, <<>>) : p \in P, c \in C, r \in C \cup {0}}
    \cup {Op("replace_child", <<p, c, r>>, <<>>, <<>>) : p \in P, c \in C, r \in C}
    \cup {Op("remove_child", <<p, c>>, <<>>, <<>>) : p \in P, c \in C}
Kids3Alphabet(S) ==
    LET P == {2, 3, 8, 12, 16}  C == 3..Len(S) IN
    {Op("append_child", <<p, c>>, <<>>, <<>>) : p \in P, c \in C}
    \cup UNION {{Op("insert_before", <<p, c, r>>, <<>>, <<>>) : c \in C, r \in Elems(S[p].kids) \cup {0}} : p \in P}
    \cup UNION {{Op("replace_child", <<p, c, r>>, <<>>, <<>>) : c \in C, r \in Elems(S[p].kids)} : p \in P}
    \cup UNION {{Op("remove_child", <<p, r>>, <<>>, <<>>) : r \in Elems(S[p].kids)} : p \in P}
OfType(S, ty) == {n \in 1..Len(S) : S[n].ty \in ty}
Strings(A, k) == UNION {[1..m -> A] : m \in 0..k}
Tuples(Q) == {<<>> \o q : q \in Q}

Offsets == -1..8
Counts == {-1, 0, 1, 2, 3, 5, 6, 8}
CharAlphabet(N, New) ==
    {Op("substring_data", <<n>>, <<>>, <<o, c>>) : n \in N, o \in Offsets, c \in Counts}
    \cup {Op("delete_data", <<n>>, <<>>, <<o, c>>) : n \in N, o \in Offsets, c \in Counts}
    \cup {Op("insert_data", <<n>>, S1(v), <<o>>) : n \in N, o \in Offsets, v \in New}
    \cup {Op("replace_data", <<n>>, S1(v), <<o, c>>) : n \in N, o \in Offsets, c \in Counts, v \in New}
    \cup {Op(x, <<n>>, S1(v), <<>>) : n \in N, v \in New, x \in {"append_data", "set_data"}}
    \cup {Op("unset_data", <<n>>, <<>>, <<>>) : n \in N}

AttrAlphabet(S) ==
    LET E == OfType(S, {"Element"})  A == OfType(S, {"Attribute"})
    IN {Op("set_attribute", <<e>>, S2(k, W_), <<>>) : e \in E, k \in {X_, PY, Codes(":")}}
       \cup {Op("set_attribute_ns", <<e>>, S3(u, k, W_), <<>>) : e \in E, u \in {U1, U2}, k \in {Y_, QY}}
       \cup {Op("set_attribute_node", <<e, a>>, <<>>, <<>>) : e \in E, a \in A \cup {3}}
       \cup {Op("remove_attribute_node", <<e, a>>, <<>>, <<>>) : e \in E, a \in A \cup {3}}
       \cup {Op(x, <<e>>, S1(k), <<>>) : e \in E, k \in {X_, PY, QY, Codes(":")},
                x \in {"remove_attribute", "get_attribute", "get_attribute_node", "has_attribute"}}
       \cup {Op(x, <<e>>, S2(u, k), <<>>) : e \in E, u \in {U1, U2}, k \in {Y_, X_},
                x \in {"remove_attribute_ns", "get_attribute_ns", "get_attribute_node_ns", "has_attribute_ns"}}
       \cup {Op("set_value", <<a>>, S1(W_), <<>>) : a \in A}
       \cup {Op("unset_value", <<a>>, <<>>, <<>>) : a \in A}

IdAlphabet(S) ==
    LET E == OfType(S, {"Element"})  A == OfType(S, {"Attribute"})
    IN {Op("set_attribute", <<e>>, S2(k, v), <<>>) : e \in E, k \in {ID, XI}, v \in {I1, I2}}
       \cup {Op("set_attribute_ns", <<e>>, S3(XMLURI, k, v), <<>>) : e \in E, k \in {ID}, v \in {I1}}
       \cup {Op("set_attribute_node", <<e, a>>, <<>>, <<>>) : e \in E, a \in A}
       \cup {Op("remove_attribute_node", <<e, a>>, <<>>, <<>>) : e \in E, a \in A}
       \cup {Op("remove_attribute", <<e>>, S1(k), <<>>) : e \in E, k \in {ID, XI}}
       \cup {Op("set_value", <<a>>, S1(v), <<>>) : a \in A, v \in {I1, I2}}
       \cup {Op("unset_value", <<a>>, <<>>, <<>>) : a \in A}
       \cup {Op("get_element_by_id", <<1>>, S1(v), <<>>) : v \in {I1, I2}}
       \cup {App(2, 3), Op("remove_child", <<2, 3>>, <<>>, <<>>)} \cup {Op("clone_node", <<n>>, <<>>, <<1>>) : n \in {1, 2}}

NsAlphabet(S) ==
    LET E == {2, 3, 4}  A == OfType(S, {"Attribute"})
    IN {Op("set_attribute_ns", <<e>>, S3(XMLNSURI, k, v), <<>>) : e \in E, k \in {XN, XP}, v \in {U1, U2}}
       \cup {Op("set_attribute_node", <<e, 5>>, <<>>, <<>>) : e \in E}
       \cup {Op("remove_attribute", <<e>>, S1(k), <<>>) : e \in E, k \in {XN, XP}}
       \cup {Op("remove_attribute_node", <<e, a>>, <<>>, <<>>) : e \in E, a \in A}
       \cup {Op("set_value", <<a>>, S1(U2), <<>>) : a \in A}
       \cup {Op("unset_value", <<a>>, <<>>, <<>>) : a \in A}
       \cup {App(2, 4), App(3, 4), App(4, 3), App(2, 3), Op("remove_child", <<2, 3>>, <<>>, <<>>)}
       \cup {Op(x, <<e>>, S1(u), <<>>) : e \in E, u \in {U1, U2},
                x \in {"get_prefix", "resolve_prefix", "contains_mapped_namespace"}}
       \cup {Op(x, <<e>>, <<k>>, <<>>) : e \in E, k \in {None, Some(Codes("p"))},
                x \in {"get_namespace", "resolve_namespace", "contains_mapping"}}

Ns3Alphabet(S) ==
    {Op("set_attribute_ns", <<e>>, S3(XMLNSURI, k, v), <<>>) : e \in 2..4, k \in {XN, XP}, v \in {U1, U2}}
    \cup {Op("remove_attribute", <<e>>, S1(k), <<>>) : e \in 2..4, k \in {XN, XP}}
    \cup {App(2, 4), App(3, 4), Op("remove_child", <<2, 3>>, <<>>, <<>>)}
    \cup {Op("resolve_prefix", <<4>>, S1(u), <<>>) : u \in {U1, U2, <<>>}}
    \cup {Op("resolve_namespace", <<4>>, <<k>>, <<>>) : k \in {None, Some(Codes("p")), Some(<<>>)}}

Texts2Alphabet(S) ==
    {App(2, c) : c \in 3..9}
    \cup {App(9, c) : c \in 3..6}
    \cup {Op("normalize", <<n>>, <<>>, <<>>) : n \in {1, 2, 9}}
    \cup {Op("to_string", <<2>>, <<>>, <<>>)}

EscChars == {60, 38, 62, 39, 34, 233, 97, 66599, 93, 45}
EscAlphabet(S) ==
    IF \E n \in 3..7 : S[n].val # S0[n].val
    THEN {Op("to_string", <<n>>, <<>>, <<>>) : n \in {m \in 3..7 : S[m].val # S0[m].val}}
    ELSE {Op("set_node_value", <<n>>, S1(v), <<>>) : n \in 3..6, v \in Tuples(Strings(EscChars, 3))}

TextAlphabet(S) ==
    LET T == OfType(S, {"Text"})  P == {2, 5, 7} IN
    {App(p, t) : p \in P, t \in T}
    \cup {Op("insert_before", <<2, t, r>>, <<>>, <<>>) : t \in T \cup {5}, r \in Elems(S[2].kids)}
    \cup {Op("remove_child", <<S[t].par, t>>, <<>>, <<>>) : t \in {k \in T : S[k].par # 0}}
    \cup {Op("split", <<t>>, <<>>, <<k>>) : t \in T, k \in {-1, 0, 1, 2, 3}}
    \cup {Op("normalize", <<n>>, <<>>, <<>>) : n \in {1} \cup P}
    \cup {Op("set_data", <<t>>, S1(<<>>), <<>>) : t \in T}

(* Not the texts of xmlns and ID attributes: the indexes do not follow when *)
(* they are changed (known finding).                                        *)
Free(S) == {n \in 3..Len(S) : S[n].par = 0 \/ S[S[n].par].ty # "Attribute"}
CloneAlphabet(S) ==
    LET E == OfType(S, {"Element"}) IN
    {Op("clone_node", <<n>>, <<>>, <<d>>) : n \in 1..Len(S), d \in {0, 1}}
    \cup {Op("set_attribute", <<e>>, S2(X_, W_), <<>>) : e \in E}
    \cup {Op("remove_attribute", <<e>>, S1(k), <<>>) : e \in E, k \in {X_, XP}}
    \cup {Op("set_data", <<n>>, S1(W_), <<>>) : n \in OfType(S, {"Text", "Comment"}) \cap Free(S)}
    \cup {App(e, n) : e \in E, n \in Free(S)}
    \cup {Op("remove_child", <<S[n].par, n>>, <<>>, <<>>) : n \in {k \in Free(S) : S[k].par # 0}}

(* Everything that can be below something else. *)
Clone2Alphabet(S) ==
    {Op("clone_node", <<n>>, <<>>, <<d>>) : n \in 1..Len(S), d \in {0, 1}}
    \cup {Op("to_string", <<n>>, <<>>, <<>>) : n \in 1..Len(S)}
    \cup {Op("set_node_value", <<n>>, S1(W_), <<>>) : n \in OfType(S, {"Text", "Comment", "CData", "ProcessingInstruction"}) \cap Free(S)}
    \cup {Op("remove_child", <<S[n].par, n>>, <<>>, <<>>) : n \in {k \in Free(S) : S[k].par # 0}}
    \cup {Op("unset_node_value", <<n>>, <<>>, <<>>) : n \in OfType(S, {"Text", "Comment", "CData", "ProcessingInstruction"}) \cap Free(S)}
    \cup {Op("set_attribute", <<e>>, S2(X_, W_), <<>>) : e \in OfType(S, {"Element"})}

FindAlphabet(S) ==
    {App(p, c) : p \in 1..5, c \in 2..6}
    \cup {Op("insert_before", <<2, c, r>>, <<>>, <<>>) : c \in 3..5, r \in 3..5}
    \cup {Op("remove_child", <<p, c>>, <<>>, <<>>) : p \in {1, 2}, c \in 2..5}
    \cup {Op("elem_by_tag", <<e>>, S1(k), <<>>) : e \in 2..5, k \in {A_, PA, B_, Codes("*")}}
    \cup {Op("elem_by_tag_ns", <<e>>, S2(u, k), <<>>) : e \in 2..5, u \in {U1, U2, Codes("*")}, k \in {A_, B_, Codes("*")}}
    \cup {Op("doc_by_tag", <<1>>, S1(k), <<>>) : k \in {A_, PA, B_, Codes("*")}}
    \cup {Op("doc_by_tag_ns", <<1>>, S2(u, k), <<>>) : u \in {U1, Codes("*")}, k \in {A_, B_, Codes("*")}}

SerAlphabet(S) ==
    {App(p, c) : p \in {2, 3, 9, 10}, c \in 4..10}
    \cup {Op("set_attribute", <<e>>, S2(k, Codes("<\"&'>")), <<>>) : e \in {3, 10}, k \in {X_}}
    \cup {Op("unset_node_value", <<n>>, <<>>, <<>>) : n \in 4..8}
    \cup {Op("set_node_value", <<n>>, S1(Codes("]]>")), <<>>) : n \in 4..8}
    \cup {Op("set_xml_declaration", <<2>>, <<x>>, <<1, 1>>) : x \in {None, Some(A_)}}
    \cup {Op("to_string", <<n>>, <<>>, <<>>) : n \in 1..Len(S)}

NameChars == {97, 49, 58, 45, 183, 215, 233, 95, 32, 768}
Special == {XN, XML, XP, XI, Codes("xml:xml"), Codes("xmlns:xmlns"), Codes("a:xml"), Codes("a:xmlns"),
            Codes("XML"), Codes("xmlnsx"), ID, Codes("p:id"), Codes("a:b:c")}
Uris == {<<>>, U1, XMLURI, XMLNSURI}
NameAlphabet(k) ==
    {Op(x, <<>>, S1(v), <<>>) : v \in Tuples(Strings(NameChars, k)) \cup Special, x \in {"name_parse", "name_bytes"}}
    \cup {Op("name_new_ns", <<>>, S2(u, v), <<>>) : u \in Uris, v \in Tuples(Strings(NameChars, k - 1)) \cup Special}

ValueChars == {32, 38, 35, 120, 52, 59, 13, 10, 60, 97}
ValueWords == {Codes("&#65;"), Codes("&#x41;"), Codes("&#xD800;"), Codes("&#1114112;"), Codes("&#xG;"),
               Codes("&#x110000;"), Codes("&#32;"), Codes("&a"), Codes("%a"), <<13, 133>>, <<133>>, <<8232>>, <<9>>,
               Codes("'"), Codes("\""), Codes(">"), <<233>>, <<66599>>, Codes("&#9;"), Codes("&#xa;"), Codes("&#X41;")}
ValueAlphabet(k) ==
    {Op("set_value", <<3>>, S1(v), <<>>) :
        v \in Tuples(Strings(ValueChars, k)) \cup {x \o y : x, y \in ValueWords} \cup ValueWords
              \cup {<<32>> \o x \o <<32>> : x \in ValueWords} \cup {<<97>> \o x \o <<97>> : x \in ValueWords}}

KindAlphabet(S) ==
    LET N == 1..Len(S) IN
    {Op(x, <<n>>, S1(v), <<>>) : n \in N, v \in {<<>>, W_}, x \in {"set_node_value", "set_value", "set_data", "pi_set_data"}}
    \cup {Op(x, <<n>>, <<>>, <<>>) : n \in N,
             x \in {"unset_node_value", "unset_value", "unset_data", "pi_unset_data", "casts", "to_string", "debug", "normalize"}}
    \cup {Op("is_supported", <<n>>, S2(f, v), <<>>) : n \in N, f \in {Codes("core"), Codes("XML"), X_}, v \in {Codes("2.0"), <<>>, X_}}
    \cup {Op("clone_node", <<n>>, <<>>, <<d>>) : n \in N, d \in {0, 1}}
    \cup {Op("codes", <<>>, <<>>, <<>>)}

(* Every operation of an interface on nodes that do not have it, and on    *)
(* themselves.                                                             *)
WrongAlphabet(S) ==
    LET N == 1..Len(S) IN
    {Op(x, <<n, m>>, <<>>, <<>>) : n, m \in N,
        x \in {"set_attribute_node", "set_attribute_node_ns", "remove_attribute_node", "append_child", "remove_child"}}
    \cup {Op(x, <<n>>, S1(X_), <<>>) : n \in N, x \in {"get_attribute", "get_attribute_node", "has_attribute",
             "remove_attribute", "elem_by_tag", "contains_mapping", "get_namespace", "resolve_namespace",
             "contains_mapped_namespace", "get_prefix", "resolve_prefix", "append_data", "create_attribute",
             "create_cdata_section", "create_entity_reference", "create_comment", "create_element", "create_text_node",
             "get_element_by_id", "doc_by_tag"}}
    \cup {Op(x, <<n>>, S2(U1, X_), <<>>) : n \in N, x \in {"get_attribute_ns", "get_attribute_node_ns", "has_attribute_ns",
             "set_attribute", "remove_attribute_ns", "elem_by_tag_ns", "create_attribute_with", "create_attribute_ns",
             "create_element_ns", "create_processing_instruction", "doc_by_tag_ns"}}
    \cup {Op("set_attribute_ns", <<n>>, S3(U1, X_, V_), <<>>) : n \in N}
    \cup {Op(x, <<n>>, S1(X_), <<o, c>>) : n \in N, o \in {-1, 0, 1, 2}, c \in {-1, 1, 2},
             x \in {"replace_data", "delete_data", "substring_data"}}
    \cup {Op(x, <<n>>, S1(X_), <<o>>) : n \in N, o \in {-1, 0, 1, 2}, x \in {"insert_data", "split"}}
    \cup {Op("create_document_fragment", <<n>>, <<>>, <<>>) : n \in N}
    \cup {Op("set_xml_declaration", <<n>>, <<x>>, <<0, 2>>) : n \in N, x \in {None, Some(X_)}}
    \cup {Op(x, <<n>>, <<Some(y), None, Some(X_)>>, <<>>) : n \in N, x \in {"create_notation", "create_entity"}, y \in {X_, <<>>}}
    \cup {Op("create_internal_entity", <<n>>, S2(X_, X_), <<>>) : n \in N}
    \cup {Op("create_document", <<n>>, <<None, x>>, <<>>) : n \in N, x \in {None, Some(X_), Some(<<>>)}}
    \cup {Op("create_document_with_options", <<n>>, <<None, None>>, <<5>>) : n \in N}

(* The same, called without a view of the node as one of the kind; then     *)
(* whatever each kind of node has under another name.                       *)
DirectAlphabet(S) ==
    LET N == 1..Len(S) IN
       {e \in {[x EXCEPT !.op = "direct " \o @] : x \in {y \in WrongAlphabet(S) : y.op \notin TreeOps \cup FactoryOps}}
               \cup {Op("direct " \o x, <<n>>, S1(W_), <<>>) : n \in N, x \in {"set_value", "set_data", "pi_set_data"}}
               \cup {Op("direct " \o x, <<n>>, <<>>, <<>>) : n \in N, x \in {"unset_value", "unset_data", "pi_unset_data"}} :
          S[e.n[1]].ty \notin Needs(Method(e.op))
          /\ (Method(e.op) \in {"create_comment", "create_text_node"} => Owner(S, e.n[1]) # 0)}
       \cup {Op("views", <<n>>, <<>>, <<>>) : n \in N}
       \cup {Op("set_node_value", <<n>>, S1(Codes("y<")), <<>>) : n \in N}

(* Values that are not nodes. *)
EncChars == {65, 122, 57, 46, 95, 45, 32, 233, 47}
ConstAlphabet(S) ==
    {Op("options_seq", <<>>, <<>>, q) : q \in Tuples(Strings(0..2, 4))}
    \cup {Op(x, <<>>, <<>>, <<a, b>>) : x \in {"options_and", "options_or"}, a, b \in 0..7}
    \cup {Op("xml_decl", <<>>, S1(v), <<1, 2>>) : v \in Tuples(Strings(EncChars, 4))}
    \cup {Op("xml_decl", <<>>, <<x>>, <<v, sa>>) : x \in {None, Some(A_), Some(Codes("UTF-8")), Some(Codes("8"))}, v \in {0, 1, 9}, sa \in 0..2}
    \cup {Op("xml_version", <<>>, S1(v), <<>>) : v \in Tuples(Strings({48, 49, 50, 46, 32}, 4))}
    \cup {Op("prefix_value", <<>>, <<Some(v)>>, <<k>>) : v \in {<<>>, A_, XN}, k \in 0..2}
    \cup {Op("has_feature", <<>>, S2(f, v), <<>>) :
             f \in {Codes("Core"), Codes("CORE"), Codes("core"), Codes("XML"), Codes("xMl"), Codes("xm"), Codes("xmls"), Codes("HTML"),
                    Codes(" core"), Codes("core2"), <<>>, <<99, 111, 114, 233>>},
             v \in {Codes("1.0"), Codes("2.0"), <<>>, Codes("3.0"), Codes("1"), Codes("2"), Codes("1.1"), Codes(" "), Codes("2.0 "), Codes("2.00"), Codes("12.0")}}
Bytes == {97, 58, 195, 169, 128, 230, 188, 237, 160, 240, 144, 244, 255, 192, 49}
Names0 == {A_, PA, Codes("q:a"), B_, XN, XP, XI, Codes("A"), Codes("p:b")}
NameOpsAlphabet(S) ==
    {Op("name_raw", <<>>, <<>>, q) : q \in Tuples(Strings(Bytes, 4))}
    \cup {Op("name_set_prefix", <<>>, <<u, Some(n), p>>, <<>>) :
             u \in {None, Some(U1), Some(XMLURI), Some(XMLNSURI)}, n \in {A_, PA, XI, XP},
             p \in {None, Some(XML), Some(XN)} \cup {Some(v) : v \in Tuples(Strings({97, 58, 49, 45, 233, 32}, 2))}}
    \cup {Op("name_for", <<>>, <<p>>, <<k>>) : p \in {None, Some(A_), Some(<<233>>), Some(XN)}, k \in 0..8}
    \cup {Op("name_eq", <<>>, <<u, Some(n), w, Some(m)>>, <<>>) :
             u, w \in {None, Some(U1), Some(U2), Some(XMLURI)}, n, m \in Names0}

(* Names which are nearly those that matter. *)
IdNames == {Codes(x) : x \in {"id", "ID", "Id", "xml:id", "xml:ID", "XML:id", "p:id", "xmlid", "id:xml", "idx", "xml:idx", "xmlns:id"}}
Ids2Alphabet(S) ==
    LET E == OfType(S, {"Element"})  A == OfType(S, {"Attribute"})  V == {I1, Codes("I1"), Codes(" i1"), <<>>}
    IN {Op("set_attribute", <<e>>, S2(k, v), <<>>) : e \in E, k \in IdNames, v \in {I1, Codes("I1"), Codes(" i1 "), Codes("&#105;1")}}
       \cup {Op("set_attribute_ns", <<e>>, S3(u, k, I1), <<>>) : e \in E, k \in IdNames, u \in {U1, XMLURI, XMLNSURI, Codes("HTTP://www.w3.org/XML/1998/namespace")}}
       \cup {Op("remove_attribute", <<e>>, S1(k), <<>>) : e \in E, k \in IdNames}
       \cup {Op("get_element_by_id", <<1>>, S1(v), <<>>) : v \in V}
       \cup {Op("set_value", <<a>>, S1(v), <<>>) : a \in A, v \in {I1, I2}}
NsNames == {Codes(x) : x \in {"xmlns", "XMLNS", "Xmlns", "xmlns:p", "xmlns:P", "XMLNS:p", "p:xmlns", "xmlnsp", "xml:xmlns", "p:p", "xmlns:xmlns", "xmlns:xml", "xmlns:id"}}
Ns4Alphabet(S) ==
    LET E == OfType(S, {"Element"})
    IN {Op("set_attribute", <<e>>, S2(k, U1), <<>>) : e \in E, k \in NsNames}
       \cup {Op("set_attribute_ns", <<e>>, S3(u, k, v), <<>>) : e \in E, k \in NsNames, u \in {XMLNSURI, U1, XMLURI}, v \in {U2, <<>>}}
       \cup {Op("remove_attribute", <<e>>, S1(k), <<>>) : e \in E, k \in NsNames}
       \cup {Op(x, <<e>>, S1(u), <<>>) : e \in E, u \in {U1, U2, <<>>, Codes("U:1")},
                x \in {"get_prefix", "resolve_prefix", "contains_mapped_namespace"}}
       \cup {Op(x, <<e>>, <<k>>, <<>>) : e \in E, k \in {None, Some(Codes("p")), Some(Codes("P")), Some(XN), Some(XML), Some(ID), Some(<<>>)},
                x \in {"get_namespace", "resolve_namespace", "contains_mapping"}}
FindTags == {Codes(x) : x \in {"a", "A", "aa", "p:a", "P:a", "*", "**", "*a", "a*", "p:*", "*:a", "", "p", " a"}}
Find2Alphabet(S) ==
    LET E == OfType(S, {"Element"})  U == {U1, Codes("U:1"), Codes("*"), <<>>, Codes("u:*"), Codes("u")}
    IN {Op("elem_by_tag", <<e>>, S1(k), <<>>) : e \in E, k \in FindTags}
       \cup {Op("doc_by_tag", <<1>>, S1(k), <<>>) : k \in FindTags}
       \cup {Op("elem_by_tag_ns", <<e>>, S2(u, k), <<>>) : e \in E, u \in U, k \in FindTags}
       \cup {Op("doc_by_tag_ns", <<1>>, S2(u, k), <<>>) : u \in U, k \in FindTags}
       \cup {App(p, c) : p, c \in E} \cup {Op("remove_child", <<S[n].par, n>>, <<>>, <<>>) : n \in {k \in E : S[k].par # 0}}
AttrKidsAlphabet(S) ==
    LET C == OfType(S, {"Text", "EntityReference", "Comment"}) \ {n \in 1..Len(S) : S[n].ty = "Comment" /\ S[n].par # 0}
        A == OfType(S, {"Attribute"})
        T == OfType(S, {"Text"})
    IN {App(p, c) : p \in A \cup {2}, c \in C}
       \cup {Op("insert_before", <<p, c, r>>, <<>>, <<>>) : p \in A, c \in T, r \in T}
       \cup {Op("replace_child", <<p, c, r>>, <<>>, <<>>) : p \in A, c \in C, r \in T}
       \cup {Op("remove_child", <<S[n].par, n>>, <<>>, <<>>) : n \in {k \in C : S[k].par # 0}}
       \cup {Op(x, <<a>>, <<>>, <<>>) : a \in A, x \in {"normalize", "unset_value", "unset_node_value", "to_string"}}
       \cup {Op("normalize", <<2>>, <<>>, <<>>), Op("to_string", <<2>>, <<>>, <<>>), Op("get_attribute", <<2>>, S1(X_), <<>>),
              Op("clone_node", <<2>>, <<>>, <<0>>)}
       \cup {Op("split", <<t>>, <<>>, <<1>>) : t \in T}
       \cup {Op("set_data", <<t>>, S1(Codes("\"&")), <<>>) : t \in T}
       \cup {Op("set_value", <<a>>, S1(Codes("w&#60;")), <<>>) : a \in A}
       \cup {Op("clone_node", <<a>>, <<>>, <<d>>) : a \in A, d \in {0, 1}}

DocQNames == {None, Some(A_), Some(PA), Some(XML), Some(XP), Some(Codes("1")), Some(<<>>)}
DocsAlphabet(S) ==
    LET DT == OfType(S, {"DocumentType"})  D == OfType(S, {"Document"})  o == {None, Some(V_)}
    IN {Op("create_document_type", <<>>, <<Some(k), p, s>>, <<>>) :
            k \in {A_, Codes("1"), Codes("a:")}, p \in o, s \in o}
       \cup {Op("create_document", <<t>>, <<u, q>>, <<>>) :
                t \in DT \cup {0}, u \in {None, Some(U1), Some(<<>>), Some(XMLURI), Some(XMLNSURI)}, q \in DocQNames}
       \cup {Op("create_document_with_options", <<t>>, <<None, Some(A_)>>, <<b>>) : t \in DT \cup {0}, b \in 0..7}
       \cup {Op("set_xml_declaration", <<d>>, <<x>>, <<v, sa>>) : d \in D, x \in {None, Some(Codes("a-1"))}, v \in {0, 1}, sa \in 0..2}
       \cup {Op("to_string", <<d>>, <<>>, <<>>) : d \in D \cup DT}
       \cup {Op("options", <<>>, <<>>, <<b>>) : b \in 0..7}
       \cup {Op("has_feature", <<>>, S2(f, v), <<>>) :
                f \in {Codes("Core"), Codes("core"), Codes("XML"), Codes("xMl"), Codes("HTML"), <<>>},
                v \in {Codes("1.0"), Codes("2.0"), <<>>, Codes("3.0")}}
       \cup {Op("xml_version", <<>>, S1(v), <<>>) : v \in {Codes("1.0"), Codes("1.1"), Codes("1.2"), <<>>}}

Docs2Alphabet(S) ==
    TreeAll({1, 2, 3, 4, 5, 6}, {2, 4, 5, 6, 7})
    \cup {Op(x, <<e, a>>, <<>>, <<>>) : e \in {2, 4, 5, 6}, a \in {8, 9}, x \in {"set_attribute_node", "remove_attribute_node"}}
    \cup {Op("create_document", <<10>>, <<None, Some(A_)>>, <<>>)} \cup {Op("debug", <<n>>, <<>>, <<>>) : n \in 1..10}

(* Texts that are read. *)
Fragments == {Codes("<a>"), Codes("</a>"), Codes("<b/>"), Codes("<b c='1' d=\"&lt;\">"), Codes("</b>"), Codes(" x "),
              Codes("&amp;y"), Codes("&#65;"), Codes("&z;"), Codes("<!--k-->"), Codes("<![CDATA[<]]>"), Codes("<?p q ?>"),
              Codes("<?xml version='1.0'?>"), Codes("<?xml version='1.1' encoding='u' standalone='no'?>"),
              Codes("<b xml:id='i' xml:id='j'/>"), Codes("<p:q e='%'/>"), <<233>>, Codes("<!DOCTYPE a>"), Codes("<")}
MarkupChars == {60, 62, 47, 61, 34, 39, 32, 97, 38, 59, 33, 45, 63, 93, 35, 49}
Around == {<<Codes("<a>"), Codes("</a>")>>, <<Codes("<a "), Codes("/>")>>, <<Codes("<a b="), Codes("/>")>>,
           <<Codes("<a b='"), Codes("'/>")>>,
           <<Codes("<!--"), Codes("--><a/>")>>, <<Codes("<?p "), Codes("?><a/>")>>, <<Codes("<?xml "), Codes("?><a/>")>>,
           <<Codes("<?xml version="), Codes("?><a/>")>>, <<Codes("<?xml version='"), Codes("'?><a/>")>>,
           <<Codes("<?xml version='1.0' encoding="), Codes("?><a/>")>>, <<Codes("<?xml version='1.0' standalone='"), Codes("'?><a/>")>>,
           <<Codes("<!DOCTYPE "), Codes("><a/>")>>, <<Codes("<a>&"), Codes(";</a>")>>, <<Codes("<a><![CDATA["), Codes("]]></a>")>>, <<<<>>, Codes("<a/>")>>,
           <<Codes("<a/>"), <<>>>>, <<Codes("<a"), Codes("></a>")>>, <<Codes("<a></a"), Codes(">")>>}
DeclWords == {Codes("version='1.0'"), Codes(" version=\"1.1\""), Codes(" encoding='u-8'"), Codes(" encoding='8'"), Codes(" encoding=''"),
              Codes(" standalone='yes'"), Codes(" standalone='no'"), Codes(" standalone='x'"), Codes(" version='2.0'"), Codes(" a='b'"), Codes(" "),
              Codes("version='\"'"), Codes("version=\"'\""), Codes("version='\"1.0\"'"), Codes(" encoding='\"'"), Codes(" encoding=\"'u'\""), Codes(" standalone='\"yes\"'")}
RefWords == {Codes("&lt;"), Codes("&gt;"), Codes("&amp;"), Codes("&apos;"), Codes("&quot;"), Codes("&#38;"), Codes("&#x3C;"), Codes("&#xe9;"),
             Codes("&#0;"), Codes("&#xD800;"), Codes("&#x110000;"), Codes("&#9999999999;"), Codes("&x;"), Codes("&"), Codes(";"), Codes("%a;"),
             Codes("lt;"), Codes("'"), Codes(" "), <<10>>, <<9>>, <<133>>, <<66599>>, Codes("]]>"), Codes(">"), Codes("a")}
ReadOps(T) == {Op("read_xml", <<>>, S1(t), <<>>) : t \in T}
ParseInAlphabet(k) ==
    ReadOps({x[1] \o t \o x[2] : x \in Around, t \in Tuples(Strings(MarkupChars, k))})
Pairs(A, B) == {a \o b : a \in A, b \in B}
UpTo(A, k) == CASE k = 2 -> Pairs(A \cup {<<>>}, A \cup {<<>>})
                [] k = 3 -> Pairs(Pairs(A \cup {<<>>}, A \cup {<<>>}), A \cup {<<>>})
                [] k = 4 -> Pairs(Pairs(A \cup {<<>>}, A \cup {<<>>}), Pairs(A \cup {<<>>}, A \cup {<<>>}))
Within(x, T) == {x[1] \o t \o x[2] : t \in T}
WordsAlphabet(k) ==
    ReadOps(Within(<<Codes("<?xml "), Codes("?><a/>")>>, UpTo(DeclWords, k))
            \cup Within(<<Codes("<a>"), Codes("</a>")>>, UpTo(RefWords, k))
            \cup Within(<<Codes("<a b=\""), Codes("\"/>")>>, UpTo(RefWords, k)))
Whole == {Codes("<a/>"), Codes("<a x='1' xml:id='i1'>t<b/>&lt;<c y='&#38;'/></a>"), Codes("<?xml version='1.0'?><!--k--><a><?p q?><![CDATA[z]]></a>"),
          Codes("<a>"), Codes("<a><b xml:id='i1'/><c xml:id='i1'/></a>")}
(* Bytes, in the places of content.                                        *)
ReadByteChars == {97, 128, 195, 169, 230, 188, 162, 237, 160, 255}
BytePlaces == {<<Codes("<a>"), Codes("</a>")>>, <<Codes("<a b='"), Codes("'/>")>>, <<Codes("<a"), Codes("/>")>>, <<Codes("<!--"), Codes("--><a/>")>>,
               <<Codes("<?p "), Codes("?><a/>")>>, <<Codes("<a "), Codes("='v'/>")>>, <<Codes("<a><![CDATA["), Codes("]]></a>")>>}
ReadBytesAlphabet(S) ==
    {Op("read_bytes", <<>>, <<>>, x[1] \o b \o x[2]) : x \in BytePlaces, b \in Tuples(Strings(ReadByteChars, 3))}
    \cup {Op("read_broken", <<>>, S1(t), <<k, m>>) : t \in Whole, k \in 0..80, m \in {0, 1}}
(* The nodes of a document are numbered as they are in Whole: the root     *)
(* element comes after the document, or after a comment.                   *)
Movable(S, n) == S[n].par = 0 \/ S[S[n].par].ty # "Attribute"
ParseOpsAlphabet(S) ==
    ReadOps(IF S = S0 THEN Whole ELSE {})
    \cup {Op("read_reader", <<>>, S1(t), <<c>>) : t \in IF S = S0 THEN Whole ELSE {}, c \in {1, 2, 3, 5, 7, 64}}
    \cup {Op(x, <<n>>, <<>>, <<>>) : n \in 1..Len(S), x \in {"reread", "to_string"}}
    \cup {Op("set_attribute", <<e>>, S2(X_, v), <<>>) : e \in OfType(S, {"Element"}), v \in {W_, Codes(" <'"), <<10>>}}
    \cup {Op("set_node_value", <<n>>, S1(v), <<>>) : n \in {k \in OfType(S, {"Text", "Comment", "ProcessingInstruction"}) : Movable(S, k)}, v \in {W_, <<>>, Codes(" <"), Codes("&"), Codes("-")}}
    \cup {Op("remove_child", <<S[n].par, n>>, <<>>, <<>>) : n \in {k \in 1..Len(S) : S[k].par # 0 /\ S[S[k].par].ty # "Attribute"}}
    \cup {App(e, n) : e \in OfType(S, {"Element"}), n \in {k \in OfType(S, {"Element", "Text"}) : Movable(S, k)}}
    \cup {Op("normalize", <<n>>, <<>>, <<>>) : n \in OfType(S, {"Document"})}
    \cup {Op("set_xml_declaration", <<n>>, <<x>>, <<1, 0>>) : n \in OfType(S, {"Document"}), x \in {None, Some(A_)}}
    \cup {Op("get_element_by_id", <<n>>, S1(I1), <<>>) : n \in OfType(S, {"Document"})}

(* Letting go of nodes, and what the nodes that are left are good for.     *)
There(S) == {n \in 1..Len(S) : S[n].ty # "Gone"}
LifeAlphabet(S) ==
    LET N == There(S)  E == OfType(S, {"Element"})  A == OfType(S, {"Attribute"})
        D == OfType(S, {"Document"})  T == OfType(S, {"Text"})
        loose == {n \in N : ~HeldByNode(S, n)}
    IN {Op("release", <<n>>, <<>>, <<>>) : n \in loose}
       \cup {Op("remove_child", <<S[n].par, n>>, <<>>, <<>>) : n \in {k \in N : S[k].par # 0 /\ Movable(S, k)}}
       \cup {App(p, c) : p \in E \cup D, c \in loose \ D}
       \cup {Op("remove_attribute_node", <<S[a].own, a>>, <<>>, <<>>) : a \in {k \in A : S[k].own # 0}}
       \cup {Op("set_attribute_node", <<e, a>>, <<>>, <<>>) : e \in E, a \in A \cap loose}
       \cup {Op("set_attribute", <<e>>, S2(k, v), <<>>) : e \in E, k \in {X_, XI}, v \in {I1, W_}}
       \cup {Op("remove_attribute", <<e>>, S1(k), <<>>) : e \in E, k \in {XI, XP}}
       \cup {Op("set_value", <<a>>, S1(v), <<>>) : a \in A, v \in {I1, W_, Codes("&x;")}}
       \cup {Op("unset_value", <<a>>, <<>>, <<>>) : a \in A}
       \cup {Op("split", <<t>>, <<>>, <<1>>) : t \in {k \in T : Movable(S, k)}}
       \cup {Op("clone_node", <<n>>, <<>>, <<1>>) : n \in N}
       \cup {Op(x, <<n>>, <<>>, <<>>) : n \in N, x \in {"normalize", "to_string", "debug"}}
       \cup {Op("get_element_by_id", <<d>>, S1(I1), <<>>) : d \in D}
       \cup {Op("elem_by_tag", <<e>>, S1(Codes("*")), <<>>) : e \in E}
       \cup {Op(x, <<e>>, <<k>>, <<>>) : e \in E, k \in {None, Some(Codes("p"))}, x \in {"resolve_namespace", "get_namespace"}}
       \cup {Op("resolve_prefix", <<e>>, S1(U1), <<>>) : e \in E}
       \cup {Op("create_document", <<t>>, <<None, Some(A_)>>, <<>>) : t \in OfType(S, {"DocumentType"})}

(* What can be done with the nodes of a document that is gone, and whether  *)
(* those of another document go with them.                                  *)
DeadAlphabet(S) ==
    LET N == There(S)  E == OfType(S, {"Element"})  P == OfType(S, {"Element", "Attribute", "EntityReference", "DocumentFragment", "Document"}) \cap (1..20)
        C == {n \in N : Movable(S, n)} \ {12}
    IN {App(p, c) : p \in P, c \in C}
       \cup UNION {{Op(x, <<p, c, r>>, <<>>, <<>>) : c \in C, r \in Elems(S[p].kids), x \in {"insert_before", "replace_child"}} : p \in P}
       \cup {Op("insert_before", <<p, c, 0>>, <<>>, <<>>) : p \in P, c \in C}
       \cup {Op("remove_child", <<p, c>>, <<>>, <<>>) : p \in P, c \in C}
       \cup {Op(x, <<e, a>>, <<>>, <<>>) : e \in E, a \in OfType(S, {"Attribute"}), x \in {"set_attribute_node", "remove_attribute_node"}}
       \cup {Op("set_attribute", <<e>>, S2(k, V_), <<>>) : e \in E, k \in {X_, XI}}
       \cup {Op("set_attribute_ns", <<e>>, S3(XMLNSURI, XP, U1), <<>>) : e \in E}
       \cup {Op(x, <<e>>, S1(X_), <<>>) : e \in E, x \in {"get_attribute", "get_attribute_node", "has_attribute", "remove_attribute", "elem_by_tag"}}
       \cup {Op("set_value", <<a>>, S1(W_), <<>>) : a \in OfType(S, {"Attribute"})}
       \cup {Op("split", <<k>>, <<>>, <<0>>) : k \in OfType(S, {"Text", "CData"}) \cap C}
       \cup {Op("set_node_value", <<k>>, S1(V_), <<>>) : k \in C}
       \cup {Op("clone_node", <<n>>, <<>>, <<d>>) : n \in N, d \in {0, 1}}
       \cup {Op(x, <<n>>, <<>>, <<>>) : n \in N, x \in {"normalize", "to_string", "debug", "casts"}}
       \cup {Op("create_document", <<t>>, <<None, Some(A_)>>, <<>>) : t \in OfType(S, {"DocumentType", "Element"})}

(* All characters, by ranges of 2048; and those around the borders.        *)
Sweeps == ("sweepname" :> {"sweep_name"}) @@ ("sweepedit" :> {"sweep_edit"}) @@ ("sweepsplit" :> {"sweep_split"})
          @@ ("sweeptext" :> {"sweep_text"}) @@ ("sweepvalue" :> {"sweep_value", "sweep_charref"})
          @@ ("sweepenc" :> {"sweep_encoding"})
Edges == ("edgeread" :> {"sweep_read", "sweep_readref"})
(* The first plane, and the ends of the others. *)
Planes == ("sweepread" :> {"sweep_read", "sweep_readref"})
ScriptFams == [f \in {"scriptnormal", "scriptfind", "scriptid", "scriptns", "scriptattr", "scriptclone", "scriptfeature",
                 "scriptser", "scriptkinds", "scriptparts"} |-> {"sweep_" \o SubSeq(f, 7, Len(f))}]
SweepAlphabet(K, a, b) ==
    {Op(x, <<>>, IF x \in ScriptedOps THEN ScriptS[x] ELSE <<>>,
        <<2048 * k, 2048 * k + 2047>> \o (IF x \in ScriptedOps THEN ScriptI[x] ELSE <<>>)) : x \in K, k \in a..b}

Alphabet(S) ==
    CASE Fam = "tree" -> TreeAll(1..5, 1..5)
      [] Fam = "tree5" -> TreeAll(1..4, 1..6)
      [] Fam = "types" -> TreeAll(1..Len(S), 1..Len(S))
      [] Fam = "docs2" -> Docs2Alphabet(S)
      [] Fam = "attrs" -> AttrAlphabet(S)
      [] Fam \in {"ids", "idslax"} -> IdAlphabet(S)
      [] Fam = "ns" -> NsAlphabet(S)
      [] Fam = "chars" -> CharAlphabet({2, 3, 4}, {<<>>, X_, <<66599>>}) \cup
                          {Op("split", <<n>>, <<>>, <<o>>) : n \in {2, 4}, o \in Offsets}
      [] Fam = "chars2" -> CharAlphabet({2}, {<<>>, <<66599>>}) \cup {Op("split", <<2>>, <<>>, <<o>>) : o \in Offsets}
      [] Fam = "texts" -> TextAlphabet(S)
      [] Fam = "texts2" -> Texts2Alphabet(S)
      [] Fam = "esc" -> EscAlphabet(S)
      [] Fam = "ns3" -> Ns3Alphabet(S)
      [] Fam = "clone" -> CloneAlphabet(S)
      [] Fam = "find" -> FindAlphabet(S)
      [] Fam = "ser" -> SerAlphabet(S)
      [] Fam = "names" -> NameAlphabet(3)
      [] Fam = "names4" -> NameAlphabet(4)
      [] Fam = "values" -> ValueAlphabet(3)
      [] Fam = "values4" -> ValueAlphabet(4)
      [] Fam = "kinds" -> KindAlphabet(S)
      [] Fam = "parse" -> ReadOps(UpTo(Fragments, 3))
      [] Fam = "parse4" -> ReadOps(UpTo(Fragments, 4))
      [] Fam = "parsein" -> ParseInAlphabet(2)
      [] Fam = "parsein3" -> ParseInAlphabet(3)
      [] Fam = "parsewords" -> WordsAlphabet(2)
      [] Fam = "parsewords3" -> WordsAlphabet(3)
      [] Fam = "readbytes" -> ReadBytesAlphabet(S)
      [] Fam = "parseops" -> ParseOpsAlphabet(S)
      [] Fam = "wrong" -> WrongAlphabet(S)
      [] Fam = "direct" -> DirectAlphabet(S)
      [] Fam = "kids3" -> Kids3Alphabet(S)
      [] Fam = "life" -> LifeAlphabet(S)
      [] Fam = "dead" -> DeadAlphabet(S)
      [] Fam = "docs" -> DocsAlphabet(S)
      [] Fam = "consts" -> ConstAlphabet(S)
      [] Fam = "nameops" -> NameOpsAlphabet(S)
      [] Fam = "clone2" -> Clone2Alphabet(S)
      [] Fam \in {"ids2", "ids2lax"} -> Ids2Alphabet(S)
      [] Fam = "ns4" -> Ns4Alphabet(S)
      [] Fam = "find2" -> Find2Alphabet(S)
      [] Fam = "attrkids" -> AttrKidsAlphabet(S)
      [] Fam \in DOMAIN Sweeps -> SweepAlphabet(Sweeps[Fam], 0, 543)
      [] Fam \in DOMAIN Edges -> SweepAlphabet(Edges[Fam], 0, 5) \cup SweepAlphabet(Edges[Fam], 27, 31)
                                \cup SweepAlphabet(Edges[Fam], 479, 480) \cup SweepAlphabet(Edges[Fam], 543, 543)
      [] Fam \in DOMAIN ScriptFams ->
           IF MaxDepth < 2 THEN SweepAlphabet(ScriptFams[Fam], 0, 6) \cup SweepAlphabet(ScriptFams[Fam], 31, 32)
                                \cup SweepAlphabet(ScriptFams[Fam], 62, 62) \cup SweepAlphabet(ScriptFams[Fam], 543, 543)
           ELSE SweepAlphabet(ScriptFams[Fam], 0, 32) \cup UNION {SweepAlphabet(ScriptFams[Fam], 32 * k - 1, 32 * k) : k \in 2..16}
                \cup SweepAlphabet(ScriptFams[Fam], 543, 543)
      [] Fam \in DOMAIN Planes -> SweepAlphabet(Planes[Fam], 0, 32)
                                 \cup UNION {SweepAlphabet(Planes[Fam], 32 * k - 1, 32 * k) : k \in 2..16}
                                 \cup SweepAlphabet(Planes[Fam], 543, 543)

MaxNodes ==
    CASE Fam = "clone" -> 26 [] Fam = "attrs" -> 18 [] Fam \in {"ids", "idslax"} -> 20 [] Fam = "texts" -> 12 [] OTHER -> 40

(* The alphabet is all that there is to do; a state which is too big is    *)
(* not explored further.                                                   *)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE (q[1] + 3 * Sum(Tail(q))) % 1000
HashOf(e) == IF e.op \in ScriptedOps THEN e.i[1] \div 2048 ELSE
    Len(e.op) + (IF e.i = <<>> THEN 0 ELSE e.i[1] \div 2048 + Sum(e.i)) + Sum([i \in 1..Len(e.s) |-> IF e.s[i] = None THEN 0 ELSE Sum(e.s[i][1])])
Ops(S) == IF Len(S) > MaxNodes THEN {}
          ELSE IF Parts > 1 THEN {e \in Alphabet(S) : HashOf(e) % Parts = Part}
          ELSE Alphabet(S)

-----------------------------------------------------------------------------
Init == vS = S0 /\ vHist = <<>>
(* A sweep only looks: it is evaluated once, to be printed. *)
Next == \E e \in {x \in Ops(vS) : x.op \notin SweepOps} :
    /\ Len(vHist) < MaxDepth
    /\ LET c == Apply(vS, e) IN
       /\ Assert(StepOk(vS, e, c), <<"a transition breaks its property", vHist, e>>)
       /\ c.S # vS
       /\ vS' = c.S
       /\ vHist' = Append(vHist, e)

Obs == Observe(vS, PR)
LinksInv == Links(Obs)
ContentInv == Content_(Obs)
OwnersInv == Owners(Obs)
AttrsInv == Attrs(Obs)
ValuesInv == Values(Obs)
IdsInv == Ids(vS, Obs, PR)
MappingsInv == Mappings(vS, Obs, PR)
DatasInv == Datas(Obs)
NamesInv == Names(Obs)
KindsInv == Kinds(Obs)
DocsInv == Docs(Obs)
LivesInv == Lives(Obs)

Change(c) == LET T == c.S IN
    {<<n, Proj(T, n, PR)>> : n \in {m \in 1..Len(T) : m > Len(vS) \/ Proj(vS, m, PR) # Proj(T, m, PR)}}
Emit ==
    (Emitting /\ Len(vHist) < MaxDepth) =>
        PrintT(ToJson([h |-> Script \o vHist,
                       c |-> {LET c == Apply(vS, e) IN
                              [e |-> e, R |-> c.R, d |-> IF c.S = vS THEN {} ELSE Change(c)] : e \in Ops(vS)}]))
View == vS
=============================================================================
