--------------------------------- MODULE Sweep ---------------------------------
(***************************************************************************)
(* Every character. A sweep does the same small thing with each Unicode    *)
(* scalar value of a range (as a name, as text, within an edit, as a       *)
(* value, as a reference, in a text that is read); what is observed is     *)
(* written with -1 for the character itself, and given as runs: where the  *)
(* observation becomes another one, and which. So each of the 1 112 064    *)
(* characters is in the model and in the replay, not only the ends of the  *)
(* ranges which the definitions here happen to name.                       *)
(***************************************************************************)
EXTENDS Parse

ScriptedOps == {"sweep_normal", "sweep_find", "sweep_id", "sweep_ns", "sweep_attr", "sweep_clone", "sweep_feature",
                "sweep_ser", "sweep_kinds", "sweep_parts"}
SweepOps == {"sweep_name", "sweep_edit", "sweep_split", "sweep_text", "sweep_value", "sweep_charref", "sweep_encoding",
             "sweep_read", "sweep_readref"} \cup ScriptedOps

SEP == -2
Mask(c, s) == [k \in 1..Len(s) |-> IF s[k] = c THEN -1 ELSE s[k]]
ErrCode(x) ==
    CASE x = "Syntax" -> 1 [] x = "InvalidCharacter" -> 2 [] x = "Namespace" -> 3 [] x = "IndexSize" -> 4
      [] x = "Parse" -> 5 [] OTHER -> 9
SawErr(E) == <<-3, ErrCode(CHOOSE x \in E : TRUE)>>
RECURSIVE Joined(_, _)
Joined(q, acc) == IF q = <<>> THEN acc ELSE Joined(Tail(q), acc \o <<SEP>> \o q[1])

(* A name: alone, at the end, in the middle, as a prefix, as a local name. *)
SawName(c, s) ==
    LET nm == ParseName(s)
    IN IF ~nm.ok THEN SawErr(nm.e)
       ELSE (IF nm.pf = None THEN <<>> ELSE Mask(c, nm.pf[1]) \o <<-4>>) \o Mask(c, nm.ln)
OfName(c) ==
    Joined(<<SawName(c, <<c>>), SawName(c, <<97, c>>), SawName(c, <<97, c, 98>>), SawName(c, <<c, 58, 97>>),
             SawName(c, <<97, 58, c>>), SawName(c, <<97, c, 58, 98, c>>)>>, <<>>)

(* Edits of the data a c b: the nodes are a document and a text.           *)
SweepDoc == <<NewNode("Document", DocumentName, None, 0)>>
SawOut(c, o) ==
    LET r == CHOOSE x \in o.R : TRUE
    IN IF r.k = "err" THEN SawErr({r.e})
       ELSE IF r.k = "str" THEN Mask(c, r.s[1][1])
       ELSE Joined([k \in 1..Len(o.S) - 1 |-> Mask(c, DataOf(o.S, k + 1))], <<>>)
OfEdit(c) ==
    LET S == Append(SweepDoc, NewText(<<97, c, 98>>, 1))
        T == Append(SweepDoc, NewText(<<97>>, 1))
        w == Width(c)
    IN Joined([k \in 1..w + 1 |-> SawOut(c, SubstringData(S, 2, 1, k - 1))]
              \o [k \in 1..w + 1 |-> SawOut(c, ReplaceData(S, 2, 1, k - 1, <<>>))]
              \o <<SawOut(c, AppendData(T, 2, <<c>>)), SawOut(c, ReplaceData(T, 2, 0, 0, <<c>>)),
                   SawOut(c, ReplaceData(S, 2, 0, 1, <<c>>))>>, <<ByteLen(<<97, c, 98>>)>>)

OfSplit(c) ==
    LET S == Append(SweepDoc, NewText(<<97, c, 98>>, 1))
        T == Append(SweepDoc, NewNode("CData", CDataName, Some(<<97, c>>), 1))
        w == Width(c)
    IN Joined([k \in 1..w + 3 |-> SawOut(c, Split(S, 2, k - 1))]
              \o [k \in 1..w + 2 |-> SawOut(c, Split(T, 2, k - 1))], <<>>)

(* The data of each kind of node that has data, and its text form.         *)
SawLeaf(c, ty, nm, s) ==
    LET S == Append(SweepDoc, NewNode(ty, nm, Some(s), 1))
    IN Joined(<<Mask(c, LeafSer(S, 2))>>, Mask(c, DataOf(S, 2)))
OfText(c) ==
    Joined([k \in 1..8 |->
        LET s == IF k % 2 = 0 THEN <<c>> ELSE <<120, c, 121>>
        IN CASE k \in 1..2 -> SawLeaf(c, "Text", TextName, s)
             [] k \in 3..4 -> SawLeaf(c, "CData", CDataName, s)
             [] k \in 5..6 -> SawLeaf(c, "Comment", CommentName, s)
             [] k \in 7..8 -> SawLeaf(c, "ProcessingInstruction", NameOk(None, None, <<112>>), s)], <<>>)

(* The value of an attribute. *)
SawValue(c, s) == Mask(c, AttrText(s))
OfValue(c) ==
    Joined(<<SawValue(c, <<c>>), SawValue(c, <<120, c, 121>>), SawValue(c, <<120, c>>), SawValue(c, <<c, 121>>),
             SawValue(c, <<38, c>>), SawValue(c, <<37, c>>), SawValue(c, <<38, 35, c, 59>>),
             SawValue(c, <<38, 35, 120, c, 59>>), SawValue(c, <<38, 35, 51, c, 59>>), SawValue(c, <<13, c, 120>>)>>, <<>>)

RECURSIVE Hex(_, _)
Hex(k, a) == LET d == k % 16  s == <<IF d < 10 THEN 48 + d ELSE a + d - 10>>
             IN IF k < 16 THEN s ELSE Hex(k \div 16, a) \o s
DecRef(k) == <<38, 35>> \o Dec(k) \o <<59>>
HexRef(k, a, pad) == <<38, 35, 120>> \o pad \o Hex(k, a) \o <<59>>
(* What stands for the character, or else what was written.                *)
SawRef(k, ref) == LET v == AttrText(ref) IN IF v = Escape(ref) THEN <<-5>> ELSE Mask(k, v)
OfCharRef(k) ==
    Joined(<<SawRef(k, DecRef(k)), SawRef(k, HexRef(k, 97, <<>>)), SawRef(k, HexRef(k, 65, <<48, 48, 48>>)),
             SawRef(k, <<97>> \o DecRef(k) \o <<98>>)>>, <<>>)

OfEncoding(c) ==
    LET ok(s) == <<IF IsEncoding(s) THEN 1 ELSE 0>>
    IN Joined(<<ok(<<c>>), ok(<<97, c>>), ok(<<97, c, 122>>), ok(<<65, c, c>>)>>, <<>>)

(* A text that is read; what the document has to show, in document order.  *)
RECURSIVE SawBelow(_, _, _)
SawBelow(c, S, n) ==
    LET v == NodeVal(S, n)
        at == AttrsSorted(S, n)
    IN Mask(c, QN(S, n)) \o (IF v = None THEN <<>> ELSE <<-6>> \o Mask(c, v[1]))
       \o FlattenSeq([k \in 1..Len(at) |-> <<-7>> \o SawBelow(c, S, at[k])])
       \o (IF Is(S, n, "Attribute") THEN <<>>
           ELSE FlattenSeq([k \in 1..Len(S[n].kids) |-> <<-8>> \o SawBelow(c, S, S[n].kids[k])]))
SawRead(c, t) ==
    LET r == ParseDoc(<<>>, t)
    IN CASE r.k = "ok" -> SawBelow(c, r.S, r.d) [] r.k = "err" -> SawErr({"Parse"}) [] r.k = "any" -> <<-10>>
(* The character stands where the @ is. *)
Texts == <<Codes("<a>@</a>"), Codes("<a>x@y</a>"), Codes("<a b='x@y'/>"), Codes("<@/>"),
           Codes("<a@ @='v'></a@>"), Codes("<!--x@y--><a/>"), Codes("<?p x@y?><a><![CDATA[@]]></a>"),
           Codes("@<a/>"), Codes("<a/>@"), Codes("<a>&@;</a>"), Codes("<a b=@v@/>"), Codes("<a@b='v'/>"),
           Codes("<?p@?><a/>"), Codes("<?xml version='1.0' encoding='a@'?><a/>")>>
RefTexts == <<Codes("<a>x@</a>"), Codes("<a b='@y'/>"), Codes("<a>@y</a>")>>
Fill(t, s) == FlattenSeq([k \in 1..Len(t) |-> IF t[k] = 64 THEN s ELSE <<t[k]>>])
OfRead(c) == Joined([k \in 1..Len(Texts) |-> SawRead(c, Fill(Texts[k], <<c>>))], <<>>)
OfReadRef(k) ==
    Joined(<<SawRead(k, Fill(RefTexts[1], DecRef(k))), SawRead(k, Fill(RefTexts[2], HexRef(k, 97, <<>>))),
             SawRead(k, Fill(RefTexts[3], HexRef(k, 65, <<>>)))>>, <<>>)

(* Scripted sweeps: operations of Dom, one after the other, with the        *)
(* character in the place of each @ of their strings. First what is always  *)
(* the same, then what is seen: the result of each operation, and all of    *)
(* the nodes at the end. An operation on a node that there is not (as it    *)
(* could not be made: its name was no name) is passed over.                 *)
Do(op, n, s, i) == [op |-> op, n |-> n, i |-> i,
                    s |-> [k \in 1..Len(s) |-> IF s[k] = "~" THEN None ELSE Some(Codes(s[k]))]]
DoNew == Do("create_document_with_options", <<0>>, <<"~", "a">>, <<4>>)      \* 1, and its element 2
DoText(s) == Do("create_text_node", <<1>>, <<s>>, <<>>)
DoElement(s) == Do("create_element", <<1>>, <<s>>, <<>>)
DoElementNs(u, s) == Do("create_element_ns", <<1>>, <<u, s>>, <<>>)
DoAppend(p, k) == Do("append_child", <<p, k>>, <<>>, <<>>)
DoOn(op, n, s) == Do(op, <<n>>, s, <<>>)
DoDeep(op, n) == Do(op, <<n>>, <<>>, <<1>>)
XmlUri == "http://www.w3.org/XML/1998/namespace"
XmlnsUri == "http://www.w3.org/2000/xmlns/"
Scripts ==
    ("sweep_normal" :> [setup |-> <<DoNew, DoElement("b"), DoAppend(2, 3)>>,
        steps |-> <<DoText("@"), DoAppend(2, 4), DoText(""), DoAppend(2, 5), DoText("x@"), DoAppend(2, 6),
                    DoOn("create_comment", 1, <<"@">>), DoAppend(2, 7), DoText("@"), DoAppend(2, 8), DoText("y"), DoAppend(2, 9),
                    DoText("@"), DoAppend(3, 10), DoOn("create_cdata_section", 1, <<"@">>), DoAppend(3, 11), DoText("@@"), DoAppend(3, 12),
                    DoOn("create_attribute", 1, <<"n">>), Do("set_attribute_node", <<3, 13>>, <<>>, <<>>),
                    DoText("@"), DoAppend(13, 14), DoText("@x"), DoAppend(13, 15), DoText(""), DoAppend(13, 16),
                    DoOn("normalize", 2, <<>>)>>])
 @@ ("sweep_find" :> [setup |-> <<DoNew, DoElementNs("u:1", "p:b"), DoAppend(2, 3), DoElement("a"), DoAppend(3, 4)>>,
        steps |-> <<DoElement("a@"), DoAppend(3, 5), DoElementNs("u:1@", "c"), DoAppend(2, 6), DoElementNs("@", "p:a"), DoAppend(2, 7),
                    DoOn("elem_by_tag", 2, <<"@">>), DoOn("elem_by_tag", 2, <<"a@">>), DoOn("elem_by_tag", 2, <<"@a">>),
                    DoOn("elem_by_tag", 2, <<"p:b@">>), DoOn("doc_by_tag", 1, <<"p@b">>), DoOn("elem_by_tag", 2, <<"*@">>),
                    DoOn("elem_by_tag", 2, <<"@*">>), DoOn("elem_by_tag_ns", 2, <<"u:1@", "*">>), DoOn("elem_by_tag_ns", 2, <<"u:1", "@">>),
                    DoOn("elem_by_tag_ns", 2, <<"@", "*">>), DoOn("elem_by_tag_ns", 2, <<"*", "a@">>),
                    DoOn("doc_by_tag_ns", 1, <<"@u:1", "b">>), DoOn("elem_by_tag_ns", 2, <<"*", "@">>), DoOn("elem_by_tag_ns", 2, <<"u@1", "b">>)>>])
 @@ ("sweep_id" :> [setup |-> <<DoNew, DoElement("b"), DoAppend(2, 3)>>,
        steps |-> <<DoOn("set_attribute", 2, <<"xml:id", "x@">>), DoOn("get_element_by_id", 1, <<"x@">>), DoOn("get_element_by_id", 1, <<"x">>),
                    DoOn("get_element_by_id", 1, <<"@">>), DoOn("get_element_by_id", 1, <<"x@@">>), DoOn("get_element_by_id", 1, <<"@x@">>),
                    DoOn("get_element_by_id", 1, <<"x@ ">>), DoOn("get_element_by_id", 1, <<"X@">>),
                    DoOn("set_attribute", 3, <<"xml:id", "x">>), DoOn("get_element_by_id", 1, <<"x">>), DoOn("get_element_by_id", 1, <<"x@">>),
                    DoOn("set_attribute", 3, <<"xml:id", "x@">>), DoOn("get_element_by_id", 1, <<"x@">>),
                    DoOn("remove_attribute", 2, <<"xml:id">>), DoOn("get_element_by_id", 1, <<"x@">>), DoOn("get_element_by_id", 1, <<"x">>),
                    DoOn("set_attribute", 2, <<"xml:id", "@">>), DoOn("get_element_by_id", 1, <<"@">>), DoOn("get_element_by_id", 1, <<"">>)>>])
 @@ ("sweep_ns" :> [setup |-> <<DoNew, DoElement("b"), DoAppend(2, 3)>>,
        steps |-> <<DoOn("set_attribute_ns", 2, <<XmlnsUri, "xmlns:p", "u@">>), DoOn("set_attribute_ns", 2, <<XmlnsUri, "xmlns", "@">>),
                    DoOn("set_attribute_ns", 2, <<XmlnsUri, "xmlns:q@", "v">>),
                    DoOn("get_namespace", 2, <<"p">>), DoOn("get_namespace", 2, <<"~">>), DoOn("resolve_namespace", 3, <<"p">>),
                    DoOn("resolve_namespace", 3, <<"~">>), DoOn("get_namespace", 2, <<"q@">>), DoOn("resolve_namespace", 3, <<"q">>),
                    DoOn("get_namespace", 2, <<"@">>), DoOn("get_namespace", 2, <<"p@">>), DoOn("resolve_namespace", 3, <<"@p">>), DoOn("contains_mapping", 2, <<"q@">>),
                    DoOn("contains_mapped_namespace", 2, <<"u@">>), DoOn("contains_mapped_namespace", 2, <<"u">>),
                    DoOn("contains_mapped_namespace", 2, <<"U@">>), DoOn("contains_mapped_namespace", 2, <<"@u">>), DoOn("get_prefix", 2, <<"u@">>),
                    DoOn("get_prefix", 2, <<"u">>), DoOn("resolve_prefix", 3, <<"u@">>), DoOn("resolve_prefix", 3, <<"u@/">>),
                    DoOn("resolve_prefix", 3, <<"v@">>),
                    DoOn("remove_attribute", 2, <<"xmlns:q@">>), DoOn("get_namespace", 2, <<"q@">>), DoOn("resolve_prefix", 3, <<"v">>)>>])
 @@ ("sweep_attr" :> [setup |-> <<DoNew>>,
        steps |-> <<DoOn("set_attribute", 2, <<"b@", "v">>), DoOn("set_attribute", 2, <<"@", "w">>), DoOn("set_attribute_ns", 2, <<"u:1@", "p:b", "y">>),
                    DoOn("has_attribute", 2, <<"b@">>), DoOn("get_attribute", 2, <<"b">>), DoOn("get_attribute", 2, <<"@b">>),
                    DoOn("get_attribute_node", 2, <<"@">>), DoOn("get_attribute_ns", 2, <<"u:1@", "b">>), DoOn("has_attribute_ns", 2, <<"u:1", "b">>),
                    DoOn("get_attribute_node_ns", 2, <<"u:1@", "b@">>), DoOn("has_attribute_ns", 2, <<"@u:1", "b">>), DoOn("get_attribute", 2, <<"p:b@">>),
                    DoOn("get_attribute", 2, <<"p@b">>), DoOn("set_attribute", 2, <<"b", "@">>), DoOn("get_attribute", 2, <<"b">>),
                    DoOn("set_attribute", 2, <<"b@", "z">>), DoOn("get_attribute", 2, <<"b@">>),
                    DoOn("remove_attribute_ns", 2, <<"u:1@", "b">>), DoOn("remove_attribute", 2, <<"b@">>), DoOn("remove_attribute", 2, <<"@b">>)>>])
 @@ ("sweep_clone" :> [setup |-> <<DoNew, DoElementNs("u:1", "p:b"), DoAppend(2, 3)>>,
        steps |-> <<DoText("@"), DoAppend(3, 4), DoOn("create_cdata_section", 1, <<"x@">>), DoAppend(3, 5), DoOn("create_comment", 1, <<"@">>), DoAppend(3, 6),
                    DoOn("create_processing_instruction", 1, <<"p", "@">>), DoAppend(3, 7), DoText("x@y"), DoAppend(3, 8),
                    DoOn("set_attribute", 3, <<"n", "x@">>), DoDeep("clone_node", 3), DoDeep("clone_node", 4), DoDeep("clone_node", 5), DoDeep("clone_node", 6),
                    DoDeep("clone_node", 7), DoElementNs("@u", "p:a@"), Do("clone_node", <<19>>, <<>>, <<0>>)>>])
 @@ ("sweep_feature" :> [setup |-> <<DoNew>>,
        steps |-> <<Do("has_feature", <<>>, <<"@", "1.0">>, <<>>), Do("has_feature", <<>>, <<"x@l", "1.0">>, <<>>), Do("has_feature", <<>>, <<"core@", "2.0">>, <<>>),
                    Do("has_feature", <<>>, <<"@XML", "">>, <<>>), Do("has_feature", <<>>, <<"@ore", "2.0">>, <<>>),
                    Do("has_feature", <<>>, <<"xml", "@">>, <<>>), Do("has_feature", <<>>, <<"core", "2.@">>, <<>>), Do("has_feature", <<>>, <<"XML", "1@0">>, <<>>),
                    Do("has_feature", <<>>, <<"xml", "1.0@">>, <<>>), DoOn("is_supported", 2, <<"xm@", "@.0">>), DoOn("is_supported", 1, <<"core", "@2.0">>),
                    Do("xml_version", <<>>, <<"1.@">>, <<>>), Do("xml_version", <<>>, <<"@">>, <<>>), Do("xml_version", <<>>, <<"1.0@">>, <<>>),
                    Do("xml_version", <<>>, <<"@1.1">>, <<>>), Do("xml_version", <<>>, <<"1@1">>, <<>>)>>])
 @@ ("sweep_ser" :> [setup |-> <<DoNew>>,
        steps |-> <<DoElement("a@"), DoOn("set_attribute", 3, <<"b@", "v">>), DoOn("create_entity_reference", 1, <<"e@">>), DoAppend(2, 6),
                    DoOn("to_string", 3, <<>>), DoOn("to_string", 6, <<>>), DoOn("to_string", 2, <<>>),
                    DoOn("create_processing_instruction", 1, <<"t@", "x">>), DoOn("to_string", 7, <<>>),
                    DoOn("create_notation", 1, <<"n@", "p@", "@">>), DoOn("to_string", 8, <<>>),
                    DoOn("create_entity", 1, <<"n@", "@", "s@">>), DoOn("to_string", 9, <<>>),
                    DoOn("create_internal_entity", 1, <<"n@", "x@">>), DoOn("to_string", 10, <<>>),
                    Do("create_document_type", <<>>, <<"d@", "p@", "@">>, <<>>), DoOn("to_string", 11, <<>>)>>])
 @@ ("sweep_kinds" :> [setup |-> <<DoNew, DoText("x"), DoOn("create_comment", 1, <<"x">>), DoOn("create_cdata_section", 1, <<"x">>),
                                   DoOn("create_processing_instruction", 1, <<"p", "x">>), DoOn("create_attribute", 1, <<"n">>),
                                   DoOn("create_document_fragment", 1, <<>>), DoOn("create_notation", 1, <<"n", "p", "s">>)>>,
        steps |-> <<DoOn("set_node_value", 1, <<"@">>), DoOn("set_node_value", 2, <<"@">>), DoOn("set_node_value", 3, <<"@">>), DoOn("set_node_value", 4, <<"x@">>),
                    DoOn("set_node_value", 5, <<"@x">>), DoOn("set_node_value", 6, <<"@">>), DoOn("set_node_value", 7, <<"x@">>), DoOn("set_node_value", 8, <<"@">>),
                    DoOn("set_node_value", 9, <<"@">>), DoOn("set_data", 3, <<"@@">>), DoOn("pi_set_data", 6, <<"@ @">>), DoOn("set_data", 4, <<"@">>),
                    DoOn("create_internal_entity", 1, <<"e", "@">>), DoOn("create_entity_reference", 1, <<"r@">>),
                    DoOn("create_processing_instruction", 1, <<"t@", "@">>), DoOn("create_processing_instruction", 1, <<"xm@", "x">>),
                    DoOn("create_attribute_with", 1, <<"m", "@x">>)>>])
 @@ ("sweep_parts" :> [setup |-> <<DoNew>>,
        steps |-> <<Do("name_new_ns", <<>>, <<"u@", "p:a">>, <<>>), Do("name_new_ns", <<>>, <<"@", "a">>, <<>>), Do("name_new_ns", <<>>, <<XmlUri \o "@", "xml:a">>, <<>>),
                    Do("name_new_ns", <<>>, <<"@" \o XmlnsUri, "xmlns:a">>, <<>>), Do("name_new_ns", <<>>, <<"u", "@:a">>, <<>>), Do("name_new_ns", <<>>, <<"u", "p:a@">>, <<>>),
                    Do("name_new_ns", <<>>, <<"u", "xm@:a">>, <<>>), Do("name_new_ns", <<>>, <<"u", "xmlns@">>, <<>>), Do("name_new_ns", <<>>, <<"u", "p@a">>, <<>>),
                    Do("name_eq", <<>>, <<"u@", "a", "u", "a">>, <<>>), Do("name_eq", <<>>, <<"u@", "a", "u@", "a">>, <<>>), Do("name_eq", <<>>, <<"~", "a@", "~", "a">>, <<>>),
                    Do("name_eq", <<>>, <<"~", "a@", "~", "A@">>, <<>>),
                    Do("name_set_prefix", <<>>, <<"u", "a", "@">>, <<>>), Do("name_set_prefix", <<>>, <<"u@", "p:a", "q@">>, <<>>),
                    Do("name_set_prefix", <<>>, <<"~", "p:a", "xm@">>, <<>>), Do("name_set_prefix", <<>>, <<"u", "p@:a", "~">>, <<>>),
                    Do("name_bytes", <<>>, <<"a@:b@">>, <<>>), DoElementNs("@", "p:a@"), DoOn("create_attribute_ns", 1, <<"u@", "p@:a">>)>>])

RECURSIVE DoEach(_, _), SeeAll(_, _, _, _)
DoEach(S, q) == IF q = <<>> THEN S ELSE DoEach(ApplyDom(S, q[1]).S, Tail(q))
SetUps == [x \in DOMAIN Scripts |-> DoEach(<<>>, Scripts[x].setup)]
With(e, c) == [e EXCEPT !.s = [k \in 1..Len(e.s) |-> IF e.s[k] = None THEN None ELSE Some(Fill(e.s[k][1], <<c>>))]]
ResultKinds == <<"unit", "node", "optnode", "nodes", "str", "bool", "int", "prefix", "name", "equal">>
SawOpt(c, o) == IF o = None THEN <<-15>> ELSE <<-16>> \o Mask(c, o[1])
SawResult(c, r) ==
    IF r.k = "err" THEN <<-3>>
    ELSE IF r.k = "panic" THEN <<-13>>
    ELSE <<Pos(ResultKinds, r.k)>> \o r.n \o FlattenSeq([k \in 1..Len(r.s) |-> SawOpt(c, r.s[k])])
SeeAll(c, S, q, acc) ==
    IF q = <<>> THEN [S |-> S, seen |-> acc]
    ELSE IF \E k \in 1..Len(q[1].n) : q[1].n[k] > Len(S) THEN SeeAll(c, S, Tail(q), acc \o <<SEP, -14>>)
    ELSE LET o == TLCEval(ApplyDom(S, With(q[1], c)))
         IN SeeAll(c, o.S, Tail(q), acc \o <<SEP>> \o SawResult(c, CHOOSE r \in o.R : TRUE))
SawNode(c, S, n) ==
    <<SEP, -20>> \o Mask(c, QN(S, n)) \o SawOpt(c, NodeVal(S, n)) \o <<-17, S[n].par, -18>> \o S[n].kids
    \o <<-19>> \o SetToSortSeq(S[n].attrs, <)
OfScript(x, c) ==
    LET r == SeeAll(c, SetUps[x], Scripts[x].steps, <<>>)
    IN r.seen \o FlattenSeq([n \in 1..Len(r.S) |-> SawNode(c, r.S, n)])
(* The script, as arguments of the operation.                               *)
FlatArgs(q) == FlattenSeq([k \in 1..Len(q) |-> <<Len(q[k].n)>> \o q[k].n \o <<Len(q[k].s), Len(q[k].i)>> \o q[k].i])
NamedOps(q) == FlattenSeq([k \in 1..Len(q) |-> <<Some(Codes(q[k].op))>> \o q[k].s])
ScriptS == [x \in DOMAIN Scripts |-> NamedOps(Scripts[x].setup \o Scripts[x].steps)]
ScriptI == [x \in DOMAIN Scripts |-> <<Len(Scripts[x].setup)>> \o FlatArgs(Scripts[x].setup \o Scripts[x].steps)]

IsSurrogate(c) == Between(c, 55296, 57343)
(* Not for the parser: the markup characters (the families of texts are of *)
(* those), and what a lenient parser may take one way or the other.        *)
Left(op, c) ==
    CASE op = "sweep_charref" -> FALSE
      [] op = "sweep_readref" -> OddChar(c) /\ c # 13
      [] op = "sweep_read" -> IsSurrogate(c) \/ c < 128 \/ OddSpace(c) \/ OddChar(c)
      [] OTHER -> IsSurrogate(c)
Saw(op, c) ==
    IF Left(op, c) THEN <<-9>>
    ELSE CASE op = "sweep_name" -> OfName(c)
           [] op = "sweep_edit" -> OfEdit(c)
           [] op = "sweep_split" -> OfSplit(c)
           [] op = "sweep_text" -> OfText(c)
           [] op = "sweep_value" -> OfValue(c)
           [] op = "sweep_charref" -> OfCharRef(c)
           [] op = "sweep_encoding" -> OfEncoding(c)
           [] op = "sweep_read" -> OfRead(c)
           [] op = "sweep_readref" -> OfReadRef(c)
           [] OTHER -> OfScript(op, c)

Runs(op, lo, hi) ==
    LET saw == TLCEval([c \in lo..hi |-> <<>> \o Saw(op, c)])
        starts == SetToSortSeq({c \in lo..hi : c = lo \/ saw[c] # saw[c - 1]}, <)
    IN Res("runs", starts, [k \in 1..Len(starts) |-> Some(saw[starts[k]])])

(* Many operations as one: much of the same is made below, or of, node t.   *)
(*   kids    children of many types, some of them texts side by side       *)
(*   chain   elements inside of each other                                  *)
(*   attrs   attributes of t                                                *)
(*   ids     children which each have an ID                                 *)
(*   texts   data at the end of t                                           *)
GrowOps == {"grow kids", "grow chain", "grow attrs", "grow ids", "grow texts"}
GrowOp(op, n, s) == [op |-> op, n |-> n, s |-> s, i |-> <<>>]
Made(S, e) == ApplyDom(S, e).S
AddTo(S, t, op, s) ==      \* a new node, and it is the last child of t
    LET T == Made(S, GrowOp(op, <<Owner(S, t)>>, s)) IN Made(T, GrowOp("append_child", <<t, Len(T)>>, <<>>))
GrowStep(op, S, t, at, x, k) ==      \* x: a text; at: the node made before, or t
    CASE op = "grow kids" ->
           CASE k % 5 \in {1, 2} -> AddTo(S, t, "create_text_node", <<Some(x)>>)
             [] k % 5 = 3 -> AddTo(S, t, "create_element", <<Some(<<97>>)>>)
             [] k % 5 = 4 -> AddTo(S, t, "create_comment", <<Some(x)>>)
             [] OTHER -> AddTo(S, t, "create_element", <<Some(<<98>>)>>)
      [] op = "grow chain" -> AddTo(S, at, "create_element", <<Some(<<97 + (k % 2)>>)>>)
      [] op = "grow attrs" -> Made(S, GrowOp("set_attribute", <<t>>, <<Some(<<110>> \o Dec(k)), Some(x)>>))
      [] op = "grow ids" ->
           LET T == AddTo(S, t, "create_element", <<Some(<<97>>)>>)
           IN Made(T, GrowOp("set_attribute", <<Len(T)>>, <<Some(Cp("id")), Some(x \o Dec(k))>>))
      [] op = "grow texts" -> Made(S, GrowOp("append_data", <<t>>, <<Some(x)>>))
RECURSIVE GrowFrom(_, _, _, _, _, _, _)
GrowFrom(op, S, t, at, x, k, to) ==
    IF k > to THEN S
    ELSE LET T == TLCEval(GrowStep(op, S, t, at, x, k)) IN GrowFrom(op, T, t, Len(T), x, k + 1, to)
Grow(S, e) == Out(GrowFrom(e.op, S, e.n[1], e.n[1], e.s[1][1], 1, e.i[1]), RUnit)

Apply(S, e) ==
    CASE e.op \in SweepOps -> Out(S, Runs(e.op, e.i[1], e.i[2]))
      [] e.op \in {"read_xml", "read_reader"} -> ReadXml(S, e.s[1][1])
      [] e.op = "read_bytes" -> LET u == Utf8(e.i) IN IF u.ok THEN ReadXml(S, u.s) ELSE Fail(S, "Parse")
      [] e.op = "read_broken" -> IF e.i[2] = 0 THEN Fail(S, "Parse") ELSE ReadXml(S, e.s[1][1])
      [] e.op = "reread" -> IF SerPanics(S, e.n[1]) THEN Panics(S) ELSE ReadXml(S, Ser(S, e.n[1]))
      [] e.op \in GrowOps -> Grow(S, e)
      [] OTHER -> ApplyDom(S, e)
=============================================================================
