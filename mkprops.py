#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TI, NI, TR = "src/level2/trait_impls.rs", "src/level2/node_impl.rs", "src/level2/traits.rs"
H, I, CF, PR = "histories", "inputs", "configurations", "programs"

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

TREESTATE = [("child list", "the ordered children of a node", NI + ": NodeImpl.i_child_nodes"),
             ("parent link", "weak reference to the parent", NI + ": NodeImpl.i_parent_node")]

prop("C01", "Parent, child and sibling views of the tree always agree",
     "After any sequence of operations, successful or failing, a node is in exactly its parent's list of children and there only once, and every node in a list of children has that parent. First child, last child, previous sibling, next sibling and 'has children' are what the parent's list of children says. Nodes that were removed, replaced or never inserted, and attributes, documents, fragments, document types, entities and notations, have no parent and no siblings.",
     [H], "every history of node creation, insertion, replacement, removal, splitting, normalizing, cloning and value setting over the nodes of one or more documents",
     "the tests build a handful of small trees by appending in order and look at a few links; none moves a node between parents, replaces a node by its sibling, or checks all links of all nodes after every step",
     [TI, NI, TR],
     [("insert_before, append_child, replace_child, remove_child", TI + " impl Node for RefNode"),
      ("previous_sibling, next_sibling, first_child, last_child", TI + " impl Node for RefNode"),
      ("split, normalize, clone_node and set_value relink nodes too", TI)],
     TREESTATE, ["parent_node, child_nodes, first_child, last_child, previous_sibling, next_sibling, has_child_nodes of every node after every operation"])

prop("C02", "Only allowed children, a single root element, and no cycles",
     "A node only ever has children of the kinds that DOM Core allows for its kind, a document never has more than one element child, and the document element is that child. No node ever becomes its own ancestor, also by way of an attribute and the element which owns it. An insertion or replacement that would break this is refused as a hierarchy error.",
     [H, I], "every pair (or triple) of parent, new child and reference child of every node kind, in every tree shape reachable by a history",
     "the tests try a few forbidden pairs; the full table of kinds, second roots by insertion or replacement, and cycles through deep ancestors or attributes are not sampled",
     [TI, NI], [("is_child_allowed table and checks before insertion", TI + ": is_child_allowed, insert_before, replace_child"),
                ("document_element", TI + " impl Document for RefNode")],
     TREESTATE, ["node types along child_nodes and parent_node/owner_element chains, document_element, the error of each insertion"])

prop("C03", "Tree edits put the node where asked and move nothing else",
     "Inserting a node before a reference child makes it that child's previous sibling, inserting without a reference child or appending makes it the last child, replacing puts the new child exactly where the old one was and hands the old one back detached, and removing detaches exactly the named child. A node that already has a place, under the same or another parent, is moved: it leaves its old place, every other child keeps its relative order, and no other node's parent changes. A reference, old or removed node which is not a child of the node is reported as not found.",
     [H, I], "every parent, new child and reference child in every tree reachable by a history, including moves within one list of children, a node used as its own reference, and replacing a node by itself or by its sibling",
     "the tests append and insert fresh nodes into short lists; index shifts appear only when a node moves within the list in which it is being inserted",
     [TI], [("insert_before, append_child, replace_child, remove_child", TI + " impl Node for RefNode")],
     TREESTATE, ["child_nodes of every node before and after each edit, the returned node or error"])

prop("C04", "An operation that fails changes nothing",
     "When an operation reports an error, every node, attribute, link, owner, value, ID lookup and namespace mapping is just as it was before. This holds for tree edits, attribute edits, character data edits, splitting, value setting and the creation of nodes and documents alike.",
     [H, I, "fault_sequences"], "every operation with arguments that make it fail, in every state reachable by a history, and every later operation after the failure",
     "the tests assert the error and do not look at the state afterwards; partial effects come from checks placed after the first change, which only particular combinations of arguments reach",
     [TI, "src/level2/dom_impl.rs"], [("argument checks come before the first change", TI + ": insert_before, replace_child, set_attribute_node, set_value"),
          ("character data ranges are checked before the data is replaced", TI + " impl CharacterData for RefNode")],
     None, ["a snapshot of all observable fields of all nodes before and after each failing call"])

prop("C05", "A subtree belongs to one document, and foreign nodes are refused",
     "Every node other than a document or an unused document type has an owner document, which is the document that created it, and all of its children, attributes and descendants have the same owner. Inserting a node, setting an attribute, or creating a document with a document type that belongs to another document is refused as a wrong-document error; a document has no owner and its document type is owned by it.",
     [H, CF], "every history over the nodes of several documents, with attributes, fragments and document types that cross from one to another",
     "the tests work with one document at a time, and try a foreign node for one or two operations only",
     [TI, "src/level2/dom_impl.rs", NI], [("is_same_document checks", TI + ": insert_before, replace_child, set_attribute_node"),
          ("create_document takes the document type", "src/level2/dom_impl.rs")],
     [("owner document", "weak reference to the document", NI + ": NodeImpl.i_owner_document")], ["owner_document of every node, doc_type of every document"])

prop("C06", "Attributes form a set by name, owned by exactly one element",
     "An element has at most one attribute for a qualified name and at most one for a namespace and local name; setting one replaces the other, and getting, testing, removing by name, by namespace and by node all see the same set as the element's attribute map. An attribute in the set names that element as its owner and is specified, one that was removed or replaced has no owner, and an attribute that another element owns is refused as in use. Setting, changing and unsetting an attribute's value shows through every way of reading it.",
     [H, I], "every history of setting, replacing, removing and reading attributes by qualified name, by namespace and by node, over several elements sharing attribute nodes and names with equal local parts or prefixes",
     "the tests set a few distinct attributes and read them back; they do not share attribute nodes among elements, reuse names across prefixes, or check owners after replacement",
     [TI, NI], [("set_attribute_node and friends, remove_attribute_node, find by name", TI + " impl Element for RefNode"),
                ("value, set_value, unset_value, owner_element", TI + " impl Attribute for RefNode")],
     [("attribute map", "an element's attributes by name", NI + ": Extension::Element.i_attributes"),
      ("owner element", "weak reference to the element", NI + ": Extension::Attribute.i_owner_element")],
     ["attributes, has_attributes, get_/has_attribute(_node)(_ns) of every element, owner_element of every attribute"])

prop("C07", "The ID index finds the element that bears the ID, and IDs are unique",
     "Looking up an ID in a document gives the element that bears it through its ID attribute (xml:id, or any attribute with local name id when the document assumes IDs), and gives nothing when no element does; setting, changing, replacing and removing ID attributes is followed at once. Giving an element an ID which another one bears is refused as a syntax error. Attributes which are not IDs, and options of another document, have no influence.",
     [H, CF], "every history of setting, changing and removing ID attributes by name, by namespace, by node and by value on several elements, with and without the option to assume IDs",
     "one test looks up one ID that was set once; stale entries, re-use of a freed ID and duplicates need a sequence of steps",
     [TI, "src/shared/name.rs"], [("check_unique_id, add_id_mapping, remove_id_mapping", TI), ("is_id_attribute", "src/shared/name.rs")],
     [("ID map", "ID to weak element reference", NI + ": Extension::Document.i_id_map")], ["get_element_by_id for a set of probe IDs after every operation"])

prop("C08", "Namespace mappings follow xmlns attributes and resolve to the nearest one",
     "In a document with the option to add namespaces, an element's own prefix mappings are exactly its xmlns attributes (the default one for xmlns, prefix p for xmlns:p) and follow them when they are set, changed, replaced or removed; without the option there are none. Resolving a prefix or a namespace gives the mapping of the nearest element among the element and its ancestors that has one, and follows elements that move.",
     [H, CF], "every history of xmlns attribute edits and moves of elements, over chains of ancestors, with and without the option",
     "the tests insert one or two mappings in a fixed tree; shadowing, removal, re-declaration and moved subtrees are not sampled",
     [TI, "src/level2/ext/namespaced.rs"], [("add_namespace_mapping, remove_namespace_mapping", TI), ("resolve_namespace, resolve_prefix", "src/level2/ext/namespaced.rs")],
     [("mappings", "prefix to namespace URI of one element", NI + ": Extension::Element.i_namespaces")],
     ["contains_mapping, get_namespace, resolve_namespace, contains_mapped_namespace, get_prefix, resolve_prefix for probe prefixes and URIs"])

prop("C09", "Character data edits are exact edits of one string",
     "For text, CDATA and comments, substring, append, insert, delete and replace act on the node's character data as one string with offsets and counts in bytes: the result is the part before, the new data and the part after, and nothing else changes. A count that reaches past the end means up to the end, and an offset past the end, or an offset or count which is not at the boundary of a character, is refused as an index error. The reported length is the number of bytes of the data, and unset data counts as empty.",
     [H, I], "every string (ASCII, multi-byte, empty, unset), every offset and count, and every sequence of edits",
     "the tests use one ASCII string and a few offsets within it; boundaries, offsets past the end, huge counts and multi-byte characters are not sampled",
     [TI, TR], [("substring_data, append_data, insert_data, delete_data, replace_data", TI + " impl CharacterData for RefNode"), ("length, data", TR + " trait CharacterData")],
     [("value", "the raw data of the node", NI + ": NodeImpl.i_value")], ["data, length and node_value of every node"])

prop("C10", "Splitting and normalizing keep the text",
     "Splitting a text node leaves the part before the offset in it and puts the rest in a new node of the same kind, directly after it if it has a parent, so that the joined text is unchanged. Normalizing joins all adjacent text nodes into the first of each run and removes empty ones, at every depth and in attributes, without touching any other node or the order of what remains; normalizing again changes nothing.",
     [H, I], "every arrangement of text (empty, unset, adjacent, separated), CDATA and element children at any depth, and every split offset",
     "one test normalizes one flat list and one splits one string; depth, runs of three or more, empty nodes between texts and attributes are not sampled",
     [TI], [("split", TI + " impl Text for RefNode"), ("normalize", TI + " impl Node for RefNode")], TREESTATE,
     ["child_nodes and values of all nodes before and after"])

prop("C11", "A clone is equal, detached and independent",
     "Cloning a node other than a document gives a node of the same kind, name, value and owner document, with no parent and no owner element, with copies of its attributes (owned by the copy) and of its namespace mappings, with copies of all descendants in order when it is deep, and with no children when it is shallow (an attribute keeps its value). The original, and everything else, is unchanged, the copy shares no node with it, and later edits of either leave the other as it is.",
     [H, I], "every subtree reachable by a history, deep or shallow, and every later history on original and copy",
     "the only test of cloning is marked ignored; sharing shows only when one of the two is edited afterwards",
     [TI, NI], [("clone_node", TI + " impl Node for RefNode, " + NI)], None, ["all fields of original and copy after the clone and after later edits"])

prop("C12", "Tag name searches give exactly the matching elements in document order",
     "Searching a document or an element by qualified name, or by namespace and local name, gives exactly the matching elements among the starting element and its descendants, each once, in document order, where an asterisk matches every name or namespace and matching is by whole name and case-sensitive. An element without a namespace matches the asterisk only. Text, comments and other nodes never appear, and a search changes nothing.",
     [H, I], "every tree of elements with equal and different names, prefixes and namespaces, at any depth, and every search name",
     "the tests search one fixed tree; order after moves, nested matches, prefixes and namespaces in combination are not sampled",
     [TI], [("get_elements_by_tag_name, get_elements_by_tag_name_ns", TI + " impl Element and impl Document for RefNode")], None, ["the returned lists"])

prop("C13", "Names are accepted exactly when they are well-formed, and keep their parts",
     "A string is accepted as the name of an element, attribute, entity reference, entity, notation, document type or processing instruction target exactly when it is an XML name with at most one colon and well-formed parts; otherwise it is refused, and so is xml, in any case, as the target of a processing instruction. With a namespace, the parts agree with it: a prefix needs a namespace, xml stands for the XML namespace only, and xmlns (as prefix or name) for the XMLNS namespace only. An accepted name shows the same prefix, local name, namespace and qualified text everywhere, and is written back as it was given. The same goes for names from bytes (which have to be UTF-8) and for the change of a name's prefix, which leaves the name as it was when it is refused; two names are equal exactly when namespace, prefix and local name are.",
     [I], "every string as a name, and every pair of namespace and qualified name",
     "the tests try about a dozen names; the boundaries of the character classes, positions of colons, and combinations with reserved prefixes are unbounded",
     ["src/shared/name.rs", "src/shared/syntax.rs", TI], [("Name::from_str, Name::new_ns", "src/shared/name.rs"), ("is_xml_name, is_xml_ncname, character classes", "src/shared/text.rs")],
     None, ["namespace_uri, prefix, local_name, node_name and Display of accepted names, errors of refused ones"])

prop("C14", "Serialization writes the tree faithfully",
     "The text form of a node is the XML of its whole subtree in document order: for an element the start tag with every attribute once, the children and the end tag; comments, CDATA sections, processing instructions, entity references, the XML declaration and the document type in the syntax the library has for them. Text is escaped so that markup characters in it never become markup, attribute values are written in quotes as their normalized value, and serializing changes nothing.",
     [H, I], "every tree reachable by a history with every kind of node and arbitrary characters in texts, values and identifiers",
     "the tests compare a few fixed documents; combinations of node kinds, empty and unset values, and special characters in each position are not sampled",
     ["src/shared/display.rs", "src/shared/text.rs", "src/level2/ext/decl.rs"], [("fmt_element, fmt_document, fmt_doctype and so on", "src/shared/display.rs"), ("escape", "src/shared/text.rs")],
     None, ["to_string of any node in any state"])

prop("C15", "Attribute values are normalized and escaped correctly",
     "The value of an attribute is the text of its children after XML attribute-value normalization: line ends become one line feed, white space becomes spaces, valid character references stand for their character and invalid ones stay as written, and the result is escaped so that it can stand between quotes. An attribute without a child has no value, an empty one has an empty value.",
     [I, H], "every string as an attribute value (references at any place, adjacent, nested or malformed; CR, LF, NEL, LS; quotes and non-ASCII characters), set in any way",
     "the tests normalize about twenty strings; interplay of references, line ends and escapes at the ends and next to each other is unbounded",
     ["src/shared/text.rs", TI], [("normalize_attribute_value, normalize_end_of_lines, escape", "src/shared/text.rs"), ("Attribute::value", TI)],
     None, ["value and node_value of every attribute, get_attribute"])

prop("C16", "Every kind of node has its DOM interface, name and value, and no other",
     "A node has for ever the kind it was created with, and the node name, node value and attribute map which the table of DOM Core gives for the kind: data as value for text, CDATA, comments and processing instructions, none for documents, fragments, document types, elements and notations. The view of a node as one of the interfaces is available exactly for the kinds that have the interface, read-only and mutable alike, and is refused as an invalid state otherwise; a method of an interface which the node does not have finds nothing, fails, or acts on the node's value, and creates or changes nothing else. Setting or unsetting a node's value acts on kinds that have one and is without effect on the others. The numbers of the kinds of nodes and of the errors are those of DOM Core, and each error has a text of its own.",
     [H, I], "every kind of node, every interface view, every setter of a value, in every state",
     "the tests create each kind once and try some views; values after setting and unsetting, and the complete table of kinds and views, are not covered",
     [TI, TR, "src/level2/convert.rs", "src/shared/convert.rs"], [("node_value, set_node_value, unset_node_value, node_type, node_name", TI), ("is_*, as_*, as_*_mut", "src/level2/convert.rs")],
     None, ["node_type, node_name, node_value, attributes, data, length of all nodes; all views"])

prop("C17", "Documents, document types, declarations and features are as requested",
     "Creating a document with a qualified name gives a document with that root element, in the given namespace, without a name an empty one, with the given document type as its own and with exactly the given processing options; invalid names, reserved namespaces and document types that are in use are refused. A document type keeps its name and identifiers, and an XML declaration reads back as it was made, with an encoding that is a legal encoding name. Sets of options are what was set, whatever else is set or set twice, and combine by 'and' and 'or'. A feature is supported exactly for the core and XML features, in any case, and the versions that are implemented or unspecified.",
     [I, CF, H], "every combination of namespace, qualified name, document type, options, declaration and feature string",
     "the tests create a few documents with default options; the combinations are not sampled",
     ["src/level2/dom_impl.rs", "src/level2/ext/trait_impls.rs", "src/level2/ext/decl.rs", "src/level2/ext/options.rs"],
     [("create_document, create_document_type, has_feature", "src/level2/dom_impl.rs"), ("create_document_with_options, xml_declaration", "src/level2/ext/trait_impls.rs")],
     None, ["doc_type, document_element, owner_document, xml_declaration, public_id, system_id, has_feature, is_supported"])

prop("C18", "Operations return; they never panic, hang or overflow",
     "Every operation on every node with any arguments ends with a value or an error: no panic, no endless loop, no exhausted stack. This includes printing nodes for debugging, the node itself as its own argument, nodes of the wrong kind, detached nodes, empty and non-ASCII strings, and extreme offsets and counts.",
     [H, I, "fault_sequences"], "every operation with any nodes (also the same one twice), any strings and any offsets, in every reachable state (how deep nodes may nest is limited by the stack); an attribute value that refers to an undeclared entity is a listed exception",
     "the tests call each operation in its ordinary use; borrow conflicts and slicing at the wrong place need aliased arguments or unusual strings",
     [TI, NI, "src/shared/rc_cell.rs", "src/shared/text.rs"], [("borrows of interior-mutable nodes are short and disjoint", "src/shared/rc_cell.rs, " + TI), ("slicing on character boundaries", TI + " impl CharacterData")],
     None, ["the outcome of each call: value, error, panic, abort or time-out"])

prop("C19", "Reading a text gives the document it describes, or an error",
     "With the parser feature, reading an XML text, from a string or in pieces from a reader, gives a new document with exactly what the text describes: its declaration, and in order its elements with their attributes, texts (without the white space around them, with character references and predefined entities replaced), comments, CDATA sections and processing instructions, linked and owned like any other document. Text that is not well formed (tags that do not match, no or a second root element, repeated attributes, bad names, references or declarations, unclosed constructs) is refused with an error, never a panic, and leaves nothing behind. The text form of a document with nothing in it that the text form does not keep is read back as the same document.",
     [I, H], "every text of the supported part of XML and everything near it and every sequence of bytes in place of it (document types are not supported, numeric references of more than seven decimal or six hexadecimal digits may be refused, and how deep elements may nest is limited by the stack), and every document reachable by a history and its text form",
     "the parser does not even build in the configuration that the tests use; its few tests read small well-formed texts, where nothing is nested behind an error, quoted, referenced, or split over two reads",
     ["src/parser/mod.rs", "src/shared/display.rs", "src/shared/text.rs"],
     [("read_xml, read_reader and the event loop", "src/parser/mod.rs"), ("text, attribute values, declaration", "src/parser/mod.rs"), ("Display of nodes", "src/shared/display.rs")],
     None, ["all fields of the new document, or the error; to_string of a document and reading it again"])

prop("C20", "Nodes live as long as something holds them, and survive what was above them",
     "A node holds its children, its attributes and, a document, its document type; it never holds its parent, owner element or owner document. So a program that drops its last handle on a node that nothing holds ends that node, and only that one. Parent, siblings, owner element, owner document and ID lookups that led to it then read as none, and everything else about the remaining nodes is as before. Whatever is done later with nodes whose parent, owner element or document is gone works as on a node without one, or is an error; it never panics, and a document, element or attribute can be used, moved and serialized on its own.",
     [H], "every history in which handles on nodes (documents included) are dropped at any time, between any operations on the nodes that are left",
     "the tests hold the document in a variable to the end; a dangling weak link shows only when an operation follows it after something above was dropped",
     [NI, TI, "src/shared/rc_cell.rs"],
     [("weak links upwards, strong ones downwards", NI + ": NodeImpl"), ("upgrade of weak links that may be dead", TI), ("WeakRefCell", "src/shared/rc_cell.rs")],
     [("owner document", "weak reference to the document", NI + ": NodeImpl.i_owner_document"),
      ("parent link", "weak reference to the parent", NI + ": NodeImpl.i_parent_node"),
      ("owner element", "weak reference to the element of an attribute", NI + ": Extension::Attribute.i_owner_element"),
      ("ID map", "weak references to elements by ID", NI + ": Extension::Document.i_id_map")],
     ["all fields of all nodes that are left, after each operation and after each drop"])

NOTE = ("TLC checks the property exhaustively on the TLA+ model within the bounded families named in DESIGN.md (all histories to the depth); "
        "every transition of those families is replayed through the real crate, and random histories recorded from it are checked by TLC against the model. "
        "Beyond those bounds and samples nothing is claimed.")
M = {"version": 1, "setup_cmd": "python3 /verif/check.py --build",
     "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 /verif/check.py %s thorough" % p["id"],
                 "technique": "TLA+ specification model-checked with TLC; behaviours replayed into the crate and recorded histories checked against the specification",
                 "level": "model_checking", "level_note": NOTE} for p in P],
     "not_applicable": []}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
import check
DECIDES = {
    "C01": "`Links`", "C02": "`Content_`", "C03": "`PlacementOk`, and the children of all nodes after each tree operation", "C04": "`AtomicOk`: an error, and anything differs",
    "C05": "`Owners`", "C06": "`Attrs`, `AttrStepOk`", "C07": "`Ids`", "C08": "`Mappings`", "C09": "`Datas`, `CharStepOk`",
    "C10": "`SplitOk`, `NormalOk`", "C11": "`CloneOk`, then the independence that each later step shows", "C12": "`FindOk`",
    "C13": "`Names`, results of the operations on names", "C14": "`SerStepOk` (`SerOk`)", "C15": "`Values`", "C16": "`Kinds`, `casts`",
    "C17": "`Docs`, results of the operations on options, declarations and features", "C18": "no result of the specification is a panic, an abort or a hang (but `PANIC` for the known finding)",
    "C19": "`ParseStepOk`, `RoundTrip`; the whole document that `ParseDoc` gives", "C20": "`Lives`, `LifeStepOk`"}
rows = ["| | decided by | families: depth quick/thorough |", "|---|---|---|"]
for q in P:
    rows.append("| %s %s | %s | %s |" % (q["id"], q["title"], DECIDES[q["id"]],
                ", ".join("%s %s/%s" % (f, a or "-", b or "-") for f, a, b in check.FAMILIES[q["id"]])))
d = open(os.path.join(V, "DESIGN.md")).read()
a, b = d.index("<!-- families -->"), d.index("<!-- end of families -->")
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(d[:a] + "<!-- families -->\n" + "\n".join(rows) + "\n" + d[b:])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
