//! The observed world: real `RefNode`s, numbered in the order in which they are found, the
//! operations on them by name, and the projection of what the public interface shows of each.

use serde_json::{json, Map, Value};
use std::hash::{Hash, Hasher};
#[cfg(feature = "parser")]
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::*;
use xml_dom::level2::ext::dom_impl::{
    create_entity, create_internal_entity, create_notation, get_implementation_ext,
};
use xml_dom::level2::ext::*;
use xml_dom::level2::*;

pub type OptStr = Option<String>;

/// An operation: its name, nodes, optional strings and integers.
#[derive(Clone, Debug, Default)]
pub struct Op {
    pub op: String,
    pub n: Vec<usize>,
    pub s: Vec<OptStr>,
    pub i: Vec<i64>,
}

pub fn enc(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

pub fn enc_opt(s: &OptStr) -> Value {
    match s {
        None => json!([]),
        Some(s) => json!([enc(s)]),
    }
}

fn dec(v: &Value) -> String {
    v.as_array()
        .unwrap()
        .iter()
        .map(|c| char::from_u32(c.as_i64().unwrap() as u32).unwrap())
        .collect()
}

impl Op {
    pub fn new(op: &str, n: &[usize], s: &[OptStr], i: &[i64]) -> Self {
        Op {
            op: op.to_string(),
            n: n.to_vec(),
            s: s.to_vec(),
            i: i.to_vec(),
        }
    }
    pub fn parse(v: &Value) -> Self {
        let arr = |k: &str| v[k].as_array().cloned().unwrap_or_default();
        Op {
            op: v["op"].as_str().unwrap().to_string(),
            n: arr("n")
                .iter()
                .map(|x| x.as_u64().unwrap() as usize)
                .collect(),
            s: arr("s")
                .iter()
                .map(|x| x.as_array().unwrap().first().map(dec))
                .collect(),
            i: arr("i").iter().map(|x| x.as_i64().unwrap()).collect(),
        }
    }
    /// The JSON of the operation, without the closing brace.
    pub fn open_json(&self) -> String {
        let text = json!({
            "op": self.op, "n": self.n,
            "s": self.s.iter().map(enc_opt).collect::<Vec<_>>(), "i": self.i,
        })
        .to_string();
        text[..text.len() - 1].to_string()
    }
}

pub enum Res {
    Unit,
    Err(Error),
    #[allow(dead_code)]
    Unreadable,
    Panic,
    Node(RefNode),
    OptNode(Option<RefNode>),
    Nodes(Vec<RefNode>),
    Str(OptStr),
    Bool(bool),
    Other(&'static str, Vec<usize>, Vec<OptStr>),
    /// Where each run starts, and what is seen there.
    Runs(Vec<usize>, Vec<Vec<i64>>),
}

pub struct World {
    /// None: let go of.
    pub nodes: Vec<Option<RefNode>>,
    pub probe_prefixes: Vec<OptStr>,
    pub probe_ids: Vec<String>,
    pub probe_uris: Vec<String>,
    pub last: Vec<Value>,
}

/// Of a node which nobody has seen.
pub const UNKNOWN: usize = 9999;

fn opt_usize(x: i64) -> usize {
    if x < 0 {
        usize::MAX
    } else {
        x as usize
    }
}

fn unit(r: Result<()>) -> Res {
    match r {
        Ok(()) => Res::Unit,
        Err(e) => Res::Err(e),
    }
}
fn node(r: Result<RefNode>) -> Res {
    match r {
        Ok(n) => Res::Node(n),
        Err(e) => Res::Err(e),
    }
}
#[cfg(feature = "parser")]
fn read(r: xml_dom::parser::Result<RefNode>) -> Res {
    match r {
        Ok(n) => Res::Node(n),
        Err(_) => Res::Unreadable,
    }
}
/// Fails, once.
#[cfg(feature = "parser")]
struct Broken(Option<std::io::ErrorKind>);
#[cfg(feature = "parser")]
impl Read for Broken {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        match self.0.take() {
            Some(kind) => Err(kind.into()),
            None => Ok(0),
        }
    }
}
fn name_res(r: Result<Name>) -> Res {
    match r {
        Ok(n) => Res::Other(
            "name",
            vec![
                n.is_namespace_attribute() as usize,
                n.is_id_attribute(false) as usize,
                n.is_id_attribute(true) as usize,
            ],
            vec![
                n.namespace_uri().clone(),
                n.prefix().clone(),
                Some(n.local_name().clone()),
                Some(n.to_string()),
            ],
        ),
        Err(e) => Res::Err(e),
    }
}
fn made_name(uri: Option<&str>, name: &str) -> Result<Name> {
    match uri {
        None => Name::from_str(name),
        Some(uri) => Name::new_ns(uri, name),
    }
}
/// The options, and whether they are those which they should be.
fn options_res(o: &ProcessingOptions, same: &ProcessingOptions) -> Res {
    Res::Other(
        "options",
        vec![
            o.has_none() as usize,
            o.has_assume_ids() as usize,
            o.has_parse_entities() as usize,
            o.has_add_namespaces() as usize,
            (o == same && &o.clone() == same) as usize,
        ],
        vec![
            Some(o.to_string()),
            Some(format!("{:b}", o)),
            Some(format!("{:#b}", o)),
        ],
    )
}
fn prefix_res(p: NamespacePrefix) -> Res {
    let code = match (p.is_none(), p.is_default(), p.is_some()) {
        (true, false, false) => 0,
        (false, true, false) => 1,
        (false, false, true) => 2,
        _ => 9,
    };
    Res::Other("prefix", vec![code], vec![p.some()])
}
/// No prefix: nothing; the default one: an empty optional string; a prefix: that.
fn prefix_json(p: &NamespacePrefix) -> Value {
    match (p.is_none(), p.is_default(), p.is_some()) {
        (true, false, false) => json!([]),
        (false, true, false) => json!([[]]),
        _ => json!([[enc(&p.some().unwrap_or_default())]]),
    }
}
fn type_name(t: NodeType) -> &'static str {
    match t {
        NodeType::Element => "Element",
        NodeType::Attribute => "Attribute",
        NodeType::Text => "Text",
        NodeType::CData => "CData",
        NodeType::EntityReference => "EntityReference",
        NodeType::Entity => "Entity",
        NodeType::ProcessingInstruction => "ProcessingInstruction",
        NodeType::Comment => "Comment",
        NodeType::Document => "Document",
        NodeType::DocumentType => "DocumentType",
        NodeType::DocumentFragment => "DocumentFragment",
        NodeType::Notation => "Notation",
    }
}

fn options_of(bits: i64) -> ProcessingOptions {
    let mut o = ProcessingOptions::new();
    if bits & 1 != 0 {
        o.set_assume_ids();
    }
    if bits & 2 != 0 {
        o.set_parse_entities();
    }
    if bits & 4 != 0 {
        o.set_add_namespaces();
    }
    o
}

macro_rules! cast {
    ($f:ident($e:expr)) => {
        match $f($e) {
            Ok(x) => x,
            Err(e) => return Res::Err(e),
        }
    };
}

/// The numbers of the node types and of the errors, in the order in which DOM has them.
fn codes() -> Res {
    let mut n: Vec<usize> = [
        NodeType::Element,
        NodeType::Attribute,
        NodeType::Text,
        NodeType::CData,
        NodeType::EntityReference,
        NodeType::Entity,
        NodeType::ProcessingInstruction,
        NodeType::Comment,
        NodeType::Document,
        NodeType::DocumentType,
        NodeType::DocumentFragment,
        NodeType::Notation,
    ]
    .into_iter()
    .map(|x| x as u16 as usize)
    .collect();
    let errors = [
        Error::IndexSize,
        Error::StringSize,
        Error::HierarchyRequest,
        Error::WrongDocument,
        Error::InvalidCharacter,
        Error::NoDataAllowed,
        Error::NoModificationAllowed,
        Error::NotFound,
        Error::NotSupported,
        Error::InUseAttribute,
        Error::InvalidState,
        Error::Syntax,
        Error::InvalidModification,
        Error::Namespace,
        Error::InvalidAccess,
    ];
    let mut texts: Vec<String> = errors.iter().map(|x| x.to_string()).collect();
    texts.sort();
    texts.dedup();
    let distinct = texts.len() == errors.len() && !texts[0].is_empty();
    n.extend(errors.into_iter().map(|x| x as u16 as usize));
    n.push(distinct as usize);
    Res::Other("codes", n, vec![])
}

impl World {
    pub fn new(
        probe_prefixes: Vec<OptStr>,
        probe_ids: Vec<String>,
        probe_uris: Vec<String>,
    ) -> Self {
        World {
            nodes: Vec::new(),
            probe_prefixes,
            probe_ids,
            probe_uris,
            last: Vec::new(),
        }
    }

    /// The number of a node; UNKNOWN if it has none (yet).
    pub fn id(&self, n: &RefNode) -> usize {
        self.nodes
            .iter()
            .position(|x| x.as_ref() == Some(n))
            .map_or(UNKNOWN, |p| p + 1)
    }
    fn oid(&self, n: &Option<RefNode>) -> usize {
        n.as_ref().map_or(0, |n| self.id(n))
    }
    pub fn get(&self, id: usize) -> RefNode {
        self.nodes[id - 1].clone().unwrap()
    }
    pub fn ty(&self, id: usize) -> &'static str {
        self.nodes[id - 1]
            .as_ref()
            .map_or("Gone", |n| type_name(n.node_type()))
    }
    /// Is this one held by another node, so that letting go of it would not end it?
    pub fn held(&self, id: usize) -> bool {
        let n = self.get(id);
        n.parent_node().is_some()
            || as_attribute(&n).map_or(false, |a| a.owner_element().is_some())
            || self
                .nodes
                .iter()
                .flatten()
                .any(|d| as_document(d).map_or(false, |d| d.doc_type().as_ref() == Some(&n)))
    }

    // --------------------------------------------------------------------------------------------

    fn call(&self, e: &Op) -> Res {
        let opt_node = |k: usize| match e.n.get(k) {
            None | Some(0) => None,
            Some(id) => Some(self.get(*id)),
        };
        let st = |k: usize| e.s[k].as_deref().unwrap();
        let os = |k: usize| e.s[k].as_deref();
        let t = opt_node(0);
        let mut tm = t.clone();
        // the node which the operation is called on
        let t = || t.as_ref().unwrap();
        let arg = |k: usize| opt_node(k).unwrap();
        match e.op.as_str() {
            // Node
            "insert_before" => node(tm.as_mut().unwrap().insert_before(arg(1), opt_node(2))),
            "append_child" => node(tm.as_mut().unwrap().append_child(arg(1))),
            "replace_child" => node(tm.as_mut().unwrap().replace_child(arg(1), arg(2))),
            "remove_child" => node(tm.as_mut().unwrap().remove_child(arg(1))),
            "clone_node" => match t().clone_node(e.i[0] == 1) {
                None => Res::OptNode(None),
                Some(n) => Res::Node(n),
            },
            "normalize" => {
                tm.as_mut().unwrap().normalize();
                Res::Unit
            }
            "set_node_value" => unit(tm.as_mut().unwrap().set_node_value(st(0))),
            "unset_node_value" => unit(tm.as_mut().unwrap().unset_node_value()),
            "is_supported" => Res::Bool(t().is_supported(st(0), st(1))),
            "to_string" => Res::Str(Some(t().to_string())),
            "debug" => {
                let all = format!("{:?}{:#?}", t(), t());
                Res::Bool(!all.is_empty())
            }
            "casts" => Res::Other("casts", self.casts(t()), vec![]),
            // Attribute
            "set_value" => unit(cast!(as_attribute_mut(tm.as_mut().unwrap())).set_value(st(0))),
            "unset_value" => unit(cast!(as_attribute_mut(tm.as_mut().unwrap())).unset_value()),
            // CharacterData
            "substring_data" => {
                let c = cast!(as_character_data(t()));
                match c.substring_data(opt_usize(e.i[0]), opt_usize(e.i[1])) {
                    Ok(s) => Res::Str(Some(s)),
                    Err(e) => Res::Err(e),
                }
            }
            "append_data" => {
                unit(cast!(as_character_data_mut(tm.as_mut().unwrap())).append_data(st(0)))
            }
            "insert_data" => unit(
                cast!(as_character_data_mut(tm.as_mut().unwrap()))
                    .insert_data(opt_usize(e.i[0]), st(0)),
            ),
            "delete_data" => unit(
                cast!(as_character_data_mut(tm.as_mut().unwrap()))
                    .delete_data(opt_usize(e.i[0]), opt_usize(e.i[1])),
            ),
            "replace_data" => unit(
                cast!(as_character_data_mut(tm.as_mut().unwrap())).replace_data(
                    opt_usize(e.i[0]),
                    opt_usize(e.i[1]),
                    st(0),
                ),
            ),
            "set_data" => unit(cast!(as_character_data_mut(tm.as_mut().unwrap())).set_data(st(0))),
            "unset_data" => unit(cast!(as_character_data_mut(tm.as_mut().unwrap())).unset_data()),
            "split" => {
                let off = opt_usize(e.i[0]);
                if is_cdata_section(t()) {
                    node(cast!(as_cdata_section_mut(tm.as_mut().unwrap())).split(off))
                } else {
                    node(cast!(as_text_mut(tm.as_mut().unwrap())).split(off))
                }
            }
            // ProcessingInstruction
            "pi_set_data" => {
                unit(cast!(as_processing_instruction_mut(tm.as_mut().unwrap())).set_data(st(0)))
            }
            "pi_unset_data" => {
                unit(cast!(as_processing_instruction_mut(tm.as_mut().unwrap())).unset_data())
            }
            // Element
            "get_attribute" => Res::Str(cast!(as_element(t())).get_attribute(st(0))),
            "get_attribute_ns" => Res::Str(cast!(as_element(t())).get_attribute_ns(st(0), st(1))),
            "get_attribute_node" => Res::OptNode(cast!(as_element(t())).get_attribute_node(st(0))),
            "get_attribute_node_ns" => {
                Res::OptNode(cast!(as_element(t())).get_attribute_node_ns(st(0), st(1)))
            }
            "has_attribute" => Res::Bool(cast!(as_element(t())).has_attribute(st(0))),
            "has_attribute_ns" => Res::Bool(cast!(as_element(t())).has_attribute_ns(st(0), st(1))),
            "set_attribute" => {
                unit(cast!(as_element_mut(tm.as_mut().unwrap())).set_attribute(st(0), st(1)))
            }
            "set_attribute_ns" => unit(
                cast!(as_element_mut(tm.as_mut().unwrap())).set_attribute_ns(st(0), st(1), st(2)),
            ),
            "set_attribute_node" => {
                node(cast!(as_element_mut(tm.as_mut().unwrap())).set_attribute_node(arg(1)))
            }
            "set_attribute_node_ns" => {
                node(cast!(as_element_mut(tm.as_mut().unwrap())).set_attribute_node_ns(arg(1)))
            }
            "remove_attribute" => {
                unit(cast!(as_element_mut(tm.as_mut().unwrap())).remove_attribute(st(0)))
            }
            "remove_attribute_ns" => {
                unit(cast!(as_element_mut(tm.as_mut().unwrap())).remove_attribute_ns(st(0), st(1)))
            }
            "remove_attribute_node" => {
                node(cast!(as_element_mut(tm.as_mut().unwrap())).remove_attribute_node(arg(1)))
            }
            "elem_by_tag" => Res::Nodes(cast!(as_element(t())).get_elements_by_tag_name(st(0))),
            "elem_by_tag_ns" => {
                Res::Nodes(cast!(as_element(t())).get_elements_by_tag_name_ns(st(0), st(1)))
            }
            // Namespaced
            "contains_mapping" => {
                Res::Bool(cast!(as_element_namespaced(t())).contains_mapping(os(0)))
            }
            "get_namespace" => Res::Str(cast!(as_element_namespaced(t())).get_namespace(os(0))),
            "resolve_namespace" => {
                Res::Str(cast!(as_element_namespaced(t())).resolve_namespace(os(0)))
            }
            "contains_mapped_namespace" => {
                Res::Bool(cast!(as_element_namespaced(t())).contains_mapped_namespace(st(0)))
            }
            "get_prefix" => prefix_res(cast!(as_element_namespaced(t())).get_prefix(st(0))),
            "resolve_prefix" => prefix_res(cast!(as_element_namespaced(t())).resolve_prefix(st(0))),
            // Document
            "create_attribute" => node(cast!(as_document(t())).create_attribute(st(0))),
            "create_attribute_with" => {
                node(cast!(as_document(t())).create_attribute_with(st(0), st(1)))
            }
            "create_attribute_ns" => {
                node(cast!(as_document(t())).create_attribute_ns(st(0), st(1)))
            }
            "create_cdata_section" => node(cast!(as_document(t())).create_cdata_section(st(0))),
            "create_document_fragment" => node(cast!(as_document(t())).create_document_fragment()),
            "create_entity_reference" => {
                node(cast!(as_document(t())).create_entity_reference(st(0)))
            }
            "create_comment" => Res::Node(cast!(as_document(t())).create_comment(st(0))),
            "create_element" => node(cast!(as_document(t())).create_element(st(0))),
            "create_element_ns" => node(cast!(as_document(t())).create_element_ns(st(0), st(1))),
            "create_processing_instruction" => {
                node(cast!(as_document(t())).create_processing_instruction(st(0), os(1)))
            }
            "create_text_node" => Res::Node(cast!(as_document(t())).create_text_node(st(0))),
            "get_element_by_id" => Res::OptNode(cast!(as_document(t())).get_element_by_id(st(0))),
            "doc_by_tag" => Res::Nodes(cast!(as_document(t())).get_elements_by_tag_name(st(0))),
            "doc_by_tag_ns" => {
                Res::Nodes(cast!(as_document(t())).get_elements_by_tag_name_ns(st(0), st(1)))
            }
            "set_xml_declaration" => {
                let version = if e.i[0] == 0 {
                    XmlVersion::V10
                } else {
                    XmlVersion::V11
                };
                let standalone = match e.i[1] {
                    2 => None,
                    x => Some(x == 1),
                };
                let decl = XmlDecl::new(version, e.s[0].clone(), standalone);
                unit(cast!(as_document_decl_mut(tm.as_mut().unwrap())).set_xml_declaration(decl))
            }
            // the parser
            #[cfg(feature = "parser")]
            "read_xml" => read(xml_dom::parser::read_xml(st(0))),
            #[cfg(feature = "parser")]
            "read_reader" => read(xml_dom::parser::read_reader(
                std::io::BufReader::with_capacity(e.i[0] as usize, st(0).as_bytes()),
            )),
            #[cfg(feature = "parser")]
            "read_bytes" => {
                let bytes: Vec<u8> = e.i.iter().map(|b| *b as u8).collect();
                read(xml_dom::parser::read_reader(bytes.as_slice()))
            }
            // the text comes in two parts, with an error after the first
            #[cfg(feature = "parser")]
            "read_broken" => {
                let t = st(0).as_bytes();
                let (a, b) = t.split_at((e.i[0] as usize).min(t.len()));
                let kind = if e.i[1] == 0 {
                    std::io::ErrorKind::Other
                } else {
                    std::io::ErrorKind::Interrupted
                };
                let r = a.chain(Broken(Some(kind))).chain(b);
                read(xml_dom::parser::read_reader(std::io::BufReader::new(r)))
            }
            #[cfg(feature = "parser")]
            "reread" => read(xml_dom::parser::read_xml(t().to_string())),
            // DOMImplementation
            "create_document" => {
                node(get_implementation().create_document(os(0), os(1), opt_node(0)))
            }
            "create_document_with_options" => {
                node(get_implementation_ext().create_document_with_options(
                    os(0),
                    os(1),
                    opt_node(0),
                    options_of(e.i[0]),
                ))
            }
            "create_document_type" => {
                node(get_implementation().create_document_type(st(0), os(1), os(2)))
            }
            "create_notation" => node(create_notation(arg(0), st(0), os(1), os(2))),
            "create_entity" => node(create_entity(arg(0), st(0), os(1), os(2))),
            "create_internal_entity" => node(create_internal_entity(arg(0), st(0), st(1))),
            "has_feature" => Res::Bool(get_implementation().has_feature(st(0), st(1))),
            // values
            "name_parse" => name_res(Name::from_str(st(0))),
            "name_bytes" => name_res(Name::try_from(st(0).as_bytes())),
            "name_new_ns" => name_res(Name::new_ns(st(0), st(1))),
            "xml_version" => Res::Str(XmlVersion::from_str(st(0)).ok().map(|v| v.to_string())),
            "options" => options_res(&options_of(e.i[0]), &options_of(e.i[0])),
            "options_seq" => {
                let mut o = ProcessingOptions::new();
                for k in &e.i {
                    match k {
                        0 => o.set_assume_ids(),
                        1 => o.set_parse_entities(),
                        _ => o.set_add_namespaces(),
                    }
                }
                let all = (0..3).filter(|k| e.i.contains(k)).map(|k| 1 << k).sum();
                options_res(&o, &options_of(all))
            }
            "options_and" => options_res(
                &(options_of(e.i[0]) & options_of(e.i[1])),
                &options_of(e.i[0] & e.i[1]),
            ),
            "options_or" => options_res(
                &(options_of(e.i[0]) | options_of(e.i[1])),
                &options_of(e.i[0] | e.i[1]),
            ),
            "xml_decl" => {
                let decl = || match e.i[0] {
                    9 => XmlDecl::default(),
                    v => XmlDecl::new(
                        if v == 0 {
                            XmlVersion::V10
                        } else {
                            XmlVersion::V11
                        },
                        e.s[0].clone(),
                        match e.i[1] {
                            2 => None,
                            x => Some(x == 1),
                        },
                    ),
                };
                match catch_unwind(decl) {
                    Err(_) => Res::Other("decl", vec![0], vec![]),
                    Ok(d) => Res::Other(
                        "decl",
                        vec![1],
                        vec![
                            Some(d.version().to_string()),
                            d.encoding(),
                            d.standalone()
                                .map(|b| (if b { "yes" } else { "no" }).to_string()),
                            Some(d.to_string()),
                            Some(d.clone().to_string()),
                        ],
                    ),
                }
            }
            "codes" => codes(),
            "prefix_value" => prefix_res(match e.i[0] {
                0 => NamespacePrefix::None,
                1 => NamespacePrefix::Default,
                _ => NamespacePrefix::new_some(st(0)),
            }),
            "name_raw" => {
                let bytes: Vec<u8> = e.i.iter().map(|b| *b as u8).collect();
                name_res(Name::try_from(bytes.as_slice()))
            }
            "name_set_prefix" => {
                let mut n = match made_name(os(0), st(1)) {
                    Ok(n) => n,
                    Err(e) => return Res::Err(e),
                };
                let was = n.clone();
                match n.set_prefix(os(2)) {
                    Ok(()) => name_res(Ok(n)),
                    Err(e) if n == was => Res::Err(e),
                    Err(_) => Res::Other("changed", vec![], vec![]),
                }
            }
            "name_for" => name_res(Ok(match e.i[0] {
                0 => Name::for_cdata(),
                1 => Name::for_comment(),
                2 => Name::for_document(),
                3 => Name::for_document_fragment(),
                4 => Name::for_text(),
                5 => Name::for_public_id(),
                6 => Name::for_system_id(),
                7 => Name::for_xml_id(),
                _ => Name::for_namespace(os(0)),
            })),
            "name_eq" => match (made_name(os(0), st(1)), made_name(os(2), st(3))) {
                (Ok(a), Ok(b)) => {
                    let hash = |n: &Name| {
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        n.hash(&mut h);
                        h.finish()
                    };
                    let eq = a == b;
                    Res::Other(
                        "equal",
                        vec![eq as usize, (!eq || hash(&a) == hash(&b)) as usize],
                        vec![],
                    )
                }
                (Err(e), _) | (_, Err(e)) => Res::Err(e),
            },
            "views" => self.views(t()),
            op if op.starts_with("direct ") => self.direct(e),
            op if op.starts_with("sweep_") => {
                let (starts, saw) = crate::sweep::runs(e);
                Res::Runs(starts, saw)
            }
            other => panic!("harness: unknown operation {}", other),
        }
    }

    /// The methods of the interfaces, called on a node whether or not it has the interface.
    fn direct(&self, e: &Op) -> Res {
        let st = |k: usize| e.s[k].as_deref().unwrap();
        let os = |k: usize| e.s[k].as_deref();
        let size = |k: usize| opt_usize(e.i[k]);
        let t = &self.get(e.n[0]);
        let m = &mut t.clone();
        let arg = || self.get(e.n[1]);
        match &e.op[7..] {
            // Attribute
            "set_value" => unit(Attribute::set_value(m, st(0))),
            "unset_value" => unit(Attribute::unset_value(m)),
            // CharacterData
            "substring_data" => match t.substring_data(size(0), size(1)) {
                Ok(s) => Res::Str(Some(s)),
                Err(e) => Res::Err(e),
            },
            "append_data" => unit(m.append_data(st(0))),
            "insert_data" => unit(m.insert_data(size(0), st(0))),
            "delete_data" => unit(m.delete_data(size(0), size(1))),
            "replace_data" => unit(m.replace_data(size(0), size(1), st(0))),
            "set_data" => unit(CharacterData::set_data(m, st(0))),
            "unset_data" => unit(CharacterData::unset_data(m)),
            "split" => node(Text::split(m, size(0))),
            // ProcessingInstruction
            "pi_set_data" => unit(ProcessingInstruction::set_data(m, st(0))),
            "pi_unset_data" => unit(ProcessingInstruction::unset_data(m)),
            // Element
            "get_attribute" => Res::Str(t.get_attribute(st(0))),
            "get_attribute_ns" => Res::Str(t.get_attribute_ns(st(0), st(1))),
            "get_attribute_node" => Res::OptNode(t.get_attribute_node(st(0))),
            "get_attribute_node_ns" => Res::OptNode(t.get_attribute_node_ns(st(0), st(1))),
            "has_attribute" => Res::Bool(t.has_attribute(st(0))),
            "has_attribute_ns" => Res::Bool(t.has_attribute_ns(st(0), st(1))),
            "set_attribute" => unit(m.set_attribute(st(0), st(1))),
            "set_attribute_ns" => unit(m.set_attribute_ns(st(0), st(1), st(2))),
            "set_attribute_node" => node(m.set_attribute_node(arg())),
            "set_attribute_node_ns" => node(m.set_attribute_node_ns(arg())),
            "remove_attribute" => unit(m.remove_attribute(st(0))),
            "remove_attribute_ns" => unit(m.remove_attribute_ns(st(0), st(1))),
            "remove_attribute_node" => node(m.remove_attribute_node(arg())),
            "elem_by_tag" => Res::Nodes(Element::get_elements_by_tag_name(t, st(0))),
            "elem_by_tag_ns" => Res::Nodes(Element::get_elements_by_tag_name_ns(t, st(0), st(1))),
            // Namespaced
            "contains_mapping" => Res::Bool(t.contains_mapping(os(0))),
            "get_namespace" => Res::Str(t.get_namespace(os(0))),
            "resolve_namespace" => Res::Str(t.resolve_namespace(os(0))),
            "contains_mapped_namespace" => Res::Bool(t.contains_mapped_namespace(st(0))),
            "get_prefix" => prefix_res(t.get_prefix(st(0))),
            "resolve_prefix" => prefix_res(t.resolve_prefix(st(0))),
            // Document
            "create_attribute" => node(t.create_attribute(st(0))),
            "create_attribute_with" => node(t.create_attribute_with(st(0), st(1))),
            "create_attribute_ns" => node(t.create_attribute_ns(st(0), st(1))),
            "create_cdata_section" => node(t.create_cdata_section(st(0))),
            "create_document_fragment" => node(t.create_document_fragment()),
            "create_entity_reference" => node(t.create_entity_reference(st(0))),
            "create_comment" => Res::Node(t.create_comment(st(0))),
            "create_element" => node(t.create_element(st(0))),
            "create_element_ns" => node(t.create_element_ns(st(0), st(1))),
            "create_processing_instruction" => node(t.create_processing_instruction(st(0), os(1))),
            "create_text_node" => Res::Node(t.create_text_node(st(0))),
            "get_element_by_id" => Res::OptNode(t.get_element_by_id(st(0))),
            "doc_by_tag" => Res::Nodes(Document::get_elements_by_tag_name(t, st(0))),
            "doc_by_tag_ns" => Res::Nodes(Document::get_elements_by_tag_name_ns(t, st(0), st(1))),
            "set_xml_declaration" => {
                unit(m.set_xml_declaration(XmlDecl::new(XmlVersion::V10, e.s[0].clone(), None)))
            }
            other => panic!("harness: unknown method {}", other),
        }
    }

    /// What every reading method of every interface says of a node, whether or not it has them.
    fn views(&self, t: &RefNode) -> Res {
        let decl = t.xml_declaration();
        let feature = t.implementation().has_feature("Core", "2.0");
        Res::Other(
            "views",
            vec![
                self.oid(&Attribute::owner_element(t)),
                self.oid(&Document::doc_type(t)),
                CharacterData::length(t),
                ProcessingInstruction::length(t),
                t.entities().len() + t.notations().len(),
                feature as usize,
            ],
            vec![
                Attribute::value(t),
                CharacterData::data(t),
                ProcessingInstruction::data(t),
                Some(t.tag_name()),
                Some(t.target()),
                decl.map(|d| d.to_string()),
                DocumentType::public_id(t),
                DocumentType::system_id(t),
                DocumentType::internal_subset(t),
                Entity::public_id(t),
                Entity::system_id(t),
                Entity::notation_name(t),
                Notation::public_id(t),
                Notation::system_id(t),
            ],
        )
    }

    fn casts(&self, t: &RefNode) -> Vec<usize> {
        // a test and both casts have to agree; 0: none, 1: all, 2: they differ
        fn agree(a: bool, b: bool, c: bool) -> usize {
            match (a, b, c) {
                (false, false, false) => 0,
                (true, true, true) => 1,
                _ => 2,
            }
        }
        let mut m = t.clone();
        macro_rules! c {
            ($is:ident, $as_:ident, $as_mut:ident) => {
                agree(
                    $is(t),
                    match $as_(t) {
                        Ok(_) => true,
                        Err(e) => e != Error::InvalidState,
                    },
                    match $as_mut(&mut m) {
                        Ok(_) => true,
                        Err(e) => e != Error::InvalidState,
                    },
                )
            };
        }
        vec![
            c!(is_attribute, as_attribute, as_attribute_mut),
            c!(is_element, as_element, as_element_mut),
            c!(is_character_data, as_character_data, as_character_data_mut),
            c!(is_text, as_text, as_text_mut),
            c!(is_cdata_section, as_cdata_section, as_cdata_section_mut),
            c!(
                is_entity_reference,
                as_entity_reference,
                as_entity_reference_mut
            ),
            c!(is_entity_, as_entity, as_entity_mut),
            c!(
                is_processing_instruction,
                as_processing_instruction,
                as_processing_instruction_mut
            ),
            c!(is_comment, as_comment, as_comment_mut),
            c!(is_document, as_document, as_document_mut),
            c!(is_document_type, as_document_type, as_document_type_mut),
            c!(
                is_document_fragment,
                as_document_fragment,
                as_document_fragment_mut
            ),
            c!(is_notation, as_notation, as_notation_mut),
            c!(is_document_decl, as_document_decl, as_document_decl_mut),
            agree(
                is_element_namespaced(t),
                as_element_namespaced(t).is_ok(),
                as_element_namespaced(t).is_ok(),
            ),
        ]
    }

    // --------------------------------------------------------------------------------------------

    /// Number this node, if it is new, and then what is below it: attributes by name, children.
    fn find(&mut self, n: &RefNode) {
        if self.id(n) != UNKNOWN {
            return;
        }
        self.nodes.push(Some(n.clone()));
        self.last.push(Value::Null);
        for a in sorted_attributes(n) {
            self.find(&a);
        }
        for c in n.child_nodes() {
            self.find(&c);
        }
    }

    fn discover(&mut self, r: &Res) {
        match r {
            Res::Node(n) => self.find(n),
            Res::OptNode(Some(n)) => self.find(n),
            Res::Nodes(v) => v.iter().for_each(|n| self.find(n)),
            _ => (),
        }
        let mut k = 0;
        while k < self.nodes.len() {
            let Some(n) = self.nodes[k].clone() else {
                k += 1;
                continue;
            };
            for a in sorted_attributes(&n) {
                self.find(&a);
            }
            for c in n.child_nodes() {
                self.find(&c);
            }
            if let Ok(d) = as_document(&n) {
                if let Some(x) = d.doc_type() {
                    self.find(&x);
                }
                if let Some(x) = d.document_element() {
                    self.find(&x);
                }
            }
            for x in [n.parent_node(), n.owner_document()].into_iter().flatten() {
                self.find(&x);
            }
            k += 1;
        }
    }

    fn safe_opt_str(f: impl FnOnce() -> OptStr) -> Value {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(s) => enc_opt(&s),
            Err(_) => json!([[-1]]),
        }
    }

    pub fn project(&self, id: usize) -> Value {
        if self.nodes[id - 1].is_none() {
            let none = json!([]);
            return json!({
                "ty": "Gone", "ns": none, "pf": none, "ln": none, "qn": none, "val": none, "par": 0,
                "kids": none, "first": 0, "last": 0, "prev": 0, "next": 0, "hk": 0, "doc": 0,
                "attrs": none, "ha": 0, "ak": 1, "own": 0, "spec": 0, "len": 0, "data": none,
                "dt": 0, "de": 0, "decl": none, "pub": none, "sys": none, "nsp": none, "nsr": none,
                "upf": none, "upr": none, "ids": none,
            });
        }
        let n = self.get(id);
        let ty = self.ty(id);
        let name = n.node_name();
        let ids = |v: &[RefNode]| v.iter().map(|x| self.id(x)).collect::<Vec<_>>();
        let mut attrs: Vec<usize> = n.attributes().values().map(|a| self.id(a)).collect();
        attrs.sort();
        let keys_ok = n.attributes().iter().all(|(k, a)| k == &a.node_name());
        let mut p = Map::new();
        let mut put = |k: &str, v: Value| {
            p.insert(k.to_string(), v);
        };
        let names_ok = name.namespace_uri() == &n.namespace_uri()
            && name.local_name() == &n.local_name()
            && name.prefix() == &n.prefix();
        put("ty", json!(ty));
        put("ns", enc_opt(&n.namespace_uri()));
        put("pf", enc_opt(&n.prefix()));
        put("ln", enc(&n.local_name()));
        put(
            "qn",
            enc(&if names_ok {
                name.to_string()
            } else {
                "?".to_string()
            }),
        );
        put("val", Self::safe_opt_str(|| n.node_value()));
        put("par", json!(self.oid(&n.parent_node())));
        put("kids", json!(ids(&n.child_nodes())));
        put("first", json!(self.oid(&n.first_child())));
        put("last", json!(self.oid(&n.last_child())));
        put("prev", json!(self.oid(&n.previous_sibling())));
        put("next", json!(self.oid(&n.next_sibling())));
        put("hk", json!(n.has_child_nodes() as u8));
        put("doc", json!(self.oid(&n.owner_document())));
        put("attrs", json!(attrs));
        put("ha", json!(n.has_attributes() as u8));
        put("ak", json!(keys_ok as u8));
        let (mut own, mut spec, mut len, mut data) = (0, 0, 0, json!([]));
        let (mut dt, mut de, mut decl) = (0, 0, json!([]));
        let (mut public, mut system) = (json!([]), json!([]));
        let (mut nsp, mut nsr, mut idp) = (vec![], vec![], vec![]);
        let (mut upf, mut upr) = (vec![], vec![]);
        if let Ok(a) = as_attribute(&n) {
            own = self.oid(&a.owner_element());
            spec = a.specified() as u8;
            let v = Self::safe_opt_str(|| a.value());
            put("val", v.clone());
            if v != Self::safe_opt_str(|| n.node_value()) {
                put("val", json!([enc("value and node_value differ")]));
            }
        }
        if let Ok(c) = as_character_data(&n) {
            len = c.length();
            data = enc_opt(&c.data());
        }
        if let Ok(c) = as_processing_instruction(&n) {
            len = c.length();
            data = enc_opt(&c.data());
            put("qn", enc(&c.target()));
        }
        if let Ok(e) = as_element(&n) {
            put(
                "qn",
                enc(&if names_ok {
                    e.tag_name()
                } else {
                    "?".to_string()
                }),
            );
        }
        if let Ok(e) = as_element_namespaced(&n) {
            for pf in &self.probe_prefixes {
                nsp.push(enc_opt(&e.get_namespace(pf.as_deref())));
                nsr.push(enc_opt(&e.resolve_namespace(pf.as_deref())));
            }
            for uri in &self.probe_uris {
                upf.push(prefix_json(&e.get_prefix(uri)));
                upr.push(prefix_json(&e.resolve_prefix(uri)));
            }
        }
        if let Ok(d) = as_document(&n) {
            dt = self.oid(&d.doc_type());
            de = self.oid(&d.document_element());
            for v in &self.probe_ids {
                idp.push(self.oid(&d.get_element_by_id(v)));
            }
            if !d.implementation().has_feature("Core", "2.0") {
                de = 0;
            }
        }
        if let Ok(d) = as_document_decl(&n) {
            if let Some(x) = d.xml_declaration() {
                decl = json!([
                    [enc(&x.version().to_string())],
                    enc_opt(&x.encoding()),
                    match x.standalone() {
                        None => json!([]),
                        Some(b) => json!([enc(if b { "yes" } else { "no" })]),
                    }
                ]);
            }
        }
        if let Ok(d) = as_document_type(&n) {
            public = enc_opt(&d.public_id());
            system = enc_opt(&d.system_id());
            if d.internal_subset().is_some() || d.entities().len() + d.notations().len() > 0 {
                public = json!([enc("unexpected internal subset, entities or notations")]);
            }
        }
        if let Ok(d) = as_entity(&n) {
            public = enc_opt(&d.public_id());
            system = enc_opt(&d.system_id());
            if d.notation_name().is_some() {
                public = json!([enc("unexpected notation name")]);
            }
        }
        if let Ok(d) = as_notation(&n) {
            public = enc_opt(&d.public_id());
            system = enc_opt(&d.system_id());
        }
        put("own", json!(own));
        put("spec", json!(spec));
        put("len", json!(len));
        put("data", data);
        put("dt", json!(dt));
        put("de", json!(de));
        put("decl", decl);
        put("pub", public);
        put("sys", system);
        put("nsp", json!(nsp));
        put("nsr", json!(nsr));
        put("upf", json!(upf));
        put("upr", json!(upr));
        put("ids", json!(idp));
        Value::Object(p)
    }

    fn res_json(&self, r: &Res) -> Value {
        let make = |k: &str, e: String, n: Vec<usize>, s: Vec<OptStr>| json!({"k": k, "e": e, "n": n, "s": s.iter().map(enc_opt).collect::<Vec<_>>()});
        match r {
            Res::Unit => make("unit", "".into(), vec![], vec![]),
            Res::Err(e) => make("err", format!("{:?}", e), vec![], vec![]),
            Res::Unreadable => make("err", "Parse".into(), vec![], vec![]),
            Res::Panic => make("panic", "".into(), vec![], vec![]),
            Res::Node(n) => make("node", "".into(), vec![self.id(n)], vec![]),
            Res::OptNode(n) => make("optnode", "".into(), vec![self.oid(n)], vec![]),
            Res::Nodes(v) => make(
                "nodes",
                "".into(),
                v.iter().map(|x| self.id(x)).collect(),
                vec![],
            ),
            Res::Str(s) => make("str", "".into(), vec![], vec![s.clone()]),
            Res::Bool(b) => make("bool", "".into(), vec![*b as usize], vec![]),
            Res::Other(k, n, s) => make(k, "".into(), n.clone(), s.clone()),
            Res::Runs(n, s) => {
                json!({"k": "runs", "e": "", "n": n, "s": s.iter().map(|x| json!([x])).collect::<Vec<_>>()})
            }
        }
    }

    /// The result of an operation, looking no further than for new nodes.
    pub fn result_of(&mut self, e: &Op) -> Res {
        match self.act(e) {
            Ok(r) => {
                self.discover(&r);
                r
            }
            Err(_) => Res::Panic,
        }
    }
    /// The kind, the numbers and the strings of a result which is no error.
    pub fn parts_of(&self, r: &Res) -> (String, Vec<usize>, Vec<OptStr>) {
        match r {
            Res::Node(n) => ("node".into(), vec![self.id(n)], vec![]),
            Res::OptNode(n) => ("optnode".into(), vec![self.oid(n)], vec![]),
            Res::Nodes(v) => (
                "nodes".into(),
                v.iter().map(|x| self.id(x)).collect(),
                vec![],
            ),
            Res::Str(s) => ("str".into(), vec![], vec![s.clone()]),
            Res::Bool(b) => ("bool".into(), vec![*b as usize], vec![]),
            Res::Other(k, n, s) => (k.to_string(), n.clone(), s.clone()),
            _ => ("unit".into(), vec![], vec![]),
        }
    }

    /// Let go of a node which no other node holds: that is the end of it.
    fn release(&mut self, id: usize) -> Res {
        if !self.held(id) {
            self.nodes[id - 1] = None;
        }
        Res::Unit
    }
    fn act(&mut self, e: &Op) -> std::thread::Result<Res> {
        catch_unwind(AssertUnwindSafe(|| match e.op.as_str() {
            "release" => self.release(e.n[0]),
            op if op.starts_with("grow ") => self.grow(e),
            _ => self.call(e),
        }))
    }

    /// Many operations as one, as in the specification.
    fn grow(&mut self, e: &Op) -> Res {
        let t = e.n[0];
        let text = &e.s[0];
        let name = |s: &str| Some(s.to_string());
        let mut at = t;
        for k in 1..=e.i[0] {
            match (e.op.as_str(), k % 5) {
                ("grow kids", 1) | ("grow kids", 2) => {
                    self.add_to(t, "create_text_node", text.clone())
                }
                ("grow kids", 3) => self.add_to(t, "create_element", name("a")),
                ("grow kids", 4) => self.add_to(t, "create_comment", text.clone()),
                ("grow kids", _) => self.add_to(t, "create_element", name("b")),
                ("grow chain", _) => {
                    self.add_to(at, "create_element", name(["a", "b"][k as usize % 2]))
                }
                ("grow attrs", _) => self.must(&Op::new(
                    "set_attribute",
                    &[t],
                    &[Some(format!("n{}", k)), text.clone()],
                    &[],
                )),
                ("grow ids", _) => {
                    self.add_to(t, "create_element", name("a"));
                    let id = Some(format!("{}{}", text.clone().unwrap(), k));
                    let at = self.nodes.len();
                    self.must(&Op::new("set_attribute", &[at], &[name("id"), id], &[]));
                }
                ("grow texts", _) => self.must(&Op::new("append_data", &[t], &[text.clone()], &[])),
                (other, _) => panic!("harness: unknown operation {}", other),
            }
            at = self.nodes.len();
        }
        Res::Unit
    }
    /// A new node, and it is the last child of t.
    fn add_to(&mut self, t: usize, op: &str, s: OptStr) {
        let owner = self.get(t).owner_document().map_or(0, |d| self.id(&d));
        self.must(&Op::new(op, &[owner], &[s], &[]));
        let new = self.nodes.len();
        self.must(&Op::new("append_child", &[t, new], &[], &[]));
    }
    /// Part of a larger operation.
    fn must(&mut self, e: &Op) {
        let r = self.call(e);
        if let Res::Panic = r {
            panic!("in {}", e.op);
        }
        self.discover(&r);
    }

    /// Run an operation without looking further than for new nodes.
    pub fn advance(&mut self, e: &Op) {
        if let Ok(r) = self.act(e) {
            let _ = catch_unwind(AssertUnwindSafe(|| self.discover(&r)));
        }
    }
    pub fn snapshot(&mut self) {
        let _ = catch_unwind(AssertUnwindSafe(|| {
            for id in 1..=self.nodes.len() {
                self.last[id - 1] = self.project(id);
            }
        }));
    }

    /// Run an operation; its result, and the projections of the nodes which are new or changed.
    /// After a panic nothing more is known of the nodes.
    pub fn step(&mut self, e: &Op) -> (Value, Vec<(usize, Value)>) {
        let r = match self.act(e) {
            Ok(r) => r,
            Err(_) => Res::Panic,
        };
        if let Res::Panic = r {
            return (self.res_json(&r), vec![]);
        }
        let seen = catch_unwind(AssertUnwindSafe(|| {
            self.discover(&r);
            let mut diff = vec![];
            for id in 1..=self.nodes.len() {
                let p = self.project(id);
                if p != self.last[id - 1] {
                    self.last[id - 1] = p.clone();
                    diff.push((id, p));
                }
            }
            diff
        }));
        match seen {
            Ok(diff) => (self.res_json(&r), diff),
            // what this operation left behind cannot even be looked at
            Err(_) => (
                json!({"k": "panic", "e": "observing", "n": [], "s": []}),
                vec![],
            ),
        }
    }
}

fn sorted_attributes(n: &RefNode) -> Vec<RefNode> {
    let mut v: Vec<(Vec<u32>, OptStr, RefNode)> = n
        .attributes()
        .into_values()
        .map(|a| {
            let name = a.node_name();
            (
                name.to_string().chars().map(|c| c as u32).collect(),
                name.namespace_uri().clone(),
                a,
            )
        })
        .collect();
    v.sort_by(|x, y| (&x.0, &x.1).cmp(&(&y.0, &y.1)));
    v.into_iter().map(|x| x.2).collect()
}
