//! Random histories of operations. The choice of each operation looks at the nodes there are, so
//! that most calls are near the border between what is allowed and what is not.

use crate::world::{Op, OptStr, World};
use xml_dom::level2::*;

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// What a profile does how often: the weights of the groups of operations.
pub struct Profile {
    pub name: &'static str,
    pub weights: Vec<(&'static str, usize)>,
    pub second_document: usize,
    pub lax_ids: usize,
    pub namespaces: usize,
    pub entity_values: usize,
    pub many_texts: bool,
    pub shape: Shape,
}

/// Most histories are of no special shape; some have a deep or a wide tree, many attributes on one
/// element, or long texts, and a few have very much of something.
#[derive(Clone, Copy, PartialEq)]
pub enum Shape {
    Plain,
    Deep,
    Wide,
    Attributes,
    Long,
    Large,
}

const BASE: &[(&str, usize)] = &[
    ("elem", 8),
    ("leaf", 8),
    ("attr", 4),
    ("ext", 1),
    ("tree", 20),
    ("setattr", 8),
    ("attrnode", 5),
    ("rmattr", 4),
    ("readattr", 2),
    ("attrval", 3),
    ("id", 1),
    ("ns", 1),
    ("char", 6),
    ("split", 2),
    ("norm", 2),
    ("clone", 3),
    ("find", 2),
    ("ser", 1),
    ("names", 1),
    ("nodeval", 2),
    ("misc", 1),
    ("docs", 1),
    ("direct", 1),
];

pub fn profile(name: &str) -> Profile {
    let boosts: &[(&'static str, usize)] = match name {
        "C01" => &[
            ("tree", 40),
            ("clone", 6),
            ("split", 4),
            ("norm", 3),
            ("elem", 10),
            ("attrval", 4),
        ],
        "C02" => &[
            ("tree", 50),
            ("leaf", 12),
            ("attr", 6),
            ("ext", 3),
            ("docs", 3),
            ("attrnode", 8),
        ],
        "C03" => &[("tree", 60), ("elem", 12), ("leaf", 10)],
        "C04" => &[
            ("tree", 35),
            ("attrnode", 12),
            ("setattr", 14),
            ("rmattr", 8),
            ("char", 12),
            ("split", 5),
            ("docs", 2),
            ("attrval", 5),
            ("direct", 10),
        ],
        "C05" => &[
            ("tree", 35),
            ("attrnode", 14),
            ("docs", 4),
            ("clone", 6),
            ("split", 3),
            ("attrval", 4),
            ("attr", 8),
            ("direct", 5),
        ],
        "C06" => &[
            ("setattr", 30),
            ("attrnode", 25),
            ("rmattr", 20),
            ("readattr", 20),
            ("attr", 12),
            ("tree", 6),
            ("attrval", 8),
        ],
        "C07" => &[
            ("setid", 40),
            ("attrnode", 14),
            ("rmattr", 16),
            ("id", 12),
            ("attrval", 8),
            ("attr", 4),
            ("clone", 5),
            ("tree", 12),
        ],
        "C08" => &[
            ("setns", 40),
            ("rmattr", 14),
            ("attrnode", 14),
            ("ns", 25),
            ("tree", 20),
            ("attrval", 6),
            ("clone", 4),
        ],
        "C09" => &[("char", 90), ("leaf", 14), ("nodeval", 8), ("tree", 8)],
        "C10" => &[
            ("split", 25),
            ("norm", 14),
            ("char", 16),
            ("tree", 28),
            ("attrval", 4),
            ("leaf", 14),
            ("clone", 3),
        ],
        "C11" => &[
            ("clone", 25),
            ("tree", 25),
            ("setattr", 14),
            ("char", 12),
            ("attrval", 6),
            ("setns", 5),
            ("setid", 4),
            ("attr", 6),
            ("ext", 2),
        ],
        "C12" => &[
            ("find", 35),
            ("elem", 16),
            ("tree", 35),
            ("docs", 2),
            ("leaf", 5),
        ],
        "C13" => &[("names", 60), ("elemname", 50), ("elem", 2), ("tree", 2)],
        "C14" => &[
            ("ser", 40),
            ("setattr", 18),
            ("tree", 25),
            ("leaf", 14),
            ("misc", 4),
            ("docs", 3),
            ("ext", 4),
            ("nodeval", 4),
        ],
        "C15" => &[
            ("setattr", 35),
            ("attrval", 30),
            ("attrtext", 25),
            ("readattr", 20),
            ("tree", 6),
            ("leaf", 8),
        ],
        "C16" => &[
            ("nodeval", 40),
            ("leaf", 18),
            ("ext", 10),
            ("misc", 20),
            ("elem", 8),
            ("attr", 8),
            ("docs", 3),
            ("char", 6),
            ("direct", 25),
        ],
        "C19" => &[
            ("read", 45),
            ("reread", 14),
            ("ser", 4),
            ("setattr", 8),
            ("tree", 14),
            ("char", 4),
            ("id", 4),
            ("find", 3),
            ("clone", 2),
            ("docs", 0),
        ],
        "C20" => &[
            ("drop", 28),
            ("tree", 30),
            ("setattr", 12),
            ("attrnode", 12),
            ("setid", 6),
            ("setns", 6),
            ("attrval", 8),
            ("split", 4),
            ("clone", 5),
            ("ser", 3),
            ("docs", 3),
        ],
        "C17" => &[
            ("docs", 45),
            ("misc", 25),
            ("doctype", 20),
            ("ser", 6),
            ("tree", 12),
            ("names", 2),
        ],
        _ => &[
            ("setid", 6),
            ("setns", 6),
            ("attrtext", 3),
            ("docs", 2),
            ("direct", 8),
        ],
    };
    let mut weights: Vec<(&'static str, usize)> = BASE.to_vec();
    for (g, w) in boosts {
        match weights.iter_mut().find(|x| x.0 == *g) {
            Some(x) => x.1 = *w,
            None => weights.push((g, *w)),
        }
    }
    // the profile's own business comes first
    let focus: Vec<&str> = boosts.iter().map(|b| b.0).collect();
    for x in weights.iter_mut() {
        if !focus.contains(&x.0)
            && matches!(
                name,
                "C06" | "C07" | "C08" | "C09" | "C12" | "C13" | "C15" | "C17"
            )
        {
            x.1 = (x.1 + 1) / 2;
        }
    }
    Profile {
        name: match name {
            "C07" => "C07",
            "C13" => "C13",
            "C15" => "C15",
            "C09" => "C09",
            "C19" => "C19",
            _ => "",
        },
        weights,
        second_document: match name {
            "C05" => 80,
            "C04" | "C07" | "C20" => 50,
            "C17" => 40,
            _ => 25,
        },
        lax_ids: if name == "C07" { 40 } else { 15 },
        namespaces: match name {
            "C08" => 90,
            _ => 60,
        },
        entity_values: if name == "C18" || name == "C15" { 1 } else { 0 },
        many_texts: name == "C10",
        shape: Shape::Plain,
    }
}

const URIS: &[&str] = &["u:1", "u:2"];
const XML_URI: &str = "http://www.w3.org/XML/1998/namespace";
const XMLNS_URI: &str = "http://www.w3.org/2000/xmlns/";
const ELEMENT_NAMES: &[&str] = &[
    "a", "b", "c", "p:a", "q:b", "é", "x-1", "p:b", "id", "A", "aa", "P:a",
];
const ATTRIBUTE_NAMES: &[&str] = &[
    "a", "b", "c", "p:a", "q:a", "p:b", "é", "id", "xml:id", "lang", "ID", "Id", "xml:ID",
    "XML:id", "A", "P:a", "xmlid",
];
const BAD_NAMES: &[&str] = &[
    "", ":a", "a:", "a:b:c", "1a", "a b", "a!", ":", "-", "p:1", "1:p", "a\u{D7}", "\u{B7}a",
];
const IDS: &[&str] = &["i1", "i2", "i3", "a<b"];
const DATA: &[&str] = &[
    "", "x", "yz", "a b", "é", "漢字", "x𐐷y", "<", "&", "'", "\"", ">", "]]>", "--", "\n",
    "abcdef", "e\u{301}", "<é", "&lt;", "é>", " ", "\t", "漢<", "?>", "\u{85}", "0", "&#60;",
    "\u{FEFF}", "\u{2028}", "\r",
];
const VALUES: &[&str] = &[
    "",
    "v",
    "w",
    " v",
    "v ",
    " ",
    "\"",
    "'",
    "<",
    ">",
    "&",
    "&#65;",
    "&#x41;",
    "&#x4a;",
    "&#xD800;",
    "&#1114112;",
    "&#99999999999;",
    "&#",
    "&#;",
    "&#x;",
    "&;",
    "& a;",
    "\r\n",
    "\r",
    "\n",
    "\t",
    "\r\u{85}",
    "\u{85}",
    "\u{2028}",
    "é",
    "漢",
    "𐐷",
    "%",
    "%p",
    "&p",
    "&#32;",
    "&#xd;",
    "&#9;",
    ";",
    "#",
    "&#x110000;",
    "&#xG;",
    "&#4a;",
    "&#X41;",
];
const EDGES: &[u32] = &[
    0x2D, 0x2E, 0x2F, 0x30, 0x39, 0x40, 0x41, 0x5A, 0x5B, 0x5E, 0x5F, 0x60, 0x61, 0x7A, 0x7B, 0xB6,
    0xB7, 0xB8, 0xBF, 0xC0, 0xD6, 0xD7, 0xD8, 0xF6, 0xF7, 0xF8, 0x2FF, 0x300, 0x36F, 0x370, 0x37D,
    0x37E, 0x37F, 0x1FFF, 0x2000, 0x200B, 0x200C, 0x200D, 0x200E, 0x203E, 0x203F, 0x2040, 0x2041,
    0x206F, 0x2070, 0x218F, 0x2190, 0x2BFF, 0x2C00, 0x2FEF, 0x2FF0, 0x3000, 0x3001, 0xD7FF, 0xE000,
    0xF8FF, 0xF900, 0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFFD, 0xFFFE, 0x10000, 0xEFFFF, 0xF0000,
    0x10FFFF, 0x20, 0x9, 0xA, 0x21, 0x3A, 0x0, 0x7F, 0x85,
];

pub struct Gen {
    pub rng: Rng,
    pub p: Profile,
    pub max_nodes: usize,
    docs: Vec<usize>,
    check: String,
    /// Of a large shape: what was grown.
    grown: Vec<usize>,
}

fn some(s: &str) -> OptStr {
    Some(s.to_string())
}

impl Gen {
    pub fn new(seed: u64, name: &str, max_nodes: usize, large: bool) -> Self {
        let mut rng = Rng::new(seed);
        let mut p = profile(name);
        p.shape = match rng.below(20) {
            _ if large => Shape::Large,
            0 | 1 => Shape::Deep,
            2 | 3 => Shape::Wide,
            4 => Shape::Attributes,
            5 | 6 => Shape::Long,
            _ => Shape::Plain,
        };
        let max_nodes = match p.shape {
            Shape::Deep | Shape::Wide | Shape::Attributes => 36,
            Shape::Large => 400,
            _ => max_nodes,
        };
        Gen {
            rng,
            p,
            max_nodes,
            docs: vec![],
            check: name.to_string(),
            grown: vec![],
        }
    }

    fn of(&self, w: &World, types: &[&str]) -> Vec<usize> {
        (1..=w.nodes.len())
            .filter(|id| w.nodes[*id - 1].is_some())
            .filter(|id| types.is_empty() || types.contains(&w.ty(*id)))
            .collect()
    }
    fn any(&mut self, w: &World, types: &[&str]) -> Option<usize> {
        let v = self.of(w, types);
        if v.is_empty() {
            None
        } else if !self.grown.is_empty()
            && self.rng.chance(50)
            && v.iter().any(|x| self.grown.contains(x))
        {
            let g: Vec<usize> = v.into_iter().filter(|x| self.grown.contains(x)).collect();
            Some(*self.rng.pick(&g))
        } else {
            // newer nodes a little more often
            let k = self.rng.below(v.len());
            let l = self.rng.below(v.len());
            Some(v[if self.rng.chance(40) { k.max(l) } else { k }])
        }
    }
    /// A node of these types, or now and then of any type.
    fn mostly(&mut self, w: &World, types: &[&str]) -> Option<usize> {
        if self.rng.chance(4) {
            self.any(w, &[])
        } else {
            self.any(w, types).or_else(|| self.any(w, &[]))
        }
    }
    fn doc(&mut self, w: &World) -> usize {
        self.docs = self.of(w, &["Document"]);
        if self.rng.chance(3) {
            return self.any(w, &[]).unwrap();
        }
        if self.rng.chance(75) {
            self.docs[0]
        } else {
            *self.rng.pick(&self.docs.clone())
        }
    }
    fn uri(&mut self) -> String {
        let k = self.rng.below(20);
        match k {
            0 => XML_URI.to_string(),
            1 => XMLNS_URI.to_string(),
            2 => String::new(),
            _ => self.rng.pick(URIS).to_string(),
        }
    }
    fn edge_name(&mut self) -> String {
        let mut s = String::new();
        let k = 1 + self.rng.below(3);
        for i in 0..k {
            let c = if self.rng.chance(45) {
                char::from_u32(*self.rng.pick(EDGES))
            } else if i == 0 {
                Some(*self.rng.pick(&['a', 'Z', '_', 'é', 'x']))
            } else {
                Some(*self.rng.pick(&['a', '0', '-', '.', ':', '·', '_', 'z']))
            };
            if let Some(c) = c {
                s.push(c);
            }
        }
        s
    }
    fn special_name(&mut self) -> String {
        self.rng
            .pick(&[
                "xml",
                "xmlns",
                "xml:a",
                "xmlns:a",
                "a:xml",
                "a:xmlns",
                "xmlns:xmlns",
                "xml:xml",
                "XML",
                "xml:id",
                "p:id",
                "id",
                "xmlns:xml",
                "Xml",
                "XMLNS",
                "Xmlns:p",
                "XML:lang",
                "xml:ID",
                "xMl",
                "xmlx",
                "p:a",
            ])
            .to_string()
    }
    fn name(&mut self, good: &[&str]) -> String {
        if self.p.name == "C13" && self.rng.chance(60) {
            if self.rng.chance(35) {
                return self.special_name();
            }
            return self.edge_name();
        }
        match self.rng.below(30) {
            0 => self.rng.pick(BAD_NAMES).to_string(),
            1 => self.special_name(),
            2 => self.edge_name(),
            _ => self.rng.pick(good).to_string(),
        }
    }
    /// Some pieces, one after the other; now and then many of them, or the same over and over.
    fn pieces(&mut self, pool: &[&str], more: usize) -> String {
        let mut s = self.rng.pick(pool).to_string();
        while self.rng.chance(more) && s.chars().count() < 20 {
            s.push_str(self.rng.pick(pool));
        }
        if self
            .rng
            .chance(if self.p.shape == Shape::Long { 35 } else { 2 })
        {
            let k = 4 + self.rng.below(20);
            if self.rng.chance(50) {
                s = s.repeat(k);
            } else {
                for _ in 0..k {
                    s.push_str(self.rng.pick(pool));
                }
            }
            s = s.chars().take(90).collect();
        }
        s
    }
    fn data(&mut self) -> String {
        self.pieces(DATA, 40)
    }
    fn value(&mut self) -> String {
        let more = if self.p.name == "C15" { 70 } else { 35 };
        let mut s = self.pieces(VALUES, more);
        if self.p.entity_values > 0 && self.rng.chance(2) {
            s.push_str(self.rng.pick(&["&amp;", "%x;", "&a.b-c;", "&é;", "&_;"]));
            return s;
        }
        // no reference to an entity may come about by accident
        if has_entity(&s) {
            s.retain(|c| c != ';');
        }
        s
    }
    fn id_value(&mut self) -> String {
        if self.rng.chance(10) {
            " i1 ".to_string()
        } else {
            self.rng.pick(IDS).to_string()
        }
    }
    fn is_id_or_ns(name: &Name) -> bool {
        name.local_name() == "id"
            || name.local_name() == "xmlns"
            || name.prefix().as_deref() == Some("xmlns")
    }
    /// An attribute whose value is also the key of an index may not be changed through its child
    /// nodes (a known finding): neither it, nor a node below it, is offered for that.
    fn guarded(w: &World, id: usize) -> bool {
        let n = w.get(id);
        let mut top = n.clone();
        for _ in 0..50 {
            match top.parent_node() {
                Some(p) => top = p,
                None => break,
            }
        }
        top.node_type() == NodeType::Attribute && Self::is_id_or_ns(&top.node_name())
    }
    fn free(&mut self, w: &World, types: &[&str]) -> Option<usize> {
        for _ in 0..6 {
            if let Some(x) = self.mostly(w, types) {
                if !Self::guarded(w, x) {
                    return Some(x);
                }
            }
        }
        None
    }

    fn tree(&mut self, w: &World) -> Option<Op> {
        const CONTAINERS: &[&str] = &[
            "Element",
            "Element",
            "Document",
            "DocumentFragment",
            "EntityReference",
            "Attribute",
            "Entity",
        ];
        const CONTENT: &[&str] = &[
            "Element",
            "Text",
            "Comment",
            "ProcessingInstruction",
            "CData",
            "EntityReference",
        ];
        if self.p.shape != Shape::Plain && self.rng.chance(60) {
            if let Some(op) = self.shape_tree(w) {
                return Some(op);
            }
        }
        let parent = match self.rng.below(20) {
            0 => self.any(w, &[])?,
            1..=11 => self.any(w, &["Element"]).or_else(|| self.any(w, &[]))?,
            12 | 13 => self.any(w, &["Document"])?,
            14 => self.any(w, &["Attribute"]).or_else(|| self.any(w, &[]))?,
            _ => self.any(w, CONTAINERS)?,
        };
        if Self::guarded(w, parent) {
            return None;
        }
        let kids: Vec<usize> = w
            .get(parent)
            .child_nodes()
            .iter()
            .map(|c| w.id(c))
            .collect();
        let mut child = match self.rng.below(20) {
            0 => self.any(w, &[])?,
            1 => {
                // an ancestor
                let mut n = w.get(parent);
                for _ in 0..self.rng.below(3) {
                    if let Some(p) = n.parent_node() {
                        n = p;
                    }
                }
                w.id(&n)
            }
            2 | 3 if !kids.is_empty() => *self.rng.pick(&kids),
            4..=6 => {
                // one which has no parent
                let v: Vec<usize> = self
                    .of(w, CONTENT)
                    .into_iter()
                    .filter(|x| w.get(*x).parent_node().is_none())
                    .collect();
                if v.is_empty() {
                    self.any(w, CONTENT)?
                } else {
                    *self.rng.pick(&v)
                }
            }
            _ => self.any(w, CONTENT).or_else(|| self.any(w, &[]))?,
        };
        if self.p.many_texts && self.rng.chance(35) {
            child = self.any(w, &["Text"]).unwrap_or(child);
        }
        if self.rng.chance(60) {
            // of the same document, so that most attempts are not given up for that
            let d = |x: usize| {
                let n = w.get(x);
                if n.node_type() == NodeType::Document {
                    x
                } else {
                    n.owner_document().map_or(0, |d| w.id(&d))
                }
            };
            for _ in 0..5 {
                if d(child) == d(parent) {
                    break;
                }
                child = self.any(w, CONTENT).unwrap_or(child);
            }
        }
        if Self::guarded(w, child) {
            return None;
        }
        let reference = |me: &mut Self| -> Option<usize> {
            if !kids.is_empty() && me.rng.chance(90) {
                Some(*me.rng.pick(&kids))
            } else {
                me.any(w, &[])
            }
        };
        Some(match self.rng.below(20) {
            0..=5 => Op::new("append_child", &[parent, child], &[], &[]),
            6..=11 => {
                let r = if self.rng.chance(12) {
                    0
                } else {
                    reference(self)?
                };
                Op::new("insert_before", &[parent, child, r], &[], &[])
            }
            12..=15 => Op::new(
                "replace_child",
                &[parent, child, reference(self)?],
                &[],
                &[],
            ),
            _ => {
                let r = reference(self)?;
                if Self::guarded(w, r) {
                    return None;
                }
                Op::new("remove_child", &[parent, r], &[], &[])
            }
        })
    }

    /// Let go of a node, mostly of one which nothing else holds.
    fn release(&mut self, w: &World) -> Option<Op> {
        let documents = self.of(w, &["Document"]);
        let types: &[&str] = match self.rng.below(10) {
            0..=1 => &["Document"],
            2..=5 => &["Element"],
            6 => &["Attribute", "DocumentType"],
            _ => &[],
        };
        for _ in 0..6 {
            let id = self.any(w, types)?;
            if w.ty(id) == "Document" && (documents.len() == 1 || self.rng.chance(50)) {
                continue;
            }
            if !w.held(id) || self.rng.chance(5) {
                return Some(Op::new("release", &[id], &[], &[]));
            }
        }
        None
    }

    /// A deeper, or a wider, tree.
    fn shape_tree(&mut self, w: &World) -> Option<Op> {
        let depth = |x: usize| {
            let (mut n, mut k) = (w.get(x), 0);
            while let Some(p) = n.parent_node() {
                k += 1;
                if k > 60 {
                    break;
                }
                n = p;
            }
            k
        };
        let elements = self.of(w, &["Element"]);
        let (parent, kinds): (usize, &[&str]) = match self.p.shape {
            Shape::Deep => (
                elements.iter().copied().max_by_key(|x| depth(*x))?,
                &["Element"],
            ),
            Shape::Wide => (
                elements
                    .iter()
                    .copied()
                    .max_by_key(|x| w.get(*x).child_nodes().len())?,
                &[
                    "Element",
                    "Text",
                    "Comment",
                    "CData",
                    "ProcessingInstruction",
                    "EntityReference",
                ],
            ),
            _ => return None,
        };
        let v: Vec<usize> = self
            .of(w, kinds)
            .into_iter()
            .filter(|x| *x != parent && w.get(*x).parent_node().is_none() && !Self::guarded(w, *x))
            .collect();
        if v.is_empty() || Self::guarded(w, parent) {
            return None;
        }
        let child = *self.rng.pick(&v);
        let kids: Vec<usize> = w
            .get(parent)
            .child_nodes()
            .iter()
            .map(|c| w.id(c))
            .collect();
        if kids.is_empty() || self.rng.chance(60) {
            Some(Op::new("append_child", &[parent, child], &[], &[]))
        } else {
            Some(Op::new(
                "insert_before",
                &[parent, child, *self.rng.pick(&kids)],
                &[],
                &[],
            ))
        }
    }

    fn attribute_name_of(&mut self, w: &World, el: usize) -> Option<Name> {
        let n = w.get(el);
        let mut names: Vec<Name> = n
            .attributes()
            .into_values()
            .map(|a| a.node_name())
            .collect();
        names.sort_by_key(|n| n.to_string());
        if names.is_empty() {
            None
        } else {
            Some(self.rng.pick(&names).clone())
        }
    }

    fn set_attr(&mut self, w: &World) -> Option<Op> {
        if self.p.shape == Shape::Attributes && self.rng.chance(70) {
            let el = *self.of(w, &["Element"]).first()?;
            let name = format!(
                "{}{}",
                self.rng.pick(&["n", "p:n", "m"]),
                self.rng.below(12)
            );
            let v = self.value();
            return Some(Op::new("set_attribute", &[el], &[Some(name), Some(v)], &[]));
        }
        let el = self.mostly(w, &["Element"])?;
        if self.rng.chance(55) {
            let name = self.name(ATTRIBUTE_NAMES);
            let v = if name.ends_with("id") && self.rng.chance(80) {
                self.id_value()
            } else {
                self.value()
            };
            Some(Op::new("set_attribute", &[el], &[Some(name), Some(v)], &[]))
        } else {
            let (uri, name) = match self.rng.below(12) {
                0 => (
                    XMLNS_URI.to_string(),
                    self.rng.pick(&["xmlns", "xmlns:p", "xmlns:q"]).to_string(),
                ),
                1 => (
                    XML_URI.to_string(),
                    self.rng
                        .pick(&["xml:id", "id", "xml:lang", "p:id"])
                        .to_string(),
                ),
                _ => (self.uri(), self.name(ATTRIBUTE_NAMES)),
            };
            let v = if name.ends_with("id") && self.rng.chance(80) {
                self.id_value()
            } else if uri == XMLNS_URI {
                self.rng.pick(URIS).to_string()
            } else {
                self.value()
            };
            Some(Op::new(
                "set_attribute_ns",
                &[el],
                &[Some(uri), Some(name), Some(v)],
                &[],
            ))
        }
    }

    fn set_id(&mut self, w: &World) -> Option<Op> {
        let el = self.mostly(w, &["Element"])?;
        let v = self.id_value();
        Some(match self.rng.below(6) {
            0 => Op::new("set_attribute", &[el], &[some("id"), Some(v)], &[]),
            1 | 2 => Op::new("set_attribute", &[el], &[some("xml:id"), Some(v)], &[]),
            3 => Op::new(
                "set_attribute_ns",
                &[el],
                &[some(XML_URI), some("xml:id"), Some(v)],
                &[],
            ),
            4 => Op::new(
                "set_attribute_ns",
                &[el],
                &[
                    some(XML_URI),
                    some(*self.rng.pick(&["id", "q:id"])),
                    Some(v),
                ],
                &[],
            ),
            _ => Op::new(
                "set_attribute_ns",
                &[el],
                &[some(self.rng.pick(URIS)), some("p:id"), Some(v)],
                &[],
            ),
        })
    }

    fn set_ns(&mut self, w: &World) -> Option<Op> {
        let el = self.mostly(w, &["Element"])?;
        let name = *self.rng.pick(&[
            "xmlns",
            "xmlns:p",
            "xmlns:q",
            "xmlns:p",
            "xmlns:xmlns",
            "xmlns:id",
            "xmlns:P",
            "xmlns:zz",
        ]);
        let v = match self.rng.below(12) {
            0 => String::new(),
            1 => " u:1 ".to_string(),
            _ => self.rng.pick(URIS).to_string(),
        };
        Some(if self.rng.chance(88) {
            Op::new(
                "set_attribute_ns",
                &[el],
                &[some(XMLNS_URI), some(name), Some(v)],
                &[],
            )
        } else {
            Op::new("set_attribute", &[el], &[some(name), Some(v)], &[])
        })
    }

    fn attr_node(&mut self, w: &World) -> Option<Op> {
        let el = self.mostly(w, &["Element"])?;
        let mut at = self.mostly(w, &["Attribute"])?;
        for _ in 0..3 {
            if self.rng.chance(60) && as_owner(w, at) != 0 {
                at = self.mostly(w, &["Attribute"])?;
            }
        }
        let op = if self.rng.chance(75) {
            "set_attribute_node"
        } else {
            "set_attribute_node_ns"
        };
        Some(Op::new(op, &[el, at], &[], &[]))
    }

    fn rm_attr(&mut self, w: &World) -> Option<Op> {
        let mut el = self.mostly(w, &["Element"])?;
        for _ in 0..4 {
            if w.get(el).attributes().is_empty() {
                el = self.mostly(w, &["Element"])?;
            }
        }
        let own = self.attribute_name_of(w, el);
        Some(match self.rng.below(10) {
            0..=3 => {
                let n = own
                    .map(|n| n.to_string())
                    .filter(|_| self.rng.chance(85))
                    .unwrap_or_else(|| self.name(ATTRIBUTE_NAMES));
                Op::new("remove_attribute", &[el], &[Some(n)], &[])
            }
            4..=6 => {
                let keep = self.rng.chance(85);
                match own.filter(|n| n.namespace_uri().is_some() && keep) {
                    Some(n) => Op::new(
                        "remove_attribute_ns",
                        &[el],
                        &[n.namespace_uri().clone(), Some(n.local_name().clone())],
                        &[],
                    ),
                    None => {
                        let u = self.uri();
                        let n = self.name(ATTRIBUTE_NAMES);
                        Op::new("remove_attribute_ns", &[el], &[Some(u), Some(n)], &[])
                    }
                }
            }
            _ => {
                let mut v: Vec<usize> = w.get(el).attributes().values().map(|a| w.id(a)).collect();
                v.sort();
                let at = if v.is_empty() || self.rng.chance(25) {
                    self.mostly(w, &["Attribute"])?
                } else {
                    *self.rng.pick(&v)
                };
                Op::new("remove_attribute_node", &[el, at], &[], &[])
            }
        })
    }

    fn read_attr(&mut self, w: &World) -> Option<Op> {
        let el = self.mostly(w, &["Element"])?;
        let own = self
            .attribute_name_of(w, el)
            .filter(|_| self.rng.chance(75));
        Some(if self.rng.chance(50) {
            let n = own
                .map(|n| n.to_string())
                .unwrap_or_else(|| self.name(ATTRIBUTE_NAMES));
            let op = *self
                .rng
                .pick(&["get_attribute", "get_attribute_node", "has_attribute"]);
            Op::new(op, &[el], &[Some(n)], &[])
        } else {
            let (u, n) = match own {
                Some(n) => {
                    let u = n.namespace_uri().clone().unwrap_or_else(|| self.uri());
                    (u, n.local_name().clone())
                }
                None => (self.uri(), self.name(ATTRIBUTE_NAMES)),
            };
            let op = *self.rng.pick(&[
                "get_attribute_ns",
                "get_attribute_node_ns",
                "has_attribute_ns",
            ]);
            Op::new(op, &[el], &[Some(u), Some(n)], &[])
        })
    }

    fn value_for(&mut self, w: &World, at: usize) -> String {
        let name = w.get(at).node_name();
        if name.local_name() == "id" {
            self.id_value()
        } else if Self::is_id_or_ns(&name) {
            self.rng.pick(URIS).to_string()
        } else {
            self.value()
        }
    }

    fn attr_val(&mut self, w: &World) -> Option<Op> {
        let at = self.mostly(w, &["Attribute"])?;
        let v = self.value_for(w, at);
        Some(match self.rng.below(6) {
            0 => Op::new("unset_value", &[at], &[], &[]),
            1 => Op::new("set_node_value", &[at], &[Some(v)], &[]),
            2 if self.rng.chance(30) => Op::new("unset_node_value", &[at], &[], &[]),
            _ => Op::new("set_value", &[at], &[Some(v)], &[]),
        })
    }

    /// Text and entity references as children of an attribute.
    fn attr_text(&mut self, w: &World) -> Option<Op> {
        let at = self.free(w, &["Attribute"])?;
        Some(match self.rng.below(5) {
            0 | 1 => {
                let c = self.free(w, &["Text", "EntityReference"])?;
                Op::new("append_child", &[at, c], &[], &[])
            }
            2 => {
                let d = self.doc(w);
                let v = self.value();
                Op::new("create_text_node", &[d], &[Some(v)], &[])
            }
            3 => {
                let r = self.free(w, &["EntityReference"])?;
                let v = self.value();
                Op::new("set_node_value", &[r], &[Some(v)], &[])
            }
            _ => {
                let kids: Vec<usize> = w.get(at).child_nodes().iter().map(|c| w.id(c)).collect();
                if kids.is_empty() {
                    return None;
                }
                let c = *self.rng.pick(&kids);
                let v = self.value();
                Op::new("set_node_value", &[c], &[Some(v)], &[])
            }
        })
    }

    fn chars(&mut self, w: &World) -> Option<Op> {
        let t = self.free(w, &["Text", "CData", "Comment", "Text"])?;
        let len = w.get(t).node_value().map_or(0, |s| s.len()) as i64;
        let mut off = self.rng.below(len as usize + 1) as i64;
        if self.rng.chance(18) {
            off = *self.rng.pick(&[-1, len, len + 1, len + 5, 0]);
        }
        let mut cnt = self.rng.below((len - off).max(0) as usize + 2) as i64;
        if self.rng.chance(15) {
            cnt = *self.rng.pick(&[-1, 0, len, len + 7]);
        }
        let d = if len > 24 && self.rng.chance(70) {
            String::new()
        } else {
            self.data()
        };
        Some(match self.rng.below(14) {
            0..=2 => Op::new("substring_data", &[t], &[], &[off, cnt]),
            3 | 4 => Op::new("append_data", &[t], &[Some(d)], &[]),
            5 | 6 => Op::new("insert_data", &[t], &[Some(d)], &[off]),
            7 | 8 => Op::new("delete_data", &[t], &[], &[off, cnt]),
            9 | 10 | 11 => Op::new("replace_data", &[t], &[Some(d)], &[off, cnt]),
            12 => Op::new("set_data", &[t], &[Some(d)], &[]),
            _ => {
                if self.rng.chance(30) {
                    Op::new("unset_data", &[t], &[], &[])
                } else {
                    let pi = self.any(w, &["ProcessingInstruction"])?;
                    if self.rng.chance(80) {
                        Op::new("pi_set_data", &[pi], &[Some(d)], &[])
                    } else {
                        Op::new("pi_unset_data", &[pi], &[], &[])
                    }
                }
            }
        })
    }

    fn split(&mut self, w: &World) -> Option<Op> {
        let t = self.free(w, &["Text", "Text", "CData"])?;
        let len = w.get(t).node_value().map_or(0, |s| s.len());
        let off = if self.rng.chance(12) {
            *self.rng.pick(&[-1, len as i64 + 1, len as i64, 0])
        } else {
            self.rng.below(len + 1) as i64
        };
        Some(Op::new("split", &[t], &[], &[off]))
    }

    fn size(n: &RefNode, depth: usize) -> usize {
        if depth > 30 {
            return 1000;
        }
        1 + n
            .attributes()
            .values()
            .map(|a| Self::size(a, depth + 1))
            .sum::<usize>()
            + n.child_nodes()
                .iter()
                .map(|c| Self::size(c, depth + 1))
                .sum::<usize>()
    }
    fn clone(&mut self, w: &World) -> Option<Op> {
        let t = if self.rng.chance(50) {
            self.any(w, &["Element"]).or_else(|| self.any(w, &[]))?
        } else {
            self.any(w, &[])?
        };
        let deep = self.rng.chance(65);
        if Self::size(&w.get(t), 0) > 10 {
            return None;
        }
        Some(Op::new("clone_node", &[t], &[], &[deep as i64]))
    }

    fn find(&mut self, w: &World) -> Option<Op> {
        let tag = match self.rng.below(6) {
            0 | 1 => "*".to_string(),
            _ => self.name(ELEMENT_NAMES),
        };
        let uri = if self.rng.chance(30) {
            "*".to_string()
        } else {
            self.uri()
        };
        let local = tag.rsplit(':').next().unwrap_or("").to_string();
        Some(match self.rng.below(6) {
            0 => Op::new("doc_by_tag", &[self.doc(w)], &[Some(tag)], &[]),
            1 => Op::new(
                "doc_by_tag_ns",
                &[self.doc(w)],
                &[Some(uri), Some(local)],
                &[],
            ),
            2 | 3 => Op::new(
                "elem_by_tag",
                &[self.mostly(w, &["Element"])?],
                &[Some(tag)],
                &[],
            ),
            _ => Op::new(
                "elem_by_tag_ns",
                &[self.mostly(w, &["Element"])?],
                &[Some(uri), Some(local)],
                &[],
            ),
        })
    }

    fn ns(&mut self, w: &World) -> Option<Op> {
        let el = self.mostly(w, &["Element"])?;
        let pf = match self.rng.below(4) {
            0 => None,
            1 => some("q"),
            2 => some(*self.rng.pick(&["p", "P", "xmlns", "id", "zz", "XMLNS", ""])),
            _ => some("p"),
        };
        let uri = self.rng.pick(&["u:1", "u:2", "u:1", ""]).to_string();
        let op = *self.rng.pick(&[
            "contains_mapping",
            "get_namespace",
            "resolve_namespace",
            "contains_mapped_namespace",
            "get_prefix",
            "resolve_prefix",
            "resolve_prefix",
        ]);
        let arg = if op.ends_with("prefix") || op == "contains_mapped_namespace" {
            Some(uri)
        } else {
            pf
        };
        Some(Op::new(op, &[el], &[arg], &[]))
    }

    fn elem(&mut self, w: &World) -> Option<Op> {
        let d = self.doc(w);
        let n = self.name(ELEMENT_NAMES);
        Some(if self.rng.chance(60) {
            Op::new("create_element", &[d], &[Some(n)], &[])
        } else {
            let u = self.uri();
            Op::new("create_element_ns", &[d], &[Some(u), Some(n)], &[])
        })
    }

    fn leaf(&mut self, w: &World) -> Option<Op> {
        let d = self.doc(w);
        let data = self.data();
        Some(match self.rng.below(12) {
            0..=3 => Op::new("create_text_node", &[d], &[Some(data)], &[]),
            4 | 5 => Op::new("create_comment", &[d], &[Some(data)], &[]),
            6 | 7 => Op::new("create_cdata_section", &[d], &[Some(data)], &[]),
            8 => {
                let t = self.name(&["t", "é", "p:t"]);
                let v = if self.rng.chance(70) {
                    Some(data)
                } else {
                    None
                };
                Op::new("create_processing_instruction", &[d], &[Some(t), v], &[])
            }
            9 | 10 => Op::new(
                "create_entity_reference",
                &[d],
                &[Some(self.name(&["e", "amp"]))],
                &[],
            ),
            _ => Op::new("create_document_fragment", &[d], &[], &[]),
        })
    }

    fn attr(&mut self, w: &World) -> Option<Op> {
        let d = self.doc(w);
        let n = match self.p.name {
            "C07" => self.name(&["id", "xml:id", "p:id", "a"]),
            _ => self.name(ATTRIBUTE_NAMES),
        };
        let v = if n.ends_with("id") {
            self.id_value()
        } else {
            self.value()
        };
        Some(match self.rng.below(3) {
            0 => Op::new("create_attribute", &[d], &[Some(n)], &[]),
            1 => Op::new("create_attribute_with", &[d], &[Some(n), Some(v)], &[]),
            _ => {
                if self.rng.chance(20) {
                    let n = self.rng.pick(&["xmlns", "xmlns:p", "xmlns:q"]).to_string();
                    Op::new(
                        "create_attribute_ns",
                        &[d],
                        &[some(XMLNS_URI), Some(n)],
                        &[],
                    )
                } else {
                    let u = self.uri();
                    Op::new("create_attribute_ns", &[d], &[Some(u), Some(n)], &[])
                }
            }
        })
    }

    fn ext_id(&mut self) -> OptStr {
        if self.rng.chance(60) {
            some(*self.rng.pick(&["-//P//EN", "s.dtd", "é", "a'b", ""]))
        } else {
            None
        }
    }
    fn ext(&mut self, w: &World) -> Option<Op> {
        let d = self.mostly(w, &["Document"])?;
        let n = self.name(&["n", "p:n", "é"]);
        Some(match self.rng.below(3) {
            0 => Op::new(
                "create_notation",
                &[d],
                &[Some(n), self.ext_id(), self.ext_id()],
                &[],
            ),
            1 => Op::new(
                "create_entity",
                &[d],
                &[Some(n), self.ext_id(), self.ext_id()],
                &[],
            ),
            _ => Op::new(
                "create_internal_entity",
                &[d],
                &[Some(n), Some(self.data())],
                &[],
            ),
        })
    }

    fn doctype(&mut self) -> Option<Op> {
        let n = self.name(&["html", "p:d", "é"]);
        Some(Op::new(
            "create_document_type",
            &[],
            &[Some(n), self.ext_id(), self.ext_id()],
            &[],
        ))
    }

    fn create_doc(&mut self, w: &World, with_root: bool) -> Op {
        let dt = if self.rng.chance(50) {
            let types: &[&str] = if self.rng.chance(4) {
                &[]
            } else {
                &["DocumentType"]
            };
            self.any(w, types).unwrap_or(0)
        } else {
            0
        };
        let qn = if with_root || self.rng.chance(75) {
            Some(self.name(ELEMENT_NAMES))
        } else {
            None
        };
        let ns = if self.rng.chance(45) {
            Some(self.uri())
        } else {
            None
        };
        let mut bits = 0;
        if self.rng.chance(self.p.lax_ids) {
            bits |= 1;
        }
        if self.rng.chance(20) {
            bits |= 2;
        }
        if self.rng.chance(self.p.namespaces) {
            bits |= 4;
        }
        if self.rng.chance(40) {
            Op::new("create_document", &[dt], &[ns, qn], &[])
        } else {
            Op::new("create_document_with_options", &[dt], &[ns, qn], &[bits])
        }
    }

    fn docs(&mut self, w: &World) -> Option<Op> {
        if self.of(w, &["Document"]).len() >= 4 || self.rng.chance(30) {
            return self.doctype();
        }
        Some(self.create_doc(w, false))
    }

    fn misc(&mut self, w: &World) -> Option<Op> {
        let feature = self
            .rng
            .pick(&[
                "Core", "XML", "core", "xml", "CORE", "Xml", "HTML", "", "Core ", "Events",
            ])
            .to_string();
        let version = self
            .rng
            .pick(&["1.0", "2.0", "", "3.0", "1", "2.0 "])
            .to_string();
        Some(match self.rng.below(14) {
            13 => Op::new("views", &[self.any(w, &[])?], &[], &[]),
            9 => Op::new("debug", &[self.any(w, &[])?], &[], &[]),
            10 => {
                let q: Vec<i64> = (0..self.rng.below(5))
                    .map(|_| self.rng.below(3) as i64)
                    .collect();
                Op::new("options_seq", &[], &[], &q)
            }
            11 => {
                let op = *self.rng.pick(&["options_and", "options_or"]);
                Op::new(
                    op,
                    &[],
                    &[],
                    &[self.rng.below(8) as i64, self.rng.below(8) as i64],
                )
            }
            12 => {
                let mut enc = String::new();
                for _ in 0..self.rng.below(6) {
                    enc.push(
                        *self
                            .rng
                            .pick(&['a', 'Z', '0', '.', '_', '-', ' ', 'é', '8']),
                    );
                }
                let enc = if self.rng.chance(15) { None } else { Some(enc) };
                let v = self.rng.below(2) as i64;
                let sa = self.rng.below(3) as i64;
                Op::new("xml_decl", &[], &[enc], &[v, sa])
            }
            0 => Op::new("has_feature", &[], &[Some(feature), Some(version)], &[]),
            1 => Op::new(
                "is_supported",
                &[self.any(w, &[])?],
                &[Some(feature), Some(version)],
                &[],
            ),
            2 | 3 => Op::new("casts", &[self.any(w, &[])?], &[], &[]),
            4 => Op::new("options", &[], &[], &[self.rng.below(8) as i64]),
            5 => Op::new(
                "xml_version",
                &[],
                &[some(
                    *self.rng.pick(&["1.0", "1.1", "1.2", "", "1", " 1.0"]),
                )],
                &[],
            ),
            _ => {
                let d = self.doc(w);
                let enc = match self.rng.below(5) {
                    0 => None,
                    1 => some("UTF-8"),
                    2 => some("a"),
                    3 => some("ISO-8859-1"),
                    _ => some(*self.rng.pick(&["x.y_z", "A-", "Shift_JIS", "z9--"])),
                };
                let v = self.rng.below(2) as i64;
                let sa = self.rng.below(3) as i64;
                Op::new("set_xml_declaration", &[d], &[enc], &[v, sa])
            }
        })
    }

    fn names(&mut self) -> Option<Op> {
        let n = if self.rng.chance(50) {
            self.edge_name()
        } else if self.rng.chance(50) {
            self.special_name()
        } else {
            self.rng.pick(BAD_NAMES).to_string()
        };
        let made = |g: &mut Self| {
            let u = match g.rng.below(5) {
                0 | 1 => None,
                2 => some(XML_URI),
                3 => some(XMLNS_URI),
                _ => some("u:1"),
            };
            [
                u,
                some(*g.rng.pick(&["a", "p:a", "A", "xml:a", "xmlns:p", "é"])),
            ]
        };
        match self.rng.below(12) {
            0 => {
                let mut s = made(self).to_vec();
                s.push(if self.rng.chance(10) { None } else { Some(n) });
                return Some(Op::new("name_set_prefix", &[], &s, &[]));
            }
            1 => {
                let mut s = made(self).to_vec();
                s.extend(made(self));
                return Some(Op::new("name_eq", &[], &s, &[]));
            }
            2 => {
                let mut bytes: Vec<i64> = n.bytes().map(i64::from).collect();
                let b = self.rng.below(256) as i64;
                let k = self.rng.below(bytes.len() + 1);
                bytes.insert(k, b);
                return Some(Op::new("name_raw", &[], &[], &bytes));
            }
            3 if n != "" => {
                let k = self.rng.below(9) as i64;
                return Some(Op::new("name_for", &[], &[Some(n)], &[k]));
            }
            _ => {}
        }
        Some(match self.rng.below(5) {
            0 | 1 => Op::new("name_parse", &[], &[Some(n)], &[]),
            2 => Op::new("name_bytes", &[], &[Some(n)], &[]),
            _ => {
                let u = if self.rng.chance(35) {
                    self.rng.pick(&[XML_URI, XMLNS_URI]).to_string()
                } else {
                    self.uri()
                };
                Op::new("name_new_ns", &[], &[Some(u), Some(n)], &[])
            }
        })
    }

    fn element_name(&mut self, w: &World) -> Option<Op> {
        let d = *self.rng.pick(&self.of(w, &["Document"]));
        let n = if self.rng.chance(65) {
            self.edge_name()
        } else {
            self.special_name()
        };
        let u = if self.rng.chance(35) {
            self.rng.pick(&[XML_URI, XMLNS_URI]).to_string()
        } else {
            self.uri()
        };
        Some(match self.rng.below(11) {
            0 => Op::new("create_element", &[d], &[Some(n)], &[]),
            1 => Op::new("create_element_ns", &[d], &[Some(u), Some(n)], &[]),
            2 => Op::new("create_attribute", &[d], &[Some(n)], &[]),
            3 => Op::new("create_attribute_ns", &[d], &[Some(u), Some(n)], &[]),
            4 => Op::new("create_entity_reference", &[d], &[Some(n)], &[]),
            5 => Op::new("create_processing_instruction", &[d], &[Some(n), None], &[]),
            6 => Op::new("create_document_type", &[], &[Some(n), None, None], &[]),
            7 => {
                let e = self.any(w, &["Element"])?;
                Op::new("set_attribute", &[e], &[Some(n), some("v")], &[])
            }
            8 => {
                let e = self.any(w, &["Element"])?;
                Op::new(
                    "set_attribute_ns",
                    &[e],
                    &[Some(u), Some(n), some("v")],
                    &[],
                )
            }
            9 => Op::new("create_attribute_with", &[d], &[Some(n), some("v")], &[]),
            _ => Op::new("create_notation", &[d], &[Some(n), None, None], &[]),
        })
    }

    /// An operation of an interface, called on a node which does not have it.
    fn direct(&mut self, w: &World) -> Option<Op> {
        let mut e = match self.rng.below(12) {
            0 => self.elem(w),
            1 => self.leaf(w),
            2 => self.attr(w),
            3 => self.set_attr(w),
            4 => self.attr_node(w),
            5 => self.rm_attr(w),
            6 => self.read_attr(w),
            7 => self.attr_val(w),
            8 => self.chars(w),
            9 => self.split(w),
            10 => self.find(w),
            _ => self.ns(w),
        }?;
        let has: &[&str] = match e.op.as_str() {
            "set_value" | "unset_value" => &["Attribute"],
            "pi_set_data" | "pi_unset_data" => &["ProcessingInstruction"],
            "split" => &["Text", "CData"],
            op if op.ends_with("_data") => &["Text", "CData", "Comment"],
            op if op.starts_with("create_") || op.starts_with("doc_") => &["Document"],
            op if op.contains("node_value") => return None,
            _ => &["Element"],
        };
        let at = self.any(w, &[])?;
        if has.contains(&w.ty(at)) {
            return None;
        }
        if e.op.ends_with("set_data") {
            if w.ty(at) == "Attribute" {
                let v = self.value_for(w, at);
                e.s.iter_mut().for_each(|s| *s = Some(v.clone()));
            } else if Self::guarded(w, at) {
                return None;
            }
        }
        // a text or a comment cannot be refused, and has to be of some document
        if matches!(e.op.as_str(), "create_text_node" | "create_comment")
            && w.get(at).owner_document().is_none()
        {
            return None;
        }
        e.n[0] = at;
        e.op = format!("direct {}", e.op);
        Some(e)
    }

    fn node_val(&mut self, w: &World) -> Option<Op> {
        let t = self.any(w, &[])?;
        if w.ty(t) != "Attribute" && Self::guarded(w, t) {
            return None;
        }
        let v = if w.ty(t) == "Attribute" {
            self.value_for(w, t)
        } else {
            self.data()
        };
        Some(if self.rng.chance(80) {
            Op::new("set_node_value", &[t], &[Some(v)], &[])
        } else {
            Op::new("unset_node_value", &[t], &[], &[])
        })
    }

    // ---------------------------------------------------------------------------------------- texts

    fn space(&mut self, least: usize) -> String {
        let mut s = String::new();
        if least > 0 || self.rng.chance(20) {
            s.push_str(*self.rng.pick(&[" ", " ", " ", "\n", "\t", "  ", " \n "]));
        }
        s
    }
    fn reference(&mut self) -> String {
        if self.rng.chance(3) {
            return self
                .rng
                .pick(&[
                    "&x;",
                    "&",
                    "&lt",
                    "&#;",
                    "&#x;",
                    "&#0;",
                    "&#xD800;",
                    "&#1114112;",
                    "&#xg;",
                    "&LT;",
                    "&#X41;",
                    "&;",
                    "& lt;",
                ])
                .to_string();
        }
        self.rng
            .pick(&[
                "&lt;",
                "&gt;",
                "&amp;",
                "&apos;",
                "&quot;",
                "&#60;",
                "&#38;",
                "&#x26;",
                "&#65;",
                "&#x4a;",
                "&#xE9;",
                "&#32;",
                "&#10;",
                "&#13;",
                "&#x10437;",
                "&#0065;",
                "&#37;",
                "&#9;",
            ])
            .to_string()
    }
    fn chars_of(&mut self, pool: &[&str]) -> String {
        let mut s = String::new();
        while self.rng.chance(65) && s.len() < 40 {
            if self.rng.chance(30) {
                s.push_str(&self.reference());
            } else {
                s.push_str(*self.rng.pick(pool));
            }
        }
        s
    }
    fn attribute_text(&mut self) -> String {
        let name = match self.rng.below(24) {
            0 => self.rng.pick(BAD_NAMES).to_string(),
            1 => self.special_name(),
            2 | 3 => "xml:id".to_string(),
            _ => self.rng.pick(ATTRIBUTE_NAMES).to_string(),
        };
        let value = if name == "xml:id" && self.rng.chance(80) {
            self.rng
                .pick(&["i1", "i2", "i3", "a&lt;b", " i1 ", "&#105;1"])
                .to_string()
        } else {
            self.chars_of(&[
                "v", "w ", " ", "é", "漢", "𐐷", "%", "%p;", ">", "\n", "\t", "]]>", "--", "=", "/",
                "?>", ";", "#", "a", "x",
            ])
        };
        let other = if self.rng.chance(15) { "'\"" } else { "" };
        let (a, b) = (self.space(0), self.space(0));
        if self.rng.chance(50) {
            format!(
                "{}{}={}\"{}{}\"",
                name,
                a,
                b,
                value,
                if other.is_empty() { "" } else { "'" }
            )
        } else {
            format!(
                "{}{}={}'{}{}'",
                name,
                a,
                b,
                value,
                if other.is_empty() { "" } else { "\"" }
            )
        }
    }
    fn leaf_text(&mut self) -> String {
        match self.rng.below(3) {
            0 => {
                let t = self.chars_of(&[
                    "x", " ", "é", "-", "<", ">", "a b", "\n", "漢字", "]]>", "'",
                ]);
                format!("<!--{}-->", t.replace("--", "- -").trim_end_matches('-'))
            }
            1 => {
                let t =
                    self.chars_of(&["x", " ", "é", "-", "<", ">", "a b", "\n", "漢字", "]]", "'"]);
                format!("<![CDATA[{}]]>", t.replace("]]>", "]]"))
            }
            _ => {
                let t = self.chars_of(&[
                    "x", " ", "é", "-", "<", ">", "a b", "\n", "漢字", "]]>", "'", "?", "a='b'",
                ]);
                let n = self
                    .rng
                    .pick(&["p", "x-1", "é", "xml-x", "q:p", "xslt", "XML", "1"])
                    .to_string();
                let s = self.space(1);
                if t.is_empty() {
                    format!("<?{}?>", n)
                } else {
                    format!("<?{}{}{}?>", n, s, t.replace("?>", "? >"))
                }
            }
        }
    }
    fn element_text(&mut self, depth: usize) -> String {
        let name = match self.rng.below(40) {
            0 => self.rng.pick(BAD_NAMES).to_string(),
            1 => self.special_name(),
            _ => self.rng.pick(ELEMENT_NAMES).to_string(),
        };
        let mut s = format!("<{}", name);
        let mut used: Vec<String> = vec![];
        while self.rng.chance(45) && used.len() < 5 {
            let a = self.attribute_text();
            let n = a.split('=').next().unwrap().trim().to_string();
            if used.contains(&n) && self.rng.chance(95) {
                continue;
            }
            used.push(n);
            s.push_str(&self.space(1));
            s.push_str(&a);
        }
        s.push_str(&self.space(0));
        if self.rng.chance(25) {
            return s + "/>";
        }
        s.push('>');
        while self.rng.chance(62) && s.len() < 300 {
            match self.rng.below(10) {
                0..=3 if depth > 0 => s.push_str(&self.element_text(depth - 1)),
                4 => s.push_str(&self.leaf_text()),
                5 => s.push_str(&self.space(1)),
                _ => s.push_str(&self.chars_of(&[
                    "x", "yz", " ", "é", "漢字", "𐐷", "\n", "\t", "'", "\"", ">", "]]", "abc", "%",
                    ";", "=", "\u{85}",
                ])),
            }
        }
        s.push_str("</");
        s.push_str(&name);
        s.push_str(&self.space(0));
        s + ">"
    }
    fn document_text(&mut self) -> String {
        let mut s = String::new();
        if self.rng.chance(30) {
            let q = *self.rng.pick(&["'", "\""]);
            s.push_str(&format!(
                "<?xml version={}{}{}",
                q,
                self.rng.pick(&["1.0", "1.1", "1.0", "1.1", "2.0"]),
                q
            ));
            if self.rng.chance(50) {
                s.push_str(&format!(
                    " encoding={}{}{}",
                    q,
                    self.rng
                        .pick(&["UTF-8", "utf-8", "a", "x.y_z", "A-", "8", ""]),
                    q
                ));
            }
            if self.rng.chance(50) {
                s.push_str(&format!(
                    " standalone={}{}{}",
                    q,
                    self.rng.pick(&["yes", "no", "yes", "no", "maybe"]),
                    q
                ));
            }
            s.push_str("?>");
        }
        let misc = |g: &mut Self, s: &mut String| {
            while g.rng.chance(20) {
                s.push_str(&g.space(0));
                s.push_str(&g.leaf_text());
            }
        };
        misc(self, &mut s);
        s.push_str(&self.space(0));
        let depth = self.rng.below(4);
        s.push_str(&self.element_text(depth));
        misc(self, &mut s);
        s + &self.space(0)
    }
    /// Some of the texts have been damaged.
    fn read(&mut self) -> Option<Op> {
        let mut t: Vec<char> = self.document_text().chars().collect();
        if self.rng.chance(45) {
            for _ in 0..1 + self.rng.below(2) {
                if t.is_empty() {
                    break;
                }
                let k = self.rng.below(t.len());
                let l = (k + 1 + self.rng.below(6)).min(t.len());
                match self.rng.below(6) {
                    0 => drop(t.remove(k)),
                    1 => drop(t.drain(k..l)),
                    2 => t.truncate(k),
                    3 => t.insert(
                        k,
                        *self.rng.pick(&[
                            '<', '>', '/', '=', '"', '\'', '&', ';', '!', '?', '-', '[', ']', ' ',
                            'x', '%', '#', '\r', '\0',
                        ]),
                    ),
                    4 => {
                        let part: Vec<char> = t[k..l].to_vec();
                        let at = self.rng.below(t.len());
                        for (i, c) in part.into_iter().enumerate() {
                            t.insert(at + i, c);
                        }
                    }
                    _ => {
                        let m = self.rng.below(t.len());
                        t.swap(k, m);
                    }
                }
            }
        }
        let text: String = t.into_iter().collect();
        if self.rng.chance(4) {
            let k = self.rng.below(text.len() + 1) as i64;
            let how = self.rng.below(2) as i64;
            return Some(Op::new("read_broken", &[], &[Some(text)], &[k, how]));
        }
        if self.rng.chance(5) && !text.starts_with("<?xml") {
            let mut bytes: Vec<i64> = text.bytes().map(i64::from).collect();
            if !bytes.is_empty() && self.rng.chance(80) {
                let k = self.rng.below(bytes.len());
                let b = *self.rng.pick(&[0x80, 0xBF, 0xC3, 0xE6, 0xED, 0xF0, 0xFF]);
                if self.rng.chance(50) {
                    bytes[k] = b;
                } else {
                    bytes.insert(k, b);
                }
            }
            return Some(Op::new("read_bytes", &[], &[], &bytes));
        }
        Some(if self.rng.chance(70) {
            Op::new("read_xml", &[], &[Some(text)], &[])
        } else {
            let size = *self.rng.pick(&[1, 2, 3, 4, 5, 7, 8, 16, 64, 4096]);
            Op::new("read_reader", &[], &[Some(text)], &[size])
        })
    }

    fn group(&mut self) -> &'static str {
        let total: usize = self.p.weights.iter().map(|x| x.1).sum();
        let mut k = self.rng.below(total);
        for (g, w) in &self.p.weights {
            if k < *w {
                return g;
            }
            k -= w;
        }
        "tree"
    }

    /// Very much of something.
    fn grow(&mut self, w: &World) -> Option<Op> {
        let kinds: &[&str] = match self.check.as_str() {
            "C01" | "C02" | "C03" | "C12" | "C11" | "C20" => {
                &["grow kids", "grow kids", "grow chain"]
            }
            "C06" | "C15" => &["grow attrs"],
            "C07" => &["grow ids"],
            "C08" => &["grow chain", "grow attrs"],
            "C09" => &["grow texts", "grow kids"],
            "C10" => &["grow kids", "grow texts"],
            _ => &[
                "grow kids",
                "grow chain",
                "grow attrs",
                "grow ids",
                "grow texts",
            ],
        };
        let kind = *self.rng.pick(kinds);
        let (t, k) = match kind {
            "grow texts" => (
                self.any(w, &["Text", "CData", "Comment"])?,
                40 + self.rng.below(200),
            ),
            "grow attrs" => (self.any(w, &["Element"])?, 10 + self.rng.below(40)),
            "grow ids" => (self.any(w, &["Element"])?, 10 + self.rng.below(40)),
            "grow chain" => (self.any(w, &["Element"])?, 12 + self.rng.below(70)),
            _ if self.rng.chance(15) => (self.any(w, &["Element"])?, 130 + self.rng.below(140)),
            _ => (self.any(w, &["Element"])?, 12 + self.rng.below(80)),
        };
        if Self::guarded(w, t) || w.get(t).owner_document().is_none() {
            return None;
        }
        let text = *self.rng.pick(&["i", "x", "yz ", "é<", "𐐷"]);
        self.grown.push(t);
        Some(Op::new(kind, &[t], &[some(text)], &[k as i64]))
    }

    /// The next operation of the history.
    pub fn next(&mut self, w: &World) -> Op {
        if w.nodes.is_empty() && self.rng.chance(40) {
            return Op::new(
                "create_document_type",
                &[],
                &[some("html"), self.ext_id(), self.ext_id()],
                &[],
            );
        }
        if self.p.name == "C19" && self.rng.chance(if w.nodes.is_empty() { 80 } else { 0 }) {
            return self.read().unwrap();
        }
        if self.of(w, &["Document"]).is_empty() {
            return self.create_doc(w, true);
        }
        if w.nodes.len() < 12
            && self.of(w, &["Document"]).len() == 1
            && self.rng.chance(self.p.second_document / 5)
        {
            return self.create_doc(w, true);
        }
        if self.p.shape == Shape::Large
            && self.grown.len() < 2
            && w.nodes.len() < 150
            && self.rng.chance(60)
        {
            if let Some(op) = self.grow(w) {
                return op;
            }
        }
        loop {
            let full = w.nodes.len() >= self.max_nodes;
            let g = self.group();
            let creates = matches!(
                g,
                "elem"
                    | "leaf"
                    | "attr"
                    | "ext"
                    | "clone"
                    | "docs"
                    | "doctype"
                    | "elemname"
                    | "split"
                    | "read"
                    | "reread"
            );
            if full
                && (creates
                    || w.nodes.len() >= self.max_nodes + 12
                        && matches!(g, "setattr" | "setid" | "setns" | "attrval"))
            {
                if self.rng.chance(97) {
                    continue;
                }
            }
            let op = match g {
                "elem" => self.elem(w),
                "leaf" => self.leaf(w),
                "attr" => self.attr(w),
                "ext" => self.ext(w),
                "tree" => self.tree(w),
                "setattr" => self.set_attr(w),
                "setid" => self.set_id(w),
                "setns" => self.set_ns(w),
                "attrnode" => self.attr_node(w),
                "rmattr" => self.rm_attr(w),
                "readattr" => self.read_attr(w),
                "attrval" => self.attr_val(w),
                "attrtext" => self.attr_text(w),
                "id" => Some(Op::new(
                    "get_element_by_id",
                    &[self.doc(w)],
                    &[Some(self.id_value())],
                    &[],
                )),
                "ns" => self.ns(w),
                "char" => self.chars(w),
                "split" => self.split(w),
                "norm" => self
                    .mostly(w, &["Element", "Document", "DocumentFragment", "Attribute"])
                    .map(|t| Op::new("normalize", &[t], &[], &[])),
                "clone" => self.clone(w),
                "find" => self.find(w),
                "read" => self.read(),
                "reread" => {
                    let types: &[&str] = if self.rng.chance(70) {
                        &["Document"]
                    } else {
                        &[]
                    };
                    self.any(w, types)
                        .map(|t| Op::new("reread", &[t], &[], &[]))
                }
                "ser" => self
                    .any(w, &[])
                    .map(|t| Op::new("to_string", &[t], &[], &[])),
                "names" => self.names(),
                "elemname" => self.element_name(w),
                "nodeval" => self.node_val(w),
                "misc" => self.misc(w),
                "direct" => self.direct(w),
                "drop" => self.release(w),
                "docs" => self.docs(w),
                "doctype" => self.doctype(),
                other => panic!("harness: unknown group {}", other),
            };
            if let Some(op) = op {
                return op;
            }
            // in case nothing of this kind is possible, keep going with something simple
            if self.rng.chance(5) {
                return Op::new(
                    "create_text_node",
                    &[self.of(w, &["Document"])[0]],
                    &[some("x")],
                    &[],
                );
            }
        }
    }
}

fn as_owner(w: &World, at: usize) -> usize {
    match xml_dom::level2::convert::as_attribute(&w.get(at)) {
        Ok(a) => a.owner_element().map_or(0, |e| w.id(&e)),
        Err(_) => 0,
    }
}

fn has_entity(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    for i in 0..c.len() {
        if (c[i] == '&' || c[i] == '%')
            && i + 1 < c.len()
            && (c[i + 1].is_alphabetic() || c[i + 1] == '_')
        {
            let mut k = i + 2;
            while k < c.len() && (c[k].is_alphanumeric() || ".-_".contains(c[k])) {
                k += 1;
            }
            if k < c.len() && c[k] == ';' {
                return true;
            }
        }
    }
    false
}
