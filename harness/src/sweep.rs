//! Every character: the same small thing with each Unicode scalar value of a range. See
//! spec/Sweep.tla for what is done, and for how it is written down.

use crate::world::{Op, Res, World};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::*;
use xml_dom::level2::*;

type Saw = Vec<i64>;
const SEP: i64 = -2;

fn mask(c: char, s: &str) -> Saw {
    s.chars()
        .map(|x| if x == c { -1 } else { x as i64 })
        .collect()
}
fn error(e: &Error) -> Saw {
    let code = match e {
        Error::Syntax => 1,
        Error::InvalidCharacter => 2,
        Error::Namespace => 3,
        Error::IndexSize => 4,
        _ => 9,
    };
    vec![-3, code]
}
fn join(first: Saw, parts: Vec<Saw>) -> Saw {
    let mut v = first;
    for p in parts {
        v.push(SEP);
        v.extend(p);
    }
    v
}
fn document() -> RefNode {
    get_implementation()
        .create_document(None, None, None)
        .unwrap()
}

fn name_of(c: char, s: &str) -> Saw {
    let seen = |r: Result<Name>| match r {
        Err(e) => error(&e),
        Ok(n) => {
            let mut v = vec![];
            if let Some(p) = n.prefix() {
                v = mask(c, p);
                v.push(-4);
            }
            v.extend(mask(c, n.local_name()));
            if n.to_string() != s || n.namespace_uri().is_some() {
                v.push(-11);
            }
            v
        }
    };
    let a = seen(Name::from_str(s));
    let b = seen(Name::try_from(s.as_bytes()));
    if a == b {
        a
    } else {
        vec![-12]
    }
}
fn of_name(c: char) -> Saw {
    join(
        vec![],
        vec![
            name_of(c, &format!("{}", c)),
            name_of(c, &format!("a{}", c)),
            name_of(c, &format!("a{}b", c)),
            name_of(c, &format!("{}:a", c)),
            name_of(c, &format!("a:{}", c)),
            name_of(c, &format!("a{}:b{}", c, c)),
        ],
    )
}

/// Of an operation that gives nothing: the data there is then.
fn data_of(c: char, r: Result<()>, n: &RefNode) -> Saw {
    match r {
        Err(e) => error(&e),
        Ok(()) => join(vec![], vec![mask(c, &n.node_value().unwrap())]),
    }
}
fn of_edit(doc: &RefNode, c: char) -> Saw {
    let text = |s: &str| as_document(doc).unwrap().create_text_node(s);
    let abc = format!("a{}b", c);
    let one = c.to_string();
    let w = c.len_utf8();
    let mut parts = vec![];
    let s = text(&abc);
    for k in 0..=w {
        parts.push(match as_character_data(&s).unwrap().substring_data(1, k) {
            Ok(x) => mask(c, &x),
            Err(e) => error(&e),
        });
    }
    for k in 0..=w {
        let mut s = text(&abc);
        let r = as_character_data_mut(&mut s).unwrap().delete_data(1, k);
        parts.push(data_of(c, r, &s));
    }
    let mut t = text("a");
    let r = as_character_data_mut(&mut t).unwrap().append_data(&one);
    parts.push(data_of(c, r, &t));
    let mut t = text("a");
    let r = as_character_data_mut(&mut t).unwrap().insert_data(0, &one);
    parts.push(data_of(c, r, &t));
    let mut s = text(&abc);
    let r = as_character_data_mut(&mut s)
        .unwrap()
        .replace_data(0, 1, &one);
    parts.push(data_of(c, r, &s));
    let length = as_character_data(&text(&abc)).unwrap().length();
    join(vec![length as i64], parts)
}
fn of_split(doc: &RefNode, c: char) -> Saw {
    let w = c.len_utf8();
    let seen = |r: Result<RefNode>, n: &RefNode| match r {
        Err(e) => error(&e),
        Ok(m) => join(
            vec![],
            vec![
                mask(c, &n.node_value().unwrap()),
                mask(c, &m.node_value().unwrap()),
            ],
        ),
    };
    let mut parts = vec![];
    let d = as_document(doc).unwrap();
    for k in 0..w + 3 {
        let mut s = d.create_text_node(&format!("a{}b", c));
        let r = as_text_mut(&mut s).unwrap().split(k);
        parts.push(seen(r, &s));
    }
    for k in 0..w + 2 {
        let mut s = d.create_cdata_section(&format!("a{}", c)).unwrap();
        let r = as_cdata_section_mut(&mut s).unwrap().split(k);
        parts.push(seen(r, &s));
    }
    join(vec![], parts)
}
fn of_text(doc: &RefNode, c: char) -> Saw {
    let d = as_document(doc).unwrap();
    let mut parts = vec![];
    for k in 1..=8 {
        let s = if k % 2 == 0 {
            format!("{}", c)
        } else {
            format!("x{}y", c)
        };
        let n = match k {
            1 | 2 => d.create_text_node(&s),
            3 | 4 => d.create_cdata_section(&s).unwrap(),
            5 | 6 => d.create_comment(&s),
            _ => d.create_processing_instruction("p", Some(&s)).unwrap(),
        };
        parts.push(join(
            mask(c, &n.node_value().unwrap_or_default()),
            vec![mask(c, &n.to_string())],
        ));
    }
    join(vec![], parts)
}
fn value_of(element: &mut RefNode, s: &str) -> String {
    let mut e = as_element_mut(element).unwrap();
    e.set_attribute("v", s).unwrap();
    e.get_attribute("v").unwrap()
}
fn of_value(element: &mut RefNode, c: char) -> Saw {
    let parts = [
        format!("{}", c),
        format!("x{}y", c),
        format!("x{}", c),
        format!("{}y", c),
        format!("&{}", c),
        format!("%{}", c),
        format!("&#{};", c),
        format!("&#x{};", c),
        format!("&#3{};", c),
        format!("\r{}x", c),
    ]
    .iter()
    .map(|s| mask(c, &value_of(element, s)))
    .collect();
    join(vec![], parts)
}
fn escape(s: &str) -> String {
    s.replace('&', "&#38;")
}
fn mask_code(k: u32, s: &str) -> Saw {
    s.chars()
        .map(|x| if x as u32 == k { -1 } else { x as i64 })
        .collect()
}
fn of_charref(element: &mut RefNode, k: u32) -> Saw {
    let parts = [
        format!("&#{};", k),
        format!("&#x{:x};", k),
        format!("&#x000{:X};", k),
        format!("a&#{};b", k),
    ]
    .iter()
    .map(|s| {
        let v = value_of(element, s);
        if v == escape(s) {
            vec![-5]
        } else {
            mask_code(k, &v)
        }
    })
    .collect();
    join(vec![], parts)
}
fn of_encoding(c: char) -> Saw {
    let parts = [
        format!("{}", c),
        format!("a{}", c),
        format!("a{}z", c),
        format!("A{}{}", c, c),
    ]
    .iter()
    .map(|s| {
        match catch_unwind(AssertUnwindSafe(|| {
            XmlDecl::new(XmlVersion::V11, Some(s.clone()), None)
        })) {
            Err(_) => vec![0],
            Ok(d)
                if d.encoding().as_ref() == Some(s)
                    && d.to_string() == format!("<?xml version=\"1.1\" encoding=\"{}\"?>", s) =>
            {
                vec![1]
            }
            Ok(_) => vec![2],
        }
    })
    .collect();
    join(vec![], parts)
}

#[cfg(feature = "parser")]
fn below(k: u32, n: &RefNode) -> Saw {
    let mut v = mask_code(k, &n.node_name().to_string());
    if let Some(x) = n.node_value() {
        v.push(-6);
        v.extend(mask_code(k, &x));
    }
    if is_attribute(n) {
        return v;
    }
    let mut attributes: Vec<(Vec<u32>, RefNode)> = n
        .attributes()
        .into_values()
        .map(|a| {
            (
                a.node_name()
                    .to_string()
                    .chars()
                    .map(|c| c as u32)
                    .collect(),
                a,
            )
        })
        .collect();
    attributes.sort_by(|x, y| x.0.cmp(&y.0));
    for (_, a) in attributes {
        v.push(-7);
        v.extend(below(k, &a));
    }
    for c in n.child_nodes() {
        v.push(-8);
        v.extend(below(k, &c));
    }
    v
}
#[cfg(feature = "parser")]
fn read_of(k: u32, s: &str) -> Saw {
    match xml_dom::parser::read_xml(s) {
        Ok(d) => below(k, &d),
        Err(_) => vec![-3, 5],
    }
}
#[cfg(feature = "parser")]
const TEXTS: &[&str] = &[
    "<a>@</a>",
    "<a>x@y</a>",
    "<a b='x@y'/>",
    "<@/>",
    "<a@ @='v'></a@>",
    "<!--x@y--><a/>",
    "<?p x@y?><a><![CDATA[@]]></a>",
    "@<a/>",
    "<a/>@",
    "<a>&@;</a>",
    "<a b=@v@/>",
    "<a@b='v'/>",
    "<?p@?><a/>",
    "<?xml version='1.0' encoding='a@'?><a/>",
];
#[cfg(feature = "parser")]
fn of_read(c: char) -> Saw {
    let one = c.to_string();
    join(
        vec![],
        TEXTS
            .iter()
            .map(|t| read_of(c as u32, &t.replace('@', &one)))
            .collect(),
    )
}
#[cfg(feature = "parser")]
fn of_readref(k: u32) -> Saw {
    join(
        vec![],
        vec![
            read_of(k, &format!("<a>x&#{};</a>", k)),
            read_of(k, &format!("<a b='&#x{:x};y'/>", k)),
            read_of(k, &format!("<a>&#x{:X};y</a>", k)),
        ],
    )
}

fn odd_char(k: u32) -> bool {
    k < 32 && k != 9 && k != 10 || [65279, 65534, 65535].contains(&k)
}
fn odd_space(k: u32) -> bool {
    [11, 12, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288].contains(&k)
        || (8192..=8202).contains(&k)
}

/// A script: operations of the specification, with the character in the place of each @.
struct Script {
    setup: usize,
    ops: Vec<Op>,
}
impl Script {
    /// From the arguments of the operation: the numbers of the operations which are only to be
    /// done, then of each operation the nodes, the number of the strings, and the integers.
    fn parse(e: &Op) -> Script {
        let mut at = 2;
        let mut next = || {
            at += 1;
            e.i[at - 1]
        };
        let setup = next() as usize;
        let mut strings = e.s.iter().cloned();
        let mut ops = vec![];
        while let Some(name) = strings.next() {
            let n: Vec<usize> = (0..next()).map(|_| next() as usize).collect();
            let s = (0..next()).map(|_| strings.next().unwrap()).collect();
            let i = (0..next()).map(|_| next()).collect();
            ops.push(Op {
                op: name.unwrap(),
                n,
                s,
                i,
            });
        }
        Script { setup, ops }
    }
}
fn saw_opt(c: char, s: &Option<String>) -> Saw {
    match s {
        None => vec![-15],
        Some(s) => join_plain(vec![-16], mask(c, s)),
    }
}
fn join_plain(mut v: Saw, w: Saw) -> Saw {
    v.extend(w);
    v
}
const RESULT_KINDS: &[&str] = &[
    "unit", "node", "optnode", "nodes", "str", "bool", "int", "prefix", "name", "equal",
];
fn of_script(script: &Script, c: char) -> Saw {
    let one = c.to_string();
    let mut w = World::new(vec![], vec![], vec![]);
    let mut v = vec![];
    for (k, e) in script.ops.iter().enumerate() {
        if k < script.setup {
            w.advance(e);
            continue;
        }
        v.push(SEP);
        if e.n.iter().any(|n| *n > w.nodes.len()) {
            v.push(-14);
            continue;
        }
        let filled = Op {
            s: e.s
                .iter()
                .map(|s| s.as_ref().map(|s| s.replace('@', &one)))
                .collect(),
            ..e.clone()
        };
        match w.result_of(&filled) {
            Res::Err(_) | Res::Unreadable => v.push(-3),
            Res::Panic => v.push(-13),
            r => {
                let (kind, n, s) = w.parts_of(&r);
                v.push(
                    RESULT_KINDS
                        .iter()
                        .position(|x| *x == kind)
                        .map_or(0, |p| p as i64 + 1),
                );
                v.extend(n.iter().map(|x| *x as i64));
                for s in s {
                    v.extend(saw_opt(c, &s));
                }
            }
        }
    }
    for n in w.nodes.iter().flatten() {
        v.extend([SEP, -20]);
        v.extend(mask(c, &n.node_name().to_string()));
        v.extend(saw_opt(c, &n.node_value()));
        v.extend([-17, n.parent_node().map_or(0, |p| w.id(&p)) as i64, -18]);
        v.extend(n.child_nodes().iter().map(|k| w.id(k) as i64));
        v.push(-19);
        let mut attributes: Vec<i64> = n.attributes().values().map(|a| w.id(a) as i64).collect();
        attributes.sort();
        v.extend(attributes);
    }
    v
}

pub fn runs(e: &Op) -> (Vec<usize>, Vec<Saw>) {
    let (op, lo, hi) = (e.op.as_str(), e.i[0] as u32, e.i[1] as u32);
    let script = if e.s.is_empty() {
        None
    } else {
        Some(Script::parse(e))
    };
    let doc = document();
    let mut element = as_document(&doc).unwrap().create_element("e").unwrap();
    let (mut starts, mut all): (Vec<usize>, Vec<Saw>) = (vec![], vec![]);
    for k in lo..=hi {
        let c = char::from_u32(k);
        let left = match op {
            "sweep_charref" => false,
            "sweep_readref" => odd_char(k) && k != 13,
            "sweep_read" => c.is_none() || k < 128 || odd_space(k) || odd_char(k),
            _ => c.is_none(),
        };
        let saw = if left {
            vec![-9]
        } else {
            let seen = catch_unwind(AssertUnwindSafe(|| match op {
                "sweep_name" => of_name(c.unwrap()),
                "sweep_edit" => of_edit(&doc, c.unwrap()),
                "sweep_split" => of_split(&doc, c.unwrap()),
                "sweep_text" => of_text(&doc, c.unwrap()),
                "sweep_value" => of_value(&mut element, c.unwrap()),
                "sweep_charref" => of_charref(&mut element, k),
                "sweep_encoding" => of_encoding(c.unwrap()),
                #[cfg(feature = "parser")]
                "sweep_read" => of_read(c.unwrap()),
                #[cfg(feature = "parser")]
                "sweep_readref" => of_readref(k),
                other => match &script {
                    Some(s) => of_script(s, c.unwrap()),
                    None => panic!("harness: unknown operation {}", other),
                },
            }));
            seen.unwrap_or_else(|_| vec![-13])
        };
        if all.last() != Some(&saw) {
            starts.push(k as usize);
            all.push(saw);
        }
    }
    (starts, all)
}
