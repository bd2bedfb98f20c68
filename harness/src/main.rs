//! The binding between the specification in /verif/spec and the real `xml_dom`.
//!
//!   domharness gen PROFILE SEED FROM TO LENGTH OUT   record random histories
//!   domharness run IN OUT                           record the histories (lists of operations) in IN
//!   domharness replay IN OUT LAST                   step the behaviours of the specification in IN
//!                                                   through xml_dom; the differing histories go to OUT,
//!                                                   the one under way is in LAST
//!
//! A recording has a line `{"pr": ...}` where a history starts, and a line for each operation. It is
//! written in two halves, before and after the operation, so that it tells which operation ended
//! the process, if one did.

mod gen;
mod sweep;
mod world;

use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use world::{enc, enc_opt, Op, OptStr, World};

fn probes() -> (Vec<OptStr>, Vec<String>, Vec<String>) {
    let prefixes = [None, Some("p"), Some("q"), Some("xmlns"), Some("id")];
    let ids = ["i1", "i2", "i3", "a&#60;b", ""];
    (
        prefixes.iter().map(|p| p.map(String::from)).collect(),
        ids.iter().map(|s| s.to_string()).collect(),
        ["u:1", "u:2"].iter().map(|s| s.to_string()).collect(),
    )
}

fn new_world() -> World {
    let (p, i, u) = probes();
    World::new(p, i, u)
}

fn header(w: &World, out: &mut File, extra: &str) {
    let pr = json!({
        "pf": w.probe_prefixes.iter().map(enc_opt).collect::<Vec<_>>(),
        "id": w.probe_ids.iter().map(|s| enc(s)).collect::<Vec<_>>(),
        "uri": w.probe_uris.iter().map(|s| enc(s)).collect::<Vec<_>>(),
    });
    out.write_all(format!("{{\"pr\":{},\"tag\":\"{}\"}}\n", pr, extra).as_bytes())
        .unwrap();
}

fn is_panic(r: &Value) -> bool {
    r["k"] == "panic"
}

/// Is this the projection that was expected? Which one of several prefixes is found is left open:
/// the expected ones are a list.
fn matches(expected: &Value, got: &Value) -> bool {
    let (x, y) = (expected.as_object().unwrap(), got.as_object().unwrap());
    x.len() == y.len()
        && x.iter().all(|(k, v)| match (k.as_str(), &y[k]) {
            ("upf", w) | ("upr", w) => {
                let (v, w) = (v.as_array().unwrap(), w.as_array().unwrap());
                v.len() == w.len()
                    && v.iter()
                        .zip(w)
                        .all(|(s, p)| s.as_array().unwrap().contains(p))
            }
            (_, w) => v == w,
        })
}

/// The order in which a text has the attributes of an element is left open: sort them.
fn canonical(text: &[u64]) -> Vec<u64> {
    let (lt, gt, quote, space) = (60, 62, 34, 32);
    let mut out: Vec<u64> = vec![];
    let mut k = 0;
    while k < text.len() {
        // a tag, up to the end of its name
        let name = text[k..]
            .iter()
            .take_while(|c| **c != space && **c != gt)
            .count();
        if text[k] != lt || k + name >= text.len() || text[k + name] != space {
            out.push(text[k]);
            k += 1;
            continue;
        }
        out.extend(&text[k..k + name]);
        k += name;
        // pieces like ` name="value"`
        let mut pieces: Vec<&[u64]> = vec![];
        while k < text.len() && text[k] == space {
            let mut quotes = 0;
            let end = text[k..].iter().position(|c| {
                quotes += (*c == quote) as usize;
                quotes == 2
            });
            let Some(end) = end else { break };
            if text[k..=k + end].contains(&gt) {
                break;
            }
            pieces.push(&text[k..=k + end]);
            k += end + 1;
        }
        pieces.sort();
        pieces.iter().for_each(|p| out.extend(*p));
        if pieces.is_empty() {
            out.push(text[k]);
            k += 1;
        }
    }
    out
}

/// Is this result one of those which are right?
fn among(right: &[Value], r: &Value, e: &Op) -> bool {
    let text = |v: &Value| -> Option<Vec<u64>> {
        let t = v["s"][0][0].as_array()?;
        Some(canonical(
            &t.iter().filter_map(|c| c.as_u64()).collect::<Vec<_>>(),
        ))
    };
    right.contains(r)
        || e.op == "to_string"
            && r["k"] == "str"
            && right
                .iter()
                .any(|x| x["k"] == "str" && text(x).is_some() && text(x) == text(r))
}

/// False: the history ends here.
fn record(w: &mut World, e: &Op, out: &mut File) -> bool {
    out.write_all(e.open_json().as_bytes()).unwrap();
    let (r, d) = w.step(e);
    let line = format!(",\"r\":{},\"d\":{}}}\n", r, json!(d));
    out.write_all(line.as_bytes()).unwrap();
    !is_panic(&r)
}

fn generate(args: &[String]) {
    let profile = &args[0];
    let seed: u64 = args[1].parse().unwrap();
    let from: u64 = args[2].parse().unwrap();
    let to: u64 = args[3].parse().unwrap();
    let length: usize = args[4].parse().unwrap();
    let mut out = File::create(&args[5]).unwrap();
    for t in from..to {
        let mut w = new_world();
        header(&w, &mut out, &format!("{}-{}-{}", profile, seed, t));
        let max_nodes = [8, 14, 20, 28][(t % 4) as usize];
        let large = t % 75 == 37;
        let mut g = gen::Gen::new(
            seed.wrapping_mul(1_000_003).wrapping_add(t),
            profile,
            max_nodes,
            large,
        );
        for _ in 0..if large { length.min(30) } else { length } {
            // looking for something to do, the generator reads the nodes, and that may fail
            let e = (0..20).find_map(|_| {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.next(&w))).ok()
            });
            let Some(e) = e else { break };
            if !record(&mut w, &e, &mut out) {
                break;
            }
        }
    }
}

fn run(args: &[String]) {
    let input = BufReader::new(File::open(&args[0]).unwrap());
    let mut out = File::create(&args[1]).unwrap();
    for line in input.lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let mut w = new_world();
        header(&w, &mut out, v["tag"].as_str().unwrap_or(""));
        for e in v["ops"].as_array().unwrap() {
            if !record(&mut w, &Op::parse(e), &mut out) {
                break;
            }
        }
    }
}

/// Lines `{"h": [op, ...], "c": [{"e": op, "R": [result, ...], "d": [[id, projection], ...]}, ...]}`:
/// after the history h, each operation of c is one of the specification's transitions. Where nothing
/// was to change, and nothing did, the next operation follows on the same nodes.
fn replay(args: &[String]) {
    let input = BufReader::new(File::open(&args[0]).unwrap());
    let mut out = File::create(&args[1]).unwrap();
    let (mut states, mut steps, mut differ) = (0u64, 0u64, 0u64);
    for line in input.lines() {
        let line = line.unwrap();
        let v: Value = serde_json::from_str(&line).unwrap();
        let history: Vec<Op> = v["h"].as_array().unwrap().iter().map(Op::parse).collect();
        states += 1;
        let mut world: Option<(World, Vec<Op>)> = None;
        for c in v["c"].as_array().unwrap() {
            let e = Op::parse(&c["e"]);
            let (mut w, mut done) = match world.take() {
                Some(x) => x,
                None => {
                    let mut w = new_world();
                    for h in &history {
                        w.advance(h);
                    }
                    w.snapshot();
                    (w, history.clone())
                }
            };
            done.push(e.clone());
            // in case the process does not survive this one
            let text = format!(
                "{{\"tag\":\"replay\",\"ops\":[{}]}}\n",
                done.iter()
                    .map(|o| o.open_json() + "}")
                    .collect::<Vec<_>>()
                    .join(",")
            );
            std::fs::write(&args[2], &text).unwrap();
            let (r, d) = w.step(&e);
            steps += 1;
            let expected = c["d"].as_array().unwrap();
            let right = c["R"].as_array().unwrap();
            // no result at all: it is not said what this gives; only reading makes nodes
            let ok = if right.is_empty() {
                let makes = e.op.starts_with("read") || e.op == "reread";
                !is_panic(&r) && (makes && r["k"] != "err" || d.is_empty())
            } else {
                among(right, &r, &e)
                    && (is_panic(&r)
                        || expected.iter().all(|x| {
                            let id = x[0].as_u64().unwrap() as usize;
                            id <= w.last.len() && matches(&x[1], &w.last[id - 1])
                        }) && d.iter().all(|(id, _)| {
                            expected.iter().any(|x| x[0].as_u64() == Some(*id as u64))
                        }))
            };
            if !ok {
                differ += 1;
                out.write_all(text.as_bytes()).unwrap();
            } else if d.is_empty() && !is_panic(&r) && done.len() < history.len() + 200 {
                world = Some((w, done));
            }
        }
        if differ > 500 {
            break;
        }
    }
    println!(
        "{{\"states\":{},\"steps\":{},\"differ\":{}}}",
        states, steps, differ
    );
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    // a panic of the code under test is an observation
    static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|info| *LAST.lock().unwrap() = info.to_string()));
    let work = move || match args[0].as_str() {
        "gen" => generate(&args[1..]),
        "run" => run(&args[1..]),
        "replay" => replay(&args[1..]),
        other => panic!("harness: unknown command {}", other),
    };
    let thread = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(work)
        .unwrap();
    if thread.join().is_err() {
        eprintln!("{}", LAST.lock().unwrap());
        std::process::exit(2);
    }
}
