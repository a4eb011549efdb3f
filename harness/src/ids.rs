//! C17: conversions and comparisons of ids and short ids.

use std::cmp::Ordering;
use std::str::FromStr;

use rusty_git::object::{Id, ShortId};
use serde_json::{json, Value};

use crate::io::Args;
use crate::proj;
use crate::rng::Rng;

fn ord(o: Ordering) -> i32 {
    o as i32
}

fn b(s: &str) -> Value {
    proj::bytes(s.as_bytes())
}

/// A text given to the parsers
fn parse(text: &[u8]) -> Value {
    let s = std::str::from_utf8(text).ok();
    let mut full = vec![];
    let mut short = vec![];
    let f = |i: Result<Id, _>| match i {
        Ok(i) => {
            let hex = i.to_hex();
            if format!("{}", i) != hex || format!("{:?}", i) != hex {
                return json!([b("format differs")]);
            }
            // through a short id and back
            if ShortId::from(i).to_hex() != hex {
                return json!([b("short differs")]);
            }
            json!([b(&hex)])
        }
        Err(e) => {
            drop_err(e);
            json!([])
        }
    };
    let g = |i: Result<ShortId, _>| match i {
        Ok(i) => {
            let hex = i.to_hex();
            if format!("{}", i) != hex || format!("{:?}", i) != hex {
                return json!([b("format differs")]);
            }
            json!([b(&hex)])
        }
        Err(e) => {
            drop_err(e);
            json!([])
        }
    };
    full.push(proj::guard(|| f(Id::from_hex(text))));
    short.push(proj::guard(|| g(ShortId::from_hex(text))));
    if let Some(s) = s {
        full.push(proj::guard(|| f(Id::from_str(s))));
        short.push(proj::guard(|| g(ShortId::from_str(s))));
    }
    full.dedup();
    short.dedup();
    json!({"full": full, "short": short})
}

fn drop_err(e: impl std::fmt::Display) {
    let _ = e.to_string();
}

pub fn run(a: &Args) {
    let mut cases = a.cases();
    let mut r = Rng::new(a.num("seed", 1) ^ 0x17);
    for i in 0..a.num("n", 0) {
        let c = match i % 3 {
            0 => {
                let n = match r.below(3) {
                    0 => 40,
                    1 => r.below(46),
                    _ => *r.pick(&[0usize, 2, 3, 4, 5, 6, 38, 39, 41, 42, 80]),
                };
                let set: &[u8] = if r.pct(50) { b"0123456789abcdefABCDEF" } else { b"0123456789abcdef" };
                let mut t: Vec<u8> = (0..n).map(|_| *r.pick(set)).collect();
                if n > 0 && r.pct(30) {
                    let k = r.below(n);
                    t[k] = match r.below(3) {
                        0 => *r.pick(b"gG/:@`\0 \n-+x"),
                        1 => r.byte(),
                        _ => b'z',
                    };
                }
                json!({"k": "parse", "src": "random", "text": proj::bytes(&t)})
            }
            1 => {
                // a sorted list with shared prefixes, and a short id close to one of them
                let base = r.bytes(20);
                let mut l: Vec<Vec<u8>> = (0..r.below(6))
                    .map(|_| {
                        let mut v = if r.pct(70) { base.clone() } else { r.bytes(20) };
                        let k = r.below(20);
                        match r.below(4) {
                            0 => v[k] = r.byte(),
                            1 => v[k..].fill(0),
                            2 => v[k..].fill(255),
                            _ => v[k] = v[k].wrapping_add(1),
                        }
                        v
                    })
                    .collect();
                l.sort();
                l.dedup();
                let mut q = if l.is_empty() || r.pct(30) { base } else { r.pick(&l).clone() };
                if r.pct(20) {
                    let k = r.below(20);
                    q[k] = q[k].wrapping_add(*r.pick(&[1, 255]));
                }
                q.truncate(*r.pick(&[2, 2, 3, 5, 10, 19, 20, 20]));
                json!({"k": "search", "src": "random", "ids": l.iter().map(|v| proj::bytes(v)).collect::<Vec<_>>(),
                    "short": proj::bytes(&q)})
            }
            _ => {
                let x = r.bytes(20);
                let mut y = if r.pct(70) { x.clone() } else { r.bytes(20) };
                if r.pct(70) {
                    let k = r.below(20);
                    y[k] = y[k].wrapping_add(*r.pick(&[0, 1, 128, 255]));
                }
                let s: Vec<u8> = if r.pct(70) { x[..r.range(2, 20)].to_vec() } else { y[..r.range(2, 20)].to_vec() };
                json!({"k": "cmp", "src": "random", "a": proj::bytes(&x), "b": proj::bytes(&y), "s": proj::bytes(&s)})
            }
        };
        cases.push(c);
    }
    let mut out = a.out();
    for c in cases {
        let mut c = c;
        let hex = |v: &Value| crate::repo::hex(&proj::unbytes(v));
        match c["k"].as_str().unwrap() {
            "parse" => {
                c["obs"] = parse(&proj::unbytes(&c["text"]));
            }
            "search" => {
                let ids: Vec<Id> = c["ids"].as_array().unwrap().iter().map(|v| Id::from_bytes(&proj::unbytes(v))).collect();
                let s = ShortId::from_hex(hex(&c["short"]).as_bytes()).unwrap();
                let (found, pos) = match ids.binary_search_by(|i| i.cmp_short(&s)) {
                    Ok(p) => (true, p),
                    Err(p) => (false, p),
                };
                let cmps: Vec<i32> = ids.iter().map(|i| ord(s.cmp_id(i))).collect();
                let rev: Vec<i32> = ids.iter().map(|i| ord(i.cmp_short(&s))).collect();
                c["obs"] = json!({"found": found, "pos": pos, "cmp": cmps, "rev": rev});
            }
            _ => {
                let (x, y) = (Id::from_bytes(&proj::unbytes(&c["a"])), Id::from_bytes(&proj::unbytes(&c["b"])));
                let s = ShortId::from_hex(hex(&c["s"]).as_bytes()).unwrap();
                use std::collections::hash_map::DefaultHasher;
                use std::hash::{Hash, Hasher};
                let h = |i: &Id| {
                    let mut h = DefaultHasher::new();
                    i.hash(&mut h);
                    h.finish()
                };
                c["obs"] = json!({"ids": ord(x.cmp(&y)), "eq": x == y, "hash": (x == y) == (h(&x) == h(&y)),
                    "partial": x.partial_cmp(&y).map(ord), "sa": ord(s.cmp_id(&x)), "as": ord(x.cmp_short(&s)),
                    "hexa": b(&x.to_hex()), "hexs": b(&s.to_hex()),
                    "ss": ShortId::from(x) == ShortId::from_hex(x.to_hex().as_bytes()).unwrap()});
            }
        }
        out.put(&c);
    }
}
