//! C05, C06, C08: packs (and loose objects) given byte by byte, read in several orders.

use flate2::{Decompress, FlushDecompress, Status};
use serde_json::{json, Value};

use crate::gen;
use crate::io::{Args, Out};
use crate::pack::{self, Entry, Pack};
use crate::proj;
use crate::repo::{self, deflate, deflate_level, full, hex, sha, Scratch};
use crate::rng::Rng;

/// What a stream inflates to: (bytes, "ok" / "cut" / "bad", input used)
pub fn inflate(z: &[u8]) -> (Vec<u8>, &'static str, usize) {
    let mut d = Decompress::new(true);
    let mut out = vec![];
    let mut buf = vec![0; 1 << 16];
    loop {
        let (i, o) = (d.total_in() as usize, d.total_out());
        let r = d.decompress(&z[i..], &mut buf, FlushDecompress::None);
        out.extend(&buf[..(d.total_out() - o) as usize]);
        match r {
            Err(_) => return (out, "bad", d.total_in() as usize),
            Ok(Status::StreamEnd) => return (out, "ok", d.total_in() as usize),
            Ok(_) => {
                if d.total_in() as usize == i && d.total_out() == o {
                    return (out, "cut", i);
                }
            }
        }
    }
}

pub struct Case {
    pub src: &'static str,
    pub packs: Vec<(Pack, u32, u64)>,
    /// Cut the pack file or the index to this length
    pub cut: Vec<(usize, bool, usize)>,
    /// Id and the file
    pub loose: Vec<(String, Vec<u8>)>,
    pub q: Vec<String>,
    /// May be shown to git (which does not survive everything)
    pub git: bool,
}

impl Case {
    pub fn new(src: &'static str) -> Case {
        Case { src, packs: vec![], cut: vec![], loose: vec![], q: vec![], git: true }
    }
}

fn off(o: u64) -> Value {
    json!([o >> 20, o & 0xfffff])
}

pub fn strip(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.remove("m");
    }
    v
}

pub fn raw(r: &rusty_git::repository::Repository, id: &str) -> Value {
    match proj::raw(r, repo::id(id)) {
        Ok(b) => json!({"r": "raw", "body": proj::bytes(&b)}),
        Err(v) => match v["r"].as_str().unwrap() {
            "panic" => json!({"r": "panic"}),
            x => json!({"r": format!("raw{}", x)}),
        },
    }
}

pub fn dedup(v: Vec<Value>) -> Value {
    let mut out: Vec<Value> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    Value::Array(out)
}

/// Store everything and describe it: packs, loose objects
pub fn store(c: &Case, s: &Scratch) -> (Vec<Value>, Vec<Value>) {
    let mut packs = vec![];
    for (n, (p, v, f64)) in c.packs.iter().enumerate() {
        let stem = s.path(&format!("objects/pack/{}", p.name()));
        let idx = p.index(*v, *f64);
        let (pp, ip) = (stem.with_extension("pack"), stem.with_extension("idx"));
        p.write_pack(&pp);
        std::fs::write(&ip, &idx).unwrap();
        let mut broken = false;
        for (m, is_idx, len) in &c.cut {
            if *m == n {
                broken = true;
                let f = std::fs::OpenOptions::new().write(true).open(if *is_idx { &ip } else { &pp }).unwrap();
                f.set_len(*len as u64).unwrap();
            }
        }
        let entries: Vec<Value> = p
            .entries
            .iter()
            .map(|e| {
                let (data, z) = if p.sparse {
                    let (d, z, _) = inflate(&e.z);
                    (d, z)
                } else {
                    let start = e.off as usize + e.hdr.len() + e.ext.len();
                    let (d, z, _) = inflate(&p.bytes[start..]);
                    (d, z)
                };
                json!({"off": off(e.off), "hdr": proj::bytes(&e.hdr), "ext": proj::bytes(&e.ext),
                    "data": proj::bytes(&data), "z": z})
            })
            .collect();
        packs.push(json!({"idx": proj::bytes(&idx), "entries": entries, "broken": broken}));
    }
    let mut loose = vec![];
    for (id, file) in &c.loose {
        s.put(&Scratch::loose_rel(id), file);
        let (full, z, used) = inflate(file);
        let z = if z == "ok" && used < file.len() { "tail" } else { z };
        loose.push(json!({"id": proj::bytes(id.as_bytes()), "full": proj::bytes(&full), "z": z}));
    }
    (packs, loose)
}

/// Store everything, read everything, and describe both.
pub fn run_case(c: &Case, work: &std::path::Path, r: &mut Rng) -> Value {
    case_git(c, work, r, false)
}

fn case_git(c: &Case, work: &std::path::Path, r: &mut Rng, git: bool) -> Value {
    let s = Scratch::new(work);
    let (packs, loose) = store(c, &s);
    let mut obs: Vec<(Vec<Value>, Vec<Value>)> = c.q.iter().map(|_| (vec![], vec![])).collect();
    let shared = s.open();
    let mut order: Vec<usize> = (0..c.q.len()).collect();
    for _ in 0..2 {
        for &i in &order {
            obs[i].0.push(strip(proj::read(&shared, repo::id(&c.q[i]))));
        }
        r.shuffle(&mut order);
    }
    for (i, id) in c.q.iter().enumerate() {
        obs[i].0.push(strip(proj::read(&s.open(), repo::id(id))));
        obs[i].1.push(raw(&shared, id));
        obs[i].1.push(raw(&s.open(), id));
    }
    let q: Vec<Value> = c
        .q
        .iter()
        .zip(obs)
        .map(|(id, (o, w))| json!({"id": proj::bytes(id.as_bytes()), "obs": dedup(o), "raw": dedup(w)}))
        .collect();
    let q = if git { ask_git(&s, &c.q, q) } else { q };
    json!({"k": "pack", "src": c.src, "packs": packs, "loose": loose, "q": q})
}

/// What git finds under each id
fn ask_git(s: &Scratch, ids: &[String], q: Vec<Value>) -> Vec<Value> {
    s.put("HEAD", b"ref: refs/heads/master\n");
    s.put("refs/heads/.keep", b"");
    ids.iter().zip(q).map(|(id, mut q)| {
        q["git"] = crate::git::find(s, id);
        q
    }).collect()
}

// ---- cases generated by TLC ----

fn ids_of(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|i| String::from_utf8(proj::unbytes(i)).unwrap()).collect()
}

fn blob_pack(ids: &[String], version: u32, tag: &str) -> Pack {
    let mut es: Vec<Entry> = ids
        .iter()
        .map(|i| {
            let mut e = Entry::base("blob", format!("{} {}", tag, i).as_bytes());
            e.id = i.clone();
            e
        })
        .collect();
    es.reverse();
    Pack::layout(version, es, &[], &[])
}

fn from_tlc(cases: &[Value]) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    let mut i = 0;
    let mut n = 0u32;
    while i < cases.len() {
        let c = &cases[i];
        match c["k"].as_str().unwrap() {
            "delta" => {
                // as many deltas of the same base as possible go into one pack
                let mut j = i;
                while j < cases.len() && j < i + 12 && cases[j]["base"] == c["base"] {
                    j += 1;
                }
                let base = Entry::base("blob", &proj::unbytes(&c["base"]));
                let bid = base.id.clone();
                let (mut es, mut bases) = (vec![], vec![]);
                let at = n as usize % 2 * (j - i); // the base comes first or last
                n += 1;
                for (m, d) in cases[i..j].iter().enumerate() {
                    if at == 0 && m == 0 {
                        es.push(base.clone());
                        bases.push(None);
                    }
                    let delta = proj::unbytes(&d["delta"]);
                    let id = sha(format!("delta {}", i + m).as_bytes());
                    if at == 0 && m % 2 == 0 {
                        es.push(Entry::ofs_delta(&id, &delta));
                        bases.push(Some(0));
                    } else {
                        es.push(Entry::ref_delta(&id, &bid, &delta));
                        bases.push(None);
                    }
                }
                if at != 0 {
                    es.push(base.clone());
                    bases.push(None);
                }
                let mut k = Case::new("printed");
                k.q = es.iter().map(|e| e.id.clone()).collect();
                k.packs.push((Pack::layout(2 + n % 2, es, &bases, &[]), 1 + n % 2, u64::MAX));
                out.push(k);
                i = j;
                continue;
            }
            "graph" => {
                let (mut es, mut bases) = (vec![], vec![]);
                let ents = c["ents"].as_array().unwrap();
                for e in ents {
                    let data = proj::unbytes(&e["data"]);
                    let to = e["to"].as_u64().unwrap() as usize;
                    let mut ext = vec![];
                    bases.push(None);
                    match e["t"].as_str().unwrap() {
                        "ofs" => *bases.last_mut().unwrap() = Some(to - 1),
                        "ref" => ext = repo::unhex(&ids_of(&json!([ents[to - 1]["id"]]))[0]),
                        _ => (),
                    }
                    es.push(Entry {
                        id: ids_of(&json!([e["id"]]))[0].clone(),
                        hdr: proj::unbytes(&e["hdr"]),
                        ext,
                        z: deflate(&data),
                        data,
                        off: 0,
                    });
                }
                let mut k = Case::new("printed");
                k.q = es.iter().map(|e| e.id.clone()).collect();
                n += 1;
                k.packs.push((Pack::layout(2, es, &bases, &[]), 1 + n % 2, u64::MAX));
                k.git = false;
                out.push(k);
            }
            "index" => {
                let mut k = Case::new("printed");
                let v = c["v"].as_u64().unwrap() as u32;
                let wide = c["w"].as_bool().unwrap();
                k.packs.push((blob_pack(&ids_of(&c["ids"]), 2, "x"), v, if wide { 0 } else { u64::MAX }));
                k.q = ids_of(&c["q"]);
                out.push(k);
            }
            "packs" => {
                let mut k = Case::new("printed");
                let v = c["v"].as_u64().unwrap() as u32;
                k.packs.push((blob_pack(&ids_of(&c["a"]), 2, "x"), v, u64::MAX));
                k.packs.push((blob_pack(&ids_of(&c["b"]), 3, "x"), 3 - v, u64::MAX));
                if k.packs[0].0.name() == k.packs[1].0.name() {
                    k.packs.pop();
                }
                k.q = ids_of(&c["q"]);
                out.push(k);
            }
            x => panic!("{}", x),
        }
        i += 1;
    }
    out
}

// ---- random packs ----

/// Random instructions for a base; the result is returned, too.
pub fn delta(r: &mut Rng, base: &[u8], target: Option<&[u8]>) -> (Vec<u8>, Vec<u8>) {
    let mut ins = vec![];
    let mut out = vec![];
    fn copy(r: &mut Rng, ins: &mut Vec<u8>, out: &mut Vec<u8>, base: &[u8], off: usize, len: usize) {
        let mut op = 0x80u8;
        let mut args = vec![];
        for k in 0..4 {
            let b = (off >> (8 * k)) as u8;
            if b != 0 || r.pct(10) {
                op |= 1 << k;
                args.push(b);
            }
        }
        let size = if len == 0x10000 { 0 } else { len };
        for k in 0..3 {
            let b = (size >> (8 * k)) as u8;
            if b != 0 || r.pct(10) {
                op |= 0x10 << k;
                args.push(b);
            }
        }
        ins.push(op);
        ins.extend(args);
        out.extend(&base[off..off + len]);
    }
    fn insert(ins: &mut Vec<u8>, out: &mut Vec<u8>, b: &[u8]) {
        for c in b.chunks(127) {
            ins.push(c.len() as u8);
            ins.extend(c);
            out.extend(c);
        }
    }
    match target {
        Some(t) => {
            // common prefix and suffix, and what is between
            let p = base.iter().zip(t).take_while(|(a, b)| a == b).count();
            let s = base[p..].iter().rev().zip(t[p..].iter().rev()).take_while(|(a, b)| a == b).count();
            if p > 0 {
                copy(r, &mut ins, &mut out, base, 0, p);
            }
            insert(&mut ins, &mut out, &t[p..t.len() - s]);
            if s > 0 {
                copy(r, &mut ins, &mut out, base, base.len() - s, s);
            }
        }
        None => {
            for _ in 0..r.below(6) {
                if base.is_empty() || r.pct(40) {
                    let n = *r.pick(&[1, 2, 5, 20, 126, 127]);
                    let b = r.bytes(n);
                    insert(&mut ins, &mut out, &b);
                } else {
                    let o = r.below(base.len());
                    let l = r.range(1, base.len() - o);
                    copy(r, &mut ins, &mut out, base, o, l);
                }
            }
        }
    }
    let mut d = pack::varint(base.len() as u64);
    d.extend(pack::varint(out.len() as u64));
    d.extend(ins);
    (d, out)
}

fn body(r: &mut Rng) -> (&'static str, Vec<u8>) {
    let k = *r.pick(&["blob", "blob", "blob", "commit", "tree", "tag"]);
    if k == "blob" {
        let n = *r.pick(&[0usize, 1, 2, 15, 16, 17, 100, 127, 128, 260, 600]);
        let n = r.below(n + 1);
        let b = if r.pct(50) { r.bytes(n) } else { vec![b'a'; n] };
        return (k, b);
    }
    (k, gen::object(r, k))
}

fn mutate_id(r: &mut Rng, id: &str) -> String {
    let mut b = repo::unhex(id);
    let k = *r.pick(&[0, 1, 10, 19, 19]);
    b[k] = b[k].wrapping_add(*r.pick(&[1, 255]));
    hex(&b)
}

/// Entries with their bases; contents known for all.
pub fn entries(r: &mut Rng, n: usize, deep: bool) -> (Vec<Entry>, Vec<Option<usize>>) {
    let mut es: Vec<Entry> = vec![];
    let mut bases = vec![];
    let mut known: Vec<(&'static str, Vec<u8>)> = vec![];
    for i in 0..n {
        if i == 0 || (!deep && r.pct(35)) {
            let (k, b) = body(r);
            let mut e = Entry::base(k, &b);
            if r.pct(20) {
                e.z = deflate_level(&b, *r.pick(&[0, 1, 9]));
            }
            es.push(e);
            bases.push(None);
            known.push((k, b));
            continue;
        }
        let b = if deep || r.pct(50) { i - 1 } else { r.below(i) };
        let (kind, base) = known[b].clone();
        let target = if kind != "blob" && r.pct(80) {
            let mut t = base.clone();
            if kind == "commit" || kind == "tag" {
                t.extend(gen::message(r));
            } else {
                let other = gen::object(r, kind);
                t = other;
            }
            Some(t)
        } else {
            None
        };
        let (d, out) = if base.len() > 1500 { delta(r, &base, Some(&base[..100])) } else { delta(r, &base, target.as_deref()) };
        let id = sha(&full(kind, &out));
        if r.pct(50) {
            es.push(Entry::ofs_delta(&id, &d));
            bases.push(Some(b));
        } else {
            es.push(Entry::ref_delta(&id, &es[b].id.clone(), &d));
            bases.push(None);
        }
        known.push((kind, out));
    }
    // every id once
    let mut seen = std::collections::HashSet::new();
    for e in es.iter_mut() {
        if !seen.insert(e.id.clone()) {
            e.id = hex(&r.bytes(20));
            seen.insert(e.id.clone());
        }
    }
    // references follow the ids only where they were not renamed: base ids stay valid
    if r.pct(25) {
        near(r, &mut es);
    }
    (es, bases)
}

/// Some ids become neighbours of others, in references to them as well.
fn near(r: &mut Rng, es: &mut [Entry]) {
    for _ in 0..r.range(1, 4) {
        let (i, j) = (r.below(es.len()), r.below(es.len()));
        let mut b = repo::unhex(&es[j].id);
        let k = *r.pick(&[2, 4, 8, 10, 16, 19, 19, 19]);
        b[k..].iter_mut().for_each(|x| *x = r.byte());
        let (old, new) = (repo::unhex(&es[i].id), hex(&b));
        if i == j || es.iter().any(|e| e.id == new) {
            continue;
        }
        for e in es.iter_mut() {
            if entry_type(e) == 7 && e.ext == old {
                e.ext = b.clone();
            }
        }
        es[i].id = new;
    }
}

/// Entries are permuted so that bases of reference deltas may follow their deltas.
pub fn permute(r: &mut Rng, es: Vec<Entry>, bases: Vec<Option<usize>>) -> (Vec<Entry>, Vec<Option<usize>>) {
    let n = es.len();
    let mut order: Vec<usize> = (0..n).collect();
    for _ in 0..n {
        let i = r.below(n);
        let j = r.below(n);
        order.swap(i, j);
        let ok = |o: &Vec<usize>| {
            let mut pos = vec![0; n];
            for (p, &e) in o.iter().enumerate() {
                pos[e] = p;
            }
            (0..n).all(|e| bases[e].map_or(true, |b| pos[b] < pos[e]))
        };
        if !ok(&order) {
            order.swap(i, j);
        }
    }
    let mut pos = vec![0; n];
    for (p, &e) in order.iter().enumerate() {
        pos[e] = p;
    }
    let es2 = order.iter().map(|&e| es[e].clone()).collect();
    let b2 = order.iter().map(|&e| bases[e].map(|b| pos[b])).collect();
    (es2, b2)
}

pub fn queries(r: &mut Rng, c: &Case) -> Vec<String> {
    let mut q: Vec<String> = c
        .packs
        .iter()
        .flat_map(|p| p.0.entries.iter().map(|e| e.id.clone()))
        .chain(c.loose.iter().map(|l| l.0.clone()))
        .collect();
    if q.len() > 24 {
        r.shuffle(&mut q);
        q.truncate(24);
    }
    for i in 0..q.len().min(6) {
        let m = mutate_id(r, &q[i]);
        q.push(m);
    }
    q.push(hex(&r.bytes(20)));
    q.sort();
    q.dedup();
    r.shuffle(&mut q);
    q
}

pub fn random(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("random");
    let np = if r.pct(70) { 1 } else { 2 };
    for _ in 0..np {
        let deep = i % 25 == 7;
        let n = if deep { r.range(20, 64) } else { r.range(1, 9) };
        let (es, bases) = entries(r, n, deep);
        let (es, bases) = if n < 12 { permute(r, es, bases) } else { (es, bases) };
        let p = Pack::layout(*r.pick(&[2, 3]), es, &bases, &[]);
        let iv = *r.pick(&[1, 2, 2]);
        c.packs.push((p, iv, *r.pick(&[u64::MAX, u64::MAX, 0, 60])));
    }
    for _ in 0..r.below(3) {
        let (k, b) = body(r);
        let f = full(k, &b);
        c.loose.push((sha(&f), deflate_level(&f, *r.pick(&[0, 1, 6, 9]))));
    }
    c.loose.sort();
    c.loose.dedup_by(|a, b| a.0 == b.0);
    c.q = queries(r, &c);
    c
}

/// Many ids with common prefixes; what is stored is only the id
fn random_index(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("random");
    let np = r.range(1, 3);
    let pre = r.bytes(20);
    let mut all = vec![];
    for _ in 0..np {
        let n = if i % 40 == 3 { r.range(250, 330) } else { r.below(14) };
        let mut ids: Vec<String> = (0..n)
            .map(|_| {
                let mut b = r.bytes(20);
                match r.below(6) {
                    0 => b[..19].copy_from_slice(&pre[..19]),
                    1 => b[..1].copy_from_slice(&pre[..1]),
                    2 => b[0] = *r.pick(&[0, 255, 1, 254]),
                    3 => {
                        b = pre.clone();
                        let k = r.below(20);
                        b[k] = r.byte();
                    }
                    4 if !all.is_empty() => {
                        let a: &String = r.pick(&all);
                        b = repo::unhex(a);
                    }
                    _ => (),
                }
                hex(&b)
            })
            .collect();
        ids.sort();
        ids.dedup();
        all.extend(ids.iter().cloned());
        r.shuffle(&mut ids);
        let p = blob_pack(&ids, 2, "same");
        if c.packs.iter().any(|x| x.0.name() == p.name()) {
            continue;
        }
        c.packs.push((p, *r.pick(&[1, 2]), *r.pick(&[u64::MAX, 0, 100])));
    }
    let mut q = all.clone();
    r.shuffle(&mut q);
    q.truncate(12);
    for k in 0..q.len() {
        let m = mutate_id(r, &q[k]);
        q.push(m);
    }
    q.push("00".repeat(20));
    q.push("ff".repeat(20));
    q.push(hex(&pre));
    q.sort();
    q.dedup();
    r.shuffle(&mut q);
    c.q = q;
    c
}

/// Objects beyond 2 and 4 GiB
fn sparse(r: &mut Rng, v1: bool, far: bool) -> Case {
    let mut c = Case::new("random");
    let mut at: Vec<u64> = vec![12, 1 << 20, 0x7fff_ff00, 0x7fff_ffff, 0x8000_0000 + r.below(100) as u64, 0xffff_f000];
    if !v1 {
        at.extend([0xffff_ffff, 0x1_0000_0000 + r.below(50) as u64, 0x1_2345_6789, 0x2_0000_0000, 0x3_fff0_0000]);
        // exactly 4 GiB (and more) after others
        at.extend([0x1_0010_0000, 0x2_0010_0000, 0x1_7fff_ffff]);
        if far {
            at.extend([0xff_ffff_ffff, 0x100_0010_0000, 0x200_0000_0000 + r.below(100) as u64, 0x3ff_1234_5678]);
        }
    }
    at.sort();
    let n = at.len();
    let (mut es, mut bases) = (vec![], vec![]);
    let mut contents: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        let far = i > 0 && r.pct(50);
        if far {
            let b = r.below(i);
            let (d, out) = delta(r, &contents[b].clone(), None);
            let id = sha(format!("sparse {} {}", i, hex(&out)).as_bytes());
            if r.pct(60) {
                es.push(Entry::ofs_delta(&id, &d));
                bases.push(Some(b));
            } else {
                let bid: String = (&es[b] as &Entry).id.clone();
                es.push(Entry::ref_delta(&id, &bid, &d));
                bases.push(None);
            }
            contents.push(out);
        } else {
            let k = r.range(1, 60);
            let b = r.bytes(k);
            es.push(Entry::base("blob", &b));
            bases.push(None);
            contents.push(b);
        }
    }
    for i in 1..n {
        // entries must not overlap
        if at[i] < at[i - 1] + es[i - 1].len() + 16 {
            at[i] = at[i - 1] + es[i - 1].len() + 16;
        }
    }
    let p = Pack::layout(2, es, &bases, &at);
    c.packs.push((p, if v1 { 1 } else { 2 }, 1 << 31));
    c.q = queries(r, &c);
    c
}

// ---- damage ----

/// Recompute everything below the entry's payload
pub fn set_payload(e: &mut Entry, data: Vec<u8>) {
    e.z = deflate(&data);
    e.data = data;
}

pub fn entry_type(e: &Entry) -> u8 {
    (e.hdr[0] >> 4) & 7
}

pub fn damage(r: &mut Rng, c: &mut Case) {
    if !c.loose.is_empty() && r.pct(35) {
        let k = r.below(c.loose.len());
        let f = c.loose[k].1.clone();
        c.loose[k].1 = damage_loose(r, &f);
        return;
    }
    let k = r.below(c.packs.len());
    if r.pct(12) {
        let (p, v, f) = &c.packs[k];
        let idx = r.pct(40);
        let len = if idx { p.index(*v, *f).len() } else { p.bytes.len() };
        let cut = if r.pct(40) { len - r.range(1, 60).min(len) } else { r.below(len) };
        c.cut.push((k, idx, cut));
        return;
    }
    let p = &c.packs[k].0;
    let mut es = p.entries.clone();
    // offset deltas keep their bases
    let mut bases: Vec<Option<usize>> = es
        .iter()
        .map(|e| {
            if entry_type(e) == 6 {
                es.iter().position(|b| e.off > b.off && pack::ofs(e.off - b.off) == e.ext)
            } else {
                None
            }
        })
        .collect();
    let i = r.below(es.len());
    let t = entry_type(&es[i]);
    let len = es[i].data.len();
    match r.below(11) {
        0 => {
            let d = *r.pick(&[1i64, -1, 2, -2, 16, 100, 1 << 20, 1 << 27]);
            es[i].hdr = pack::type_no(t, (len as i64 + d).max(0) as u64);
        }
        1 => {
            let n = r.below(len + 1);
            let d = es[i].data[..n].to_vec();
            set_payload(&mut es[i], d);
        }
        2 => {
            let mut d = es[i].data.clone();
            let n = r.range(1, 5);
            d.extend(r.bytes(n));
            set_payload(&mut es[i], d);
        }
        3 => {
            let n = r.below(es[i].z.len());
            es[i].z.truncate(n);
        }
        4 => {
            let n = r.below(es[i].z.len());
            es[i].z[n] ^= 1 << r.below(8);
        }
        5 => {
            let n = es[i].z.len();
            for b in &mut es[i].z[n - 4..] {
                *b = r.byte();
            }
        }
        6 if t >= 6 => {
            // lengths in the delta
            let mut d = es[i].data.clone();
            let k = r.below(d.len().min(4));
            d[k] = d[k].wrapping_add(*r.pick(&[1, 255, 128]));
            es[i].hdr = pack::type_no(t, d.len() as u64);
            set_payload(&mut es[i], d);
        }
        7 if t >= 6 => {
            let mut d = es[i].data.clone();
            gen::damage(r, &mut d);
            es[i].hdr = pack::type_no(t, d.len() as u64);
            set_payload(&mut es[i], d);
        }
        8 if t == 7 => {
            let id = if r.pct(50) { r.bytes(20) } else { repo::unhex(&es[r.below(es.len())].id) };
            es[i].ext = id;
        }
        9 if t == 6 && i > 0 => bases[i] = Some(r.below(i)),
        _ => {
            let t2 = r.below(8) as u8;
            if (t2 >= 6) == (t >= 6) || t2 == 0 || t2 == 5 {
                es[i].hdr = pack::type_no(t2, len as u64);
                if t2 == 7 && t == 6 || t2 == 6 && t == 7 {
                    es[i].hdr = pack::type_no(t, len as u64);
                }
            }
        }
    }
    let p2 = Pack::layout(p.version, es, &bases, &[]);
    c.packs[k].0 = p2;
}

fn damage_loose(r: &mut Rng, file: &[u8]) -> Vec<u8> {
    let (full, _, _) = inflate(file);
    let z = full.iter().position(|&b| b == 0).unwrap();
    let sp = full.iter().position(|&b| b == b' ').unwrap();
    let body = &full[z + 1..];
    let hdr = |len: String| [&full[..sp], b" ", len.as_bytes(), b"\0", body].concat();
    match r.below(9) {
        0 => {
            let d = *r.pick(&[1i64, -1, 2, -2, 10, 256, 65536, 1 << 30]);
            deflate(&hdr(format!("{}", (body.len() as i64 + d).max(0))))
        }
        1 => deflate(&full[..r.below(full.len())]),
        2 => {
            let n = r.range(1, 9);
            deflate(&[&full[..], &r.bytes(n)].concat())
        }
        3 => file[..r.below(file.len())].to_vec(),
        4 => {
            let mut f = file.to_vec();
            let k = r.below(f.len());
            f[k] ^= 1 << r.below(8);
            f
        }
        5 => {
            let forms = ["", " ", "+1", "-1", "0x10", "1 ", "99999999999999999999999999", "18446744073709551615", "18446744073709551616", "4294967296"];
            deflate(&hdr(r.pick(&forms).to_string()))
        }
        6 => deflate(&[&b"blub"[..], &full[sp..]].concat()),
        7 => {
            let n = r.range(1, 9);
            [file, &r.bytes(n)].concat()
        }
        _ => {
            let mut f = full.clone();
            let k = r.below(z + 1);
            f[k] = r.byte();
            deflate(&f)
        }
    }
}

/// Every truncation point of everything in one small repository
fn truncations(r: &mut Rng) -> Vec<Case> {
    let make = |r: &mut Rng| {
        let mut c = Case::new("truncated");
        let (es, bases) = entries(r, 4, false);
        c.packs.push((Pack::layout(2, es, &bases, &[]), 2, 0));
        let mut e = Entry::base("blob", b"in another pack");
        e.id = sha(b"other");
        c.packs.push((Pack::layout(2, vec![e], &[], &[]), 2, u64::MAX));
        let f = full("blob", &r.bytes(30));
        c.loose.push((sha(&f), deflate(&f)));
        c.q = queries(r, &c);
        c
    };
    let again = |c: &Case| Case { src: c.src, packs: c.packs.clone(), cut: vec![], loose: c.loose.clone(), q: c.q.clone(), git: false };
    let c = make(r);
    let mut out = vec![];
    // the files
    for n in 0..c.packs[0].0.bytes.len() {
        let mut d = again(&c);
        d.cut.push((0, false, n));
        out.push(d);
    }
    let l = c.packs[0].0.index(2, 0).len();
    for n in (0..l).filter(|n| *n < 24 || *n > l - 130 || n % 97 == 0) {
        let mut d = again(&c);
        d.cut.push((0, true, n));
        out.push(d);
    }
    for n in 0..c.loose[0].1.len() {
        let mut d = again(&c);
        d.loose[0].1.truncate(n);
        out.push(d);
    }
    // recorded lengths
    let f = inflate(&c.loose[0].1).0;
    for n in 0..f.len() {
        let mut d = again(&c);
        d.loose[0].1 = deflate(&f[..n]);
        out.push(d);
    }
    for n in (0..45u64).chain([300, 65535, 1u64 << 31, 1u64 << 32, (1u64 << 32) + 30]) {
        let mut d = again(&c);
        d.loose[0].1 = deflate(&[format!("blob {}\0", n).as_bytes(), &f[8..]].concat());
        out.push(d);
    }
    // payloads and recorded lengths of each entry
    for i in 0..c.packs[0].0.entries.len() {
        let p = &c.packs[0].0;
        let bases: Vec<Option<usize>> = p
            .entries
            .iter()
            .map(|e| p.entries.iter().position(|b| entry_type(e) == 6 && e.off > b.off && pack::ofs(e.off - b.off) == e.ext))
            .collect();
        let len = p.entries[i].data.len();
        for n in 0..(len + 3).min(80) {
            let t = entry_type(&p.entries[i]);
            if n != len {
                let mut es = p.entries.clone();
                es[i].hdr = pack::type_no(t, n as u64);
                let mut d = again(&c);
                d.packs[0].0 = Pack::layout(2, es, &bases, &[]);
                out.push(d);
            }
            if n < len {
                let mut es = p.entries.clone();
                let data = es[i].data[..n].to_vec();
                set_payload(&mut es[i], data.clone());
                let mut d = again(&c);
                d.packs[0].0 = Pack::layout(2, es.clone(), &bases, &[]);
                out.push(d);
                // a shorter delta whose length is recorded consistently
                es[i].hdr = pack::type_no(t, n as u64);
                let mut d = again(&c);
                d.packs[0].0 = Pack::layout(2, es, &bases, &[]);
                out.push(d);
            }
        }
    }
    out
}

// ---- large objects ----

fn pattern(len: usize, seed: u8) -> Vec<u8> {
    let mut r = Rng::new(seed as u64);
    let small = r.bytes(251);
    (0..len).map(|i| small[i % 251] ^ (i >> 8) as u8 ^ (i >> 16) as u8).collect()
}

/// Every digit of the lengths and offsets counts: a base over 2^25 and a result over 2^28 bytes
const GIANT: u64 = u64::MAX;

fn rope(r: &mut Rng, work: &std::path::Path, i: u64) -> Value {
    let lens = [65535usize, 65536, 65537, 70000, 131072, 200_000, 0xffffff, 1 << 20, 17_000_000];
    let blen = if i == GIANT { 35_000_000 } else if i % 10 == 9 { lens[6 + r.below(3)] } else { lens[r.below(6)] };
    let base = pattern(blen, r.byte());
    let mut segs: Vec<(bool, usize, usize)> = vec![];
    let mut ins = vec![];
    let mut total = 0;
    let n = r.range(1, 6);
    let mut items = vec![];
    for _ in 0..n {
        if r.pct(25) {
            let l = r.range(1, 127);
            items.push((false, 0, l));
            total += l;
        } else {
            let l = *r.pick(&[0x10000usize, 0x10000, 1, 255, 256, 257, 65535, 65537, 0x20000, 0xff00, 0x100, 0xffffff, 0x10100]);
            let l = l.min(blen);
            let o = *r.pick(&[0usize, 1, 255, 256, 65535, 65536, 65537, 0x1000000, blen - l]);
            let o = o.min(blen - l);
            items.push((true, o, l));
            total += l;
        }
    }
    while i == GIANT && total < 1 << 28 {
        let l = 0xffffff - r.below(1000);
        let o = r.below(blen - l);
        items.push((true, o, l));
        total += l;
    }
    let hl = pack::varint(blen as u64).len() + pack::varint(total as u64).len();
    for (is_copy, o, l) in items {
        if is_copy {
            let mut op = 0x80u8;
            let mut args = vec![];
            for k in 0..4 {
                let b = (o >> (8 * k)) as u8;
                if b != 0 || r.pct(15) {
                    op |= 1 << k;
                    args.push(b);
                }
            }
            let size = if l == 0x10000 && r.pct(70) { 0 } else { l };
            for k in 0..3 {
                let b = (size >> (8 * k)) as u8;
                if b != 0 || r.pct(15) {
                    op |= 0x10 << k;
                    args.push(b);
                }
            }
            ins.push(op);
            ins.extend(args);
            segs.push((true, o + 1, l));
        } else {
            ins.push(l as u8);
            segs.push((false, hl + ins.len() + 1, l));
            let b = r.bytes(l);
            ins.extend(b);
        }
    }
    let mut d = pack::varint(blen as u64);
    let wrong = r.pct(10);
    d.extend(pack::varint(if wrong { total as u64 + 1 } else { total as u64 }));
    d.extend(&ins);
    let mut result = Vec::with_capacity(total);
    for &(b, o, l) in &segs {
        result.extend(if b { &base[o - 1..o - 1 + l] } else { &d[o - 1..o - 1 + l] });
    }
    let s = Scratch::new(work);
    let be = Entry::base("blob", &base);
    let bid = be.id.clone();
    let id = sha(&full("blob", &result));
    let id = if id == bid { sha(b"the same again") } else { id };
    let p = if r.pct(50) {
        Pack::layout(2, vec![be, Entry::ofs_delta(&id, &d)], &[None, Some(0)], &[])
    } else {
        Pack::layout(2, vec![Entry::ref_delta(&id, &bid, &d), be], &[], &[])
    };
    let stem = s.path(&format!("objects/pack/{}", p.name()));
    p.write_pack(&stem.with_extension("pack"));
    std::fs::write(stem.with_extension("idx"), p.index(2, u64::MAX)).unwrap();
    let repo = s.open();
    let mut obs = vec![];
    let shared_first = r.pct(50);
    if shared_first {
        let _ = proj::raw(&repo, repo::id(&bid));
    }
    for _ in 0..2 {
        obs.push(match proj::raw(&repo, repo::id(&id)) {
            Ok(b) => json!({"r": "ok", "sha": sha(&b)}),
            Err(v) => strip(v),
        });
    }
    let base_ok = proj::raw(&repo, repo::id(&bid)).map_or(false, |b| b == base);
    if !base_ok {
        obs.push(json!({"r": "base"}));
    }
    json!({"k": "rope", "src": "random", "base": blen, "delta": proj::bytes(&d),
        "segs": segs.iter().map(|(b, o, l)| json!([if *b { "b" } else { "d" }, o, l])).collect::<Vec<_>>(),
        "sha": sha(&result), "obs": dedup(obs)})
}

/// More objects, and more large offsets, than 16 bits count
fn wide(r: &mut Rng, work: &std::path::Path) -> Value {
    let n = 66_000 + r.below(6000);
    let es: Vec<Entry> = (0..n).map(|j| Entry::base("blob", format!("wide {}", j).as_bytes())).collect();
    let mut sorted: Vec<(String, usize)> = es.iter().enumerate().map(|(j, e)| (e.id.clone(), j)).collect();
    sorted.sort();
    let p = Pack::layout(2, es, &[], &[]);
    let s = Scratch::new(work);
    let stem = s.path(&format!("objects/pack/{}", p.name()));
    p.write_pack(&stem.with_extension("pack"));
    let version = *r.pick(&[1, 2, 2, 2]);
    std::fs::write(stem.with_extension("idx"), p.index(version, *r.pick(&[0, 0, u64::MAX]))).unwrap();
    let repo = s.open();
    let mut at = vec![0, 1, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xffff, 0x10000, 0x10001, n - 2, n - 1];
    at.extend((0..40).map(|_| r.below(n)));
    let mut q = vec![];
    for k in at {
        let (id, j) = &sorted[k];
        let mut near = repo::unhex(id);
        near[19] ^= 1 << r.below(8);
        let near = hex(&near);
        let there = sorted.binary_search_by(|x| x.0.cmp(&near)).ok().map(|k| sorted[k].1);
        for (id, j) in [(id, Some(*j)), (&near, there)] {
            let o = match proj::raw(&repo, repo::id(id)) {
                Ok(b) => json!({"r": "ok", "body": proj::bytes(&b)}),
                Err(v) => strip(v),
            };
            q.push(json!({"in": j.is_some(), "body": j.map_or(json!([]), |j| proj::bytes(format!("wide {}", j).as_bytes())), "obs": o}));
        }
    }
    json!({"k": "wide", "src": "random", "version": version, "q": q})
}

/// Many packs, some of which store the same
fn many(r: &mut Rng, work: &std::path::Path) -> Value {
    let n = *r.pick(&[11usize, 17, 33, 51, 65, 101, 129, 257, 300]) + r.below(8);
    let s = Scratch::new(work);
    let mut ids = vec![];
    for k in 0..n {
        let mut es = vec![];
        for j in 0..r.range(1, 3) {
            let of = if r.pct(15) { r.below(k + 1) } else { k };
            let e = Entry::base("blob", format!("wide {}", 3 * of + j).as_bytes());
            ids.push((e.id.clone(), 3 * of + j));
            es.push(e);
        }
        let p = Pack::layout(2, es, &[], &[]);
        let stem = s.path(&format!("objects/pack/{}", p.name()));
        p.write_pack(&stem.with_extension("pack"));
        std::fs::write(stem.with_extension("idx"), p.index(*r.pick(&[1, 2, 2]), u64::MAX)).unwrap();
    }
    let repo = s.open();
    r.shuffle(&mut ids);
    let mut q = vec![];
    for (id, j) in &ids {
        let mut near = repo::unhex(id);
        near[r.range(1, 19)] ^= 1 << r.below(8);
        let near = (hex(&near), None);
        for (id, j) in std::iter::once((id.clone(), Some(*j))).chain(if r.pct(20) { Some(near) } else { None }) {
            let o = match proj::raw(&repo, repo::id(&id)) {
                Ok(b) => json!({"r": "ok", "body": proj::bytes(&b)}),
                Err(v) => strip(v),
            };
            q.push(json!({"in": j.is_some(), "body": j.map_or(json!([]), |j| proj::bytes(format!("wide {}", j).as_bytes())), "obs": o}));
        }
    }
    json!({"k": "wide", "src": "many", "version": 2, "q": q})
}

/// A long chain of deltas: git packs up to 4095 of them upon another
fn chain(r: &mut Rng, work: &std::path::Path, i: u64) -> Value {
    let most = if i == 4 { 66_000 } else { 10_100 };
    let n = [most, 255 + r.below(4), 1000 + r.below(100), r.range(50, 400)][i as usize % 4];
    let backwards = r.pct(30);
    let mut body = r.bytes(20);
    let base = body.clone();
    let id_at = |k: usize| sha(format!("chain {} {}", i, k).as_bytes());
    let mut ids = vec![id_at(0)];
    let mut b = Entry::base("blob", &body);
    b.id = id_at(0);
    let (mut es, mut bases, mut deltas) = (vec![b], vec![None], vec![]);
    for k in 1..=n {
        // moves the content by some bytes, and adds new ones
        let cut = r.range(1, 3).min(body.len() - 1);
        let mut t = body[cut..].to_vec();
        let add = r.range(1, 5 - (body.len() > 30) as usize * 3);
        t.extend(r.bytes(add));
        let (d, out) = delta(r, &body, Some(&t));
        body = out;
        deltas.push(d.clone());
        ids.push(id_at(k));
        if backwards || r.pct(30) {
            es.push(Entry::ref_delta(&ids[k], &ids[k - 1], &d));
            bases.push(None);
        } else {
            es.push(Entry::ofs_delta(&ids[k], &d));
            bases.push(Some(k - 1));
        }
    }
    if backwards {
        es.reverse();
    }
    let p = Pack::layout(2, es, &bases, &[]);
    let s = Scratch::new(work);
    let stem = s.path(&format!("objects/pack/{}", p.name()));
    p.write_pack(&stem.with_extension("pack"));
    std::fs::write(stem.with_extension("idx"), p.index(2, u64::MAX)).unwrap();
    let repo = s.open();
    let mut at = vec![n, n - 1, n / 2, 254, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 10_000, 65_536, 1, 0, r.below(n)];
    at.retain(|k| *k <= n);
    r.shuffle(&mut at);
    at.sort_by_key(|k| (r.pct(50) as usize, *k));
    let q: Vec<Value> = at
        .iter()
        .map(|&k| {
            let o = strip(if r.pct(50) {
                proj::read(&repo, repo::id(&ids[k]))
            } else {
                match proj::raw(&repo, repo::id(&ids[k])) {
                    Ok(b) => json!({"r": "ok", "t": "blob", "data": proj::bytes(&b)}),
                    Err(v) => v,
                }
            });
            json!({"at": k, "obs": o})
        })
        .collect();
    json!({"k": "chain", "src": "random", "base": proj::bytes(&base),
        "deltas": deltas.iter().map(|d| proj::bytes(d)).collect::<Vec<_>>(), "q": q})
}

pub fn run(a: &Args) {
    let mut r = Rng::new(a.num("seed", 1) ^ 0x05);
    let work = a.work();
    let mut out: Out = a.out();
    // every so many cases are shown to git, too
    let every = a.num("git", 12);
    let mut count = 0;
    let mut run_case = |c: &Case, work: &std::path::Path, r: &mut Rng| {
        count += 1;
        case_git(c, work, r, count % every == 0 && c.git && c.q.len() < 40)
    };
    for c in from_tlc(&a.cases()) {
        out.put(&run_case(&c, &work, &mut r));
    }
    for i in 0..a.num("random", 0) {
        out.put(&run_case(&random(&mut r, i), &work, &mut r));
    }
    for i in 0..a.num("index", 0) {
        out.put(&run_case(&random_index(&mut r, i), &work, &mut r));
    }
    for _ in 0..a.num("wide", 0) {
        out.put(&wide(&mut r, &work));
    }
    for _ in 0..a.num("many", 0) {
        out.put(&many(&mut r, &work));
    }
    for _ in 0..a.num("giant", 0) {
        out.put(&rope(&mut r, &work, GIANT));
    }
    for i in 0..a.num("chain", 0) {
        out.put(&chain(&mut r, &work, i));
    }
    // if the file system allows it
    let probe = work.join("far");
    std::fs::create_dir_all(&work).unwrap();
    let far = std::fs::File::create(&probe).and_then(|f| f.set_len(0x400_0000_0000)).is_ok();
    let _ = std::fs::remove_file(&probe);
    for i in 0..a.num("sparse", 0) {
        out.put(&run_case(&sparse(&mut r, i % 4 == 3, far && i % 2 == 0), &work, &mut r));
    }
    for i in 0..a.num("damaged", 0) {
        let mut c = random(&mut r, i + 1000 * (i % 25 == 7) as u64);
        c.src = "damaged";
        c.git = false;
        let intact = c.packs[0].clone();
        damage(&mut r, &mut c);
        // another, intact pack with the same objects
        if r.pct(25) && c.packs.iter().all(|p| p.0.name() != intact.0.name()) {
            c.packs.push(intact);
        }
        out.put(&run_case(&c, &work, &mut r));
    }
    for _ in 0..a.num("truncated", 0) {
        for c in truncations(&mut r) {
            out.put(&run_case(&c, &work, &mut r));
        }
    }
    for _ in 0..a.num("made", 0) {
        out.put(&crate::gitmade::case(&mut r, &work));
    }
    for i in 0..a.num("rope", 0) {
        out.put(&rope(&mut r, &work, i));
    }
}
