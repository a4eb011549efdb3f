//! C10-C13: objects given by their bytes, read back loose and packed.

use serde_json::{json, Value};

use crate::gen;
use crate::git;
use crate::io::Args;
use crate::pack::{Entry, Pack};
use crate::proj;
use crate::repo::{self, Scratch};
use crate::rng::Rng;

pub fn run(a: &Args) {
    let mut cases = a.cases();
    let mut r = Rng::new(a.num("seed", 1));
    let what = a.get("gen").unwrap_or("");
    for _ in 0..a.num("n", 0) {
        let (t, body) = match what {
            "ident" => {
                let (t, b) = gen::ident_object(&mut r);
                (t.to_string(), b)
            }
            w => {
                let ks: Vec<&str> = w.split(',').collect();
                let t = *r.pick(&ks);
                (t.to_string(), gen::object(&mut r, t))
            }
        };
        cases.push(json!({"k": "obj", "src": "random", "t": t, "body": proj::bytes(&body)}));
    }
    for _ in 0..a.num("big", 0) {
        let ks: Vec<&str> = what.split(',').collect();
        let t = *r.pick(&ks);
        cases.push(json!({"k": "obj", "src": "big", "t": t, "body": proj::bytes(&gen::big(&mut r, t))}));
    }
    let work = a.work();
    let mut out = a.out();
    for k in 0..a.num("huge", 0) {
        let ks: Vec<&str> = what.split(',').collect();
        for c in huge(&mut r, &work, ks[k as usize % ks.len()]) {
            out.put(&strip(c));
        }
    }
    // every so many objects are shown to git, too
    let every = a.num("git", 10) as usize;
    for chunk in cases.chunks(100) {
        let loose = Scratch::new(&work);
        let packed = Scratch::new(&work);
        let mut ids = vec![];
        let mut entries = vec![];
        for c in chunk {
            let (t, body) = (c["t"].as_str().unwrap(), proj::unbytes(&c["body"]));
            let id = loose.put_loose(t, &body);
            if !ids.contains(&id) {
                entries.push(Entry::base(t, &body));
            }
            ids.push(id);
        }
        r.shuffle(&mut entries);
        let p = Pack::layout(2, entries, &[], &[]);
        let stem = packed.path(&format!("objects/pack/{}", p.name()));
        p.write_pack(&stem.with_extension("pack"));
        std::fs::write(stem.with_extension("idx"), p.index(2, u64::MAX)).unwrap();
        let (rl, rp) = (loose.open(), packed.open());
        loose.put("HEAD", b"ref: refs/heads/master\n");
        loose.put("refs/heads/.keep", b"");
        for (k, (c, id)) in chunk.iter().zip(&ids).enumerate() {
            let mut c = c.clone();
            if k % every == 0 && c["src"] != "big" {
                if let Some(g) = git::ask(&loose, c["t"].as_str().unwrap(), id, &proj::unbytes(&c["body"])) {
                    c["g"] = g;
                }
            }
            c["o1"] = proj::read(&rl, repo::id(id));
            c["o2"] = proj::read(&rp, repo::id(id));
            out.put(&strip(c));
        }
    }
}

/// The beginning, middle and end of a long text; with another length never those of the one expected.
fn cut(full: &[u8], v: &Value) -> Value {
    let v = proj::unbytes(v);
    if v.len() != full.len() {
        return proj::bytes(&v[..v.len().min(300)]);
    }
    proj::bytes(&shorter(&v))
}

fn shorter(v: &[u8]) -> Vec<u8> {
    match v.len() {
        n if n < 200 => v.to_vec(),
        n => [&v[..40], &v[n / 2..n / 2 + 40], &v[n - 40..]].concat(),
    }
}

/// Objects far too large for the specification to read, whose parts are judged one by one: since
/// the printed form is a concatenation, an object without some of its parts (entries, parents,
/// additional headers, most of a text) is decoded to the same without what these stood for.
fn huge(r: &mut Rng, work: &std::path::Path, t: &str) -> Vec<Value> {
    let n = *r.pick(&[65535usize, 65536, 65537, 70001, 131073]);
    let s = Scratch::new(work);
    let p = Scratch::new(work);
    let pick = |r: &mut Rng, n: usize| -> Vec<usize> {
        let mut v = vec![0, 65530, n - 12, r.below(n - 12)];
        v.retain(|&i| i + 12 <= n);
        v
    };
    let read = |t: &str, body: &[u8]| -> [Value; 2] {
        let id = s.put_loose(t, body);
        let pack = Pack::layout(2, vec![Entry::base(t, body)], &[], &[]);
        let stem = p.path(&format!("objects/pack/{}", pack.name()));
        pack.write_pack(&stem.with_extension("pack"));
        std::fs::write(stem.with_extension("idx"), pack.index(2, u64::MAX)).unwrap();
        let id = repo::id(&id);
        [proj::read(&s.open(), id), proj::read(&p.open(), id)]
    };
    // what is left of the number of parts if it was n
    let left = |o: &Value, n: usize, k: usize| Value::from((o["n"].as_i64().unwrap_or(0) - n as i64 + k as i64).max(0));
    // the parts numbered i to j; the last ones include any excess
    let part = |v: &Value, i: usize, j: usize, n: usize| -> Value {
        let none = vec![];
        let v = v.as_array().unwrap_or(&none);
        Value::Array(v[i.min(v.len())..if j == n { v.len() } else { j.min(v.len()) }].to_vec())
    };
    let mut cases = vec![];
    let mut put = |t: &str, body: &[u8], o: Vec<Value>| {
        cases.push(json!({"k": "obj", "src": "part", "t": t, "body": proj::bytes(body), "o1": o[0], "o2": o[1]}));
    };
    let text = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| *r.pick(b"ab \n\0\xff")).collect() };
    match t {
        "tree" => {
            let e: Vec<Vec<u8>> = (0..n)
                .map(|k| [*r.pick(&[&b"100644 "[..], b"100755 ", b"40000 ", b"160000 "]), format!("f{:06}", k).as_bytes(), b"\0", &r.bytes(20)].concat())
                .collect();
            let o = read(t, &e.concat());
            for i in pick(r, n) {
                let o = o.iter().map(|o| match o["r"] == "ok" {
                    true => json!({"r": "ok", "t": o["t"], "n": left(o, n, 12), "entries": part(&o["entries"], i, i + 12, n)}),
                    false => o.clone(),
                });
                put(t, &e[i..i + 12].concat(), o.collect());
            }
            // long names
            let name: Vec<u8> = (0..*r.pick(&[4096usize, 65_536, 100_000])).map(|_| *r.pick(b"ab.\xc3\xa9/\n ")).collect();
            let entry = |name: &[u8]| [b"100644 ", name, b"\0abcdefghijklmnopqrst"].concat();
            let with = |name: &[u8]| [&e[0][..], &entry(name), &e[1], &entry(&name[..name.len() - 1]), &e[2]].concat();
            let o = read(t, &with(&name));
            let o = o.iter().map(|o| {
                let mut q = o.clone();
                for (i, name) in [(1, &name[..]), (3, &name[..name.len() - 1])] {
                    if !q["entries"][i].is_null() {
                        q["entries"][i]["name"] = cut(name, &o["entries"][i]["name"]);
                    }
                }
                q
            });
            let short = [&e[0][..], &entry(&shorter(&name)), &e[1], &entry(&shorter(&name[..name.len() - 1])), &e[2]].concat();
            put(t, &short, o.collect());
        }
        "commit" | "ident" => {
            let long = t == "ident";
            let t = "commit";
            let n = if !long && r.pct(50) { n } else { 0 };
            let ps: Vec<Vec<u8>> = (0..n).map(|_| [b"parent ", &gen::hexid(r)[..], b"\n"].concat()).collect();
            let head = [b"tree ", &gen::hexid(r)[..], b"\n"].concat();
            let who = |n: usize, r: &mut Rng| -> Vec<u8> { (0..n).map(|_| *r.pick(b"AZ\xc3\xa9-")).collect() };
            let n_a = if long { *r.pick(&[250usize, 254, 1022, 4094, 65_534, 100_000]) } else if r.pct(50) { 100_000 } else { 5 };
            let (a, c) = (who(n_a, r), who(5, r));
            let line = |k: &str, w: &[u8]| [k.as_bytes(), b" x", w, b"x <", w, b"@x> 12345 +0100\n"].concat();
            let mut extra = b"gpgsig a\n".to_vec();
            for _ in 0..*r.pick(&[10usize, 60_000]) {
                extra.extend(*r.pick(&[&b" aGVsbG8gd29ybGQhIGhlbGxvIHdvcmxkISBoZWxsbyB3\n"[..], b" \n", b" encoding no\n"]));
            }
            let n_m = *r.pick(&[100usize, 70_000, 3_000_000]);
            let m = text(r, n_m);
            let enc = b"encoding ISO-8859-1\n\n";
            let o = read(t, &[&head[..], &ps.concat(), &line("author", &a), &line("committer", &c), &extra, enc, &m].concat());
            for i in if n == 0 { vec![0] } else { pick(r, n) } {
                let k = if n == 0 { 0 } else { 12 };
                let whole = |w: &[u8]| [b"x", w, b"x"].concat();
                let o = o.iter().map(|o| {
                    let mut q = o.clone();
                    if o["r"] == "ok" {
                        q["parents"] = part(&o["parents"], i, i + k, n);
                        q["n"] = left(o, n, k);
                        q["msg"] = cut(&m, &o["msg"]);
                        q["author"]["name"] = cut(&whole(&a), &o["author"]["name"]);
                        q["author"]["email"] = cut(&[&a[..], b"@x"].concat(), &o["author"]["email"]);
                    }
                    q
                });
                let sa = [b"author ", &shorter(&whole(&a))[..], b" <", &shorter(&[&a[..], b"@x"].concat()), b"> 12345 +0100\n"].concat();
                put(t, &[&head[..], &ps[i..i + k].concat(), &sa, &line("committer", &c), enc, &shorter(&m)].concat(), o.collect());
            }
        }
        "tag" => {
            let head = [b"object ", &gen::hexid(r)[..], b"\ntype tree\n"].concat();
            let name: Vec<u8> = (0..*r.pick(&[10usize, 200_000])).map(|_| *r.pick(b"v1./-")).collect();
            let extra = b"x-header some text\n x\n".repeat(*r.pick(&[0usize, 1, 60_000]));
            let who = b"tagger A <a@x> 1 +0000\n";
            let n_m = *r.pick(&[70_000usize, 3_000_000]);
            let m = text(r, n_m);
            let o = read(t, &[&head[..], b"tag ", &name, b"\n", who, &extra, b"\n", &m].concat());
            let o = o.iter().map(|o| {
                let mut q = o.clone();
                if o["r"] == "ok" {
                    q["name"] = cut(&name, &o["name"]);
                    q["msg"] = Value::Array(o["msg"].as_array().map_or(vec![], |x| x.iter().map(|v| cut(&m, v)).collect()));
                }
                q
            });
            put(t, &[&head[..], b"tag ", &shorter(&name), b"\n", who, b"\n", &shorter(&m)].concat(), o.collect());
        }
        _ => {
            let n = *r.pick(&[70_000usize, 1 << 20, 3_000_001]);
            let b = [*r.pick(MAGIC), &r.bytes(n)].concat();
            let o = read("blob", &b);
            let o = o.iter().map(|o| match o["r"] == "ok" {
                true => json!({"r": "ok", "t": o["t"], "data": cut(&b, &o["data"])}),
                false => o.clone(),
            });
            put("blob", &shorter(&b), o.collect());
        }
    }
    cases
}

/// Beginnings of files which mean something to other software
pub const MAGIC: &[&[u8]] = &[
    b"", b"\xef\xbb\xbf", b"\xff\xfe", b"\x78\x9c", b"\x1f\x8b", b"blob 3\0abc", b"PACK\0\0\0\x02", b"\xfftOc", b"\0", b"\r\n", b"\n",
    b"version https://git-lfs.github.com/spec/v1\n", b"gitdir: ../x\n", b"ref: refs/heads/master\n", b"tree ", b"#!/bin/sh\n", b"$Id$",
];

/// Messages are for people only
pub fn strip(mut v: Value) -> Value {
    for k in ["o1", "o2"] {
        if v[k]["r"] == "err" {
            v[k] = json!({"r": "err"});
        }
    }
    v
}
