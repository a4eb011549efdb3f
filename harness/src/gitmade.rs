//! C05, C06: packs and indexes as git itself makes them, with every option which shapes them.

use std::io::Write;
use std::path::Path;
use std::process::{Command, Stdio};

use serde_json::{json, Value};

use crate::gen;
use crate::pack::Pack;
use crate::packs::{self, dedup, inflate, raw, strip};
use crate::proj;
use crate::repo::{self, deflate_level, full, hex, sha, Scratch};
use crate::rng::Rng;

fn git(s: &Scratch, args: &[String], input: &[u8]) -> bool {
    let mut c = Command::new("git")
        .args(["-c", "safe.directory=*", "-c", "gc.auto=0", "-C"])
        .arg(&s.dir)
        .args(args)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("GIT_CONFIG_GLOBAL", "/dev/null")
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(if std::env::var("GITERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .expect("git");
    let _ = c.stdin.take().unwrap().write_all(input);
    let ok = c.wait().unwrap().success();
    if !ok && std::env::var("GITERR").is_ok() {
        eprintln!("failed: {:?}", args);
    }
    ok
}

fn words(s: &str) -> Vec<String> {
    s.split_whitespace().map(|w| w.to_string()).collect()
}

/// A body like another one, as the next version of a file would be
fn edit(r: &mut Rng, kind: &str, b: &[u8]) -> Vec<u8> {
    let mut t = b.to_vec();
    match kind {
        "tree" => {
            t.extend(gen::tree(r));
            if r.pct(30) {
                t = [gen::tree(r), b.to_vec()].concat();
            }
        }
        "commit" | "tag" => t.extend(gen::message(r)),
        _ => {
            for _ in 0..r.range(1, 4) {
                let at = r.below(t.len() + 1);
                let end = (at + r.below(40)).min(t.len());
                match r.below(4) {
                    0 => drop(t.drain(at..end)),
                    1 => {
                        let n = r.range(1, 60);
                        let new = r.bytes(n);
                        drop(t.splice(at..at, new))
                    }
                    2 => {
                        let x: Vec<u8> = t.drain(at..end).collect();
                        let at = r.below(t.len() + 1);
                        drop(t.splice(at..at, x))
                    }
                    _ => {
                        let x = t.clone();
                        if x.len() < 3000 {
                            t.extend(x)
                        }
                    }
                }
            }
        }
    }
    t.truncate(6000);
    if kind == "tree" {
        // entries have to be whole
        let mut end = 0;
        while let Some(z) = t[end..].iter().position(|x| *x == 0) {
            if end + z + 21 > t.len() {
                break;
            }
            end += z + 21;
        }
        t.truncate(end);
    }
    t
}

fn objects(r: &mut Rng) -> Vec<(&'static str, Vec<u8>)> {
    let mut out: Vec<(&'static str, Vec<u8>)> = vec![];
    for _ in 0..r.range(1, 5) {
        let k = *r.pick(&["blob", "blob", "blob", "commit", "tree", "tag"]);
        let n = *r.pick(&[0, 1, 60, 200, 600, 1500, 3000]);
        let mut b = if k == "blob" {
            let n = r.below(n + 1);
            r.bytes(n)
        } else {
            gen::object(r, k)
        };
        let versions = *r.pick(&[1, 2, 5, 12, 30]);
        for _ in 0..versions {
            out.push((k, b.clone()));
            b = edit(r, k, &b);
            if b.len() > 2000 {
                b.truncate(if k == "tree" { 0 } else { 300 });
            }
        }
    }
    out
}

fn shape(r: &mut Rng) -> Vec<String> {
    let mut a = vec![];
    if r.pct(30) {
        a.extend(words(&format!("-c core.bigFileThreshold={}", r.pick(&[1, 300, 1000]))));
    }
    if r.pct(30) {
        a.extend(words(r.pick(&["-c pack.writeReverseIndex=true", "-c pack.writeReverseIndex=false"])));
    }
    if r.pct(30) {
        a.extend(words(&format!("-c core.compression={}", r.below(10))));
    }
    if r.pct(30) {
        a.extend(words(&format!("-c pack.indexVersion={}", r.pick(&[1, 2]))));
    }
    if r.pct(30) {
        a.extend(words("-c repack.useDeltaBaseOffset=false"));
    }
    a
}

fn pack_objects(r: &mut Rng, s: &Scratch, ids: &[String]) -> bool {
    let mut a = shape(r);
    a.extend(words("pack-objects -q"));
    a.push(format!("--window={}", r.pick(&[0, 1, 5, 10, 50])));
    a.push(format!("--depth={}", r.pick(&[0, 1, 2, 5, 50, 4095])));
    a.push(format!("--threads={}", r.pick(&[1, 1, 2])));
    if r.pct(60) {
        a.push("--delta-base-offset".into());
    }
    if r.pct(50) {
        a.push("--no-reuse-delta".into());
    }
    if r.pct(60) {
        a.push(r.pick(&["--index-version=1", "--index-version=2", "--index-version=2,0x40", "--index-version=2,0x200"]).to_string());
    }
    a.push("objects/pack/pack".into());
    a.insert(0, "--git-dir=.git".into());
    // where the pack goes is relative to the folder git runs in
    let last = a.len() - 1;
    a[last] = ".git/objects/pack/pack".into();
    git(s, &a, (ids.join("\n") + "\n").as_bytes())
}

/// A pack some of whose deltas are upon objects elsewhere, completed by git
fn thin(r: &mut Rng, s: &Scratch, objs: &[(String, &'static str, Vec<u8>)]) -> Vec<(String, &'static str, Vec<u8>)> {
    let mut es = vec![];
    let mut new = vec![];
    for _ in 0..r.range(1, 6) {
        let (id, kind, b) = r.pick(objs).clone();
        let t = edit(r, kind, &b);
        let (d, out) = packs::delta(r, &b, Some(&t));
        // git refuses tiny ones
        let nid = sha(&full(kind, &out));
        if d.len() < 4 || es.iter().any(|e: &crate::pack::Entry| e.id == nid) || objs.iter().any(|o| o.0 == nid) {
            continue;
        }
        es.push(crate::pack::Entry::ref_delta(&nid, &id, &d));
        new.push((nid, kind, out));
    }
    if es.is_empty() {
        return vec![];
    }
    let bases = vec![None; es.len()];
    let p = Pack::layout(2, es, &bases, &[]);
    let f = s.dir.join("thin.pack");
    p.write_pack(&f);
    let bytes = std::fs::read(&f).unwrap();
    std::fs::remove_file(f).unwrap();
    let mut a = shape(r);
    let ok = if r.pct(70) {
        a.extend(words("index-pack --stdin --fix-thin"));
        if r.pct(50) {
            a.push(r.pick(&["--index-version=1", "--index-version=2", "--index-version=2,0x40"]).to_string());
        }
        git(s, &a, &bytes)
    } else {
        a.extend(words("unpack-objects -q"));
        git(s, &a, &bytes)
    };
    if ok {
        new
    } else {
        vec![]
    }
}

fn u32_at(b: &[u8], p: usize) -> u64 {
    u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as u64
}

/// The offsets an index contains
fn offsets(x: &[u8]) -> Vec<u64> {
    let v2 = x.starts_with(b"\xfftOc");
    let n = u32_at(x, if v2 { 8 } else { 0 } + 1020) as usize;
    let mut o: Vec<u64> = (0..n)
        .map(|k| {
            if !v2 {
                return u32_at(x, 1024 + 24 * k);
            }
            let o = u32_at(x, 1032 + 24 * n + 4 * k);
            if o < 1 << 31 {
                return o;
            }
            let p = 1032 + 28 * n + 8 * (o as usize & 0x7fff_ffff);
            (u32_at(x, p) << 32) | u32_at(x, p + 4)
        })
        .collect();
    o.sort();
    o
}

/// The packs there are, taken apart
fn described(s: &Scratch) -> Vec<Value> {
    let mut names: Vec<_> = std::fs::read_dir(s.path("objects/pack")).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "idx")).collect();
    names.sort();
    names
        .iter()
        .map(|ip| {
            let idx = std::fs::read(ip).unwrap();
            let p = std::fs::read(ip.with_extension("pack")).unwrap();
            let entries: Vec<Value> = offsets(&idx)
                .into_iter()
                .map(|o| {
                    let at = o as usize;
                    let mut h = at;
                    while p[h] & 0x80 != 0 {
                        h += 1;
                    }
                    h += 1;
                    let mut e = h;
                    match (p[at] >> 4) & 7 {
                        6 => {
                            while p[e] & 0x80 != 0 {
                                e += 1;
                            }
                            e += 1;
                        }
                        7 => e += 20,
                        _ => (),
                    }
                    let (data, z, _) = inflate(&p[e..]);
                    json!({"off": [o >> 20, o & 0xfffff], "hdr": proj::bytes(&p[at..h]), "ext": proj::bytes(&p[h..e]), "data": proj::bytes(&data), "z": z})
                })
                .collect();
            json!({"idx": proj::bytes(&idx), "entries": entries, "broken": false})
        })
        .collect()
}

fn loose_ids(s: &Scratch) -> Vec<String> {
    let mut out = vec![];
    for d in std::fs::read_dir(s.path("objects")).unwrap().map(|e| e.unwrap()) {
        let n = d.file_name().into_string().unwrap();
        if n.len() == 2 {
            for f in std::fs::read_dir(d.path()).unwrap().map(|e| e.unwrap()) {
                out.push(n.clone() + f.file_name().to_str().unwrap());
            }
        }
    }
    out.sort();
    out
}

pub fn case(r: &mut Rng, work: &Path) -> Value {
    let s = Scratch::new(work);
    s.put("config", b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n");
    let mut objs: Vec<(String, &'static str, Vec<u8>)> = vec![];
    for (k, b) in objects(r) {
        let f = full(k, &b);
        let id = sha(&f);
        if !objs.iter().any(|o| o.0 == id) {
            s.put(&Scratch::loose_rel(&id), &deflate_level(&f, *r.pick(&[0, 1, 6, 9])));
            objs.push((id, k, b));
        }
    }
    // opened before, and after
    let early = s.open();
    let mut tried: Vec<(usize, Value)> = vec![];
    for _ in 0..r.below(3) {
        let i = r.below(objs.len());
        tried.push((i, strip(proj::read(&early, repo::id(&objs[i].0)))));
    }
    let mut how = vec![];
    for _ in 0..r.range(1, 3) {
        let share = *r.pick(&[100, 100, 60, 30]);
        let mut ids: Vec<String> = objs.iter().filter(|_| r.pct(share)).map(|o| o.0.clone()).collect();
        if r.pct(50) {
            r.shuffle(&mut ids);
        }
        if ids.is_empty() && r.pct(90) {
            continue;
        }
        how.push(pack_objects(r, &s, &ids));
        if r.pct(30) {
            let new = thin(r, &s, &objs);
            for n in new {
                if !objs.iter().any(|o| o.0 == n.0) {
                    objs.push(n);
                }
            }
        }
    }
    for _ in 0..r.below(3) {
        let mut a = shape(r);
        a.extend(words(*r.pick(&[
            "multi-pack-index write",
            "multi-pack-index repack",
            "repack -adkq",
            "repack -adkfq --depth=3 --window=20",
            "repack -adkFq",
            "repack -dq",
            "repack -q --geometric=2 -d",
            "repack -q --cruft -d",
            "repack -adkq --write-midx",
            "prune-packed -q",
            "gc -q --no-prune",
            "pack-refs --all",
        ])));
        how.push(git(&s, &a, b""));
    }
    if r.pct(60) {
        how.push(git(&s, &words("prune-packed -q"), b""));
    }
    if r.pct(20) {
        // packs kept, or with files git makes beside them
        for e in std::fs::read_dir(s.path("objects/pack")).unwrap().map(|e| e.unwrap().path()) {
            if e.extension().map_or(false, |x| x == "pack") && r.pct(50) {
                std::fs::write(e.with_extension(*r.pick(&["keep", "promisor", "bitmap"])), b"").unwrap();
            }
        }
    }
    let packs = described(&s);
    let loose: Vec<Value> = loose_ids(&s)
        .iter()
        .map(|id| {
            let file = std::fs::read(s.path(&Scratch::loose_rel(id))).unwrap();
            let (f, z, used) = inflate(&file);
            let z = if z == "ok" && used < file.len() { "tail" } else { z };
            json!({"id": proj::bytes(id.as_bytes()), "full": proj::bytes(&f), "z": z})
        })
        .collect();
    let mut order: Vec<usize> = (0..objs.len()).collect();
    r.shuffle(&mut order);
    let mut ids: Vec<(String, Option<usize>)> = order.into_iter().take(30).map(|i| (objs[i].0.clone(), Some(i))).collect();
    for k in 0..ids.len().min(4) {
        let mut b = repo::unhex(&ids[k].0);
        b[19] ^= 1 << r.below(8);
        let n = hex(&b);
        let i = objs.iter().position(|o| o.0 == n);
        ids.push((n, i));
    }
    let late = s.open();
    let mut obs: Vec<(Vec<Value>, Vec<Value>)> = ids.iter().map(|_| (vec![], vec![])).collect();
    let mut order: Vec<usize> = (0..ids.len()).collect();
    for _ in 0..2 {
        r.shuffle(&mut order);
        for &k in &order {
            obs[k].0.push(strip(proj::read(&late, repo::id(&ids[k].0))));
            if r.pct(30) {
                obs[k].0.push(strip(proj::read(&early, repo::id(&ids[k].0))));
            }
        }
    }
    for (k, (id, i)) in ids.iter().enumerate() {
        obs[k].1.push(raw(&late, id));
        obs[k].1.push(raw(&s.open(), id));
        obs[k].0.extend(tried.iter().filter(|t| Some(t.0) == *i).map(|t| t.1.clone()));
    }
    let q: Vec<Value> = ids
        .iter()
        .zip(obs)
        .map(|((id, i), (o, w))| {
            let mut q = json!({"id": proj::bytes(id.as_bytes()), "obs": dedup(o), "raw": dedup(w), "stored": i.is_some()});
            if let Some(i) = i {
                q["kind"] = json!(objs[*i].1);
                q["body"] = proj::bytes(&objs[*i].2);
            }
            q
        })
        .collect();
    json!({"k": "made", "src": "git", "packs": packs, "loose": loose, "q": q, "ran": how.iter().filter(|h| **h).count(), "failed": how.iter().filter(|h| !**h).count()})
}
