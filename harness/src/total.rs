//! C09: repositories which contain anything.

use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::Read;
use std::path::Path;

use rusty_git::object::{ObjectData, Signature};
use rusty_git::repository::Repository;
use serde_json::{json, Value};

use crate::alloc;
use crate::io::{self, Args, Out};
use crate::pack::{self, Entry, Pack};
use crate::packs::{self, inflate};
use crate::proj;
use crate::repo::{self, deflate, deflate_level, full, hex, sha, Scratch};
use crate::rng::Rng;

// ---- reading everything ----

struct Null;
impl std::fmt::Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

fn sig(s: &Signature, n: &mut usize) {
    *n += s.name().len() + s.email().len();
    *n += s.timestamp().map_or(0, |t| t.len()) + s.timezone().map_or(0, |t| t.len());
    let _ = write!(Null, "{:?}", s);
}

/// Every field, copying nothing
fn touch(d: &ObjectData) -> usize {
    let mut n = 0;
    match d {
        ObjectData::Commit(c) => {
            n += c.tree().to_hex().len() + c.parents().len();
            n += c.parents().map(|p| p.to_hex().len()).sum::<usize>();
            sig(&c.author(), &mut n);
            sig(&c.committer(), &mut n);
            n += c.encoding().map_or(0, |e| e.len()) + c.message().len();
        }
        ObjectData::Tree(t) => {
            n += t.entries().len();
            n += t.entries().map(|e| e.filename().len() + e.id().to_hex().len() + e.mode() as usize % 2).sum::<usize>();
        }
        ObjectData::Blob(b) => n += b.data().len(),
        ObjectData::Tag(t) => {
            n += t.object().to_hex().len() + t.tag().len() + t.message().map_or(0, |m| m.len());
            let _ = write!(Null, "{:?}", t.kind());
            if let Some(s) = t.tagger() {
                sig(&s, &mut n);
            }
        }
    }
    let _ = write!(Null, "{:?}", d);
    n
}

type Outcomes = BTreeSet<(&'static str, String)>;

fn r(v: Value) -> String {
    v["r"].as_str().unwrap().to_string()
}

fn read_all(dir: &Path, ids: &[String], names: &[Vec<u8>], rs: &mut Outcomes) {
    let mut repo = None;
    let o = proj::guard(|| match Repository::open(dir) {
        Ok(x) => {
            repo = Some(x);
            json!({"r": "ok"})
        }
        Err(e) => {
            let _ = write!(Null, "{} {:?}", e, e);
            json!({"r": "err"})
        }
    });
    rs.insert(("open", r(o)));
    let Some(repo) = repo else { return };
    for _ in 0..2 {
        for id in ids {
            let id = repo::id(id);
            let v = proj::guard(|| match repo.object_database().parse_object(id) {
                Ok(o) => {
                    touch(o.data());
                    json!({"r": "ok"})
                }
                Err(e) => {
                    let _ = write!(Null, "{} {:?} {}", e, e, proj::err_chain(&e));
                    json!({"r": if e.is_not_found() { "nf" } else { "err" }})
                }
            });
            rs.insert(("parse", r(v)));
            let v = proj::guard(|| match repo.object_database().read_object(id) {
                Ok(mut x) => {
                    let mut s = x.reader();
                    let mut buf = [0; 16384];
                    loop {
                        match s.read(&mut buf) {
                            Ok(0) => return json!({"r": "ok"}),
                            Ok(_) => (),
                            Err(_) => return json!({"r": "err"}),
                        }
                    }
                }
                Err(e) => json!({"r": if e.is_not_found() { "nf" } else { "err" }}),
            });
            rs.insert(("raw", r(v)));
        }
    }
    let db = repo.reference_database();
    for n in names {
        let v = proj::guard(|| match db.reference(n) {
            Ok(x) => {
                let _ = write!(Null, "{:?} {:?}", x, x.name());
                json!({"r": "ok"})
            }
            Err(e) => {
                let _ = write!(Null, "{} {:?}", e, e);
                proj::ref_err(&e)
            }
        });
        rs.insert(("get", r(v)));
        let v = proj::guard(|| match db.reference(n).and_then(|x| x.peel(&repo)) {
            Ok(o) => {
                touch(o.data());
                json!({"r": "ok"})
            }
            Err(e) => {
                let _ = write!(Null, "{} {:?}", e, e);
                proj::ref_err(&e)
            }
        });
        rs.insert(("peel", r(v)));
    }
    for v in [
        proj::guard(|| db.reference_names().map_or_else(|e| proj::ref_err(&e), |_| json!({"r": "ok"}))),
        proj::guard(|| db.head_reference_names().map_or_else(|e| proj::ref_err(&e), |_| json!({"r": "ok"}))),
        proj::guard(|| db.remote_reference_names().map_or_else(|e| proj::ref_err(&e), |_| json!({"r": "ok"}))),
        proj::guard(|| db.head().map_or_else(|_| json!({"r": "err"}), |_| json!({"r": "ok"}))),
    ] {
        rs.insert(("list", if v["r"] == "panic" { "panic".into() } else if v["r"] == "ok" { "ok".into() } else { "err".into() }));
    }
}

fn dir_size(p: &Path) -> usize {
    let Ok(m) = std::fs::symlink_metadata(p) else { return 0 };
    if m.is_dir() {
        std::fs::read_dir(p).map_or(0, |d| d.flatten().map(|e| dir_size(&e.path())).sum())
    } else {
        m.len() as usize
    }
}

/// `more`: what can be inflated and copied
fn examine(src: &str, what: Value, s: &Scratch, ids: &[String], names: &[Vec<u8>], more: usize) -> Value {
    let mut rs = Outcomes::new();
    let data = dir_size(&s.dir) + more;
    let (_, peak) = alloc::peak(|| read_all(&s.dir, ids, names, &mut rs));
    let rs: Vec<Value> = rs.into_iter().map(|(o, r)| json!({"op": o, "r": r})).collect();
    json!({"src": src, "what": what, "rs": rs, "peak": peak >> 10, "data": (data >> 10) + 1})
}

// ---- the sample repository ----

const BOMB: usize = 24 << 20;

fn bomb() -> &'static [u8] {
    static B: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    B.get_or_init(|| deflate_level(&vec![0; BOMB], 9))
}

struct Sample {
    entries: Vec<Entry>,
    bases: Vec<Option<usize>>,
    idx_version: u32,
    ids: Vec<String>,
    /// Relative name and content of the other files; loose objects before deflating
    loose: Vec<(String, Vec<u8>)>,
    refs: Vec<(String, Vec<u8>)>,
    names: Vec<Vec<u8>>,
    /// What to do with entries and bytes afterwards
    fix: Vec<(String, String)>,
}

fn varint_delta(from: u64, to: u64, copy: u32, ins: &[u8]) -> Vec<u8> {
    let mut d = pack::varint(from);
    d.extend(pack::varint(to));
    d.extend([0x80 | 0x10 | 0x20 | 0x40, copy as u8, (copy >> 8) as u8, (copy >> 16) as u8]);
    d.push(ins.len() as u8);
    d.extend(ins);
    d
}

const BASE: usize = 60;

fn number(v: &str, cur: u64, bits: u32) -> u64 {
    let top = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    top & match v {
        "zero" => 0,
        "one" => 1,
        "less" => cur.wrapping_sub(1),
        "more" => cur.wrapping_add(1),
        "half" => cur / 2,
        "max" => top,
        "high" => 1 << (bits - 1),
        "big" => top >> 1,
        _ => panic!("{}", v),
    }
}

fn overlong() -> Vec<u8> {
    let mut v = vec![0xff; 12];
    v.push(0x7f);
    v
}

fn stream(v: &str, z: &[u8], data: &[u8], r: &mut Rng) -> Vec<u8> {
    let n = z.len();
    match v {
        "empty" => vec![],
        "cut" => z[..n / 2].to_vec(),
        "garbage" => r.bytes(n),
        "bomb" => bomb().to_vec(),
        "dict" => {
            let mut z = z.to_vec();
            z[0] = 0x78;
            z[1] = 0xbb;
            z
        }
        "tail" => [z, &[1, 2, 3][..]].concat(),
        "checksum" => {
            let mut z = z.to_vec();
            z[n - 1] ^= 1;
            z
        }
        "twice" => deflate(&[data, data].concat()),
        _ => panic!("{}", v),
    }
}

fn digits(v: &str, cur: u64) -> String {
    match v {
        "less" => (cur - 1).to_string(),
        "more" => (cur + 1).to_string(),
        v => v.to_string(),
    }
}

/// A line of a commit or tag
fn line(v: &str, text: &[u8]) -> Vec<u8> {
    let sp = text.iter().position(|&b| b == b' ').unwrap_or(0);
    match v {
        "drop" => vec![],
        "twice" => [text, text].concat(),
        "empty" => [&text[..sp], b"\n"].concat(),
        "long" => [&text[..text.len() - 1], &vec![b'x'; 70000], b"\n"].concat(),
        "nul" => [&text[..sp + 1], b"\0\0\n"].concat(),
        "highbytes" => [&text[..sp + 1], b"\xff\xfe\x80\n"].concat(),
        "nolf" => text[..text.len() - 1].to_vec(),
        "spaces" => [&text[..sp], b"     \n"].concat(),
        "minus" => [&text[..sp + 1], b"-1 -1 > < -2 +\n"].concat(),
        "swap" => {
            let mut t = text[..text.len() - 1].to_vec();
            t.reverse();
            t.push(b'\n');
            t
        }
        _ => panic!("{}", v),
    }
}

fn text(v: &str, t: &[u8], other: &str) -> Vec<u8> {
    match v {
        "empty" => vec![],
        "lf" => b"\n".to_vec(),
        "nul" => [t, b"\0"].concat(),
        "long" => [t, &vec![b'a'; 100_000]].concat(),
        "spaces" => vec![b' '; 5000],
        "highbytes" => b"\xff\xfe\xfd".to_vec(),
        "ref:" => b"ref:".to_vec(),
        "dots" => b"ref: ../../..\n".to_vec(),
        "slash" => b"ref: /\n".to_vec(),
        "self" => b"ref: HEAD\n".to_vec(),
        "cr" => b"\r\n\r".to_vec(),
        "short" => b"0123456789abcdef0123456789abcdef0123456".to_vec(),
        "other" => format!("ref: {}\n", other).into_bytes(),
        "comment" => vec![b'#'; 3000],
        _ => panic!("{}", v),
    }
}

fn id_value(v: &str, own: &str, next: &str) -> Vec<u8> {
    repo::unhex(&match v {
        "self" => own.to_string(),
        "next" => next.to_string(),
        "gone" => "12".repeat(20),
        "zero" => "00".repeat(20),
        "ones" => "ff".repeat(20),
        _ => panic!("{}", v),
    })
}

fn set_at(b: &mut Vec<u8>, at: usize, width: usize, v: &str) {
    if at + width > b.len() {
        return;
    }
    let mut cur = 0u64;
    for x in &b[at..at + width] {
        cur = cur << 8 | *x as u64;
    }
    let n = number(v, cur, width as u32 * 8);
    for k in 0..width {
        b[at + k] = (n >> (8 * (width - 1 - k))) as u8;
    }
}

fn file(s: &Scratch, rel: &str, v: &str, r: &mut Rng) {
    let p = s.path(rel);
    let Ok(m) = std::fs::metadata(&p) else { return };
    if m.is_dir() {
        // A directory is emptied, deleted or becomes a file
        match v {
            "gone" => drop(std::fs::remove_dir_all(&p)),
            "directory" => drop(std::fs::create_dir_all(p.join("x.idx").join("y"))),
            _ => {
                let _ = std::fs::remove_dir_all(&p);
                let _ = std::fs::write(&p, vec![b'0'; if v == "empty" { 0 } else { 41 }]);
            }
        }
        return;
    }
    let mut b = std::fs::read(&p).unwrap();
    let n = b.len();
    match v {
        "empty" => b.clear(),
        "cut" if n > 0 => b.truncate(n - 1 - r.below(n.min(60))),
        "cut" => (),
        "tail" => b.extend(r.bytes(9)),
        "garbage" => b = r.bytes(n),
        "zeros" => b = vec![0; n],
        "ones" => b = vec![255; n],
        _ => {
            std::fs::remove_file(&p).unwrap();
            if v == "directory" {
                std::fs::create_dir(&p).unwrap();
            }
            return;
        }
    }
    std::fs::write(&p, b).unwrap();
}

impl Sample {
    fn new(r: &mut Rng) -> Sample {
        let blob = vec![b'b'; BASE];
        let z40 = "1234567890".repeat(4);
        let commit = format!(
            "tree {}\nparent {}\nauthor A U <a@u> 123456 +0100\ncommitter C O <c@o> 1 -0100\nencoding utf8\n\nmessage\n",
            z40, z40
        )
        .into_bytes();
        let tag = format!("object {}\ntype commit\ntag v1\ntagger T <t@t> 5 +0000\n\nmessage\n", z40).into_bytes();
        let tree = [&b"100644 name\0"[..], &[7; 20], b"40000 other\0", &[9; 20]].concat();
        let grown = |k: usize| [&blob[..], &vec![b'i'; k]].concat();
        let e0 = Entry::base("blob", &blob);
        let base = e0.id.clone();
        let e1 = Entry::ofs_delta(&sha(&full("blob", &grown(5))), &varint_delta(BASE as u64, BASE as u64 + 5, BASE as u32, b"iiiii"));
        let e2 = Entry::ref_delta(&sha(&full("blob", &grown(6))), &base, &varint_delta(BASE as u64, BASE as u64 + 6, BASE as u32, b"iiiiii"));
        let e6 = Entry::ref_delta(
            &sha(&full("blob", &grown(9))),
            &e1.id,
            &varint_delta(BASE as u64 + 5, BASE as u64 + 9, BASE as u32 + 5, b"iiii"),
        );
        let entries = vec![e0, e1, e2, Entry::base("commit", &commit), Entry::base("tag", &tag), Entry::base("tree", &tree), e6];
        let bases = vec![None, Some(0), None, None, None, None, None];
        let mut ids: Vec<String> = entries.iter().map(|e| e.id.clone()).collect();
        let mut loose = vec![];
        for (k, b) in [("blob", b"loose".to_vec()), ("commit", [&commit[..], b"l"].concat()), ("tag", [&tag[..], b"l"].concat()), ("tree", [&tree[..], &tree].concat())] {
            let f = full(k, &b);
            ids.push(sha(&f));
            loose.push((sha(&f), f));
        }
        ids.push("12".repeat(20));
        let refs = vec![
            ("HEAD".to_string(), b"ref: refs/heads/master\n".to_vec()),
            ("refs/heads/master".to_string(), format!("{}\n", ids[8]).into_bytes()),
            ("refs/remotes/o/HEAD".to_string(), b"ref: refs/remotes/o/m\n".to_vec()),
            ("refs/remotes/o/m".to_string(), format!("{}\n", ids[4]).into_bytes()),
        ];
        let names = refs.iter().map(|r| r.0.clone().into_bytes()).chain([b"refs".to_vec(), b"refs/heads".to_vec(), b"x".to_vec()]).collect();
        Sample { entries, bases, idx_version: *r.pick(&[1, 2, 2]), ids, loose, refs, names, fix: vec![] }
    }

    fn body(&mut self, k: usize, f: impl FnOnce(Vec<u8>) -> Vec<u8>) {
        let full_ = &self.loose[k].1;
        let z = full_.iter().position(|&b| b == 0).unwrap();
        let kind = String::from_utf8(full_[..full_.iter().position(|&b| b == b' ').unwrap()].to_vec()).unwrap();
        self.loose[k].1 = full(&kind, &f(full_[z + 1..].to_vec()));
    }

    fn lines(&mut self, k: usize, key: &str, v: &str) {
        self.body(k, |b| {
            let mut out = vec![];
            let mut head = true;
            for l in b.split_inclusive(|&c| c == b'\n') {
                if head && (l.starts_with(key.as_bytes()) || (key == "blank" && l == b"\n")) {
                    out.extend(line(v, l));
                } else {
                    out.extend(l);
                }
                head &= l != b"\n";
            }
            out
        });
    }

    fn delta(&mut self, i: usize, f: impl FnOnce(&mut Vec<u8>, usize)) {
        // Both lengths are one byte long
        let mut d = self.entries[i].data.clone();
        f(&mut d, 2);
        self.entries[i].hdr = pack::type_no(packs::entry_type(&self.entries[i]), d.len() as u64);
        packs::set_payload(&mut self.entries[i], d);
    }

    fn apply(&mut self, field: &str, v: &str, r: &mut Rng) {
        let at = |f: &str| ["base", "ofs", "ref"].iter().position(|p| f.starts_with(p));
        let e = at(field).unwrap_or(0);
        let ty = packs::entry_type(&self.entries[e]);
        match field {
            "base_type" | "ofs_type" | "ref_type" => {
                let t = number(v, ty as u64, 3) as u8;
                let n = self.entries[e].data.len() as u64;
                self.entries[e].hdr = pack::type_no(t, n);
            }
            "base_size" | "ofs_size" | "ref_size" => {
                let n = self.entries[e].data.len() as u64;
                self.entries[e].hdr = if v == "overlong" {
                    [&[ty << 4 | 0x8f][..], &overlong()].concat()
                } else {
                    pack::type_no(ty, number(v, n, 64))
                };
            }
            "base_z" | "ofs_z" | "ref_z" => {
                let z = stream(v, &self.entries[e].z, &self.entries[e].data, r);
                self.entries[e].z = z;
            }
            "ofs_from" | "ref_from" | "ofs_to" | "ref_to" => {
                let k = field.ends_with("to") as usize;
                let v = v.to_string();
                self.delta(e, |d, _| {
                    let n = if v == "overlong" { overlong() } else { pack::varint(number(&v, d[k] as u64, 64)) };
                    // A length which was already replaced stays where it is
                    let start = if k == 0 { 0 } else { d.iter().position(|b| b & 0x80 == 0).unwrap_or(0) + 1 };
                    d.splice(start..start + 1, n);
                });
            }
            "ofs_copy" => {
                let v = v.to_string();
                self.delta(e, |d, _| {
                    if let Some(k) = d.iter().position(|&b| b == 0xf0) {
                        let n = number(&v, BASE as u64, 24);
                        for (j, s) in [0, 8, 16].into_iter().enumerate() {
                            if k + 1 + j < d.len() {
                                d[k + 1 + j] = (n >> s) as u8;
                            }
                        }
                    }
                });
            }
            "ref_ins" => {
                let v = v.to_string();
                self.delta(e, |d, _| {
                    let k = d.len() - 7;
                    d[k] = number(&v, d[k] as u64, 8) as u8;
                });
            }
            "ref_base" => {
                let (own, next) = (self.entries[2].id.clone(), self.entries[6].id.clone());
                self.entries[2].ext = id_value(v, &own, &next);
                if v == "next" {
                    self.entries[6].ext = id_value("self", &own, "");
                }
            }
            "loose_len" => {
                let b = &self.loose[0].1;
                let z = b.iter().position(|&b| b == 0).unwrap_or(b.len());
                let n = (b.len() - z) as u64;
                self.loose[0].1 = [b"blob ", digits(v, n.saturating_sub(1).max(1)).as_bytes(), &b[z..]].concat();
            }
            "loose_nul" => self.loose[0].1 = b"blob 555555555555555555555555555555555555555".to_vec(),
            "loose_kind" => {
                let b = self.loose[0].1.clone();
                let l = line(v, &[&b[..], b"\n"].concat());
                self.loose[0].1 = l;
            }
            "tree_mode" => self.body(3, |b| [digits(v, 100644).as_bytes(), &b[b.iter().position(|&c| c == b' ').unwrap_or(0)..]].concat()),
            "tree_name" => self.body(3, |b| {
                let (s, z) = (b.iter().position(|&c| c == b' ').unwrap_or(0), b.iter().position(|&c| c == 0).unwrap_or(0));
                [&b[..s + 1], &text(v, b"name", "x"), &b[z.max(s + 1)..]].concat()
            }),
            "tree_id" => self.body(3, |mut b| {
                if v == "cut" {
                    b.truncate(b.len() - 3);
                } else {
                    b.extend(b"444");
                }
                b
            }),
            "commit_extra" => self.lines(1, "encoding", v),
            "commit_blank" => self.lines(1, "blank", v),
            f if f.starts_with("commit_") => self.lines(1, &f[7..], v),
            f if f.starts_with("tag_") => self.lines(2, &f[4..], v),
            "head" => self.refs[0].1 = text(v, &self.refs[0].1, "refs/remotes/o/HEAD"),
            "branch" => self.refs[1].1 = text(v, &self.refs[1].1, "HEAD"),
            f => self.fix.push((f.to_string(), v.to_string())),
        }
    }

    /// What is written; returns how much can be inflated and copied
    fn write(self, s: &Scratch, r: &mut Rng) -> usize {
        let mut entries = self.entries.clone();
        let mut bases = self.bases.clone();
        if let Some((_, v)) = self.fix.iter().find(|f| f.0 == "ofs_dist") {
            let len = entries[0].len();
            entries[1].ext = if v == "overlong" { overlong() } else { pack::ofs(number(v, len, 63)) };
            bases[1] = None;
        }
        let mut more = 0;
        let mut most = 0;
        for e in &entries {
            let (d, _, _) = inflate(&e.z);
            let mut declared = 0u64;
            for (k, b) in e.hdr.iter().enumerate() {
                let sh = if k == 0 { 0 } else { 4 + 7 * (k as u32 - 1) };
                let bits = if k == 0 { (b & 15) as u64 } else { (b & 0x7f) as u64 };
                declared = if sh > 57 { u64::MAX } else { declared | bits << sh };
            }
            more += (d.len() as u64).min(declared.saturating_add(1)) as usize;
            most = most.max(d.len());
        }
        more += 3 * most.min(0xff_ffff);
        for (k, (id, f)) in self.loose.iter().enumerate() {
            let mut z = deflate(f);
            more += f.len();
            if k == 0 {
                if let Some((_, v)) = self.fix.iter().find(|f| f.0 == "loose_z") {
                    z = stream(v, &z, f, r);
                    if v == "bomb" {
                        more += 65536;
                    }
                }
            }
            s.put(&Scratch::loose_rel(id), &z);
        }
        for (n, t) in &self.refs {
            s.put(n, t);
        }
        let p = Pack::layout(2, entries, &bases, &[]);
        let stem = format!("objects/pack/{}", p.name());
        let mut pb = p.bytes.clone();
        let mut ib = p.index(self.idx_version, 0);
        let (h, n) = (if self.idx_version == 2 { 8 } else { 0 }, self.ids.len() - 5);
        let ids_at = h + 1024;
        for (f, v) in &self.fix {
            let (il, pl) = (ib.len(), pb.len());
            let own = hex(&p.trailer);
            match &**f {
                "idx_magic" => set_at(&mut ib, 0, 4, v),
                "idx_version" => set_at(&mut ib, 4, 4, v),
                "idx_fan0" => set_at(&mut ib, h, 4, v),
                "idx_fan128" => set_at(&mut ib, h + 512, 4, v),
                "idx_fan255" => set_at(&mut ib, h + 1020, 4, v),
                "idx_id" => {
                    let at = if self.idx_version == 2 { ids_at + 20 } else { ids_at + 28 };
                    let v = id_value(v, &self.ids[0], &self.ids[1]);
                    ib[at..at + 20].copy_from_slice(&v);
                }
                "idx_off" if self.idx_version == 2 => set_at(&mut ib, ids_at + 24 * n, 4, v),
                "idx_off" => set_at(&mut ib, ids_at, 4, v),
                "idx_offlast" if self.idx_version == 2 => set_at(&mut ib, ids_at + 24 * n + 4 * (n - 1), 4, v),
                "idx_offlast" => set_at(&mut ib, ids_at + 24 * (n - 1), 4, v),
                "idx_large" => set_at(&mut ib, ids_at + 28 * n, 8, v),
                "idx_packid" => ib[il - 40..il - 20].copy_from_slice(&id_value(v, &own, &self.ids[0])),
                "pack_id" => pb[pl - 20..].copy_from_slice(&id_value(v, &own, &self.ids[0])),
                "pack_sig" => set_at(&mut pb, 0, 4, v),
                "pack_version" => set_at(&mut pb, 4, 4, v),
                "pack_count" => set_at(&mut pb, 8, 4, v),
                _ => (),
            }
        }
        s.put(&format!("{}.pack", stem), &pb);
        s.put(&format!("{}.idx", stem), &ib);
        for (f, v) in &self.fix {
            match &**f {
                "idx_file" => file(s, &format!("{}.idx", stem), v, r),
                "pack_file" => file(s, &format!("{}.pack", stem), v, r),
                "loose_file" => file(s, &Scratch::loose_rel(&self.loose[0].0), v, r),
                "head_file" => file(s, "HEAD", v, r),
                "branch_file" => file(s, "refs/heads/master", v, r),
                "refs_file" => file(s, "refs/heads", v, r),
                "packs_file" => file(s, "objects/pack", v, r),
                "objects_file" => file(s, "objects", v, r),
                _ => (),
            }
        }
        more
    }
}

fn fields(c: &Value, work: &Path, r: &mut Rng) -> Value {
    let s = Scratch::new(work);
    let mut w = Sample::new(r);
    for f in c["set"].as_array().unwrap() {
        w.apply(f[0].as_str().unwrap(), f[1].as_str().unwrap(), r);
    }
    let (ids, names) = (w.ids.clone(), w.names.clone());
    let more = w.write(&s, r);
    examine("fields", c["set"].clone(), &s, &ids, &names, more)
}

// ---- graphs of deltas ----

fn graph(c: &Value, work: &Path, r: &mut Rng) -> Value {
    let s = Scratch::new(work);
    let keys: Vec<String> = c["base"].as_object().unwrap().keys().cloned().collect();
    let id = |k: usize| sha(format!("entry {}", k).as_bytes());
    let which = r.below(3);
    let mut es = vec![];
    for (k, key) in keys.iter().enumerate() {
        let base = c["base"][key].as_str().unwrap();
        let decl = |n: u64| match c["decl"][key].as_str().unwrap() {
            "right" => n,
            "less" => n - 1,
            "more" => n + 1,
            _ => [1 << 31, 1 << 32, 1 << 40, 1 << 62, u64::MAX][(n as usize + k) % 5],
        };
        let at = |w: usize, n: u64| if w == which { decl(n) } else { n };
        if base == "none" {
            let mut e = Entry::base("blob", &vec![b'x'; BASE]);
            e.id = id(k);
            e.hdr = pack::type_no(3, decl(BASE as u64));
            es.push(e);
            continue;
        }
        let d = varint_delta(at(0, BASE as u64), at(1, BASE as u64), BASE as u32 - 5, b"-----");
        let n = at(2, d.len() as u64);
        let to = keys.iter().position(|x| x == base);
        let mut e = if c["link"][key] == "ref" {
            Entry::ref_delta(&id(k), &to.map_or("12".repeat(20), id), &d)
        } else {
            Entry::ofs_delta(&id(k), &d)
        };
        e.hdr = pack::type_no(if c["link"][key] == "ref" { 7 } else { 6 }, n);
        es.push(e);
    }
    // Distances of fixed width, so that the layout is known before them
    let width = 10;
    let fixed = |mut n: u64| {
        // nine bits are lost to the redundancy of the encoding at most; see pack::ofs
        let mut v = vec![];
        for j in 0..width {
            v.push((n & 0x7f) as u8 | if j == 0 { 0 } else { 0x80 });
            n >>= 7;
            if j + 1 < width {
                n = n.wrapping_sub(1);
            }
        }
        v.reverse();
        v
    };
    let mut off = vec![];
    let mut pos = 12u64;
    for (k, key) in keys.iter().enumerate() {
        off.push(pos);
        if c["link"][key] == "ofs" && c["base"][key] != "none" {
            es[k].ext = vec![0; width];
        }
        pos += es[k].len();
    }
    for (k, key) in keys.iter().enumerate() {
        if c["link"][key] != "ofs" || c["base"][key] == "none" {
            continue;
        }
        let base = c["base"][key].as_str().unwrap();
        es[k].ext = match keys.iter().position(|x| x == base) {
            Some(j) if j < k => {
                // Padding with zero bytes isn't possible: the short form, and a hole in the pack
                pack::ofs(off[k] - off[j])
            }
            Some(j) => fixed(off[k].wrapping_sub(off[j])),
            None => pack::ofs(*r.pick(&[pos + 5, off[k] + 1, 1 << 33, 1 << 62])),
        };
    }
    let p = Pack::layout(2, es, &[], &off);
    s.put(&format!("objects/pack/{}.pack", p.name()), &p.bytes);
    s.put(&format!("objects/pack/{}.idx", p.name()), &p.index(*r.pick(&[1, 2]), u64::MAX));
    let ids: Vec<String> = (0..keys.len()).map(id).collect();
    examine("graph", c.clone(), &s, &ids, &[], 4096)
}

// ---- deep and large ----

fn deep(n: usize, k: u64, work: &Path, r: &mut Rng) -> Value {
    let s = Scratch::new(work);
    let mut ids = vec![];
    let mut names: Vec<Vec<u8>> = vec![];
    let mut more = 0;
    let what;
    let put_loose = |kind: &str, b: Vec<u8>, more: &mut usize| {
        *more += b.len();
        s.put_loose(kind, &b)
    };
    match k % 13 {
        0 | 1 | 2 => {
            // Chains of deltas, also closed to a ring
            what = ["ofs chain", "ref chain", "ref ring"][k as usize % 13];
            let id = |j: usize| sha(format!("deep {}", j).as_bytes());
            let mut es = vec![];
            let mut bases = vec![];
            for j in 0..n {
                let d = varint_delta(BASE as u64, BASE as u64, BASE as u32 - 5, b"-----");
                bases.push(if k % 13 == 0 && j > 0 { Some(j - 1) } else { None });
                es.push(if j == 0 && k % 13 != 2 {
                    let mut e = Entry::base("blob", &vec![b'x'; BASE]);
                    e.id = id(0);
                    e
                } else if k % 13 == 0 {
                    Entry::ofs_delta(&id(j), &d)
                } else {
                    Entry::ref_delta(&id(j), &id((j + n - 1) % n), &d)
                });
            }
            let p = Pack::layout(2, es, &bases, &[]);
            s.put(&format!("objects/pack/{}.pack", p.name()), &p.bytes);
            s.put(&format!("objects/pack/{}.idx", p.name()), &p.index(2, u64::MAX));
            ids = vec![id(n - 1), id(n / 2), id(0)];
            more = n * 3 * BASE;
        }
        3 => {
            what = "folders";
            let depth = n.min(1200);
            let p = format!("refs/heads/{}x", "d/".repeat(depth));
            s.put(&p, b"ref: refs/heads/y\n");
            names.push(p.into_bytes());
            more = depth * depth * 4;
        }
        4 => {
            what = "symbolic references";
            for j in 0..n.min(3000) {
                s.put(&format!("refs/heads/r{}", j), format!("ref: refs/heads/r{}\n", j + 1).as_bytes());
            }
            names.push(b"refs/heads/r0".to_vec());
            more = n.min(3000) * 200;
        }
        5 => {
            what = "lines in a reference";
            s.put("HEAD", "# comment\n".repeat(n).as_bytes());
            s.put("refs/heads/a", " ".repeat(10 * n).as_bytes());
            s.put("refs/heads/b", "\n".repeat(10 * n).as_bytes());
            s.put("refs/heads/c", &[&b"ref: "[..], &vec![b'a'; 10 * n], b"\n"].concat());
            s.put("refs/heads/d", &vec![b'0'; 10 * n]);
            names = ["HEAD", "refs/heads/a", "refs/heads/b", "refs/heads/c", "refs/heads/d"].iter().map(|n| n.as_bytes().to_vec()).collect();
        }
        6 => {
            what = "parents and headers";
            let z = "1234567890".repeat(4);
            let a = "author A <a> 1 +0000\ncommitter C <c> 1 +0000\n";
            for (p, h, c) in [(n, 0, 0), (0, n, 0), (0, 0, n)] {
                let t = format!("tree {}\n{}{}{}{}\nm", z, format!("parent {}\n", z).repeat(p), a, "key value\n".repeat(h), " continued\n".repeat(c));
                ids.push(put_loose("commit", t.into_bytes(), &mut more));
            }
            ids.push(put_loose("tag", format!("object {}\ntype blob\ntag t\n{}\nm", z, "x y\n".repeat(n)).into_bytes(), &mut more));
        }
        7 => {
            what = "tree entries";
            let mut t = vec![];
            for j in 0..n {
                t.extend(format!("100644 {}\0", j).into_bytes());
                t.extend([j as u8; 20]);
            }
            ids.push(put_loose("tree", t, &mut more));
            ids.push(put_loose("tree", b"1 \0aaaaaaaaaaaaaaaaaaaa".repeat(n), &mut more));
            ids.push(put_loose("tree", vec![b'7'; 10 * n], &mut more));
        }
        8 => {
            what = "identities";
            let z = "1234567890".repeat(4);
            for x in ["<", ">", " ", "<>", "> <", "1 ", "\u{ff}", "+0"] {
                let i = x.repeat(n);
                let t = format!("tree {}\nauthor {}\ncommitter {} <> 1 +0000\n\n{}", z, i, i, i);
                ids.push(put_loose("commit", t.into_bytes(), &mut more));
            }
        }
        9 => {
            what = "operations of a delta";
            // n copies of the base
            let mut d = pack::varint(BASE as u64);
            d.extend(pack::varint((n * BASE) as u64));
            d.extend([0x90, BASE as u8].repeat(n));
            let b = Entry::base("blob", &vec![b'x'; BASE]);
            let mut es = vec![b.clone(), Entry::ref_delta(&"ab".repeat(20), &b.id, &d)];
            // and nothing but lies: every copy is 64 KiB
            let mut d = pack::varint(BASE as u64);
            d.extend(pack::varint(u64::MAX));
            d.extend([0x80].repeat(n));
            es.push(Entry::ref_delta(&"ac".repeat(20), &b.id, &d));
            let p = Pack::layout(2, es, &[], &[]);
            s.put(&format!("objects/pack/{}.pack", p.name()), &p.bytes);
            s.put(&format!("objects/pack/{}.idx", p.name()), &p.index(2, u64::MAX));
            ids = p.entries.iter().map(|e| e.id.clone()).collect();
            more = n * BASE + 4 * n;
        }
        10 => {
            what = "packs";
            for j in 0..n.min(600) {
                let p = Pack::layout(2, vec![Entry::base("blob", format!("{}", j).as_bytes())], &[], &[]);
                s.put(&format!("objects/pack/{}.pack", p.name()), &p.bytes);
                s.put(&format!("objects/pack/{}.idx", p.name()), &p.index(2, u64::MAX));
                ids.push(p.entries[0].id.clone());
            }
            ids.truncate(5);
        }
        11 => {
            what = "headers which do not end";
            for b in [vec![b'b'; 100 * n], vec![b' '; 100 * n], b"blob ".repeat(20 * n), b"blob 1".iter().copied().chain(vec![b'1'; 100 * n]).collect()] {
                let id = sha(&b);
                s.put_loose_as(&id, &b);
                ids.push(id);
            }
            // What follows a blob of one byte
            let id = "ad".repeat(20);
            s.put_loose_as(&id, &[&b"blob 1\0"[..], &vec![0; BOMB]].concat());
            ids.push(id);
        }
        _ => {
            what = "references";
            for j in 0..n.min(5000) {
                s.put(&format!("refs/heads/{}/{}", j % 70, j), b"x");
            }
            names.push(b"refs/heads/1/1".to_vec());
            more = n.min(5000) * 200;
        }
    }
    let _ = r;
    if names.is_empty() {
        names.push(b"HEAD".to_vec());
    }
    ids.push("12".repeat(20));
    examine("deep", json!([what, n]), &s, &ids, &names, more)
}

// ---- random ----

fn mutate(b: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            return b.extend(r.bytes(3));
        }
        let n = b.len();
        // Beginnings and ends are where the structure is
        let at = match r.below(4) {
            0 => r.below(n.min(24)),
            1 => n - 1 - r.below(n.min(60)),
            _ => r.below(n),
        };
        match r.below(9) {
            0 => b[at] ^= 1 << r.below(8),
            1 => b[at] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, b' ', b'\n', b'0', b'9']),
            2 => b[at] = r.byte(),
            3 => b.truncate(at),
            4 => {
                let x = r.range(1, 8);
                let x = r.bytes(x);
                b.splice(at..at, x);
            }
            5 => {
                let e = (at + r.range(1, 30)).min(n);
                b.drain(at..e);
            }
            6 => {
                let w = *r.pick(&[2, 4, 8]);
                let v = *r.pick(&["zero", "one", "less", "more", "half", "max", "high", "big"]);
                set_at(b, at, w, v);
            }
            7 => {
                let e = (at + r.range(1, 60)).min(n);
                let x = b[at..e].to_vec();
                let to = r.below(n);
                b.splice(to..to, x);
            }
            _ => {
                let e = (at + r.range(1, 20)).min(n);
                let f = r.byte();
                b[at..e].iter_mut().for_each(|x| *x = f);
            }
        }
    }
}

fn fuzz(i: u64, work: &Path, r: &mut Rng) -> Value {
    let s = Scratch::new(work);
    let (ids, names, more);
    if i % 3 == 0 {
        let mut c = packs::random(r, i);
        // Once: what is damaged has no structure to damage further
        if r.pct(60) {
            packs::damage(r, &mut c);
        }
        packs::store(&c, &s);
        more = 200_000 + dir_size(&s.dir) * 4;
        (ids, names) = (c.q.clone(), vec![]);
    } else {
        let mut w = Sample::new(r);
        // Before compression, too
        for l in &mut w.loose {
            if r.pct(30) {
                mutate(&mut l.1, r);
            }
        }
        for e in 1..w.entries.len() {
            if r.pct(15) {
                let mut d = w.entries[e].data.clone();
                mutate(&mut d, r);
                if r.pct(60) {
                    w.entries[e].hdr = pack::type_no(packs::entry_type(&w.entries[e]), d.len() as u64);
                }
                packs::set_payload(&mut w.entries[e], d);
            }
        }
        for f in &mut w.refs {
            if r.pct(20) {
                mutate(&mut f.1, r);
            }
        }
        (ids, names) = (w.ids.clone(), w.names.clone());
        // One random copy operation makes 64 KiB, or 16 MiB at most of a base which is as long
        more = w.write(&s, r) + 200_000;
    }
    let mut files = vec![];
    walk(&s.git(), &mut files);
    files.sort();
    for _ in 0..r.below(3) {
        let f = r.pick(&files);
        let mut b = std::fs::read(f).unwrap();
        mutate(&mut b, r);
        std::fs::write(f, b).unwrap();
    }
    examine("fuzz", json!(i), &s, &ids, &names, more)
}

fn walk(p: &Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(p).unwrap().flatten() {
        if e.path().is_dir() {
            walk(&e.path(), out);
        } else {
            out.push(e.path());
        }
    }
}

fn go(a: &Args) {
    let mut r = Rng::new(a.num("seed", 1) ^ 0x0909 ^ (a.num("part", 0) << 20));
    let work = a.work();
    let mut out: Out = a.out();
    io::watch(40);
    let every = a.num("every", 1) as usize;
    let first = r.below(every);
    bomb();
    let warm = Scratch::new(&work);
    read_all(&warm.dir, &["12".repeat(20)], &[], &mut Outcomes::new());
    for (n, c) in a.cases().iter().enumerate() {
        if n % every != first {
            continue;
        }
        io::current(|| c.clone());
        out.put(&if c["k"] == "graph" { graph(c, &work, &mut r) } else { fields(c, &work, &mut r) });
    }
    for i in 0..a.num("fuzz", 0) {
        let mut q = r.fork(i);
        io::current(|| json!({"fuzz": i}));
        out.put(&fuzz(i, &work, &mut q));
    }
    let n = a.num("deep", 0) as usize;
    if n > 0 {
        for k in 0..13 {
            if k % a.num("parts", 1) == a.num("part", 0) {
                io::current(|| json!({"deep": k}));
                out.put(&deep(n, k, &work, &mut r));
            }
        }
    }
}

pub fn run(a: &Args) {
    // The stack of any thread which isn't the first
    let a = Args(a.0.clone());
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || go(&a)).unwrap().join().unwrap();
}
