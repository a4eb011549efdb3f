//! A few helpers for demonstrations.
#![allow(dead_code)]
use flate2::{write::ZlibEncoder, Compression};
use rusty_git::object::{Id, Object, ObjectData};
use rusty_git::repository::Repository;
use sha1::{Digest, Sha1};
use std::io::Write;
use std::path::{Path, PathBuf};

pub struct Repo(pub PathBuf);

pub fn deflate(b: &[u8]) -> Vec<u8> {
    let mut e = ZlibEncoder::new(vec![], Compression::default());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
pub fn full(kind: &str, body: &[u8]) -> Vec<u8> {
    let mut v = format!("{} {}\0", kind, body.len()).into_bytes();
    v.extend(body);
    v
}
pub fn sha(b: &[u8]) -> Vec<u8> {
    Sha1::digest(b).to_vec()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn id_of(kind: &str, body: &[u8]) -> String {
    hex(&sha(&full(kind, body)))
}
pub fn id(h: &str) -> Id {
    h.parse().unwrap()
}

impl Repo {
    pub fn new(name: &str) -> Repo {
        let d = PathBuf::from(std::env::args().nth(1).expect("scratch directory")).join(name);
        for s in ["objects/pack", "refs/heads", "refs/tags"] {
            std::fs::create_dir_all(d.join(".git").join(s)).unwrap();
        }
        let r = Repo(d);
        r.put("HEAD", b"ref: refs/heads/master\n");
        r
    }
    pub fn path(&self, rel: &str) -> PathBuf {
        self.0.join(".git").join(rel)
    }
    pub fn put(&self, rel: &str, b: &[u8]) {
        let p = self.path(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
    pub fn loose(&self, kind: &str, body: &[u8]) -> String {
        let h = id_of(kind, body);
        self.put(&format!("objects/{}/{}", &h[..2], &h[2..]), &deflate(&full(kind, body)));
        h
    }
    pub fn open(&self) -> Repository {
        Repository::open(&self.0).unwrap()
    }
}

pub fn read(r: &Repository, h: &str) -> Result<Object, String> {
    r.object_database().parse_object(id(h)).map_err(|e| format!("{}", e))
}
pub fn blob(r: &Repository, h: &str) -> Result<Vec<u8>, String> {
    let o = read(r, h)?;
    match o.data() {
        ObjectData::Blob(b) => Ok(b.data().to_vec()),
        _ => Err("not a blob".into()),
    }
}

/// One object of a pack: type number, what comes between header and data, and the data
pub struct Entry {
    pub id: String,
    pub kind: u8,
    pub base: Vec<u8>,
    pub data: Vec<u8>,
}
impl Entry {
    pub fn whole(kind: &str, body: &[u8]) -> Entry {
        let k = match kind { "commit" => 1, "tree" => 2, "blob" => 3, _ => 4 };
        Entry { id: id_of(kind, body), kind: k, base: vec![], data: body.to_vec() }
    }
    pub fn ref_delta(id: &str, base: &str, delta: &[u8]) -> Entry {
        let b = (0..20).map(|i| u8::from_str_radix(&base[2 * i..2 * i + 2], 16).unwrap()).collect();
        Entry { id: id.into(), kind: 7, base: b, data: delta.to_vec() }
    }
}
pub fn unhex(h: &str) -> Vec<u8> {
    (0..20).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn entry_header(kind: u8, mut len: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut b = (kind << 4) | (len & 15) as u8;
    len >>= 4;
    while len > 0 {
        v.push(b | 0x80);
        b = (len & 0x7f) as u8;
        len >>= 7;
    }
    v.push(b);
    v
}
pub fn varint(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    while n >= 0x80 {
        v.push((n & 0x7f) as u8 | 0x80);
        n >>= 7;
    }
    v.push(n as u8);
    v
}
/// A pack and its version 2 index
pub fn pack(es: &[Entry]) -> (Vec<u8>, Vec<u8>) {
    let mut p = b"PACK\0\0\0\x02".to_vec();
    p.extend((es.len() as u32).to_be_bytes());
    let mut at = vec![];
    for e in es {
        at.push((unhex(&e.id), p.len() as u64));
        p.extend(entry_header(e.kind, e.data.len()));
        p.extend(&e.base);
        p.extend(deflate(&e.data));
    }
    let s = sha(&p);
    p.extend(&s);
    let i = index(&at, &s, 0x8000_0000);
    (p, i)
}
pub fn index(at: &[(Vec<u8>, u64)], pack_sha: &[u8], large: u64) -> Vec<u8> {
    let mut at = at.to_vec();
    at.sort();
    let mut v = b"\xfftOc\0\0\0\x02".to_vec();
    for b in 0..256usize {
        v.extend((at.iter().filter(|a| a.0[0] as usize <= b).count() as u32).to_be_bytes());
    }
    for a in &at { v.extend(&a.0); }
    for _ in &at { v.extend([0; 4]); }
    let mut big = vec![];
    for a in &at {
        if a.1 >= large {
            v.extend((0x8000_0000u32 | big.len() as u32).to_be_bytes());
            big.push(a.1);
        } else {
            v.extend((a.1 as u32).to_be_bytes());
        }
    }
    for b in big { v.extend(b.to_be_bytes()); }
    v.extend(pack_sha);
    let s = sha(&v);
    v.extend(s);
    v
}
impl Repo {
    pub fn put_pack(&self, es: &[Entry]) {
        let (p, i) = pack(es);
        let n = hex(&p[p.len() - 20..]);
        self.put(&format!("objects/pack/pack-{}.pack", n), &p);
        self.put(&format!("objects/pack/pack-{}.idx", n), &i);
    }
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
}
pub fn exists(p: &Path) -> bool {
    p.exists()
}
