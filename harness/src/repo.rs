//! Scratch repositories.

use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

use rusty_git::object::Id;
use rusty_git::repository::Repository;
use sha1::{Digest, Sha1};

static N: AtomicUsize = AtomicUsize::new(0);

pub struct Scratch {
    pub dir: PathBuf,
}

impl Scratch {
    /// A new repository below the scratch folder `work`, with no objects and no references.
    pub fn new(work: &Path) -> Scratch {
        let n = N.fetch_add(1, Ordering::SeqCst);
        let dir = work.join(format!("r{}_{}", std::process::id(), n));
        for d in ["objects/pack", "objects/info", "refs/heads", "refs/tags"] {
            fs::create_dir_all(dir.join(".git").join(d)).unwrap();
        }
        let s = Scratch { dir };
        s.put("HEAD", b"ref: refs/heads/master\n");
        s
    }

    pub fn git(&self) -> PathBuf {
        self.dir.join(".git")
    }

    pub fn root(&self) -> String {
        self.git().to_str().unwrap().to_string()
    }

    pub fn open(&self) -> Repository {
        Repository::open(&self.dir).unwrap()
    }

    pub fn path(&self, rel: &str) -> PathBuf {
        self.git().join(rel)
    }

    pub fn put(&self, rel: &str, b: &[u8]) {
        let p = self.path(rel);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(p, b).unwrap();
    }

    /// Replace a file as git does: write another one, then rename.
    pub fn put_atomic(&self, rel: &str, b: &[u8]) {
        let p = self.path(rel);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        let n = N.fetch_add(1, Ordering::SeqCst);
        let t = self.dir.join(format!("tmp{}", n));
        fs::write(&t, b).unwrap();
        fs::rename(t, p).unwrap();
    }

    pub fn loose_rel(id: &str) -> String {
        format!("objects/{}/{}", &id[..2], &id[2..])
    }

    /// A loose object whose inflated content is exactly `full` (header and body)
    pub fn put_loose_as(&self, id: &str, full: &[u8]) {
        let rel = Scratch::loose_rel(id);
        self.put_atomic(&rel, &deflate(full));
        read_only(&self.path(&rel));
    }

    pub fn put_loose(&self, kind: &str, body: &[u8]) -> String {
        let full = full(kind, body);
        let id = sha(&full);
        self.put_loose_as(&id, &full);
        id
    }

    pub fn rm(&self, rel: &str) {
        let _ = fs::remove_file(self.path(rel));
    }
}

/// As git leaves its objects and packs
pub fn read_only(p: &Path) {
    use std::os::unix::fs::PermissionsExt;
    let _ = fs::set_permissions(p, fs::Permissions::from_mode(0o444));
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.dir);
    }
}

pub fn full(kind: &str, body: &[u8]) -> Vec<u8> {
    let mut v = format!("{} {}\0", kind, body.len()).into_bytes();
    v.extend_from_slice(body);
    v
}

pub fn sha_raw(b: &[u8]) -> [u8; 20] {
    let mut h = Sha1::new();
    h.update(b);
    h.finalize().into()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn sha(b: &[u8]) -> String {
    hex(&sha_raw(b))
}

pub fn id(s: &str) -> Id {
    Id::from_bytes(&unhex(s))
}

pub fn deflate(b: &[u8]) -> Vec<u8> {
    deflate_level(b, 6)
}

pub fn deflate_level(b: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
