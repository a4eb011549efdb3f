//! C14, C15, C19: histories of references, recorded as calls, returns and what git did.

use std::collections::HashMap;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::Mutex;

use rusty_git::reference::{Error, Reference, ReferenceTarget};
use rusty_git::repository::Repository;
use serde_json::{json, Value};

use crate::interpose::{self, Class, Ctx, Fault, Seg};
use crate::io::{self, Args, Out};
use crate::proj;
use crate::repo::{self, Scratch};
use crate::rng::Rng;

type Name = Vec<u8>;

#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    Absent,
    /// Whatever it is, it is no reference
    Bad(usize),
    Dir(usize),
    Sym(Name),
    Peel(usize, Name),
    /// A symbolic link of the file system
    Link(Name),
}
use Content::*;

const BAD: &[&[u8]] = &[
    b"", b"\n", b"garbage\n", b"0123456789abcdef0123456789abcdef0123456\n", b"# only a comment\n",
    b"0123456789abcdef0123456789abcdef012345678\n", b"\xff\xfe\x00\n", b"ref:", b"zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\n",
];

pub const OBJECTS: usize = 6;

pub struct World {
    pub s: Scratch,
    pub repo: Repository,
    /// Peeling there tells which object a reference names
    empty_dir: Scratch,
    empty: Repository,
    objs: Vec<(String, Value)>,
    ev: Mutex<Vec<Value>>,
    /// Where links led to
    linked: Mutex<Vec<Name>>,
    /// Whether random references can be links
    links: bool,
    stats: Mutex<HashMap<String, usize>>,
}

static COUNTS: Mutex<Option<HashMap<String, usize>>> = Mutex::new(None);

/// Which directories an operation lists
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heads,
    Tags,
    Remotes,
    All,
}

impl Kind {
    fn dirs(self) -> Vec<&'static str> {
        match self {
            Kind::Heads => vec!["refs/heads"],
            Kind::Tags => vec!["refs/tags"],
            Kind::Remotes => vec!["refs/remotes"],
            Kind::All => vec!["refs/heads", "refs/tags", "refs/remotes"],
        }
    }
}

fn body(o: usize) -> (&'static str, Vec<u8>) {
    if o <= 3 {
        return ("blob", format!("object {} which references name", o).into_bytes());
    }
    let who = "A U Thor <author@example.com> 1700000000 +0100";
    let tree = "4b825dc642cb6eb9a060e54bf8d69288fbee4904";
    ("commit", format!("tree {tree}\nauthor {who}\ncommitter {who}\n\ncommit {o}\n").into_bytes())
}

/// The objects and what reading them gives, found out separately
fn objects(work: &Path) -> Vec<(String, Value)> {
    static O: std::sync::OnceLock<Vec<(String, Value)>> = std::sync::OnceLock::new();
    O.get_or_init(|| {
        let s = Scratch::new(work);
        let repo = s.open();
        (1..=OBJECTS)
            .map(|o| {
                let (k, b) = body(o);
                let id = s.put_loose(k, &b);
                let v = proj::read(&repo, repo::id(&id));
                (id, v)
            })
            .collect()
    })
    .clone()
}

impl World {
    pub fn new(work: &Path) -> World {
        let s = Scratch::new(work);
        s.rm("HEAD");
        for d in ["refs/heads", "refs/tags"] {
            let _ = std::fs::remove_dir(s.path(d));
        }
        let e = Scratch::new(work);
        e.rm("HEAD");
        let (repo, empty) = (s.open(), e.open());
        let objs = objects(work);
        World { s, repo, empty_dir: e, empty, objs, ev: Mutex::default(), linked: Mutex::default(), links: false, stats: Mutex::default() }
    }

    fn log(&self, v: Value) {
        self.ev.lock().unwrap().push(v);
    }

    fn count(&self, k: String) {
        *self.stats.lock().unwrap().entry(k).or_insert(0) += 1;
    }

    pub fn trace(self, src: &str) -> Value {
        let mut c = COUNTS.lock().unwrap();
        let c = c.get_or_insert_with(HashMap::new);
        for (k, n) in self.stats.into_inner().unwrap() {
            *c.entry(k).or_insert(0) += n;
        }
        json!({"src": src, "ev": self.ev.into_inner().unwrap()})
    }

    // ---- what git does ----

    pub fn content(&self, c: &Content) -> Value {
        match c {
            Absent => json!({"k": "absent"}),
            Bad(_) => json!({"k": "bad"}),
            Dir(o) => json!({"k": "dir", "o": o}),
            Sym(n) => json!({"k": "sym", "n": proj::bytes(n)}),
            Peel(o, n) => json!({"k": "peel", "o": o, "n": proj::bytes(n)}),
            Link(n) => json!({"k": "link", "n": proj::bytes(n)}),
        }
    }

    pub fn text(&self, c: &Content) -> Vec<u8> {
        let id = |o: usize| self.objs[o - 1].0.clone().into_bytes();
        match c {
            Absent | Link(_) => panic!(),
            Bad(k) => BAD[k % BAD.len()].to_vec(),
            Dir(o) => [&id(*o)[..], b"\n"].concat(),
            Sym(n) => [b"ref: ", &n[..], b"\n"].concat(),
            Peel(o, n) => [&id(*o)[..], b" ", &n[..], b"\n"].concat(),
        }
    }

    fn make(&self, p: &Path, n: &[u8], c: &Content) {
        match c {
            Link(to) => {
                self.linked.lock().unwrap().push(to.clone());
                // the path is relative to the folder of the link
                let to = if n.contains(&b'/') { self.file(to) } else { OsStr::from_bytes(to).into() };
                let _ = std::fs::remove_file(p);
                std::os::unix::fs::symlink(to, p).unwrap();
            }
            c => std::fs::write(p, self.text(c)).unwrap(),
        }
    }

    fn file(&self, n: &[u8]) -> PathBuf {
        self.s.git().join(OsStr::from_bytes(n))
    }

    /// Possible if no directory is in the way and no file is where a directory has to be
    pub fn fits(&self, n: &[u8]) -> bool {
        let p = self.file(n);
        if self.linked.lock().unwrap().iter().any(|l| n.len() > l.len() && n.starts_with(l) && n[l.len()] == b'/') {
            // a link never leads to a directory with references
            return false;
        }
        let mut d = p.parent().unwrap();
        while d != self.s.git() {
            if std::fs::symlink_metadata(d).is_ok_and(|m| !m.is_dir()) {
                return false;
            }
            d = d.parent().unwrap();
        }
        if is_dir(&p) {
            // git removes empty directories which are in the way
            return empty_dirs(&p);
        }
        true
    }

    pub fn set(&self, n: &[u8], c: &Content, tidy: bool) {
        self.log(json!({"e": "set", "n": proj::bytes(n), "c": self.content(c)}));
        let p = self.file(n);
        if *c == Absent {
            let _ = std::fs::remove_file(&p);
            if tidy {
                let mut d = p.parent().unwrap();
                while d.strip_prefix(self.s.git()).unwrap().components().count() > 2 && std::fs::remove_dir(d).is_ok() {
                    d = d.parent().unwrap();
                }
            }
        } else {
            if is_dir(&p) {
                rm_empty(&p);
            }
            loop {
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                let t = self.s.dir.join("tmp_ref");
                self.make(&t, n, c);
                if std::fs::rename(&t, &p).is_ok() {
                    break;
                }
            }
        }
        self.log(json!({"e": "done"}));
    }

    pub fn object(&self, o: usize, has: bool) {
        self.log(json!({"e": "obj", "o": o, "has": has}));
        self.object_file(o, has);
        self.log(json!({"e": "done"}));
    }

    fn object_file(&self, o: usize, has: bool) {
        let (k, b) = body(o);
        if has {
            self.s.put_loose(k, &b);
        } else {
            self.s.rm(&Scratch::loose_rel(&self.objs[o - 1].0));
        }
    }

    pub fn init(&self, files: &[(Name, Content)], stored: &[usize]) {
        let f: Vec<_> = files.iter().map(|(n, c)| json!({"n": proj::bytes(n), "c": self.content(c)})).collect();
        self.log(json!({"e": "init", "files": f, "stored": stored}));
        for (n, c) in files {
            let p = self.file(n);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            self.make(&p, n, c);
        }
        for &o in stored {
            self.object_file(o, true);
        }
    }

    // ---- operations ----

    pub fn ctx(&self) -> Box<Ctx> {
        Box::new(Ctx { root: self.s.root(), ..Ctx::default() })
    }

    fn known(&self, id: &str) -> usize {
        self.objs.iter().position(|(i, _)| i == id).map_or(0, |o| o + 1)
    }

    /// What a reference which was read contains
    fn shown(&self, r: &Reference) -> Value {
        let _ = format!("{:?}", r);
        let oid = match r.peel(&self.empty) {
            Err(Error::DereferencingFailed(e)) => Some(self.known(&e.id().to_hex())),
            _ => None,
        };
        match (r.target(), oid) {
            (ReferenceTarget::Direct(_), o) => json!({"k": "dir", "o": o.unwrap_or(0)}),
            (ReferenceTarget::Symbolic(s), None) => json!({"k": "sym", "n": proj::bytes(s.data())}),
            (ReferenceTarget::Symbolic(s), Some(o)) => json!({"k": "peel", "o": o, "n": proj::bytes(s.data())}),
        }
    }

    fn ret(&self, t: usize, mut v: Value, ctx: &Ctx) {
        if ctx.fault_hit.is_some() {
            self.log(json!({"e": "fault", "t": t}));
        }
        if let Some(o) = v.as_object_mut() {
            o.remove("m");
        }
        self.count(format!("{}{}", v["r"].as_str().unwrap(), if ctx.fault_hit.is_some() { " after a fault" } else { "" }));
        self.log(json!({"e": "ret", "t": t, "r": v}));
    }

    pub fn get(&self, t: usize, n: &[u8], how: usize, ctx: Box<Ctx>) -> (Option<Reference>, Box<Ctx>) {
        self.log(json!({"e": "get", "t": t, "n": proj::bytes(n)}));
        let db = self.repo.reference_database();
        let mut got = None;
        let (v, ctx) = interpose::armed(ctx, || {
            let mut r = None;
            let v = proj::guard(|| {
                r = Some(match how {
                    0 if n == b"HEAD" => db.head(),
                    1 => db.parse_reference(n),
                    2 if n == b"HEAD" => db.read_head().and_then(Reference::from_reader),
                    3 => db.read_reference_file(n).and_then(Reference::from_reader),
                    _ => db.reference(n),
                });
                json!({"r": "ok"})
            });
            match r {
                None => v,
                Some(Err(e)) => proj::ref_err(&e),
                Some(Ok(r)) => {
                    got = Some(r);
                    v
                }
            }
        });
        let v = match &got {
            Some(r) => {
                let c = proj::guard(|| self.shown(r));
                json!({"r": "ok", "c": c})
            }
            None => v,
        };
        self.ret(t, v, &ctx);
        (got, ctx)
    }

    /// A reference which was not read from the repository
    pub fn given(&self, t: usize, c: &Content) -> Reference {
        self.log(json!({"e": "given", "t": t, "c": self.content(c)}));
        Reference::from_bytes(&self.text(c)).unwrap()
    }

    pub fn peel(&self, t: usize, r: &Reference, how: usize, ctx: Box<Ctx>) -> Box<Ctx> {
        self.log(json!({"e": "peel", "t": t}));
        let (v, ctx) = interpose::armed(ctx, || {
            proj::guard(|| {
                let x = match (how, r.target()) {
                    (0, x) => x.peel(&self.repo),
                    (1, ReferenceTarget::Symbolic(s)) => s.peel(&self.repo),
                    (1, ReferenceTarget::Direct(d)) => d.object(&self.repo),
                    _ => r.peel(&self.repo),
                };
                match x {
                    Ok(o) => {
                        let k = self.known(&o.id().to_hex());
                        let right = k > 0 && proj::object(o.data()) == self.objs[k - 1].1;
                        json!({"r": "obj", "o": if right { k } else { 0 }})
                    }
                    Err(e) => proj::ref_err(&e),
                }
            })
        });
        self.ret(t, v, &ctx);
        ctx
    }

    pub fn list(&self, t: usize, k: Kind, ctx: Box<Ctx>) -> (Vec<Name>, Box<Ctx>) {
        let dirs: Vec<_> = k.dirs().iter().map(|d| proj::bytes(d.as_bytes())).collect();
        self.log(json!({"e": "list", "t": t, "dirs": dirs}));
        let db = self.repo.reference_database();
        let mut names = vec![];
        let (v, ctx) = interpose::armed(ctx, || {
            proj::guard(|| {
                let r = match k {
                    Kind::Heads => db.head_reference_names(),
                    Kind::Tags => db.tag_reference_names(),
                    Kind::Remotes => db.remote_reference_names(),
                    Kind::All => db.reference_names(),
                };
                match r {
                    Ok(v) => {
                        names = v;
                        json!({"r": "names", "names": names.iter().map(|n| proj::bytes(n)).collect::<Vec<_>>()})
                    }
                    Err(e) => proj::ref_err(&e),
                }
            })
        });
        self.ret(t, v, &ctx);
        (names, ctx)
    }
}

fn is_dir(p: &Path) -> bool {
    std::fs::symlink_metadata(p).is_ok_and(|m| m.is_dir())
}

fn empty_dirs(p: &Path) -> bool {
    std::fs::read_dir(p).unwrap().all(|e| {
        let e = e.unwrap();
        e.file_type().unwrap().is_dir() && empty_dirs(&e.path())
    })
}

fn rm_empty(p: &Path) {
    for e in std::fs::read_dir(p).unwrap() {
        rm_empty(&e.unwrap().path());
    }
    std::fs::remove_dir(p).unwrap();
}

// ---- cases from TLC ----

fn pool(r: &mut Rng) -> Vec<Name> {
    let mut v: Vec<Name> = [
        &b"HEAD"[..], b"refs/heads/master", b"refs/heads/feature/x", b"refs/tags/v1.0", b"refs/remotes/origin/HEAD",
        b"refs/remotes/origin/master", b"refs/heads/a", b"ORIG_HEAD", b"refs/notes/commits", b"refs/heads/\xc3\xa9t\xc3\xa9",
        b"refs/heads/\xff\xfe/\x80", b"refs/heads/feature/deep/er/y", b"refs/stash", b"refs/tags/feature/x",
    ]
    .iter()
    .map(|n| n.to_vec())
    .collect();
    r.shuffle(&mut v);
    v
}

fn from_json(c: &Value, names: &[Name], r: &mut Rng) -> Content {
    let o = || c["o"].as_u64().unwrap() as usize;
    let n = || names[c["n"].as_u64().unwrap() as usize - 1].clone();
    match c["k"].as_str().unwrap() {
        "absent" => Absent,
        "bad" => Bad(r.below(100)),
        "dir" => Dir(o()),
        "sym" => Sym(n()),
        "peel" => Peel(o(), n()),
        "link" => Link(n()),
        _ => panic!(),
    }
}

/// A reference may only be written as peeled if the name it has starts with refs/
fn proper(c: Content) -> Content {
    match c {
        Peel(o, n) if !n.starts_with(b"refs/") => Peel(o, b"refs/heads/gone".to_vec()),
        c => c,
    }
}

fn graph(v: &Value, work: &Path, r: &mut Rng) -> Value {
    let w = World::new(work);
    let names = pool(r);
    let mut files = vec![];
    let list = v["files"].as_array().unwrap();
    for (i, c) in list.iter().enumerate() {
        match proper(from_json(c, &names, r)) {
            Absent => (),
            c => files.push((names[i].clone(), c)),
        }
    }
    w.init(&files, &[1]);
    for i in 0..list.len() {
        let how = r.below(6);
        if let (Some(x), _) = w.get(1, &names[i], how, w.ctx()) {
            w.peel(1, &x, how % 3, w.ctx());
        }
        if r.pct(50) {
            let x = w.given(1, &Sym(names[i].clone()));
            w.peel(1, &x, r.below(3), w.ctx());
        }
    }
    for k in [Kind::Heads, Kind::Tags, Kind::Remotes, Kind::All] {
        w.list(1, k, w.ctx());
    }
    w.trace("graph")
}

enum Do {
    Set(Name, Content),
    Obj(usize, bool),
}

fn apply(w: &World, d: &Do) {
    match d {
        Do::Set(n, c) if *c == Absent || w.fits(n) => w.set(n, c, true),
        Do::Set(..) => (),
        Do::Obj(o, h) => w.object(*o, *h),
    }
}

/// A behaviour of RefsImpl: references change between two hops
fn steps(v: &Value, work: &Path, r: &mut Rng) -> Value {
    let w = World::new(work);
    let names = pool(r);
    let hist = v["hist"].as_array().unwrap();
    let mut files = vec![];
    for f in hist[0]["files"].as_array().unwrap() {
        files.push((names[f["n"].as_u64().unwrap() as usize - 1].clone(), proper(from_json(&f["c"], &names, r))));
    }
    let stored: Vec<usize> = hist[0]["stored"].as_array().unwrap().iter().map(|o| o.as_u64().unwrap() as usize).collect();
    w.init(&files, &stored);
    let mut i = 1;
    while i < hist.len() {
        let h = &hist[i];
        assert!(h["k"] == "call");
        let n = names[h["n"].as_u64().unwrap() as usize - 1].clone();
        i += 1;
        // what happens before the k-th hop
        let mut plan: Vec<Vec<Do>> = vec![vec![]];
        while i < hist.len() && hist[i]["k"] != "call" {
            let h = &hist[i];
            match h["k"].as_str().unwrap() {
                "hop" => plan.push(vec![]),
                "set" => {
                    let c = proper(from_json(&h["c"], &names, r));
                    plan.last_mut().unwrap().push(Do::Set(names[h["n"].as_u64().unwrap() as usize - 1].clone(), c))
                }
                "obj" => plan.last_mut().unwrap().push(Do::Obj(h["o"].as_u64().unwrap() as usize, h["has"].as_bool().unwrap())),
                _ => (),
            }
            i += 1;
        }
        let x = w.given(1, &Sym(n));
        let mut c = w.ctx();
        // Hooks live as long as the world does
        let wp: &'static World = unsafe { &*(&w as *const World) };
        let mut hop = 0;
        c.on_boundary = Some(Box::new(move |_, op| {
            // The next file is opened, of a reference or of the object
            let object = op.path.starts_with("objects");
            if op.class == Class::OpenRead && !object {
                for d in plan.get(hop).into_iter().flatten() {
                    apply(wp, d);
                }
                hop += 1;
            } else if object {
                while hop < plan.len() {
                    plan[hop].iter().for_each(|d| apply(wp, d));
                    hop += 1;
                }
            }
        }));
        w.peel(1, &x, r.below(3), c);
    }
    w.trace("steps")
}

// ---- random histories ----

const BYTES: &[u8] = b"abcdefxyz0189-_.+,@#=!%&()'\"$|;<>{}\xc3\xa9\xff\xfe\x80\x01";

fn component(r: &mut Rng) -> Name {
    // What git check-ref-format allows, more or less; nothing which ends in white space
    loop {
        let len = match r.below(20) {
            0 => 200,
            _ => r.range(1, 8),
        };
        let c: Name = (0..len).map(|_| *r.pick(&BYTES[..BYTES.len() - 1])).collect();
        let s = &c[..];
        let dots = s.windows(2).any(|w| w == b".." || w == b"@{");
        if s[0] == b'.' || s[len - 1] == b'.' || dots || s == b"@" || s.ends_with(b".lock") {
            continue;
        }
        return c;
    }
}

fn random_name(r: &mut Rng) -> Name {
    let mut n = r.pick(&[&b"refs/heads/"[..], b"refs/heads/", b"refs/tags/", b"refs/remotes/", b"refs/other/"]).to_vec();
    let depth = match r.below(12) {
        0 => 14,
        k => 1 + k % 3,
    };
    for d in 0..depth {
        if d > 0 {
            n.push(b'/');
        }
        if r.pct(25) {
            // names which other software gives to other things are names like any
            n.extend(*r.pick(&[
                &b"a"[..], b"b", b"feature", b"lock", b"x.lockx", b"v1.0", b"x.tmp", b"x.bak", b"x.LOCK", b"tmp_x", b"#x#",
                b"x.orig", b"README", b"CON", b"HEAD", b"%41", b"x.git", b"Thumbs.db", b"index", b"-x", b"0", b"x-",
                b"0123456789abcdef0123456789abcdef01234567", b"refs", b"heads", b"x.swp", b"desktop.ini", b"objects",
            ]));
        } else {
            n.extend(component(r));
        }
    }
    if n.len() > 3000 {
        return random_name(r);
    }
    n
}

/// A name like one of these: in other case, of another kind, longer, shorter, composed otherwise
fn akin(r: &mut Rng, v: &[Name]) -> Name {
    let n = r.pick(v).clone();
    let last = n.iter().rposition(|&c| c == b'/').map_or(0, |i| i + 1);
    let case = |s: &[u8]| -> Name {
        s.iter().map(|&c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
    };
    match r.below(8) {
        0 => [&n[..last], &case(&n[last..])].concat(),
        1 if n.starts_with(b"refs/") => {
            let at = 5 + n[5..].iter().position(|&c| c == b'/').map_or(0, |i| i + 1);
            [&n[..at], &case(&n[at..])].concat()
        }
        2 if n.starts_with(b"refs/heads/") => [&b"refs/tags/"[..], &n[11..]].concat(),
        3 if n.starts_with(b"refs/tags/") => [&b"refs/heads/"[..], &n[10..]].concat(),
        4 => [&n[..last], &b"e\xcc\x81"[..]].concat(),
        5 => [&n[..last], &b"\xc3\xa9"[..]].concat(),
        // Such as is no UTF-8: these differ although they read alike
        6 if n.iter().any(|&c| c >= 0x80) => n.iter().map(|&c| if c >= 0x80 { c ^ 1 } else { c }).collect(),
        6 => [&n[..last], *r.pick(&[&b"l\xff"[..], b"l\xfe", b"l\xc3", b"l\xef\xbf\xbd"])].concat(),
        _ => [&n[..], *r.pick(&[&b"1"[..], b"-", b"x", b"\xc2\xa0", b".x"])].concat(),
    }
}

fn names(r: &mut Rng) -> Vec<Name> {
    let mut v = pool(r);
    v.truncate(r.range(1, 8));
    if r.pct(35) {
        // a reference may take the place of a directory
        let n = r.pick(&v).clone();
        let slash: Vec<usize> = (0..n.len()).filter(|&i| n[i] == b'/').skip(2).collect();
        let n = if slash.is_empty() { [&n[..], b"/z"].concat() } else { n[..*r.pick(&slash)].to_vec() };
        if n.starts_with(b"refs/") && !v.contains(&n) {
            v.push(n);
        }
    }
    for _ in 0..r.below(7) {
        let n = random_name(r);
        if !v.contains(&n) {
            v.push(n);
        }
    }
    // Names which differ in little
    for _ in 0..if r.pct(45) { r.range(1, 3) } else { 0 } {
        let n = akin(r, &v);
        if !v.contains(&n) && n.len() < 3000 {
            v.push(n);
        }
    }
    // Names which git's commands would complete to others, but which are none
    for _ in 0..if r.pct(30) { r.range(1, 3) } else { 0 } {
        let n = r.pick(&v).clone();
        let slash: Vec<usize> = (0..n.len()).filter(|&i| n[i] == b'/').collect();
        if let Some(&i) = slash.first() {
            let n = n[if r.pct(50) { i } else { *r.pick(&slash) } + 1..].to_vec();
            if !v.contains(&n) && ![&b"objects"[..], b"refs"].contains(&n.split(|&c| c == b'/').next().unwrap()) {
                v.push(n);
            }
        }
    }
    // git's locks
    for _ in 0..r.below(3) {
        let mut n = r.pick(&v).clone();
        if !n.ends_with(b".lock") {
            n.extend(b".lock");
            if !v.contains(&n) {
                v.push(n);
            }
        }
    }
    v
}

fn content(r: &mut Rng, names: &[Name], links: bool) -> Content {
    match r.below(12) {
        _ if links && r.pct(12) => Link(r.pick(names).clone()),
        0 => Absent,
        1 => Bad(r.below(100)),
        2 => proper(Peel(r.range(1, OBJECTS), r.pick(names).clone())),
        3..=6 => Dir(r.range(1, OBJECTS)),
        _ => Sym(r.pick(names).clone()),
    }
}

fn conflicts(a: &[u8], b: &[u8]) -> bool {
    let under = |a: &[u8], b: &[u8]| b.len() > a.len() && b.starts_with(a) && b[a.len()] == b'/';
    under(a, b) || under(b, a)
}

fn begin(w: &World, r: &mut Rng) -> Vec<Name> {
    let ns = names(r);
    let mut files: Vec<(Name, Content)> = vec![];
    for n in &ns {
        if r.pct(70) && !files.iter().any(|(m, _)| conflicts(m, n)) {
            match content(r, &ns, w.links) {
                Absent => (),
                c => files.push((n.clone(), c)),
            }
        }
    }
    let all: Vec<Name> = files.iter().map(|f| f.0.clone()).collect();
    files.retain(|(_, c)| !matches!(c, Link(to) if all.iter().any(|m| m.len() > to.len() && conflicts(to, m))));
    let stored: Vec<usize> = (1..=OBJECTS).filter(|_| r.pct(75)).collect();
    w.init(&files, &stored);
    if r.pct(40) {
        for d in ["refs/heads", "refs/heads/empty", "refs/tags", "refs/remotes/gone/far", "refs/remotes"] {
            if r.pct(50) && w.fits(format!("{}/x", d).as_bytes()) {
                let _ = std::fs::create_dir_all(w.s.path(d));
            }
        }
    }
    ns
}

fn change(w: &World, r: &mut Rng, ns: &[Name]) {
    if r.pct(10) {
        let o = r.range(1, OBJECTS);
        w.object(o, r.pct(60));
        return;
    }
    let n = r.pick(ns).clone();
    let c = if r.pct(25) { Absent } else { content(r, ns, w.links) };
    let far = matches!(&c, Link(to) if is_dir(&w.file(to)));
    if c == Absent || !far && w.fits(&n) {
        w.set(&n, &c, r.pct(70));
    }
}

pub const ERRNOS: [i32; 7] = [libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::ELOOP, libc::ESTALE, libc::ENFILE];

#[derive(Clone, Copy, Default)]
struct With {
    updates: bool,
    faults: bool,
    seg: bool,
}

/// A context in which what `with` says happens now and then
fn context<'a>(w: &'a World, r: &mut Rng, ns: &[Name], with: With) -> Box<Ctx> {
    let mut c = w.ctx();
    c.no_dtype = r.pct(20);
    if with.updates && r.pct(60) {
        let wp: &'static World = unsafe { &*(w as *const World) };
        let mut r2 = r.fork(7);
        let ns = ns.to_vec();
        let p = *r.pick(&[5, 15, 40]);
        let mut left = 8;
        c.on_boundary = Some(Box::new(move |_, _| {
            while left > 0 && r2.pct(p) {
                left -= 1;
                change(wp, &mut r2, &ns);
            }
        }));
    }
    if with.faults && r.pct(50) {
        c.fault_at = Some((r.below(14), Fault::Errno(*r.pick(&ERRNOS))));
    }
    if with.seg && r.pct(70) {
        c.seg = Some(Seg { rng: r.fork(8), eintr_pct: *r.pick(&[0, 20, 60]), max: *r.pick(&[1, 1, 3, 64]), reads: 0, interrupted: 0 });
    }
    c
}

fn operation(w: &World, t: usize, r: &mut Rng, ns: &[Name], with: With) {
    match r.below(10) {
        0..=1 => {
            w.get(t, r.pick(ns), r.below(6), context(w, r, ns, with));
        }
        2..=4 => {
            let (x, _) = w.get(t, r.pick(ns), r.below(6), context(w, r, ns, with));
            if let Some(x) = x {
                w.peel(t, &x, r.below(3), context(w, r, ns, with));
                if r.pct(15) {
                    // the same reference once more
                    w.peel(t, &x, r.below(3), context(w, r, ns, with));
                }
            }
        }
        5 => {
            let c = match content(r, ns, false) {
                Absent | Bad(_) => Sym(r.pick(ns).clone()),
                c => c,
            };
            let x = w.given(t, &c);
            w.peel(t, &x, r.below(3), context(w, r, ns, with));
        }
        _ => {
            let k = *r.pick(&[Kind::Heads, Kind::Tags, Kind::Remotes, Kind::All, Kind::All]);
            let (v, _) = w.list(t, k, context(w, r, ns, with));
            // every listed name can be passed back
            if let Some(n) = (!v.is_empty()).then(|| r.pick(&v)) {
                let (x, _) = w.get(t, n, r.below(6), context(w, r, ns, With { updates: false, ..with }));
                if let Some(x) = x {
                    w.peel(t, &x, 0, context(w, r, ns, With { updates: false, ..with }));
                }
            }
        }
    }
}

fn history(work: &Path, r: &mut Rng, with: With, src: &str) -> Value {
    let mut w = World::new(work);
    w.links = r.pct(40);
    let ns = begin(&w, r);
    for _ in 0..r.range(3, 14) {
        if r.pct(40) {
            change(&w, r, &ns);
        }
        operation(&w, 1, r, &ns, with);
    }
    w.trace(src)
}

/// Many references, in one folder or in many, or one below many folders
fn wide(work: &Path, r: &mut Rng, i: u64) -> Value {
    let w = World::new(work);
    let under = *r.pick(&["refs/heads", "refs/tags", "refs/remotes/origin"]);
    let mut files: Vec<(Name, Content)> = vec![];
    let n = *r.pick(&[130, 260, 520, 1050]);
    for k in 0..n {
        let name = match i % 3 {
            // enough for several calls which read the folder
            0 => format!("{}/{:05}-{}", under, (k * 7919) % 100_003, "x".repeat(r.below(60))),
            1 => format!("{}/{}/{}/{}", under, k % 17, k % 5, k),
            _ => format!("{}/{}", under, "d/".repeat(k % 400) + "leaf"),
        };
        let name = name.into_bytes();
        if !files.iter().any(|(m, _)| *m == name || conflicts(m, &name)) {
            files.push((name, Dir(r.range(1, OBJECTS))));
        }
    }
    r.shuffle(&mut files);
    let ns: Vec<Name> = files.iter().map(|f| f.0.clone()).collect();
    w.init(&files, &[1]);
    for k in [Kind::All, Kind::Heads, Kind::Tags, Kind::Remotes] {
        let (v, _) = w.list(1, k, context(&w, r, &ns, With::default()));
        if !v.is_empty() {
            let n = r.pick(&v).clone();
            w.get(1, &n, r.below(6), context(&w, r, &ns, With::default()));
        }
    }
    w.trace("wide")
}

/// One operation, failing at every place where it can, then once more without the failure
fn every_failure(work: &Path, r: &mut Rng, put: &mut dyn FnMut(Value)) {
    let seed = r.fork(3);
    let what = r.below(7);
    let mut k = 0;
    while k < 120 {
        let mut hit = false;
        let errnos: Vec<i32> = if k < 12 { ERRNOS.to_vec() } else { vec![*r.pick(&ERRNOS)] };
        for e in errnos {
            let mut r = seed.clone();
            let mut w = World::new(work);
            w.links = r.pct(30);
            let ns = begin(&w, &mut r);
            let n = r.pick(&ns).clone();
            let mut x = None;
            for round in 0..2 {
                let mut c = w.ctx();
                c.no_dtype = seed.clone().pct(30);
                if round == 0 {
                    c.fault_at = Some((k, Fault::Errno(e)));
                }
                let c = match what {
                    0 => w.get(1, &n, k % 6, c).1,
                    1 | 2 => {
                        if x.is_none() {
                            x = Some(w.given(1, &Sym(n.clone())));
                        }
                        w.peel(1, x.as_ref().unwrap(), k % 3, c)
                    }
                    3 => w.list(1, Kind::Heads, c).1,
                    4 => w.list(1, Kind::Tags, c).1,
                    5 => w.list(1, Kind::Remotes, c).1,
                    _ => w.list(1, Kind::All, c).1,
                };
                if round == 0 {
                    hit |= c.fault_hit.is_some();
                }
            }
            put(w.trace("failing"));
        }
        if !hit {
            break;
        }
        k += 1;
    }
}

/// Threads which read, and one which changes references, all running freely
fn threads(work: &Path, r: &mut Rng) -> Value {
    let w = World::new(work);
    let ns = begin(&w, r);
    std::thread::scope(|s| {
        let (w, ns) = (&w, &ns);
        for t in 1..=r.range(1, 3) {
            let mut r = r.fork(t as u64);
            s.spawn(move || {
                for _ in 0..6 {
                    operation(w, t, &mut r, ns, With::default());
                }
            });
        }
        let mut r = r.fork(99);
        s.spawn(move || {
            for _ in 0..14 {
                change(w, &mut r, ns);
                if r.pct(50) {
                    std::thread::sleep(std::time::Duration::from_micros(r.below(150) as u64));
                }
            }
        });
    });
    w.trace("threads")
}

// ---- the real git ----

/// References made by git, which also says what they are: its answers have to fit the specification, too.
/// live: threads read meanwhile
fn with_git(work: &Path, r: &mut Rng, live: bool) -> Value {
    let w = World::new(work);
    let dir = w.s.dir.clone();
    let git = |args: &[&OsStr]| {
        let o = std::process::Command::new("git")
            .args(["-c", "safe.directory=*", "-c", "core.logAllRefUpdates=false", "-C"])
            .arg(&dir)
            .args(args)
            .env("GIT_CONFIG_NOSYSTEM", "1")
            .output()
            .unwrap();
        (o.status.success(), o.stdout)
    };
    let os = |b: &[u8]| OsStr::from_bytes(b).to_os_string();
    w.init(&[], &[1, 2, 3, 4, 5, 6]);
    w.set(b"HEAD", &Sym(b"refs/heads/master".to_vec()), false);
    std::fs::create_dir_all(w.s.path("refs")).unwrap();
    std::fs::write(w.s.path("config"), "[core]\n\trepositoryformatversion = 0\n\tbare = false\n").unwrap();
    let mut ns: Vec<Name> = vec![b"HEAD".to_vec()];
    let mut all = names(r);
    // while git changes x, x.lock is its temporary file
    let lock = |n: &Name| n.windows(5).any(|w| w == b".lock");
    all.retain(|n| n.starts_with(b"refs/") && n != b"refs/stash" && !(live && lock(n)));
    let mut made: HashMap<Name, Content> = HashMap::new();
    made.insert(b"HEAD".to_vec(), Sym(b"refs/heads/master".to_vec()));
    let known: Vec<Name> = all.iter().cloned().chain([b"HEAD".to_vec()]).collect();
    let over = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
    let (w, known, over) = (&w, &known, &over);
    if live {
        for t in 1..=3 {
            let mut r = r.fork(t as u64);
            s.spawn(move || {
                for _ in 0..25 {
                    operation(w, t, &mut r, known, With::default());
                    std::thread::sleep(std::time::Duration::from_micros(r.below(1500) as u64));
                    if over.load(std::sync::atomic::Ordering::SeqCst) {
                        break;
                    }
                }
            });
        }
    }
    let move_at = r.below(8);
    for step in 0..r.range(3, 16) {
        let n = if all.is_empty() { b"refs/heads/master".to_vec() } else { r.pick(&all).clone() };
        let n = if r.pct(15) { b"HEAD".to_vec() } else { n };
        let c = match r.below(10) {
            0 | 1 if n != b"HEAD" => Absent,
            2..=5 => Sym(if all.is_empty() { n.clone() } else { r.pick(&all).clone() }),
            _ if n == b"HEAD" => continue, // must be a commit
            _ if n.starts_with(b"refs/heads/") => Dir(r.range(4, OBJECTS)),
            _ => Dir(r.range(1, OBJECTS)),
        };
        // The event says what git was asked to do; it is withdrawn if git refuses
        let event = json!({"e": "set", "n": proj::bytes(&n), "c": w.content(&c)});
        w.log(event.clone());
        let ok = match &c {
            Absent => git(&[&os(b"update-ref"), &os(b"--no-deref"), &os(b"-d"), &os(&n)]).0,
            Sym(to) => git(&[&os(b"symbolic-ref"), &os(&n), &os(to)]).0,
            Dir(o) => git(&[&os(b"update-ref"), &os(b"--no-deref"), &os(&n), &os(w.objs[o - 1].0.as_bytes())]).0,
            _ => unreachable!(),
        };
        if !ok {
            let mut ev = w.ev.lock().unwrap();
            let mark = ev.iter().rposition(|e| *e == event).unwrap();
            ev.remove(mark);
            drop(ev);
            w.count("refused by git".into());
            continue;
        }
        w.log(json!({"e": "done"}));
        if c == Absent {
            made.remove(&n);
        } else {
            made.insert(n.clone(), c);
        }
        if !ns.contains(&n) {
            ns.push(n);
        }
        w.count("made by git".into());
        if live && r.pct(20) {
            // another file, which is none of the library's business
            git(&[&os(b"pack-refs"), &os(b"--all"), &os(b"--no-prune")]);
        }
        if live && move_at == step {
            // once: the objects move while references to them are followed
            let (ok, _) = git(&[&os(b"repack"), &os(b"-a"), &os(b"-d"), &os(b"-k"), &os(b"-q")]);
            w.count(if ok { "moved by git" } else { "not moved by git" }.into());
        }
        if live {
            continue;
        }
        let p = r.pick(&ns).clone();
        if let (Some(x), _) = w.get(1, &p, r.below(6), w.ctx()) {
            w.peel(1, &x, r.below(3), w.ctx());
        }
        w.list(1, *r.pick(&[Kind::Heads, Kind::Tags, Kind::Remotes, Kind::All]), w.ctx());
    }
    over.store(true, std::sync::atomic::Ordering::SeqCst);
    });
    // what git says (which knows packed references, too)
    if live {
        return w.trace("git-threads");
    }
    for (n, c) in &made {
        let (ok, out) = git(&[&os(b"show-ref"), &os(b"--verify"), &os(b"-s"), &os(b"--"), &os(n)]);
        if ok {
            let k = w.known(std::str::from_utf8(&out).unwrap().trim());
            w.log(json!({"e": "given", "t": 5, "c": w.content(c)}));
            w.log(json!({"e": "peel", "t": 5}));
            w.log(json!({"e": "ret", "t": 5, "r": {"r": "obj", "o": k}}));
            // then the library has to find it
            w.count("resolved by git".into());
        }
    }
    let (ok, out) = git(&[&os(b"for-each-ref"), &os(b"--format=%(refname)"), &os(b"refs/heads"), &os(b"refs/tags"), &os(b"refs/remotes")]);
    let dangling = made.values().any(|c| matches!(c, Sym(_)));
    if ok && !dangling {
        let v: Vec<_> = out.split(|&b| b == b'\n').filter(|l| !l.is_empty()).map(proj::bytes).collect();
        let dirs: Vec<_> = Kind::All.dirs().iter().map(|d| proj::bytes(d.as_bytes())).collect();
        w.log(json!({"e": "list", "t": 5, "dirs": dirs}));
        w.log(json!({"e": "ret", "t": 5, "r": {"r": "names", "names": v}}));
        w.count("listed by git".into());
    }
    for n in &ns {
        if let (Some(x), _) = w.get(1, n, r.below(6), w.ctx()) {
            w.peel(1, &x, r.below(3), w.ctx());
        }
    }
    w.trace("git")
}

pub fn run(a: &Args) {
    let mut r = Rng::new(a.num("seed", 1) ^ 0x1415 ^ (a.num("part", 0) << 20));
    let work = a.work();
    let mut out: Out = a.out();
    io::watch(120);
    for c in a.cases() {
        io::current(|| c.clone());
        let v = if c["k"] == "graph" { graph(&c, &work, &mut r) } else { steps(&c, &work, &mut r) };
        out.put(&v);
    }
    for (what, with) in [
        ("static", With::default()),
        ("updates", With { updates: true, ..With::default() }),
        ("faults", With { updates: true, faults: true, seg: false }),
        ("segments", With { updates: true, faults: false, seg: true }),
    ] {
        for i in 0..a.num(what, 0) {
            io::current(|| json!({what: i}));
            out.put(&history(&work, &mut r, with, what));
        }
    }
    for i in 0..a.num("wide", 0) {
        io::current(|| json!({"wide": i}));
        out.put(&wide(&work, &mut r, i + a.num("part", 0)));
    }
    for i in 0..a.num("failing", 0) {
        io::current(|| json!({"failing": i}));
        every_failure(&work, &mut r, &mut |v| out.put(&v));
    }
    for i in 0..a.num("threads", 0) {
        io::current(|| json!({"threads": i}));
        out.put(&threads(&work, &mut r));
    }
    for i in 0..a.num("git", 0) {
        io::current(|| json!({"git": i}));
        out.put(&with_git(&work, &mut r, i % 3 == 2));
    }
    if let Some(f) = a.get("stats") {
        std::fs::write(f, serde_json::to_vec(&*COUNTS.lock().unwrap()).unwrap()).unwrap();
    }
}
