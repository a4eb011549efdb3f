//! C01-C04: histories of the object database, recorded as calls, returns and what git did.

use std::collections::{HashMap, HashSet};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

use rusty_git::repository::Repository;
use serde_json::{json, Value};

use crate::gen;
use crate::interpose::{self, Class, Ctx, Fault};
use crate::io::{Args, Out};
use crate::pack::{Entry, Pack};
use crate::packs;
use crate::proj;
use crate::repo::{self, deflate, full, sha, Scratch};
use crate::rng::Rng;
use crate::sched::{Sched, Step};

pub struct Obj {
    pub id: String,
    /// None: bytes which are no object
    pub kind: Option<&'static str>,
    pub body: Vec<u8>,
    pub full: Vec<u8>,
    /// What parsing it gives
    pub expect: Option<Value>,
}

impl Obj {
    pub fn new(kind: &'static str, body: Vec<u8>) -> Obj {
        let full = full(kind, &body);
        Obj { id: sha(&full), kind: Some(kind), body, full, expect: None }
    }
    pub fn blob(body: &[u8]) -> Obj {
        Obj::new("blob", body.to_vec())
    }
    pub fn bytes(b: Vec<u8>) -> Obj {
        Obj { id: sha(&b), kind: None, body: vec![], full: b, expect: None }
    }
}

struct PackAt {
    stem: PathBuf,
    pack: Vec<u8>,
    idx: Vec<u8>,
    objs: Vec<usize>,
    has: (bool, bool),
    /// Its number in the history, given again once the pack is gone
    slot: usize,
    gone: bool,
}

/// The specification knows as many packs at a time
const SLOTS: usize = 9;

pub struct World {
    pub s: Scratch,
    pub repo: Repository,
    pub objs: Vec<Obj>,
    packs: Mutex<Vec<PackAt>>,
    gone: Mutex<Vec<usize>>,
    ev: Mutex<Vec<Value>>,
    /// Events go to a file shared with other processes
    shared_log: Option<i32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Loose(usize),
    PackFile(usize),
    Idx(usize),
    RmIdx(usize),
    RmPack(usize),
    Prune(usize),
    Rmdir(usize),
    Tick,
    Probe,
}

fn strip(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.remove("m");
    }
    v
}

pub fn build_pack(objs: &[&Obj], r: &mut Rng) -> Pack {
    let mut es = vec![];
    let mut bases = vec![];
    for (i, o) in objs.iter().enumerate() {
        let base = (0..i).find(|&b| objs[b].kind == o.kind);
        match base {
            Some(b) if r.pct(60) && o.body.len() < 2000 => {
                let (d, _) = packs::delta(r, &objs[b].body, Some(&o.body));
                if r.pct(50) {
                    es.push(Entry::ofs_delta(&o.id, &d));
                    bases.push(Some(b));
                } else {
                    es.push(Entry::ref_delta(&o.id, &objs[b].id, &d));
                    bases.push(None);
                }
            }
            _ => {
                es.push(Entry::base(o.kind.unwrap(), &o.body));
                bases.push(None);
            }
        }
    }
    Pack::layout(2, es, &bases, &[])
}

impl World {
    pub fn new(work: &Path, mut objs: Vec<Obj>) -> World {
        let s = Scratch::new(work);
        // what is parsed from each, found out separately
        if objs.iter().any(|o| o.kind.map_or(false, |k| k != "blob")) {
            let p = Scratch::new(work);
            let repo = p.open();
            for o in &mut objs {
                if o.kind.is_some() {
                    p.put_loose_as(&o.id, &o.full);
                    let v = strip(proj::read(&repo, repo::id(&o.id)));
                    if v["r"] == "ok" {
                        o.expect = Some(v);
                    }
                }
            }
        } else {
            for o in &mut objs {
                if o.kind.is_some() {
                    o.expect = Some(json!({"r": "ok", "t": "blob", "data": proj::bytes(&o.body)}));
                }
            }
        }
        let repo = s.open();
        World { s, repo, objs, packs: Mutex::new(vec![]), gone: Mutex::new(vec![]), ev: Mutex::new(vec![]), shared_log: None }
    }

    pub fn log(&self, v: Value) {
        if let Some(fd) = self.shared_log {
            let mut b = serde_json::to_vec(&v).unwrap();
            b.push(b'\n');
            let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
            assert_eq!(n as usize, b.len());
            return;
        }
        self.ev.lock().unwrap().push(v);
    }

    pub fn trace(&self, src: &str) -> Value {
        json!({"src": src, "ev": *self.ev.lock().unwrap()})
    }

    fn git(&self, ev: Value, f: impl FnOnce()) {
        self.log(ev);
        f();
        self.log(json!({"e": "gitdone"}));
    }

    /// Define a pack (nothing is written)
    pub fn define(&self, objs: &[usize], r: &mut Rng) -> usize {
        let v: Vec<&Obj> = objs.iter().map(|&o| &self.objs[o]).collect();
        let p = build_pack(&v, r);
        let mut ps = self.packs.lock().unwrap();
        let slot = if ps.len() < SLOTS { ps.len() } else { (0..SLOTS).find(|s| ps.iter().all(|p| p.slot != *s || p.gone)).expect("a slot") };
        ps.push(PackAt {
            slot,
            gone: false,
            stem: self.s.path(&format!("objects/pack/{}", p.name())),
            idx: p.index(if r.pct(20) { 1 } else { 2 }, if r.pct(20) { 0 } else { u64::MAX }),
            pack: p.bytes,
            objs: objs.to_vec(),
            has: (false, false),
        });
        ps.len() - 1
    }

    /// The same unless there are no objects, or there is a pack of this name
    pub fn define_other(&self, objs: &[usize], r: &mut Rng) -> Option<usize> {
        if objs.is_empty() || !self.slots_left() {
            return None;
        }
        let p = self.define(objs, r);
        let mut ps = self.packs.lock().unwrap();
        if (0..p).any(|q| ps[q].stem == ps[p].stem && !ps[q].gone) {
            ps.pop();
            return None;
        }
        Some(p)
    }

    fn put_file(&self, to: &Path, b: &[u8]) {
        let t = self.s.dir.join("tmp_git");
        std::fs::write(&t, b).unwrap();
        // Writing a file takes time, and copies can keep the time of the original
        let age = [0, 3, 40, 100_000][b[b.len() - 1] as usize % 4];
        set_mtime(&t, interpose::now() - age);
        repo::read_only(&t);
        std::fs::rename(t, to).unwrap();
    }

    pub fn loose_path(&self, o: usize) -> PathBuf {
        self.s.path(&Scratch::loose_rel(&self.objs[o].id))
    }

    pub fn act(&self, a: &Act) {
        match *a {
            Act::Tick => interpose::advance_clock(3000),
            Act::Probe => self.probe(),
            Act::Loose(o) => self.git(json!({"e": "git", "a": "loose", "s": [o + 1]}), || {
                if !self.loose_path(o).exists() {
                    self.s.put_loose_as(&self.objs[o].id, &self.objs[o].full)
                }
            }),
            Act::Prune(o) => self.git(json!({"e": "git", "a": "prune", "s": [o + 1]}), || {
                let _ = std::fs::remove_file(self.loose_path(o));
            }),
            // as git prune-packed does; a write may fail if this happens to it more than once
            Act::Rmdir(o) => {
                let mut gone = self.gone.lock().unwrap();
                if !gone.contains(&o) && std::fs::remove_dir(self.loose_path(o).parent().unwrap()).is_ok() {
                    gone.push(o);
                }
            }
            Act::PackFile(p) => {
                let mut ps = self.packs.lock().unwrap();
                let k = &mut ps[p];
                if !k.has.0 {
                    assert!(!k.has.1);
                    self.put_file(&k.stem.with_extension("pack"), &k.pack);
                    k.has.0 = true;
                }
            }
            Act::Idx(p) => {
                let mut ps = self.packs.lock().unwrap();
                let k = &mut ps[p];
                if k.has == (true, false) {
                    k.has.1 = true;
                    let s: Vec<usize> = k.objs.iter().map(|o| o + 1).collect();
                    self.git(json!({"e": "git", "a": "pack", "p": k.slot + 1, "s": s}), || {
                        self.put_file(&k.stem.with_extension("idx"), &k.idx)
                    });
                }
            }
            Act::RmIdx(p) | Act::RmPack(p) => {
                let mut ps = self.packs.lock().unwrap();
                let k = &mut ps[p];
                let was = k.has;
                let f = if matches!(a, Act::RmIdx(_)) {
                    k.has.1 = false;
                    k.stem.with_extension("idx")
                } else {
                    k.has.0 = false;
                    k.stem.with_extension("pack")
                };
                if was == (true, true) {
                    self.git(json!({"e": "git", "a": "drop", "p": k.slot + 1}), || {
                        let _ = std::fs::remove_file(f);
                    });
                } else {
                    let _ = std::fs::remove_file(f);
                }
            }
        }
    }

    pub fn add_pack(&self, p: usize) {
        self.act(&Act::PackFile(p));
        self.act(&Act::Idx(p));
    }
    pub fn drop_pack(&self, p: usize, idx_first: bool) {
        let (a, b) = (Act::RmIdx(p), Act::RmPack(p));
        let (a, b) = if idx_first { (a, b) } else { (b, a) };
        self.act(&a);
        self.act(&b);
        self.packs.lock().unwrap()[p].gone = true;
    }

    pub fn slots_left(&self) -> bool {
        let ps = self.packs.lock().unwrap();
        ps.len() < SLOTS || (0..SLOTS).any(|s| ps.iter().all(|p| p.slot != s || p.gone))
    }

    fn in_pack(&self, o: usize) -> bool {
        self.packs.lock().unwrap().iter().any(|p| p.has == (true, true) && p.objs.contains(&o))
    }

    /// What is stored, found by reading the files
    pub fn probe_one(&self, o: usize) {
        let r = match std::fs::read(self.loose_path(o)) {
            Ok(b) => {
                let (d, z, _) = packs::inflate(&b);
                if z == "ok" && d == self.objs[o].full {
                    "complete"
                } else {
                    "bad"
                }
            }
            Err(_) if self.in_pack(o) => "complete",
            Err(_) => "absent",
        };
        self.log(json!({"e": "probe", "o": o + 1, "r": r}));
    }
    pub fn probe(&self) {
        for o in 0..self.objs.len() {
            self.probe_one(o);
        }
    }

    /// git reads every object
    pub fn git_reads(&self) {
        let ids: Vec<usize> = (0..self.objs.len())
            // git knows the empty tree without reading it
            .filter(|&o| self.objs[o].kind.is_some() && !self.objs[o].body.is_empty())
            .collect();
        for &o in &ids {
            self.log(json!({"e": "call", "t": 6, "op": "read", "o": o + 1, "fresh": true}));
            let out = std::process::Command::new("git")
                .args(["-c", "safe.directory=*", "-C"])
                .arg(&self.s.dir)
                .args(["cat-file", self.objs[o].kind.unwrap(), &self.objs[o].id])
                .output()
                .unwrap();
            let r = if out.status.success() {
                if out.stdout == self.objs[o].body {
                    "ok"
                } else {
                    "wrong"
                }
            } else {
                "nf"
            };
            self.ret(6, r, true);
        }
    }

    fn ret(&self, t: usize, r: &str, touched: bool) {
        self.log(json!({"e": "ret", "t": t, "r": r, "touched": touched}));
    }

    fn ctx(&self) -> Box<Ctx> {
        Box::new(Ctx { root: self.s.root(), ..Ctx::default() })
    }

    fn judge_read(&self, o: usize, repo: &Repository, raw: bool) -> &'static str {
        let ob = &self.objs[o];
        if raw || ob.expect.is_none() {
            match proj::raw(repo, repo::id(&ob.id)) {
                Ok(b) if b == ob.full || (ob.kind.is_some() && b == ob.body) => "ok",
                Ok(_) => "wrong",
                Err(v) => match v["r"].as_str().unwrap() {
                    "nf" => "nf",
                    "err" => "err",
                    _ => "panic",
                },
            }
        } else {
            let v = strip(proj::read(repo, repo::id(&ob.id)));
            match v["r"].as_str().unwrap() {
                "ok" if Some(&v) == ob.expect.as_ref() => "ok",
                "ok" => "wrong",
                "nf" => "nf",
                "err" => "err",
                _ => "panic",
            }
        }
    }

    pub fn read(&self, t: usize, o: usize, fresh: bool, raw: bool, ctx: Box<Ctx>) -> (&'static str, Box<Ctx>) {
        self.log(json!({"e": "call", "t": t, "op": "read", "o": o + 1, "fresh": fresh}));
        let mine;
        let repo = if fresh {
            mine = self.s.open();
            &mine
        } else {
            &self.repo
        };
        let (r, ctx) = interpose::armed(ctx, || self.judge_read(o, repo, raw));
        if ctx.fault_hit.is_some() {
            self.log(json!({"e": "fault", "t": t}));
        }
        self.ret(t, r, true);
        (r, ctx)
    }

    fn judge_write(&self, o: usize, repo: &Repository) -> &'static str {
        let mut got = None;
        let v = proj::guard(|| match repo.object_database().write_object(&self.objs[o].full) {
            Ok(i) => {
                got = Some(i.to_hex());
                json!({"r": "ok"})
            }
            Err(e) => {
                let _ = proj::err_chain(&e);
                json!({"r": "err"})
            }
        });
        match v["r"].as_str().unwrap() {
            "ok" if got.as_deref() == Some(&self.objs[o].id) => "ok",
            "ok" => "wrong",
            "err" => "err",
            _ => "panic",
        }
    }

    /// `alone`: nothing else happens meanwhile, so the modification time can be looked at
    pub fn write(&self, t: usize, o: usize, alone: bool, ctx: Box<Ctx>) -> (&'static str, Box<Ctx>) {
        let path = self.loose_path(o);
        let old = alone && path.exists() && !self.in_pack(o);
        if old {
            set_mtime(&path, 1_000_000_000);
        }
        self.log(json!({"e": "call", "t": t, "op": "write", "o": o + 1, "fresh": false}));
        let real = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        let before = (real(), interpose::now());
        let (r, ctx) = interpose::armed(ctx, || self.judge_write(o, &self.repo));
        if ctx.fault_hit.is_some() {
            self.log(json!({"e": "fault", "t": t}));
        }
        // The time may be the kernel's or that of the (virtual) clock
        let recent = |(a, b): (i64, i64)| (a - 1..=b + 1).contains(&mtime(&path));
        let touched = !old || r != "ok" || ctx.fault_hit.is_some() || recent((before.0, real())) || recent((before.1, interpose::now()));
        self.ret(t, r, touched);
        (r, ctx)
    }
}

fn set_mtime(p: &Path, secs: i64) {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    let t = libc::timespec { tv_sec: secs, tv_nsec: 0 };
    unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [t, t].as_ptr(), 0) };
}

fn mtime(p: &Path) -> i64 {
    use std::os::unix::fs::MetadataExt;
    std::fs::metadata(p).map_or(0, |m| m.mtime())
}

// ---- sequential histories ----

fn small(n: usize) -> Vec<Obj> {
    (0..n).map(|i| Obj::blob(format!("object number {} of a history, with a common text", i).as_bytes())).collect()
}

/// Replay a history generated by TLC
fn replay_hist(h: &Value, work: &Path, r: &mut Rng) -> Value {
    let w = World::new(work, small(2));
    for s in h["hist"].as_array().unwrap() {
        let o = s[1].as_u64().unwrap().saturating_sub(1) as usize;
        step(&w, s[0].as_str().unwrap(), o, r);
    }
    w.probe();
    w.trace("history")
}

fn step(w: &World, what: &str, o: usize, r: &mut Rng) {
    let loose: Vec<usize> = (0..w.objs.len()).filter(|&o| w.objs[o].kind.is_some() && w.loose_path(o).exists()).collect();
    let present = |w: &World| -> Vec<usize> {
        let ps = w.packs.lock().unwrap();
        (0..ps.len()).filter(|&p| ps[p].has == (true, true)).collect()
    };
    let pack_of = |w: &World, objs: &[usize], r: &mut Rng| {
        let p = w.define_other(objs, r)?;
        w.add_pack(p);
        Some(p)
    };
    match what {
        "write" => {
            w.write(1, o, true, w.ctx());
        }
        "read" => {
            w.read(1, o, false, r.pct(40), w.ctx());
        }
        "fresh" => {
            w.read(1, o, true, r.pct(40), w.ctx());
        }
        "git" => w.act(&Act::Loose(o)),
        "pack" => {
            if pack_of(w, &loose, r).is_some() {
                for o in loose {
                    w.act(&Act::Prune(o));
                    w.act(&Act::Rmdir(o));
                }
            }
        }
        "copy" => {
            pack_of(w, &loose, r);
        }
        "some" => {
            let mut all: Vec<usize> = (0..w.objs.len()).filter(|&o| w.objs[o].kind.is_some() && (loose.contains(&o) || w.in_pack(o))).collect();
            r.shuffle(&mut all);
            all.truncate(r.range(1, 3));
            pack_of(w, &all, r);
        }
        "one" => {
            // a pack goes whose objects are stored elsewhere
            let ps = present(w);
            let p = ps.into_iter().find(|&p| {
                let all = w.packs.lock().unwrap();
                all[p].objs.iter().all(|o| loose.contains(o) || (0..all.len()).any(|q| q != p && all[q].has == (true, true) && all[q].objs.contains(o)))
            });
            if let Some(p) = p {
                w.drop_pack(p, r.pct(50));
            }
        }
        "prune" => {
            for o in loose {
                if w.in_pack(o) {
                    w.act(&Act::Prune(o));
                    w.act(&Act::Rmdir(o));
                }
            }
        }
        "unpack" => {
            for p in present(w) {
                let objs = w.packs.lock().unwrap()[p].objs.clone();
                for o in objs {
                    w.act(&Act::Loose(o));
                }
                w.drop_pack(p, r.pct(50));
            }
        }
        "repack" => {
            let old = present(w);
            let mut all: Vec<usize> = old.iter().flat_map(|&p| w.packs.lock().unwrap()[p].objs.clone()).collect();
            all.sort();
            all.dedup();
            r.shuffle(&mut all);
            if pack_of(w, &all, r).is_some() {
                for p in old {
                    w.drop_pack(p, r.pct(50));
                }
            }
        }
        "delete" => {
            w.act(&Act::Prune(o));
            w.act(&Act::Rmdir(o));
        }
        "tick" => w.act(&Act::Tick),
        x => panic!("{}", x),
    }
}

fn random_obj(r: &mut Rng, n: usize) -> Obj {
    match r.below(10) {
        0 => {
            let l = *r.pick(&[0, 1, 5, 300]);
            let mut b = r.bytes(l);
            if l > 0 || n > 0 {
                b.push(n as u8);
            }
            Obj::bytes(b)
        }
        1 => Obj::blob(b""),
        2 => {
            // grows when compressed
            let l = *r.pick(&[8000, 32767, 65535, 65536, 100_000, 300_000]);
            Obj::blob(&r.bytes(l))
        }
        3 => {
            let l = *r.pick(&[8192, 65536, 262_144]);
            Obj::blob(&vec![r.byte(); l])
        }
        4..=5 => {
            let k = *r.pick(&["commit", "tree", "tag"]);
            let b = gen::object(r, k);
            Obj::new(k, b)
        }
        _ => {
            let l = r.range(1, 400);
            let mut b = r.bytes(l);
            b.push(n as u8);
            Obj::blob(&b)
        }
    }
}

fn random_hist(work: &Path, r: &mut Rng, git: bool, large: bool) -> Value {
    let mut objs: Vec<Obj> = vec![];
    if large {
        let l = *r.pick(&[1 << 20, (1 << 20) + 1, 2_500_000, 5_000_000, 9 << 20]);
        let mut b = r.bytes(l);
        if r.pct(50) {
            // compresses well
            b.iter_mut().for_each(|x| *x &= 3);
        }
        objs.push(Obj::blob(&b));
    }
    for n in 0..r.range(1, 5) {
        let o = random_obj(r, n);
        if objs.iter().all(|p| p.id != o.id) {
            objs.push(o);
        }
    }
    let w = World::new(work, objs);
    let n = w.objs.len();
    for _ in 0..if large { r.range(4, 10) } else { r.range(4, 30) } {
        let o = r.below(n);
        let what = *r.pick(&["write", "write", "write", "read", "read", "fresh", "git", "pack", "copy", "prune", "unpack", "repack", "tick"]);
        step(&w, what, o, r);
        if r.pct(20) {
            w.probe();
        }
    }
    w.probe();
    if git {
        w.git_reads();
    }
    w.trace(if git { "history-git" } else { "history-random" })
}

/// A handle which is used for long while packs come and go
fn life(work: &Path, r: &mut Rng) -> Value {
    let objs = (0..r.range(4, 7)).map(|n| Obj::blob(format!("a long life {}", n).as_bytes())).collect();
    let w = World::new(work, objs);
    let n = w.objs.len();
    for o in 0..n {
        step(&w, if r.pct(50) { "write" } else { "git" }, o, r);
    }
    for _ in 0..r.range(100, 300) {
        let o = r.below(n);
        let what = *r.pick(&["read", "read", "read", "read", "fresh", "write", "git", "pack", "some", "some", "one", "one", "prune", "unpack", "repack", "tick", "delete"]);
        step(&w, what, o, r);
        if ["pack", "repack", "unpack", "one"].contains(&what) {
            step(&w, "read", r.below(n), r);
        }
    }
    w.probe();
    w.trace("life")
}

// ---- crashes and failures ----

/// In a forked child: run f, or die at the boundary
fn in_child(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            let c = f();
            libc::_exit(c);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) {
            libc::WEXITSTATUS(st)
        } else {
            -libc::WTERMSIG(st)
        }
    }
}

fn outcome(c: i32) -> &'static str {
    match c & 31 {
        10 => "ok",
        11 => "err",
        12 => "wrong",
        _ => "panic",
    }
}

fn code(r: &str) -> i32 {
    match r {
        "ok" => 10,
        "err" => 11,
        "wrong" => 12,
        _ => 13,
    }
}

/// A write in a process of its own; None: it died as planned
fn write_in_child(w: &World, t: usize, o: usize, fault: Option<(usize, Fault)>) -> Option<&'static str> {
    write_in_child_with(w, t, o, |ctx| ctx.fault_at = fault)
}

fn write_in_child_with(w: &World, t: usize, o: usize, plan: impl FnOnce(&mut Ctx)) -> Option<&'static str> {
    w.log(json!({"e": "call", "t": t, "op": "write", "o": o + 1, "fresh": false}));
    let c = in_child(|| {
        let mut ctx = w.ctx();
        plan(&mut ctx);
        let (r, ctx) = interpose::armed(ctx, || w.judge_write(o, &w.repo));
        code(r) + if ctx.fault_hit.is_some() { 64 } else { 0 }
    });
    if c == 42 {
        w.log(json!({"e": "crash", "t": t}));
        None
    } else {
        if c > 0 && c & 64 != 0 {
            w.log(json!({"e": "fault", "t": t}));
        }
        w.ret(t, outcome(c), true);
        Some(outcome(c))
    }
}

fn crash_objs(r: &mut Rng, big: bool) -> Vec<Obj> {
    let l = if big { *r.pick(&[40_000, 70_000, 200_000]) } else { r.range(1, 300) };
    let mut v = vec![Obj::blob(&r.bytes(l)), Obj::blob(b"stored before")];
    // one more in the same folder
    for i in 0..100_000 {
        let o = Obj::blob(format!("same folder {}", i).as_bytes());
        if o.id[..2] == v[0].id[..2] {
            v.push(o);
            break;
        }
    }
    v
}

/// Die at every boundary of a write. `state`: what is stored before.
fn crashes(work: &Path, r: &mut Rng, put: &mut dyn FnMut(Value)) {
    for big in [false, true] {
        for state in 0..5 {
            for partial in [false, true] {
                for at in 0.. {
                    let w = World::new(work, crash_objs(r, big));
                    setup(&w, state, r);
                    let fault = if partial { Fault::CrashPartial } else { Fault::Crash };
                    let r1 = write_in_child(&w, 1, 0, Some((at, fault)));
                    w.probe();
                    w.read(2, 0, true, false, w.ctx());
                    // after that by a process with the same number, possibly dying, too
                    let r2 = if r.pct(50) { write_in_child(&w, 1, 0, Some((r.below(at + 2), fault))) } else { None };
                    w.probe();
                    if r2.is_none() {
                        write_in_child(&w, 1, 0, None);
                    }
                    w.probe();
                    for o in 0..w.objs.len() {
                        w.read(2, o, o % 2 == 0, false, w.ctx());
                    }
                    put(w.trace(if partial { "crash-partial" } else { "crash" }));
                    if r1.is_some() {
                        break;
                    }
                }
            }
        }
    }
}

fn setup(w: &World, state: usize, r: &mut Rng) {
    w.act(&Act::Loose(1));
    match state {
        1 => w.act(&Act::Loose(2)), // the folder exists
        2 => w.act(&Act::Loose(0)),
        3 => {
            let p = w.define(&[0, 1], r);
            w.add_pack(p);
        }
        4 => {
            // the object was packed, the empty folder remains
            w.act(&Act::Loose(0));
            let p = w.define(&[0], r);
            w.add_pack(p);
            w.act(&Act::Prune(0));
        }
        _ => (),
    }
}

const ERRNOS: [i32; 9] = [
    libc::ENOSPC, libc::EIO, libc::EACCES, libc::EDQUOT, libc::EROFS, libc::EMFILE, libc::ENOMEM, libc::EPERM, libc::ENAMETOOLONG,
];

/// Every file operation of a write fails once
fn failures(work: &Path, r: &mut Rng, errnos: &[i32], put: &mut dyn FnMut(Value)) {
    for big in [false, true] {
        for state in 0..5 {
            for &errno in errnos {
                for partial in [false, true] {
                    if partial && !big {
                        continue;
                    }
                    for at in 0.. {
                        let w = World::new(work, crash_objs(r, big));
                        setup(&w, state, r);
                        let mut ctx = w.ctx();
                        ctx.fault_at = Some((at, if partial { Fault::PartialThenErrno(errno) } else { Fault::Errno(errno) }));
                        let (_, ctx) = w.write(1, 0, true, ctx);
                        w.probe();
                        w.read(1, 0, r.pct(50), r.pct(50), w.ctx());
                        w.write(1, 0, true, w.ctx());
                        w.probe();
                        for o in 0..w.objs.len() {
                            w.read(1, o, r.pct(50), false, w.ctx());
                        }
                        put(w.trace("failure"));
                        if ctx.fault_hit.is_none() {
                            break;
                        }
                    }
                }
            }
        }
    }
}

/// What can follow a failure
#[derive(Clone, Copy, Debug)]
enum Then {
    /// Everything of this kind fails from then on (a full disk, a file system which was remounted, a lost mount)
    Writes,
    Changes,
    All,
    /// Another failure, or the end of the process, so many operations later
    Fail(usize, i32),
    Die(usize),
}

fn errnos() -> Vec<i32> {
    let mut v = ERRNOS.to_vec();
    v.extend([libc::EXDEV, libc::ENOENT, libc::EEXIST, libc::EINTR, libc::EBUSY, libc::EOPNOTSUPP, libc::EINVAL, libc::ENOTDIR]);
    v
}

/// Failures of several file operations of one write
fn combined(work: &Path, r: &mut Rng, n: u64, put: &mut dyn FnMut(Value)) {
    let errnos = errnos();
    for i in 0..n {
        let w = Arc::new(World::new(work, crash_objs(r, i % 2 == 0)));
        setup(&w, r.below(5), r);
        let (at, e) = (r.below(12), *r.pick(&errnos));
        let then = match r.below(8) {
            0 => Then::Writes,
            1 => Then::Changes,
            2 => Then::All,
            3 | 4 => Then::Fail(r.range(1, 6), *r.pick(&errnos)),
            _ => Then::Die(r.range(1, 6)),
        };
        // An interrupted call which is tried for ever is none of the plans
        let e = if matches!(then, Then::Writes | Then::Changes | Then::All) && matches!(e, libc::EINTR | libc::EEXIST) { libc::ENOSPC } else { e };
        let mut k = 0;
        let fail = move |op: &interpose::Op| {
            k += 1;
            let n = k - 1;
            if n <= at {
                return if n == at { Some(e) } else { None };
            }
            match then {
                Then::Writes if op.class == Class::Write => Some(e),
                Then::Changes if op.class.mutates() => Some(e),
                Then::All => Some(e),
                Then::Fail(m, e2) if n == at + m => Some(e2),
                Then::Die(m) if n == at + m => unsafe { libc::_exit(42) },
                _ => None,
            }
        };
        if matches!(then, Then::Die(_)) {
            write_in_child_with(&w, 1, 0, |ctx| ctx.fail = Some(Box::new(fail)));
        } else {
            let mut ctx = w.ctx();
            ctx.fail = Some(Box::new(fail));
            // Meanwhile somebody else may store it
            let (when, w2) = (r.below(16), w.clone());
            ctx.on_boundary = Some(Box::new(move |n, _| {
                if n == when {
                    w2.act(&Act::Loose(0));
                }
            }));
            w.write(1, 0, false, ctx);
        }
        w.probe();
        w.read(1, 0, r.pct(50), r.pct(50), w.ctx());
        w.write(1, 0, true, w.ctx());
        w.probe();
        for o in 0..w.objs.len() {
            w.read(1, o, r.pct(50), false, w.ctx());
        }
        put(w.trace("failures-combined"));
    }
}

/// git removes folders which are empty, also the one a write is about to use
fn folder_removed(work: &Path, r: &mut Rng, put: &mut dyn FnMut(Value)) {
    for twice in [false, true] {
        for at in 0..40 {
            let w = Arc::new(World::new(work, crash_objs(r, at % 4 == 3)));
            setup(&w, if r.pct(70) { 0 } else { r.below(5) }, r);
            let mut ctx = w.ctx();
            let (w2, gap) = (w.clone(), r.range(1, 4));
            let over = Arc::new(std::sync::atomic::AtomicBool::new(true));
            let over2 = over.clone();
            ctx.on_boundary = Some(Box::new(move |n, _| {
                if n == at || twice && n == at + gap {
                    over2.store(false, std::sync::atomic::Ordering::SeqCst);
                    if std::fs::remove_dir(w2.loose_path(0).parent().unwrap()).is_ok() && twice {
                        // git gives up, too, if this happens again and again
                        w2.log(json!({"e": "fault", "t": 1}));
                    }
                }
            }));
            w.write(1, 0, false, ctx);
            w.probe();
            w.read(1, 0, r.pct(50), r.pct(50), w.ctx());
            w.write(1, 0, true, w.ctx());
            w.probe();
            for o in 0..w.objs.len() {
                w.read(1, o, r.pct(50), false, w.ctx());
            }
            put(w.trace("folder-removed"));
            if over.load(std::sync::atomic::Ordering::SeqCst) {
                break;
            }
        }
    }
}

/// A failure of any kind at any operation, and the end of the process at any place after it
fn failed_and_died(work: &Path, r: &mut Rng, part: usize, parts: usize, put: &mut dyn FnMut(Value)) {
    let mut n = 0;
    for at in 0.. {
        let mut hit = false;
        for e in errnos() {
            n += 1;
            if n % parts != part && e != libc::EIO {
                continue;
            }
            for m in 1.. {
                let w = World::new(work, crash_objs(r, n % 4 == 3));
                setup(&w, 0, r);
                let mut k = 0;
                let fail = move |_: &interpose::Op| {
                    k += 1;
                    match k - 1 {
                        n if n == at => Some(e),
                        n if n == at + m => unsafe { libc::_exit(42) },
                        _ => None,
                    }
                };
                let done = write_in_child_with(&w, 1, 0, |ctx| ctx.fail = Some(Box::new(fail)));
                hit |= done.is_none() || w.ev.lock().unwrap().iter().any(|e| e["e"] == "fault");
                w.probe();
                w.read(1, 0, r.pct(50), r.pct(50), w.ctx());
                w.write(1, 0, true, w.ctx());
                w.probe();
                for o in 0..w.objs.len() {
                    w.read(1, o, r.pct(50), false, w.ctx());
                }
                put(w.trace("failed-died"));
                // A call which is tried for ever: EINTR once only
                if done.is_some() || m > 40 {
                    break;
                }
            }
        }
        if !hit || at > 60 {
            break;
        }
    }
}

// ---- git acting while an object is read ----

struct Scenario {
    name: &'static str,
    /// before opening the handle / after it was used
    before: Vec<Act>,
    after: Vec<Act>,
    warm: bool,
    acts: Vec<Act>,
    packs: Vec<Vec<usize>>,
    obj: usize,
}

fn scenarios() -> Vec<Scenario> {
    use Act::*;
    let mut v = vec![];
    for warm in [false, true] {
        for tick in [false, true] {
            for rev in [false, true] {
                let drop = |p: usize| if rev { vec![RmPack(p), RmIdx(p)] } else { vec![RmIdx(p), RmPack(p)] };
                let t = |mut a: Vec<Act>| {
                    if tick {
                        a.push(Tick);
                    }
                    a
                };
                let mk = |p: usize| vec![PackFile(p), Idx(p)];
                let cat = |x: Vec<Vec<Act>>| x.concat();
                // packs: 0 = {0}, 1 = {0, 1}, 2 = {1}, 3 = {0, 2}
                let packs = vec![vec![0], vec![0, 1], vec![1], vec![2, 0]];
                let mut add = |name, before: Vec<Act>, after: Vec<Act>, acts: Vec<Act>| {
                    v.push(Scenario { name, before, after: t(after), warm, acts, packs: packs.clone(), obj: 0 })
                };
                if !rev {
                    add("loose-to-pack", vec![Loose(0)], vec![], cat(vec![mk(0), vec![Prune(0), Rmdir(0)]]));
                    add("loose-to-pack-2", cat(vec![vec![Loose(0)], mk(2)]), vec![], cat(vec![mk(0), vec![Prune(0)]]));
                    add("deleted", vec![Loose(0)], vec![], vec![Prune(0)]);
                    add("appears", vec![], vec![], vec![Loose(0)]);
                    add("appears-packed", vec![], vec![], mk(0));
                }
                add("pack-to-pack", mk(0), vec![], cat(vec![mk(1), drop(0)]));
                add("new-pack-to-pack", vec![], mk(0), cat(vec![mk(1), drop(0)]));
                add("pack-to-loose", mk(1), vec![], cat(vec![vec![Loose(0)], drop(1)]));
                add("new-pack-to-loose", vec![], mk(1), cat(vec![vec![Loose(0)], drop(1)]));
                add("other-packs-go", cat(vec![mk(2), mk(0)]), vec![], cat(vec![drop(2)]));
                add("other-packs-come-and-go", cat(vec![vec![Loose(0)], mk(2)]), vec![], cat(vec![mk(1), drop(2)]));
                add("all-packed", cat(vec![vec![Loose(0)], mk(2)]), vec![], cat(vec![mk(1), drop(2), vec![Prune(0), Rmdir(0)]]));
                add("all-packed-before", cat(vec![vec![Loose(0)], mk(2)]), cat(vec![mk(1), drop(2), vec![Prune(0)]]), vec![]);
                add("duplicate-goes", cat(vec![vec![Loose(0)], mk(0)]), vec![], drop(0));
                add("one-of-two-packs-goes", cat(vec![mk(0), mk(1)]), vec![], drop(0));
                add("one-of-two-new-packs-goes", vec![], cat(vec![mk(0), mk(1)]), drop(1));
                add("all-into-one", cat(vec![mk(0), mk(2)]), vec![], cat(vec![mk(3), mk(1), drop(0), drop(2)]));
                add("twice", vec![Loose(0)], vec![], cat(vec![mk(0), vec![Prune(0), Rmdir(0)], mk(1), drop(0)]));
                add("pack-deleted", mk(0), vec![], drop(0));
            }
        }
    }
    v
}

/// Any sequence of git's changes before a read, and one move of the object during it
fn anyhow(r: &mut Rng) -> Scenario {
    use Act::*;
    let packs = vec![vec![0], vec![0, 1], vec![1], vec![2, 0]];
    let has = [true, true, false, true];
    let (mut disk, mut loose) = ([false; 4], false);
    let gone = |r: &mut Rng, p: usize| if r.pct(50) { [RmPack(p), RmIdx(p)] } else { [RmIdx(p), RmPack(p)] };
    let mut some = |r: &mut Rng, v: &mut Vec<Act>, n: usize, disk: &mut [bool; 4], loose: &mut bool| {
        for _ in 0..n {
            let p = r.below(4);
            let packed = (0..4).filter(|&q| disk[q] && has[q]).count();
            match r.below(7) {
                0 | 1 if !disk[p] => {
                    v.extend([PackFile(p), Idx(p)]);
                    disk[p] = true;
                }
                2 | 3 if disk[p] && (!has[p] || *loose || packed > 1 || packed == 0) => {
                    v.extend(gone(r, p));
                    disk[p] = false;
                }
                4 if !*loose => {
                    v.push(Loose(0));
                    *loose = true;
                }
                5 if *loose && packed > 0 => {
                    v.push(Prune(0));
                    *loose = false;
                }
                6 => v.push(Tick),
                _ => (),
            }
        }
    };
    let (mut before, mut after, mut acts) = (vec![], vec![], vec![]);
    let n = r.below(9);
    some(r, &mut before, n, &mut disk, &mut loose);
    if !loose && !(0..4).any(|p| disk[p] && has[p]) {
        before.push(Loose(0));
        loose = true;
    }
    let n = r.below(9);
    some(r, &mut after, n, &mut disk, &mut loose);
    // to a new place, away from the old ones
    let old: Vec<usize> = (0..4).filter(|&p| disk[p] && has[p]).collect();
    let new: Vec<usize> = (0..4).filter(|&p| !disk[p] && has[p]).collect();
    let was_loose = loose;
    let other = |r: &mut Rng, acts: &mut Vec<Act>, disk: &mut [bool; 4]| {
        if r.pct(30) {
            if disk[2] {
                acts.extend(gone(r, 2));
            } else {
                acts.extend([PackFile(2), Idx(2)]);
            }
            disk[2] = !disk[2];
        }
    };
    other(r, &mut acts, &mut disk);
    if loose && !new.is_empty() || !loose && !new.is_empty() && r.pct(60) {
        let p = *r.pick(&new);
        acts.extend([PackFile(p), Idx(p)]);
    } else if !loose {
        acts.push(Loose(0));
    } else {
        return Scenario { name: "anyhow", before, after, warm: r.pct(70), acts, packs, obj: 0 };
    }
    other(r, &mut acts, &mut disk);
    let mut away: Vec<Vec<Act>> = old.iter().map(|&p| gone(r, p).to_vec()).collect();
    if was_loose {
        away.push(vec![Prune(0)]);
    }
    r.shuffle(&mut away);
    for a in away {
        acts.extend(a);
        other(r, &mut acts, &mut disk);
    }
    Scenario { name: "anyhow", before, after, warm: r.pct(70), acts, packs, obj: 0 }
}

/// One read of the scenario, with git acting at these file operations
fn run_moves(work: &Path, s: &Scenario, at: &[usize], r: &mut Rng) -> (usize, Value) {
    let w = Arc::new(World::new(work, small(3)));
    for p in &s.packs {
        w.define(p, r);
    }
    for a in &s.before {
        w.act(a);
    }
    if s.warm {
        // something which is not there: everything has been looked at
        w.read(1, 2, false, false, w.ctx());
    }
    for a in &s.after {
        w.act(a);
    }
    let mut ctx = w.ctx();
    let (w2, acts, at2) = (w.clone(), s.acts.clone(), at.to_vec());
    let next = Arc::new(Mutex::new(0usize));
    let n2 = next.clone();
    ctx.on_boundary = Some(Box::new(move |n, _| {
        let mut k = n2.lock().unwrap();
        while *k < acts.len() && at2[*k] <= n {
            w2.act(&acts[*k]);
            *k += 1;
        }
    }));
    let raw = r.pct(30);
    let (_, ctx) = w.read(1, s.obj, false, raw, ctx);
    let n = ctx.boundaries;
    drop(ctx);
    let k = *next.lock().unwrap();
    for a in &s.acts[k..] {
        w.act(a);
    }
    w.read(1, s.obj, false, raw, w.ctx());
    w.read(1, s.obj, true, !raw, w.ctx());
    w.probe();
    (n, w.trace(s.name))
}

fn moves(work: &Path, r: &mut Rng, limit: usize, part: (usize, usize), put: &mut dyn FnMut(Value)) {
    for (k, s) in scenarios().into_iter().enumerate() {
        if k % part.1 != part.0 {
            continue;
        }
        let run = |at: &[usize], r: &mut Rng| run_moves(work, &s, at, r);
        let never = vec![usize::MAX; s.acts.len()];
        let (n, t) = run(&never, r);
        put(t);
        // all ways of placing the actions, in order, at the boundaries
        let m = s.acts.len();
        let width = n + 8;
        let mut count: f64 = 1.0;
        for k in 0..m {
            count = count * (width + k) as f64 / (k + 1) as f64;
        }
        if count <= limit as f64 {
            let mut at = vec![0usize; m];
            'all: loop {
                put(run(&at, r).1);
                let mut k = m;
                loop {
                    if k == 0 {
                        break 'all;
                    }
                    k -= 1;
                    if at[k] + 1 < width {
                        let x = at[k] + 1;
                        for y in at.iter_mut().skip(k) {
                            *y = x;
                        }
                        break;
                    }
                }
            }
        } else {
            for _ in 0..limit {
                let mut at: Vec<usize> = (0..m).map(|_| r.below(width)).collect();
                if r.pct(50) {
                    // close together
                    let b = r.below(width);
                    at = (0..m).map(|_| b + r.below(3)).collect();
                }
                at.sort();
                put(run(&at, r).1);
            }
        }
    }
}

// ---- threads under a schedule ----

pub enum Op {
    Read(usize, bool),
    Write(usize),
    Acts(Vec<Act>),
}

/// Runs the programs of the threads, `choose` says who acts next.
pub fn scheduled(w: Arc<World>, programs: Vec<Vec<Op>>, choose: &mut dyn FnMut(&[usize], &Sched) -> Option<usize>) {
    let n = programs.len();
    let s = Arc::new(Sched::new(n));
    let mut hs = vec![];
    for (t, p) in programs.into_iter().enumerate() {
        let (w, s) = (w.clone(), s.clone());
        hs.push(std::thread::spawn(move || {
            for op in p {
                match op {
                    Op::Acts(a) => {
                        for a in a {
                            s.gate(t, "git");
                            w.act(&a);
                        }
                    }
                    Op::Read(o, raw) => {
                        s.gate(t, "call");
                        let mut c = w.ctx();
                        c.sched = Some(s.clone());
                        c.tid = t;
                        w.read(t + 1, o, false, raw, c);
                    }
                    Op::Write(o) => {
                        s.gate(t, "call");
                        let mut c = w.ctx();
                        c.sched = Some(s.clone());
                        c.tid = t;
                        w.write(t + 1, o, false, c);
                    }
                }
            }
            s.done(t);
        }));
    }
    let mut idle = 0;
    loop {
        s.quiesce();
        if s.all_done() {
            break;
        }
        let p = s.parked();
        if p.is_empty() {
            idle += 1;
            if idle > 2000 {
                w.log(json!({"e": "hang"}));
                s.release();
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
            continue;
        }
        idle = 0;
        match choose(&p, &s) {
            Some(t) => {
                s.step(t);
            }
            None => {
                // everything has been decided: the rest in turn
                for t in p {
                    s.step(t);
                }
            }
        }
    }
    for h in hs {
        let _ = h.join();
    }
}

/// Replay a schedule of OdbImpl
fn replay_sched(c: &Value, work: &Path, r: &mut Rng) -> Value {
    let hist = c["hist"].as_array().unwrap();
    let init = &hist[0];
    let obj = |v: &Value| if v == "a" { 0 } else { 1 };
    let pk = |v: &Value| if v == "p" { 0 } else { 1 };
    let th = |v: &Value| if v == "t1" { 0 } else { 1 };
    let set = |v: &Value| -> Vec<usize> { v.as_array().unwrap().iter().map(obj).collect() };
    let mut objs = small(3);
    if r.pct(10) {
        objs[0] = Obj::blob(&r.bytes(70_000));
    }
    let w = Arc::new(World::new(work, objs));
    for p in ["p", "q"] {
        let mut s = set(&init["content"][p]);
        s.sort();
        let k = w.define(&s, r);
        let same = k == 1 && {
            let ps = w.packs.lock().unwrap();
            ps[0].stem == ps[1].stem
        };
        if same {
            // the same content: another name
            let mut ps = w.packs.lock().unwrap();
            let e: Vec<&Obj> = s.iter().map(|&o| &w.objs[o]).collect();
            let mut es: Vec<Entry> = e.iter().rev().map(|o| Entry::base("blob", &o.body)).collect();
            es.push(Entry::base("blob", b"filler"));
            let p = Pack::layout(3, es, &[], &[]);
            ps[1].stem = w.s.path(&format!("objects/pack/{}", p.name()));
            ps[1].idx = p.index(2, u64::MAX);
            ps[1].pack = p.bytes;
        }
    }
    for o in set(&init["folder"]) {
        let _ = std::fs::create_dir_all(w.loose_path(o).parent().unwrap());
    }
    for o in set(&init["loose"]) {
        w.act(&Act::Loose(o));
    }
    let cached: Vec<usize> = init["cache"].as_array().unwrap().iter().map(pk).collect();
    let both: Vec<usize> = ["p", "q"].iter().enumerate().filter(|(_, p)| init["disk"][**p] == "both").map(|x| x.0).collect();
    for &p in &cached {
        w.add_pack(p);
    }
    let recent = init["recent"] == true;
    if recent || !cached.is_empty() {
        w.read(1, 2, false, false, w.ctx());
    }
    if !recent {
        w.act(&Act::Tick);
    }
    for &p in &both {
        if !cached.contains(&p) {
            w.add_pack(p);
        }
    }
    let mut programs = vec![vec![], vec![]];
    for h in &hist[1..] {
        if h["k"] == "call" {
            let o = obj(&h["o"]);
            programs[th(&h["t"])].push(if h["op"] == "read" { Op::Read(o, r.pct(30)) } else { Op::Write(o) });
        }
    }
    let mut at = 1;
    let mut tries = 0;
    let w2 = w.clone();
    scheduled(w.clone(), programs, &mut |parked, s| {
        while at < hist.len() {
            let h = &hist[at];
            match h["k"].as_str().unwrap() {
                "call" => {
                    at += 1;
                    tries = 0;
                    let t = th(&h["t"]);
                    if parked.contains(&t) {
                        return Some(t);
                    }
                }
                "step" => {
                    let t = th(&h["t"]);
                    let Some(op) = s.at(t).filter(|_| parked.contains(&t)) else {
                        at += 1;
                        tries = 0;
                        continue;
                    };
                    let want: &[Class] = match h["l"].as_str().unwrap() {
                        "mkdir" => &[Class::Mkdir],
                        "stat" => &[Class::Stat],
                        "create" | "recreate" => &[Class::Create],
                        "remake" => &[Class::Mkdir],
                        "write" => &[Class::Write],
                        "rename" => &[Class::Rename, Class::Link],
                        "list" => &[Class::OpenDir, Class::ReadDir],
                        _ => &[Class::OpenRead],
                    };
                    if op.path == "call" {
                        at += 1;
                        tries = 0;
                        continue;
                    }
                    if want.contains(&op.class) || tries > 12 {
                        at += 1;
                        tries = 0;
                    } else {
                        tries += 1;
                    }
                    return Some(t);
                }
                k => {
                    at += 1;
                    tries = 0;
                    let p = || pk(&h["p"]);
                    match k {
                        "tick" => w2.act(&Act::Tick),
                        "mkpack" => w2.act(&Act::PackFile(p())),
                        "mkidx" => w2.act(&Act::Idx(p())),
                        "drop" => {
                            if h["how"] == "idx" {
                                w2.act(&Act::RmPack(p()))
                            } else {
                                w2.drop_pack(p(), true)
                            }
                        }
                        "dropidx" => w2.act(&Act::RmIdx(p())),
                        "prune" => w2.act(&Act::Prune(obj(&h["o"]))),
                        "rmdir" => w2.act(&Act::Rmdir(obj(&h["o"]))),
                        "unpack" => w2.act(&Act::Loose(obj(&h["o"]))),
                        x => panic!("{}", x),
                    }
                }
            }
        }
        None
    });
    w.probe();
    w.trace("schedule")
}

/// Two or three threads; switches at all (pairs of) places
fn pairs(work: &Path, r: &mut Rng, limit: usize, part: (usize, usize), put: &mut dyn FnMut(Value)) {
    let make = |kind: usize, r: &mut Rng| -> (Arc<World>, Vec<Vec<Op>>, &'static str) {
        use Act::*;
        use Op::*;
        let mut objs = crash_objs(r, kind % 2 == 1);
        objs[1] = Obj::blob(b"another one");
        let w = World::new(work, objs);
        let same = vec![vec![Write(0)], vec![Write(0)]];
        let (p, n) = match kind / 2 {
            0 => (same, "write-write"),
            1 => (vec![vec![Write(0)], vec![Read(0, r.pct(50))]], "write-read"),
            2 => (vec![vec![Write(0), Read(0, false)], vec![Write(2), Read(2, true), Read(0, false)]], "write-write-other"),
            3 => {
                let p = w.define(&[0, 1], r);
                w.add_pack(p);
                let q = w.define(&[2], r);
                w.add_pack(q);
                (vec![vec![Read(0, false)], vec![Read(2, true), Read(0, true)]], "read-read")
            }
            4 => {
                let p = w.define(&[0], r);
                (vec![vec![Write(0), Read(0, false)], vec![Acts(vec![Loose(0), PackFile(p), Idx(p), Prune(0), Rmdir(0)])]], "write-pack")
            }
            5 => {
                w.act(&Loose(0));
                let p = w.define(&[0], r);
                (vec![vec![Write(0), Read(0, false)], vec![Acts(vec![PackFile(p), Idx(p), Prune(0), Rmdir(0)]), Read(0, false)]], "rewrite-pack")
            }
            6 => {
                w.act(&Loose(0));
                let p = w.define(&[0], r);
                (vec![vec![Read(0, false)], vec![Read(0, false)], vec![Acts(vec![PackFile(p), Idx(p), Prune(0), Rmdir(0)])]], "read-read-pack")
            }
            7 => {
                let p = w.define(&[0], r);
                w.add_pack(p);
                let q = w.define(&[0, 1], r);
                (vec![vec![Read(0, true)], vec![Read(1, false), Read(0, false)], vec![Acts(vec![PackFile(q), Idx(q), RmIdx(p), RmPack(p)])]], "read-read-repack")
            }
            _ => (vec![vec![Write(0)], vec![Write(0)], vec![Read(0, false), Read(0, true)]], "write-write-read"),
        };
        (Arc::new(w), p, n)
    };
    for kind in (0..18).filter(|k| k % part.1 == part.0) {
        let mut run = |plan: Vec<(usize, usize)>, r: &mut Rng| {
            let (w, p, n) = make(kind, r);
            let k = p.len();
            let mut plan = plan.into_iter().map(|(t, c)| (t % k, c)).collect::<Vec<_>>();
            plan.reverse();
            scheduled(w.clone(), p, &mut |parked, _| {
                while let Some(l) = plan.last_mut() {
                    if l.1 == 0 || !parked.contains(&l.0) {
                        plan.pop();
                        continue;
                    }
                    l.1 -= 1;
                    return Some(l.0);
                }
                None
            });
            w.probe();
            put(w.trace(n));
        };
        // one switch at each place, then two or more at random
        for first in 0..2 {
            for i in 0..14 {
                run(vec![(first, i), (first + 1, 1000), (first, 1000)], r);
            }
        }
        for _ in 0..limit {
            let mut plan = vec![];
            for _ in 0..r.range(2, 6) {
                plan.push((r.below(3), r.range(1, 9)));
            }
            run(plan, r);
        }
    }
}

// ---- processes ----

/// Several processes at once, free running; one appends-only file is the history
fn processes(work: &Path, r: &mut Rng) -> Value {
    let mut objs = vec![];
    for i in 0..3 {
        let l = *r.pick(&[10, 200, 70_000]);
        let mut b = r.bytes(l);
        b.push(i);
        objs.push(Obj::blob(&b));
    }
    let mut w = World::new(work, objs);
    let log = w.s.dir.join("log");
    let c = std::ffi::CString::new(log.as_os_str().as_bytes()).unwrap();
    let fd = unsafe { libc::open(c.as_ptr(), libc::O_CREAT | libc::O_APPEND | libc::O_RDWR, 0o600) };
    w.shared_log = Some(fd);
    let mut pids = vec![];
    for t in 1..=4usize {
        let mut r = r.fork(t as u64);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            if t == 4 {
                // git
                let p = w.define(&[0, 1, 2], &mut r);
                for _ in 0..2 {
                    std::thread::sleep(std::time::Duration::from_micros(r.below(3000) as u64));
                    w.act(&Act::Loose(0));
                    w.act(&Act::Loose(1));
                    w.act(&Act::Loose(2));
                    w.add_pack(p);
                    for o in 0..3 {
                        w.act(&Act::Prune(o));
                        w.act(&Act::Rmdir(o));
                    }
                }
            } else {
                for _ in 0..8 {
                    let o = r.below(3);
                    match r.below(4) {
                        0 | 1 => w.write(t, o, false, w.ctx()),
                        2 => w.read(t, o, true, r.pct(30), w.ctx()),
                        _ => w.read(t, o, false, r.pct(30), w.ctx()),
                    };
                }
            }
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    let mut died = false;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        died |= !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0;
    }
    w.shared_log = None;
    unsafe { libc::close(fd) };
    let mut ev: Vec<Value> =
        std::fs::read_to_string(&log).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    if died {
        ev.push(json!({"e": "died"}));
    }
    *w.ev.lock().unwrap() = ev;
    // the packs of the other process
    w.define(&[0, 1, 2], &mut r.fork(4));
    let stem = w.packs.lock().unwrap()[0].stem.clone();
    w.packs.lock().unwrap()[0].has = (stem.with_extension("pack").exists(), stem.with_extension("idx").exists());
    w.probe();
    w.trace("processes")
}

/// git itself packs and repacks while threads read and write
fn commands(work: &Path, r: &mut Rng) -> Value {
    let mut objs: Vec<Obj> = vec![];
    let mut like = r.bytes(300);
    while objs.len() < 8 {
        let o = if r.pct(60) {
            let at = r.below(like.len());
            like[at] ^= 1 + r.below(200) as u8;
            Obj::blob(&like)
        } else {
            random_obj(r, objs.len())
        };
        if o.kind.is_some() && objs.iter().all(|p| p.id != o.id) {
            objs.push(o);
        }
    }
    let w = Arc::new(World::new(work, objs));
    w.s.put("config", b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n");
    for o in 0..6 {
        w.act(&Act::Loose(o));
    }
    let done = Arc::new(AtomicBool::new(false));
    let threads: Vec<_> = (1..=5usize)
        .map(|t| {
            let (w, done, mut r) = (w.clone(), done.clone(), r.fork(t as u64));
            std::thread::spawn(move || {
                for _ in 0..120 {
                    if done.load(Ordering::SeqCst) {
                        break;
                    }
                    let o = r.below(8);
                    match (t, r.below(4)) {
                        (5, 0) => w.write(t, o, false, w.ctx()),
                        (_, 1) => w.read(t, o, true, r.pct(30), w.ctx()),
                        _ => w.read(t, o, false, r.pct(30), w.ctx()),
                    };
                    std::thread::sleep(std::time::Duration::from_micros(r.below(1500) as u64));
                }
            })
        })
        .collect();
    for _ in 0..r.range(3, 7) {
        let mut a: Vec<String> = vec![];
        if r.pct(50) {
            a.extend(["-c".into(), format!("pack.indexVersion={}", r.pick(&[1, 2])), "-c".into(), "repack.useDeltaBaseOffset=false".into()]);
        }
        let what = *r.pick(&[
            "repack -adkq",
            "repack -adkq",
            "repack -adkfq --depth=4",
            "repack -q --cruft -d",
            "repack -Adq",
            "repack -q --geometric=2 -d",
            "repack -dq",
            "gc -q --no-prune",
            "multi-pack-index write",
            "multi-pack-index repack",
            "prune-packed -q",
        ]);
        a.extend(what.split(' ').map(|x| x.to_string()));
        w.log(json!({"e": "command", "a": what}));
        let out = std::process::Command::new("git")
            .args(["-c", "safe.directory=*", "-c", "gc.auto=0", "-c", "maintenance.auto=false", "-C"])
            .arg(&w.s.dir)
            .args(&a)
            .env("GIT_CONFIG_NOSYSTEM", "1")
            .env("GIT_CONFIG_GLOBAL", "/dev/null")
            .output()
            .unwrap();
        w.log(json!({"e": "exit", "ok": out.status.success()}));
        std::thread::sleep(std::time::Duration::from_micros(r.below(2000) as u64));
    }
    done.store(true, Ordering::SeqCst);
    for t in threads {
        if t.join().is_err() {
            w.log(json!({"e": "died"}));
        }
    }
    for o in 0..8 {
        w.read(1, o, true, false, w.ctx());
        w.read(1, o, false, true, w.ctx());
    }
    w.git_reads();
    w.trace("commands")
}

pub fn run(a: &Args) {
    let mut r = Rng::new(a.num("seed", 1) ^ 0x0d ^ (a.num("part", 0) << 16));
    let work = a.work();
    // As in containers which share a repository
    interpose::FAKE_PID.store(4242, std::sync::atomic::Ordering::SeqCst);
    let mut out: Out = a.out();
    let mut seen: HashSet<String> = HashSet::new();
    let mut total: HashMap<String, usize> = HashMap::new();
    let mut put = |v: Value| {
        *total.entry(v["src"].as_str().unwrap().to_string()).or_default() += 1;
        if seen.insert(v.to_string()) {
            out.put(&v);
        }
    };
    for c in a.cases() {
        put(if c["k"] == "hist" { replay_hist(&c, &work, &mut r) } else { replay_sched(&c, &work, &mut r) });
    }
    for i in 0..a.num("random", 0) {
        put(random_hist(&work, &mut r, i % 8 == 0, i % 64 == 24));
    }
    for _ in 0..a.num("life", 0) {
        put(life(&work, &mut r));
    }
    for _ in 0..a.num("crashes", 0) {
        crashes(&work, &mut r, &mut put);
    }
    let mut errnos = ERRNOS;
    r.shuffle(&mut errnos);
    for e in errnos.iter().take(a.num("failures", 0) as usize) {
        failures(&work, &mut r, &[*e], &mut put);
    }
    combined(&work, &mut r, a.num("combined", 0), &mut put);
    for _ in 0..a.num("folder", 0) {
        folder_removed(&work, &mut r, &mut put);
    }
    let part = (a.num("part", 0) as usize, a.num("parts", 1) as usize);
    if a.num("died", 0) > 0 {
        failed_and_died(&work, &mut r, part.0, part.1, &mut put);
    }
    if a.num("moves", 0) > 0 {
        moves(&work, &mut r, a.num("moves", 0) as usize, part, &mut put);
    }
    for _ in 0..a.num("anyhow", 0) {
        let s = anyhow(&mut r);
        // at once, after all, or in between
        let n = run_moves(&work, &s, &vec![usize::MAX; s.acts.len()], &mut r).0;
        for _ in 0..3 {
            let b = r.below(n + 1);
            let w = *r.pick(&[1, 3, n + 8]);
            let mut at: Vec<usize> = s.acts.iter().map(|_| b + r.below(w)).collect();
            at.sort();
            if r.pct(20) {
                at.fill(0);
            }
            put(run_moves(&work, &s, &at, &mut r).1);
        }
    }
    if a.num("pairs", 0) > 0 {
        pairs(&work, &mut r, a.num("pairs", 0) as usize, part, &mut put);
    }
    for _ in 0..a.num("commands", 0) {
        put(commands(&work, &mut r));
    }
    for _ in 0..a.num("processes", 0) {
        put(processes(&work, &mut r));
    }
    if let Some(f) = a.get("stats") {
        std::fs::write(f, serde_json::to_string(&total).unwrap()).unwrap();
    }
    let _ = deflate(b"");
}
