//! C23: what references lead to, while git works on the repository.

use std::collections::HashMap;
use std::process::Command;
use std::sync::{Arc, Mutex};

use rusty_git::object::{Id, ObjectData};
use rusty_git::reference;
use rusty_git::repository::Repository;
use serde_json::{json, Value};

use crate::interpose::{self, Ctx};
use crate::io::{self, Args, Out};
use crate::odb::{Act, Obj, World};
use crate::proj;
use crate::repo::{self, full, sha, unhex, Scratch};
use crate::rng::Rng;

const BRANCHES: usize = 3;

/// Numbers of trees, commits and files, by id
#[derive(Default)]
struct Known {
    no: HashMap<String, usize>,
    commits: Vec<Value>,
}

impl Known {
    fn of(&self, id: &str) -> usize {
        self.no.get(id).copied().unwrap_or(0)
    }
    fn number(&mut self, id: &str) -> usize {
        let n = self.no.len() + 1;
        *self.no.entry(id.to_string()).or_insert(n)
    }
    fn hex(&self, i: &Id) -> usize {
        self.of(&i.to_hex())
    }
}

/// A commit and its tree as the library decodes it
fn commit(k: &Known, id: &Id, d: &ObjectData, commits: &HashMap<String, usize>) -> Value {
    let ObjectData::Commit(c) = d else {
        return json!({"r": "wrong"});
    };
    let par: Vec<usize> = c.parents().map(|p| commits.get(&p.to_hex()).copied().unwrap_or(0)).collect();
    json!({"r": "ok", "c": commits.get(&id.to_hex()).copied().unwrap_or(0), "tree": k.hex(&c.tree()), "par": par})
}

fn peel(repo: &Repository, b: usize, k: &Known, commits: &HashMap<String, usize>) -> Value {
    proj::guard(|| {
        let db = repo.reference_database();
        let r = if b == 0 { db.head() } else { db.reference(name(b).as_bytes()) };
        match r.and_then(|r| r.peel(repo)) {
            Ok(o) => commit(k, o.id(), o.data(), commits),
            Err(reference::Error::ReferenceNotFound) => json!({"r": "nf"}),
            Err(e) => json!({"r": "err", "m": proj::err_chain(&e)}),
        }
    })
}

fn name(b: usize) -> String {
    format!("refs/heads/{}", ["main", "topic/one", "x"][b - 1])
}

fn list(repo: &Repository) -> Value {
    proj::guard(|| match repo.reference_database().head_reference_names() {
        Ok(l) => {
            let l: Vec<usize> = l.iter().map(|n| (1..=BRANCHES).find(|&b| name(b).as_bytes() == &n[..]).unwrap_or(0)).collect();
            json!({"r": "ok", "l": l})
        }
        Err(e) => json!({"r": "err", "m": proj::err_chain(&e)}),
    })
}

/// Read an object during which git may act
type Around<'a> = &'a mut dyn FnMut(&mut dyn FnMut() -> Value) -> Value;

fn files(repo: &Repository, tree: Id, k: &Known, around: Around, items: &mut Vec<usize>) -> Result<(), Value> {
    let mut entries = vec![];
    let v = around(&mut || {
        entries.clear();
        proj::guard(|| match repo.object_database().parse_object(tree) {
            Ok(o) => match o.data() {
                ObjectData::Tree(t) => {
                    entries.extend(t.entries().map(|e| (e.mode(), e.id())));
                    json!({"r": "ok"})
                }
                _ => json!({"r": "wrong"}),
            },
            Err(e) => json!({"r": "err", "m": proj::err_chain(&e)}),
        })
    });
    if v["r"] != "ok" {
        return Err(v);
    }
    for (mode, id) in entries {
        if mode == 0o40000 {
            files(repo, id, k, around, items)?;
            continue;
        }
        let v = around(&mut || {
            proj::guard(|| match repo.object_database().parse_object(id) {
                Ok(o) => match o.data() {
                    ObjectData::Blob(b) if sha(&full("blob", b.data())) == id.to_hex() => json!({"r": "ok"}),
                    _ => json!({"r": "wrong"}),
                },
                Err(e) => json!({"r": "err", "m": proj::err_chain(&e)}),
            })
        });
        if v["r"] != "ok" {
            return Err(v);
        }
        items.push(k.hex(&id));
    }
    Ok(())
}

fn walk(repo: &Repository, at: &str, k: &Known, commits: &HashMap<String, usize>, around: Around) -> Value {
    let mut tree = None;
    let mut v = around(&mut || {
        proj::guard(|| match repo.object_database().parse_object(repo::id(at)) {
            Ok(o) => {
                if let ObjectData::Commit(c) = o.data() {
                    tree = Some(c.tree());
                }
                commit(k, o.id(), o.data(), commits)
            }
            Err(e) => json!({"r": "err", "m": proj::err_chain(&e)}),
        })
    });
    if let (Some(t), true) = (tree, v["r"] == "ok") {
        let mut items = vec![];
        if let Err(e) = files(repo, t, k, around, &mut items) {
            return e;
        }
        v["items"] = json!(items);
    }
    v
}

// ---- git's steps placed between the file operations of the library ----

struct Git {
    w: World,
    ev: Vec<Value>,
    /// Objects of each commit
    objs: Vec<Vec<usize>>,
    stored: Vec<bool>,
    packs: Vec<(usize, Vec<usize>)>,
    loose: Vec<usize>,
    val: Vec<usize>,
    head: usize,
    moved: bool,
    /// What remains to be removed after a copy was made
    pending: Vec<Remove>,
}

enum Remove {
    Loose(usize),
    Pack(usize, bool),
}

impl Git {
    fn store(&mut self, c: usize, r: &mut Rng) {
        if self.stored[c] {
            return;
        }
        self.stored[c] = true;
        let new: Vec<usize> = self.objs[c].iter().copied().filter(|o| !self.loose.contains(o) && !self.packs.iter().any(|p| p.1.contains(o))).collect();
        if r.pct(30) && self.w.slots_left() && !new.is_empty() {
            // fetched
            if let Some(p) = self.w.define_other(&new, r) {
                self.w.add_pack(p);
                self.packs.push((p, new));
                return;
            }
        }
        for o in new {
            self.w.act(&Act::Loose(o));
            self.loose.push(o);
        }
    }

    fn set(&mut self, b: usize, c: usize) {
        if c == 0 {
            self.w.s.rm(&name(b));
        } else {
            let id = &self.w.objs[self.objs[c - 1][2]].id;
            self.w.s.put_atomic(&name(b), format!("{}\n", id).as_bytes());
        }
        self.val[b - 1] = c;
        self.ev.push(json!({"e": "set", "b": b, "c": c}));
    }

    fn switch(&mut self, b: usize) {
        self.w.s.put_atomic("HEAD", format!("ref: {}\n", name(b)).as_bytes());
        self.head = b;
        self.ev.push(json!({"e": "head", "b": b}));
    }

    fn drop_pending(&mut self) {
        self.moved |= !self.pending.is_empty();
        for x in std::mem::take(&mut self.pending) {
            match x {
                Remove::Loose(o) => self.w.act(&Act::Prune(o)),
                Remove::Pack(p, first) => self.w.drop_pack(p, first),
            }
        }
    }

    /// Objects are copied; the old copies are removed at once or later
    fn relocate(&mut self, r: &mut Rng) {
        if self.moved || !self.pending.is_empty() {
            return;
        }
        self.moved = true;
        if !self.packs.is_empty() && r.pct(35) {
            // unpack
            let (p, objs) = self.packs.remove(r.below(self.packs.len()));
            for &o in &objs {
                self.w.act(&Act::Loose(o));
                self.loose.push(o);
            }
            self.pending.push(Remove::Pack(p, r.pct(50)));
        } else if self.w.slots_left() {
            // repack: all loose objects and some packs become one
            let (old, rest): (Vec<_>, Vec<_>) = self.packs.iter().cloned().partition(|_| r.pct(40));
            let mut objs = self.loose.clone();
            objs.extend(old.iter().flat_map(|p| p.1.clone()));
            r.shuffle(&mut objs);
            let Some(p) = self.w.define_other(&objs, r) else {
                return;
            };
            self.w.add_pack(p);
            self.packs = rest;
            self.packs.push((p, objs));
            for o in std::mem::take(&mut self.loose) {
                self.pending.push(Remove::Loose(o));
            }
            for (p, _) in old {
                self.pending.push(Remove::Pack(p, r.pct(50)));
            }
        }
        if r.pct(50) {
            self.drop_pending();
        }
    }

    fn act(&mut self, r: &mut Rng) {
        match r.below(11) {
            0..=2 => {
                let c = r.below(self.objs.len());
                self.store(c, r);
                // its ancestors, too
                for k in 0..c {
                    self.store(k, r);
                }
                let b = r.range(1, BRANCHES);
                self.set(b, c + 1);
            }
            3 => {
                let b = r.range(1, BRANCHES);
                if self.val[b - 1] != 0 {
                    self.set(b, 0);
                }
            }
            4 | 5 => {
                let b = r.range(1, BRANCHES);
                self.switch(b);
            }
            6 => interpose::advance_clock(3000),
            7 => self.drop_pending(),
            _ => self.relocate(r),
        }
    }
}

fn steps(work: &std::path::Path, r: &mut Rng) -> Value {
    let n = r.range(2, 6);
    let mut objs = vec![];
    let mut of: Vec<Vec<usize>> = vec![];
    let mut k = Known::default();
    let mut commits = HashMap::new();
    let person = "A U Thor <a@example.org> 1112911993 -0700";
    for c in 0..n {
        let blob = Obj::blob(format!("the contents of number {}\n{}", c, "a line which is always there\n".repeat(r.below(40))).as_bytes());
        let mut tree = vec![];
        let mut items = vec![k.number(&blob.id)];
        tree.extend(b"100644 a\0");
        tree.extend(unhex(&blob.id));
        if c > 0 {
            let old: &Obj = &objs[of[r.below(c)][0]];
            items.push(k.number(&old.id));
            tree.extend(b"100755 b\0");
            tree.extend(unhex(&old.id));
        }
        let tree = Obj::new("tree", tree);
        let mut par = vec![];
        if c > 0 && r.pct(90) {
            par.push(c);
        }
        if c > 1 && r.pct(40) {
            par.push(r.range(1, c - 1));
        }
        let mut body = format!("tree {}\n", tree.id);
        for &p in &par {
            body += &format!("parent {}\n", objs[of[p - 1][2]].id);
        }
        body += &format!("author {}\ncommitter {}\n\nNumber {}\n", person, person, c);
        let commit = Obj::new("commit", body.into_bytes());
        commits.insert(commit.id.clone(), c + 1);
        let no = k.number(&tree.id);
        k.commits.push(json!({"tree": no, "par": par, "items": items}));
        of.push(vec![objs.len(), objs.len() + 1, objs.len() + 2]);
        objs.extend([blob, tree, commit]);
    }
    let ids: Vec<String> = of.iter().map(|o| objs[o[2]].id.clone()).collect();
    let w = World::new(work, objs);
    let mut git = Git {
        w,
        ev: vec![],
        stored: vec![false; n],
        objs: of,
        packs: vec![],
        loose: vec![],
        val: vec![0; BRANCHES],
        head: 1,
        moved: false,
        pending: vec![],
    };
    git.w.s.put("HEAD", format!("ref: {}\n", name(1)).as_bytes());
    git.ev.push(json!({"e": "init", "head": 1, "val": vec![0; BRANCHES]}));
    for _ in 0..r.below(4) {
        git.act(r);
        git.moved = false;
    }
    let root = git.w.s.root();
    let repo = git.w.s.open();
    let git = Arc::new(Mutex::new(git));
    let busy = *r.pick(&[0, 8, 25, 60]);
    let ctx = |r: &mut Rng| {
        let mut r = r.fork(77);
        let g = git.clone();
        Box::new(Ctx {
            root: root.clone(),
            on_boundary: Some(Box::new(move |_, _| {
                if r.pct(busy) {
                    g.lock().unwrap().act(&mut r);
                }
            })),
            ..Ctx::default()
        })
    };
    for _ in 0..r.range(6, 30) {
        let _ = r.next();
        if r.pct(40) {
            for _ in 0..r.range(1, 3) {
                let mut g = git.lock().unwrap();
                g.act(r);
                g.moved = false;
            }
        }
        match r.below(10) {
            0..=4 => {
                let b = if r.pct(70) { 0 } else { r.range(1, BRANCHES) };
                git.lock().unwrap().ev.push(json!({"e": "call", "op": "peel", "b": b}));
                let (v, _) = interpose::armed(ctx(r), || peel(&repo, b, &k, &commits));
                let mut g = git.lock().unwrap();
                g.ev.push(ret(v));
                g.moved = false;
            }
            5..=7 => {
                let c = {
                    let g = git.lock().unwrap();
                    let known: Vec<usize> = (0..n).filter(|&c| g.stored[c]).collect();
                    if known.is_empty() {
                        continue;
                    }
                    *r.pick(&known)
                };
                git.lock().unwrap().ev.push(json!({"e": "call", "op": "walk", "b": c + 1}));
                let mut around = |f: &mut dyn FnMut() -> Value| {
                    let _ = r.next();
                    let (v, _) = interpose::armed(ctx(r), f);
                    git.lock().unwrap().moved = false;
                    v
                };
                let v = walk(&repo, &ids[c], &k, &commits, &mut around);
                git.lock().unwrap().ev.push(ret(v));
            }
            8 => {
                git.lock().unwrap().ev.push(json!({"e": "call", "op": "list", "b": 0}));
                let (v, _) = interpose::armed(ctx(r), || list(&repo));
                let mut g = git.lock().unwrap();
                g.ev.push(ret(v));
                g.moved = false;
            }
            // An object which may not be there yet: asking for it changes nothing
            _ => {
                let c = r.below(n);
                let _ = interpose::armed(ctx(r), || proj::read(&repo, repo::id(&ids[c])));
                git.lock().unwrap().moved = false;
            }
        }
    }
    let g = git.lock().unwrap();
    json!({"src": "steps", "commits": k.commits, "ev": g.ev})
}

fn ret(mut v: Value) -> Value {
    v["e"] = json!("ret");
    v
}

// ---- git itself at work, between the operations of a handle which stays open ----

fn git(s: &Scratch, args: &[&str]) -> String {
    let o = Command::new("git")
        .args(["-c", "safe.directory=*", "-c", "gc.auto=0", "-c", "gc.packRefs=false", "-c", "core.hooksPath=/dev/null", "-c", "advice.detachedHead=false", "-C"])
        .arg(&s.dir)
        .args(args)
        .env("GIT_CONFIG_NOSYSTEM", "1")
        .env("GIT_CONFIG_GLOBAL", "/dev/null")
        .env("GIT_AUTHOR_NAME", "A U Thor")
        .env("GIT_AUTHOR_EMAIL", "a@example.org")
        .env("GIT_COMMITTER_NAME", "A U Thor")
        .env("GIT_COMMITTER_EMAIL", "a@example.org")
        .output()
        .expect("git");
    if o.status.success() {
        String::from_utf8_lossy(&o.stdout).into_owned()
    } else {
        String::new()
    }
}

fn real(work: &std::path::Path, r: &mut Rng) -> Value {
    let s = Scratch::new(work);
    s.put("HEAD", format!("ref: {}\n", name(1)).as_bytes());
    s.put("config", b"[core]\n\trepositoryformatversion = 0\n\tbare = false\n\tlogallrefupdates = true\n");
    let repo = s.open();
    let mut k = Known::default();
    let mut commits: HashMap<String, usize> = HashMap::new();
    let (mut head, mut val) = (1, vec![0; BRANCHES]);
    let mut ev = vec![json!({"e": "init", "head": head, "val": val})];
    let short = |b: usize| name(b)["refs/heads/".len()..].to_string();
    for step in 0..r.range(6, 16) {
        let b = r.range(1, BRANCHES);
        match r.below(12) {
            0..=4 => {
                let f = s.dir.join(["f", "g", "d/f", "d/e/f"][r.below(4)]);
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(&f, format!("{} {}\n", step, "some text which stays the same\n".repeat(r.below(300)))).unwrap();
                git(&s, &["add", "-A"]);
                git(&s, &["commit", "-q", "-m", "a step"]);
            }
            5 => {
                git(&s, &["switch", "-q", "-C", &short(b)]);
            }
            6 => {
                git(&s, &["switch", "-q", "-f", &short(b)]);
            }
            7 => {
                git(&s, &["merge", "-q", "--no-ff", "-X", "ours", "-m", "merged", &short(b)]);
            }
            8 => {
                git(&s, &["branch", "-q", "-D", &short(b)]);
            }
            9 => {
                git(&s, &["reset", "-q", "--hard", "HEAD~1"]);
            }
            10 => {
                git(&s, [&["gc", "-q"][..], &["gc", "-q", "--prune=now"], &["gc", "-q", "--aggressive", "--prune=now"]][r.below(3)]);
            }
            _ => {
                git(&s, [&["repack", "-q", "-d"][..], &["repack", "-q", "-a", "-d", "-f"], &["prune-packed", "-q"]][r.below(3)]);
            }
        }
        if r.pct(20) {
            interpose::advance_clock(3000);
        }
        // What git says now
        for l in git(&s, &["log", "--all", "--reverse", "--topo-order", "--format=%H %T %P"]).lines() {
            let f: Vec<&str> = l.split(' ').filter(|x| !x.is_empty()).collect();
            if commits.contains_key(f[0]) {
                continue;
            }
            commits.insert(f[0].to_string(), commits.len() + 1);
            let mut items = vec![];
            for e in git(&s, &["ls-tree", "-r", f[0]]).lines() {
                items.push(k.number(e.split(['\t', ' ']).nth(2).unwrap()));
            }
            let par: Vec<usize> = f[2..].iter().map(|p| commits.get(*p).copied().unwrap_or(0)).collect();
            let no = k.number(f[1]);
            k.commits.push(json!({"tree": no, "par": par, "items": items}));
        }
        for b in 1..=BRANCHES {
            let at = git(&s, &["rev-parse", "-q", "--verify", &name(b)]);
            let c = commits.get(at.trim()).copied().unwrap_or(0);
            if c != val[b - 1] {
                val[b - 1] = c;
                ev.push(json!({"e": "set", "b": b, "c": c}));
            }
        }
        let at = git(&s, &["symbolic-ref", "HEAD"]);
        let b = (1..=BRANCHES).find(|&b| name(b) == at.trim()).unwrap();
        if b != head {
            head = b;
            ev.push(json!({"e": "head", "b": b}));
        }
        // What the library says
        let run = |f: &mut dyn FnMut() -> Value| interpose::armed(Box::new(Ctx { root: s.root(), ..Ctx::default() }), f).0;
        for b in 0..=BRANCHES {
            if b == 0 || r.pct(50) {
                ev.push(json!({"e": "call", "op": "peel", "b": b}));
                ev.push(ret(run(&mut || peel(&repo, b, &k, &commits))));
            }
        }
        ev.push(json!({"e": "call", "op": "list", "b": 0}));
        ev.push(ret(run(&mut || list(&repo))));
        // all the history
        for id in git(&s, &["rev-list", "--all"]).lines() {
            if r.pct(50) {
                ev.push(json!({"e": "call", "op": "walk", "b": commits[id]}));
                let mut around = |f: &mut dyn FnMut() -> Value| run(f);
                ev.push(ret(walk(&repo, id, &k, &commits, &mut around)));
            }
        }
    }
    json!({"src": "git", "commits": k.commits, "ev": ev})
}

pub fn run(a: &Args) {
    let part = a.num("part", 0);
    let mut r = Rng::new(a.num("seed", 1) ^ 0x2323 ^ (part << 20));
    let work = a.work();
    let mut out: Out = a.out();
    io::watch(120);
    let parts = a.num("parts", 1);
    for i in 0..a.num("steps", 0) {
        if i % parts == part {
            io::current(|| json!({"steps": i}));
            out.put(&steps(&work, &mut r));
        }
    }
    for i in 0..a.num("real", 0) {
        if i % parts == part {
            io::current(|| json!({"real": i}));
            out.put(&real(&work, &mut r));
        }
    }
}
