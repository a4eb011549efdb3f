//! C18, C19: the system cuts reads short, interrupts them, or lets calls fail.

use std::path::Path;

use rusty_git::reference::Reference;
use rusty_git::repository::Repository;
use serde_json::{json, Value};

use crate::gen;
use crate::interpose::{self, Class, Ctx};
use crate::io::{self, Args, Out};
use crate::pack::{Entry, Pack};
use crate::packs::{self, Case};
use crate::proj;
use crate::repo::{self, deflate_level, full, hex, sha, Scratch};
use crate::rng::Rng;

#[derive(Clone, Debug)]
enum Do {
    Parse(String),
    Raw(String),
    Get(Vec<u8>),
    Peel(Vec<u8>),
    List(usize),
}

struct World {
    s: Scratch,
    /// Operation, and what the repository holds
    ops: Vec<(Do, &'static str)>,
    full: Vec<Value>,
}

fn op_name(d: &Do) -> &'static str {
    match d {
        Do::Parse(_) => "parse",
        Do::Raw(_) => "raw",
        Do::Get(_) => "get",
        Do::Peel(_) => "peel",
        Do::List(_) => "list",
    }
}

fn outcome(r: &str, v: &Value) -> Value {
    json!({"r": r, "d": &sha(v.to_string().as_bytes())[..16]})
}

fn run_op(repo: &Repository, d: &Do) -> Value {
    let v = match d {
        Do::Parse(i) => proj::read(repo, repo::id(i)),
        Do::Raw(i) => match proj::raw(repo, repo::id(i)) {
            Ok(b) => {
                // Loose objects come with their header
                let n = if sha(&b) == *i { b.iter().position(|&x| x == 0).unwrap() + 1 } else { 0 };
                return outcome("ok", &json!(hex(&b[n..])));
            }
            Err(v) => v,
        },
        Do::Get(n) => proj::guard(|| proj::reference(&repo.reference_database().reference(n))),
        Do::Peel(n) => proj::guard(|| {
            let x = repo.reference_database().reference(n).and_then(|r: Reference| r.peel(repo));
            match x {
                Ok(o) => json!({"r": "ok", "id": proj::id(o.id()), "o": proj::object(o.data())}),
                Err(e) => proj::ref_err(&e),
            }
        }),
        Do::List(k) => proj::guard(|| {
            let db = repo.reference_database();
            let x = match k {
                0 => db.reference_names(),
                1 => db.head_reference_names(),
                2 => db.tag_reference_names(),
                _ => db.remote_reference_names(),
            };
            match x {
                Ok(mut v) => {
                    v.sort();
                    json!({"r": "ok", "names": v.iter().map(|n| proj::bytes(n)).collect::<Vec<_>>()})
                }
                Err(e) => proj::ref_err(&e),
            }
        }),
    };
    match v["r"].as_str().unwrap() {
        "ok" => outcome("ok", &v),
        r => json!({"r": r, "d": ""}),
    }
}

impl World {
    fn new(work: &Path, r: &mut Rng, large: bool) -> World {
        let s = Scratch::new(work);
        let mut ops = vec![];
        let mut c = Case::new("sys");
        let mut seen = std::collections::HashSet::new();
        for _ in 0..2 {
            let n = r.range(3, 5);
            let (mut es, mut bases) = packs::entries(r, n, false);
            let n = if large { r.range(70_000, 140_000) } else { r.range(500, 3000) };
            es.push(Entry::base("blob", &r.bytes(n)));
            bases.push(None);
            for e in &es {
                let parse = if packs::entry_type(e) == 3 { "ok" } else { "any" };
                if seen.insert(e.id.clone()) {
                    ops.push((Do::Parse(e.id.clone()), parse));
                    ops.push((Do::Raw(e.id.clone()), "ok"));
                }
            }
            let p = Pack::layout(*r.pick(&[2, 3]), es, &bases, &[]);
            c.packs.push((p, *r.pick(&[1, 2, 2]), *r.pick(&[u64::MAX, 0])));
        }
        let mut loose = vec![("blob", r.bytes(if large { 100_000 } else { 2500 })), ("blob", vec![]), ("blob", vec![b'x'; 700])];
        let all = hex(&r.bytes(20));
        loose.push(("commit", format!("tree {}\nparent {}\nauthor A <a@b> 1 +0000\ncommitter C D <c@d> 22 -0130\nencoding x\ngpgsig a\n b\n\nmessage\n", all, all).into_bytes()));
        loose.push(("tag", format!("object {}\ntype tree\ntag v1\ntagger T <t@u> 333 +0000\n\nmessage", all).into_bytes()));
        let mut t = vec![];
        for i in 0..r.range(1, 30) {
            t.extend(format!("100644 file{:03}\0", i).into_bytes());
            t.extend(r.bytes(20));
        }
        loose.push(("tree", t));
        let mut known = vec![];
        for (k, b) in &loose {
            let f = full(k, b);
            let id = sha(&f);
            known.push(id.clone());
            ops.push((Do::Parse(id.clone()), "ok"));
            ops.push((Do::Raw(id.clone()), "ok"));
            c.loose.push((id, deflate_level(&f, *r.pick(&[0, 1, 6, 9]))));
        }
        for k in ["commit", "tag", "tree"] {
            let f = full(k, &gen::object(r, k));
            ops.push((Do::Parse(sha(&f)), "any"));
            c.loose.push((sha(&f), deflate_level(&f, 6)));
        }
        // Damaged ones
        let f = full("blob", &r.bytes(300));
        let z = deflate_level(&f, 6);
        ops.push((Do::Parse(sha(&f)), "err"));
        c.loose.push((sha(&f), z[..z.len() / 2].to_vec()));
        for bad in [&b""[..], b"blob 3", b"blob 9\0abc", b"blob 2\0abc", b"thing 3\0abc", b"commit 3\0abc", b"blob x3\0abc"] {
            let id = hex(&r.bytes(20));
            ops.push((Do::Parse(id.clone()), "err"));
            c.loose.push((id, deflate_level(bad, 6)));
        }
        let id = hex(&r.bytes(20));
        ops.push((Do::Parse(id.clone()), "err"));
        c.loose.push((id, r.bytes(200)));
        let gone = hex(&r.bytes(20));
        ops.push((Do::Parse(gone.clone()), "nf"));
        ops.push((Do::Raw(gone.clone()), "nf"));
        c.loose.sort();
        c.loose.dedup_by(|a, b| a.0 == b.0);
        packs::store(&c, &s);

        let (a, b) = (known[0].clone(), known[3].clone());
        for (n, text, get, peel) in [
            ("HEAD", "ref: refs/heads/master\n".to_string(), "ok", "ok"),
            ("refs/heads/master", format!("{}\n", b), "ok", "ok"),
            ("refs/heads/a/b/c", format!("{}   ", a), "any", "any"),
            ("refs/heads/a/b/d", format!("# comment\n# another\n{}\n", a), "any", "any"),
            ("refs/tags/sym", format!("ref:  refs/heads/a/b/c  \n"), "any", "any"),
            ("refs/tags/v1", format!("{}\n\n\n", known[4]), "ok", "ok"),
            ("refs/tags/gone", format!("{}\n", gone), "ok", "nf"),
            ("refs/remotes/o/HEAD", "ref: refs/remotes/o/m\n".to_string(), "ok", "ok"),
            ("refs/remotes/o/m", format!("{} {}", a, "refs/heads/master"), "any", "any"),
            ("refs/remotes/o/to-nothing", "ref: refs/heads/nothing\n".to_string(), "ok", "nf"),
            ("refs/remotes/o/loop", "ref: refs/remotes/o/loop\n".to_string(), "ok", "err"),
            ("refs/heads/bad", "0123456789".to_string(), "err", "err"),
            ("refs/heads/empty", String::new(), "err", "err"),
            ("refs/heads/long", format!("{}{}\n", a, " ".repeat(3000)), "any", "any"),
        ] {
            s.put(n, text.as_bytes());
            ops.push((Do::Get(n.into()), get));
            ops.push((Do::Peel(n.into()), peel));
        }
        ops.push((Do::Get(b"refs/heads/none".to_vec()), "nf"));
        ops.push((Do::Peel(b"refs/heads/none".to_vec()), "nf"));
        for k in 0..4 {
            ops.push((Do::List(k), "ok"));
        }
        let quiet = s.open();
        let full = ops.iter().map(|(d, _)| run_op(&quiet, d)).collect();
        World { s, ops, full }
    }

    fn ctx(&self) -> Box<Ctx> {
        Box::new(Ctx { root: self.s.root(), ..Ctx::default() })
    }

    fn case(&self, k: usize, how: &str, plan: Value, obs: Vec<Value>, again: Vec<Value>) -> Value {
        let (d, is) = &self.ops[k];
        json!({"op": op_name(d), "what": format!("{:?}", d), "is": is, "how": how, "plan": plan,
            "full": self.full[k], "obs": packs::dedup(obs), "again": packs::dedup(again)})
    }
}

// ---- C18 ----

fn amount(step: &str, asked: usize) -> Result<usize, i32> {
    match step {
        "intr" => Err(libc::EINTR),
        "half" => Ok(asked / 2),
        "less" => Ok(asked - 1),
        "all" => Ok(asked),
        n => Ok(n.parse().unwrap()),
    }
}

fn plan(w: &World, p: &Value, r: &mut Rng, put: &mut dyn FnMut(Value)) {
    let steps: Vec<String> = p.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
    let repo = w.s.open();
    let mut order: Vec<usize> = (0..w.ops.len()).collect();
    r.shuffle(&mut order);
    let mut obs = vec![vec![]; w.ops.len()];
    for &k in &order {
        let mut c = w.ctx();
        let (st, mut i) = (steps.clone(), r.below(steps.len()));
        c.chunk = Some(Box::new(move |asked| {
            i += 1;
            amount(&st[i % st.len()], asked)
        }));
        let (v, _) = interpose::armed(c, || run_op(&repo, &w.ops[k].0));
        obs[k].push(v);
    }
    // Only what is worth looking at is written down in full
    for k in order {
        let again = vec![run_op(&repo, &w.ops[k].0)];
        put(w.case(k, "chunks", p.clone(), std::mem::take(&mut obs[k]), again));
    }
}

/// One read call delivers n bytes, or the call after it is interrupted, too
fn cuts(w: &World, r: &mut Rng, most: usize, put: &mut dyn FnMut(Value)) {
    for k in 0..w.ops.len() {
        // How much each call delivers if it isn't cut
        let mut c = w.ctx();
        let asked = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
        let a = asked.clone();
        c.chunk = Some(Box::new(move |n| {
            a.borrow_mut().push(n);
            Ok(n)
        }));
        let warm = w.s.open();
        if r.pct(60) {
            // The packs have been opened
            let _ = proj::raw(&warm, repo::id(&"00".repeat(20)));
        }
        let (v, _) = interpose::armed(c, || run_op(&warm, &w.ops[k].0));
        let mut obs = vec![v];
        let asked = asked.borrow().clone();
        let mut at: Vec<(usize, usize)> = asked.iter().enumerate().flat_map(|(j, &n)| (1..n.min(800)).map(move |m| (j, m))).collect();
        r.shuffle(&mut at);
        at.truncate(most);
        for (j, m) in at {
            let twice = r.pct(50);
            let mut c = w.ctx();
            let mut i = 0;
            c.chunk = Some(Box::new(move |n| {
                i += 1;
                if i == j + 1 {
                    return Ok(m);
                }
                if twice && i == j + 2 {
                    return Err(libc::EINTR);
                }
                Ok(n)
            }));
            // What has been read before can be kept by the repository
            let repo = if r.pct(10) { w.s.open() } else { Repository::open(&w.s.dir).unwrap() };
            let (v, _) = interpose::armed(c, || run_op(&repo, &w.ops[k].0));
            obs.push(v);
        }
        let again = vec![run_op(&warm, &w.ops[k].0)];
        put(w.case(k, "chunks", json!("cuts"), obs, again));
    }
}

// ---- C19 ----

fn errno(n: &str) -> i32 {
    match n {
        "EIO" => libc::EIO,
        "EACCES" => libc::EACCES,
        "EMFILE" => libc::EMFILE,
        "ENFILE" => libc::ENFILE,
        "ENOMEM" => libc::ENOMEM,
        "ELOOP" => libc::ELOOP,
        "ESTALE" => libc::ESTALE,
        "EAGAIN" => libc::EAGAIN,
        "EPERM" => libc::EPERM,
        "ETIMEDOUT" => libc::ETIMEDOUT,
        _ => panic!("{}", n),
    }
}

fn fails(mode: &str, at: usize, e: i32) -> Box<dyn FnMut(&interpose::Op) -> Option<i32>> {
    let mode = mode.to_string();
    let mut i = 0;
    let mut seen: Vec<String> = vec![];
    Box::new(move |op| {
        if mode == "path" || mode == "folder" {
            // A file, or all in a folder, which stays out of reach
            let p = match &*mode {
                "path" => op.path.clone(),
                _ => op.path.rsplit_once('/').map_or("", |x| x.0).to_string(),
            };
            let n = seen.iter().position(|x| *x == p).unwrap_or_else(|| {
                seen.push(p);
                seen.len() - 1
            });
            return (n == at).then_some(e);
        }
        let mine = match &*mode {
            "opens" => matches!(op.class, Class::OpenRead | Class::OpenDir),
            "reads" => matches!(op.class, Class::Read | Class::ReadDir | Class::Seek),
            "stats" => op.class == Class::Stat,
            "loose" => op.path.starts_with("objects/") && !op.path.starts_with("objects/pack"),
            "packs" => op.path.starts_with("objects/pack"),
            _ => true,
        };
        if !mine {
            return None;
        }
        i += 1;
        let hit = match &*mode {
            "one" => i == at + 1,
            "two" => i == at + 1 || i == at + 2,
            "every other" => i % 2 == at % 2,
            _ => i > at,
        };
        hit.then_some(e)
    })
}

/// The handle has to work: it is new, has opened the packs, or did so a while ago
fn prepare(w: &World, state: usize) -> Repository {
    let repo = w.s.open();
    if state > 0 {
        let _ = interpose::armed(w.ctx(), || proj::raw(&repo, repo::id(&"00".repeat(20))));
    }
    if state > 1 {
        interpose::advance_clock(5000);
    }
    repo
}

fn failing(w: &World, group: &[Value], r: &mut Rng, put: &mut dyn FnMut(Value)) {
    // All plans of one mode and error, ordered by position
    for k in 0..w.ops.len() {
        let mut obs = vec![];
        let mut again = vec![];
        let state = r.below(3);
        let mut misses = 0;
        let mut kept: Option<Repository> = None;
        for p in group {
            let repo = match kept.take() {
                Some(x) if r.pct(30) => x,
                _ => prepare(w, state),
            };
            let mut c = w.ctx();
            c.fail = Some(fails(p["mode"].as_str().unwrap(), p["at"].as_u64().unwrap() as usize, errno(p["errno"].as_str().unwrap())));
            c.no_dtype = k % 2 == 1;
            let (v, c) = interpose::armed(c, || run_op(&repo, &w.ops[k].0));
            obs.push(v);
            again.push(interpose::armed(w.ctx(), || run_op(&repo, &w.ops[k].0)).0);
            kept = Some(repo);
            if c.fault_hit.is_none() {
                misses += 1;
                if misses > 2 {
                    break;
                }
            }
        }
        put(w.case(k, "failing", json!([group[0]["mode"], group[0]["errno"], state]), obs, again));
    }
}

pub fn run(a: &Args) {
    let mut r = Rng::new(a.num("seed", 1) ^ 0x1819 ^ (a.num("part", 0) << 20));
    let work = a.work();
    let mut out: Out = a.out();
    io::watch(120);
    let cases = a.cases();
    let mut w = World::new(&work, &mut r, false);
    let faults: Vec<Value> = cases.iter().filter(|c| c["mode"].is_string()).cloned().collect();
    let mut groups: std::collections::BTreeMap<(String, String), Vec<Value>> = Default::default();
    for f in faults {
        groups.entry((f["mode"].to_string(), f["errno"].to_string())).or_default().push(f);
    }
    let of = a.num("of", 1) as usize;
    for (n, (_, mut g)) in groups.into_iter().enumerate() {
        if n % of != a.num("part", 0) as usize % of {
            continue;
        }
        if n % 20 == 19 {
            w = World::new(&work, &mut r, false);
        }
        g.sort_by_key(|p| p["at"].as_u64());
        io::current(|| g[0].clone());
        failing(&w, &g, &mut r, &mut |v| out.put(&v));
    }
    for (n, c) in cases.iter().filter(|c| c["plan"].is_array()).enumerate() {
        if n % 20 == 19 {
            w = World::new(&work, &mut r, false);
        }
        io::current(|| c.clone());
        plan(&w, &c["plan"], &mut r, &mut |v| out.put(&v));
    }
    for i in 0..a.num("large", 0) {
        let w = World::new(&work, &mut r, true);
        for _ in 0..4 {
            let n = r.range(1, 4);
            let mut p: Vec<&str> = (0..n).map(|_| *r.pick(&["half", "less", "all", "intr", "1000", "4096", "8191"])).collect();
            p.push(*r.pick(&["all", "half"]));
            io::current(|| json!({"large": i, "plan": p}));
            plan(&w, &json!(p), &mut r, &mut |v| out.put(&v));
        }
    }
    for i in 0..a.num("cuts", 0) {
        io::current(|| json!({"cuts": i}));
        let w = World::new(&work, &mut r, false);
        cuts(&w, &mut r, a.num("most", 60) as usize, &mut |v| out.put(&v));
    }
}
