//! C20: opening a repository, and what operations change.

use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{symlink, MetadataExt};
use std::path::{Path, PathBuf};

use rusty_git::repository::{OpenError, Repository};
use serde_json::{json, Value};

use crate::interpose::{self, Ctx, Fault, Op};
use crate::io::{self, Args, Out};
use crate::packs;
use crate::proj;
use crate::refs::ERRNOS;
use crate::repo::{self, deflate, full, sha, Scratch};
use crate::rng::Rng;

fn comps(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|c| c.as_str().unwrap().to_string()).collect()
}

fn marker(i: usize) -> String {
    format!("this object is in directory {}", i)
}

/// Make a directory a repository, whatever its name is
fn furnish(d: &Path, i: usize) {
    for s in ["objects/pack", "refs/heads"] {
        std::fs::create_dir_all(d.join(s)).unwrap();
    }
    std::fs::write(d.join("HEAD"), format!("ref: refs/heads/n{}\n", i)).unwrap();
    let f = full("blob", marker(i).as_bytes());
    let p = d.join(Scratch::loose_rel(&sha(&f)));
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, deflate(&f)).unwrap();
}

fn muts(c: &Ctx) -> Vec<String> {
    c.log
        .iter()
        .chain(&c.outside)
        .filter(|o| o.class.mutates())
        .map(|o: &Op| format!("{} {}", o.class.name(), o.path))
        .collect()
}

struct Tree {
    root: PathBuf,
    fs: Vec<(Vec<String>, String)>,
}

impl Tree {
    fn new(work: &Path, n: usize, fs: &Value) -> Tree {
        let root = work.join(format!("open{}_{}", std::process::id(), n));
        let mut t = Tree { root, fs: vec![] };
        for f in fs.as_array().unwrap() {
            let p = comps(&f["p"]);
            let at = t.path(&p);
            let k = f["e"]["k"].as_str().unwrap();
            match k {
                "dir" => {
                    std::fs::create_dir_all(&at).unwrap();
                    furnish(&at, t.fs.len() + 1);
                }
                "file" => match (n + t.fs.len()) % 5 {
                    0 => std::fs::write(&at, b"").unwrap(),
                    1 => if std::os::unix::net::UnixListener::bind(&at).is_err() {
                        std::fs::write(&at, b"socket").unwrap()
                    },
                    2 => std::fs::write(&at, format!("gitdir: {}/q/.git\n", t.root.display())).unwrap(),
                    3 => std::fs::write(&at, b"ref: refs/heads/master\n").unwrap(),
                    _ => std::fs::write(&at, b"gitdir: ../q/.git\n").unwrap(),
                },
                _ => {
                    let to = comps(&f["e"]["to"]).join("/");
                    let to = if f["e"]["abs"] == true { t.root.join(to) } else { PathBuf::from(to) };
                    symlink(to, &at).unwrap();
                }
            }
            t.fs.push((p, k.to_string()));
        }
        // what git would follow elsewhere
        let ds: Vec<PathBuf> = t.dirs().map(|(_, d)| d).collect();
        for (i, d) in ds.iter().enumerate() {
            let other = &ds[(i + 1) % ds.len()];
            if other != d && (n + i) % 2 == 0 {
                std::fs::create_dir_all(d.join("objects/info")).unwrap();
                std::fs::write(d.join("objects/info/alternates"), format!("{}/objects\n", other.display())).unwrap();
                std::fs::write(d.join("commondir"), format!("{}\n", other.display())).unwrap();
                std::fs::write(d.join("gitdir"), format!("{}\n", other.display())).unwrap();
            }
        }
        for (k, sub) in [("GIT_DIR", ""), ("GIT_COMMON_DIR", ""), ("GIT_OBJECT_DIRECTORY", "objects"), ("GIT_ALTERNATE_OBJECT_DIRECTORIES", "objects"), ("GIT_WORK_TREE", "..")] {
            match ds.get(n % (ds.len() + 1)) {
                Some(d) => std::env::set_var(k, d.join(sub)),
                None => std::env::remove_var(k),
            }
        }
        t
    }

    fn path(&self, c: &[String]) -> PathBuf {
        c.iter().fold(self.root.clone(), |p, c| p.join(c))
    }

    fn dirs(&self) -> impl Iterator<Item = (usize, PathBuf)> + '_ {
        self.fs.iter().enumerate().filter(|(_, f)| f.1 == "dir").map(|(i, f)| (i + 1, self.path(&f.0)))
    }
}

impl Drop for Tree {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

/// What an opened repository serves
fn serves(t: &Tree, repo: &Repository, k: usize) -> Value {
    let head = proj::guard(|| proj::reference(&repo.reference_database().head()));
    let head: Vec<usize> = match head["r"].as_str() {
        Some("ok") => {
            let n = proj::unbytes(&head["name"]);
            String::from_utf8_lossy(&n).strip_prefix("refs/heads/n").and_then(|n| n.parse().ok()).into_iter().collect()
        }
        _ => vec![],
    };
    let objs: Vec<usize> = t
        .dirs()
        .map(|(i, _)| i)
        .filter(|&i| proj::read(repo, repo::id(&sha(&full("blob", marker(i).as_bytes()))))["r"] == "ok")
        .collect();
    let f = full("blob", format!("written {}", k).as_bytes());
    let _ = proj::guard(|| {
        let _ = repo.object_database().write_object(&f);
        json!({"r": "ok"})
    });
    let wrote: Vec<usize> =
        t.dirs().filter(|(_, d)| d.join(Scratch::loose_rel(&sha(&f))).exists()).map(|(i, _)| i).collect();
    json!({"r": "ok", "head": head, "objs": objs, "wrote": wrote})
}

fn opening(v: &Value, work: &Path, n: usize, r: &mut Rng, fault: Option<(usize, i32)>) -> (Value, bool) {
    let t = Tree::new(work, n, &v["fs"]);
    std::env::set_current_dir(t.path(&comps(&v["cwd"]))).unwrap();
    let p = comps(&v["path"]).join("/");
    let p = if v["abs"] == true { format!("{}/{}", t.root.display(), p) } else { p };
    let c = Box::new(Ctx {
        root: t.root.display().to_string(),
        fault_at: fault.map(|(k, e)| (k, Fault::Errno(e))),
        ..Ctx::default()
    });
    let mut repo = None;
    let (obs, c) = interpose::armed(c, || {
        proj::guard(|| {
            let x = match r.below(3) {
                0 => Repository::open(&*p),
                1 => Repository::open(p.clone()),
                _ => Repository::open(PathBuf::from(&p)),
            };
            match x {
                Ok(x) => {
                    let _ = format!("{:?}", x);
                    repo = Some(x);
                    json!({"r": "ok"})
                }
                Err(OpenError::NotFound(_)) => json!({"r": "nf"}),
                Err(e) => {
                    let _ = proj::err_chain(&e);
                    json!({"r": "io"})
                }
            }
        })
    });
    // where the process is afterwards makes no difference
    let elsewhere = [t.root.join("d"), t.root.join("q"), PathBuf::from("/"), t.root.clone()];
    if r.pct(75) {
        std::env::set_current_dir(&elsewhere[r.below(4)]).unwrap();
    }
    let obs = match &repo {
        Some(x) => serves(&t, x, n),
        None => obs,
    };
    let hit = c.fault_hit.is_some();
    let mut o = v.clone();
    o["obs"] = obs;
    o["fault"] = json!(hit);
    o["muts"] = json!(muts(&c));
    (o, hit)
}

// ---- what operations change ----

/// path -> what is there, and when it was modified
type Snap = BTreeMap<String, (String, i64)>;

fn snap(root: &Path, at: &Path, s: &mut Snap) {
    for e in std::fs::read_dir(at).unwrap() {
        let p = e.unwrap().path();
        let m = std::fs::symlink_metadata(&p).unwrap();
        let name = String::from_utf8_lossy(p.strip_prefix(root).unwrap().as_os_str().as_bytes()).into_owned();
        if m.is_dir() {
            s.insert(name, (format!("dir {:o}", m.mode()), 0));
            snap(root, &p, s);
        } else if m.file_type().is_symlink() {
            s.insert(name, (format!("link {:?}", std::fs::read_link(&p)), 0));
        } else {
            let b = std::fs::read(&p).unwrap();
            // an object is known by its id
            let (d, z, _) = packs::inflate(&b);
            let what = if z == "ok" && !d.is_empty() && name.contains("/objects/") { format!("object {}", sha(&d)) } else { format!("{:o} {}", m.mode(), sha(&b)) };
            s.insert(name, (what, m.mtime() * 1_000_000_000 + m.mtime_nsec()));
        }
    }
}

fn diff(a: &Snap, b: &Snap) -> Value {
    let new: Vec<_> = b
        .iter()
        .filter(|(p, x)| a.get(*p).map_or(true, |y| y.0 != x.0))
        .map(|(p, x)| json!({"p": p, "d": x.0}))
        .collect();
    let gone: Vec<_> = a.keys().filter(|p| !b.contains_key(*p)).collect();
    let touched: Vec<_> = b.iter().filter(|(p, x)| a.get(*p).map_or(false, |y| y.0 == x.0 && y.1 != x.1)).map(|(p, _)| p).collect();
    json!({"new": new, "gone": gone, "touched": touched})
}

fn old(at: &Path) {
    for e in std::fs::read_dir(at).unwrap() {
        let p = e.unwrap().path();
        let m = std::fs::symlink_metadata(&p).unwrap();
        if m.is_dir() {
            old(&p);
        } else if m.is_file() {
            let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
            let t = libc::timespec { tv_sec: 1_000_000_000, tv_nsec: 5 };
            unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [t, t].as_ptr(), 0) };
        }
    }
}

fn history(work: &Path, r: &mut Rng, i: u64) -> Value {
    let base = Scratch::new(work);
    let top = base.dir.clone();
    // two repositories and a place for temporary files
    let mk = |n: &str| {
        let d = top.join(n);
        std::fs::create_dir_all(&d).unwrap();
        d
    };
    std::fs::rename(base.git(), mk("a").join(".git")).unwrap();
    for d in ["b/.git/objects/pack", "b/.git/refs/heads", "tmp", "cwd", "home"] {
        mk(d);
    }
    std::fs::write(top.join("b/.git/HEAD"), b"ref: refs/heads/master\n").unwrap();
    std::env::set_var("TMPDIR", top.join("tmp"));
    std::env::set_var("HOME", top.join("home"));
    std::env::set_current_dir(top.join("cwd")).unwrap();
    let a = Scratch { dir: top.join("a") };
    let b = Scratch { dir: top.join("b") };
    let mut c = packs::random(r, if i % 4 == 0 { 7 } else { 0 });
    if r.pct(40) {
        packs::damage(r, &mut c);
    }
    packs::store(&c, &a);
    let mut written: Vec<Vec<u8>> = vec![];
    for _ in 0..r.below(4) {
        let len = r.below(300);
        let f = full("blob", &r.bytes(len));
        (if r.pct(70) { &a } else { &b }).put_loose_as(&sha(&f), &f);
        written.push(f);
    }
    let names: Vec<&str> = vec!["HEAD", "refs/heads/master", "refs/heads/topic/x", "refs/tags/v1", "refs/remotes/o/HEAD", "packed-refs", "index"];
    for n in &names {
        if r.pct(70) {
            let t = match r.below(4) {
                0 => format!("ref: {}\n", r.pick(&names)),
                1 => "what\n".to_string(),
                _ => format!("{}\n", r.pick(&c.q)),
            };
            (if r.pct(80) { &a } else { &b }).put(n, t.as_bytes());
        }
    }
    if r.pct(30) {
        // objects may be stored read-only, and garbage may lie around
        a.put("objects/pack/tmp_pack_x", b"unfinished");
        a.put("refs/heads/master.lock", b"");
    }
    let bare = |r: &mut Rng| {
        // folders may be missing as long as nothing is in them
        for s in [&a, &b] {
            for d in ["objects/pack", "objects/info", "objects", "refs/tags", "refs/heads", "refs/remotes", "refs"] {
                if r.pct(50) {
                    let _ = std::fs::remove_dir(s.git().join(d));
                }
            }
        }
    };
    let when = r.below(6);
    if when == 0 {
        bare(r);
    }
    old(&top);
    let handles = [a.open(), b.open()];
    if when == 1 {
        bare(r);
        old(&top);
    }
    let mut before = Snap::new();
    snap(&top, &top, &mut before);
    let first: Vec<_> = before.iter().map(|(p, x)| json!({"p": p, "d": x.0})).collect();
    let mut ev = vec![];
    for _ in 0..r.range(4, 12) {
        let side = if r.pct(75) { 0 } else { 1 };
        let fresh;
        let (s, h) = (if side == 0 { &a } else { &b }, &handles[side]);
        let mut cx = Box::new(Ctx { root: top.display().to_string(), ..Ctx::default() });
        if r.pct(25) {
            cx.fault_at = Some((r.below(20), if r.pct(30) { Fault::PartialThenErrno(libc::ENOSPC) } else { Fault::Errno(*r.pick(&ERRNOS)) }));
        }
        let h = if r.pct(20) {
            fresh = s.open();
            &fresh
        } else {
            h
        };
        let what = r.below(9);
        let mut wrote = String::new();
        let (v, cx) = interpose::armed(cx, || match what {
            0 => proj::guard(|| match Repository::open(&s.dir) {
                Ok(_) => json!({"r": "ok"}),
                Err(_) => json!({"r": "err"}),
            }),
            1 | 2 => proj::read(h, repo::id(r.pick(&c.q))),
            3 => match proj::raw(h, repo::id(r.pick(&c.q))) {
                Ok(_) => json!({"r": "ok"}),
                Err(v) => v,
            },
            4 => proj::guard(|| {
                let db = h.reference_database();
                let n = r.pick(&names).as_bytes();
                match if r.pct(50) { db.head() } else { db.reference(n) } {
                    Ok(x) => match x.peel(h) {
                        Ok(_) => json!({"r": "ok"}),
                        Err(e) => proj::ref_err(&e),
                    },
                    Err(e) => proj::ref_err(&e),
                }
            }),
            5 => proj::guard(|| {
                let db = h.reference_database();
                let x = match r.below(4) {
                    0 => db.head_reference_names(),
                    1 => db.tag_reference_names(),
                    2 => db.remote_reference_names(),
                    _ => db.reference_names(),
                };
                match x {
                    Ok(_) => json!({"r": "ok"}),
                    Err(e) => proj::ref_err(&e),
                }
            }),
            6 if r.pct(30) => {
                interpose::advance_clock(3000);
                // not there: everything is searched
                proj::read(h, repo::id(&format!("{:040x}", r.next())))
            }
            _ => {
                let f = if !written.is_empty() && r.pct(40) {
                    r.pick(&written).clone()
                } else {
                    let len = if r.pct(10) { 70_000 } else { r.below(300) };
                    full("blob", &r.bytes(len))
                };
                wrote = sha(&f);
                let v = proj::guard(|| match h.object_database().write_object(&f) {
                    Ok(_) => json!({"r": "ok"}),
                    Err(e) => json!({"r": "err", "m": proj::err_chain(&e)}),
                });
                written.push(f);
                v
            }
        });
        let mut after = Snap::new();
        snap(&top, &top, &mut after);
        let mut e = diff(&before, &after);
        e["op"] = json!(if wrote.is_empty() { "read" } else { "write" });
        e["repo"] = json!(["a", "b"][side]);
        e["id"] = json!(wrote);
        e["r"] = v["r"].clone();
        e["fault"] = json!(cx.fault_hit.is_some());
        // taking something away failed
        e["stuck"] = json!(cx.fault_hit.as_ref().map_or(false, |o| o.class == interpose::Class::Unlink));
        e["muts"] = json!(if wrote.is_empty() { muts(&cx) } else { vec![] });
        ev.push(e);
        before = after;
    }
    let _ = std::env::set_current_dir("/");
    let _ = (a, b);
    json!({"src": "effects", "first": first, "ev": ev})
}

pub fn run(a: &Args) {
    let mut r = Rng::new(a.num("seed", 1) ^ 0x2020 ^ (a.num("part", 0) << 20));
    let work = a.work();
    let mut out: Out = a.out();
    io::watch(120);
    let step = a.num("faults", 1) as usize;
    for (n, c) in a.cases().into_iter().enumerate() {
        io::current(|| c.clone());
        out.put(&opening(&c, &work, n, &mut r, None).0);
        if n % step == 0 {
            for k in 0..6 {
                let e = *r.pick(&ERRNOS);
                let (v, hit) = opening(&c, &work, n, &mut r, Some((k, e)));
                out.put(&v);
                if !hit {
                    break;
                }
            }
        }
    }
    for i in 0..a.num("effects", 0) {
        io::current(|| json!({"effects": i}));
        out.put(&history(&work, &mut r, i));
    }
}
