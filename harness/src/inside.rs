//! C21: names which lead out of the repository.

use std::path::Path;

use rusty_git::reference::{Error, Reference};
use rusty_git::repository::Repository;
use serde_json::{json, Value};

use crate::interpose::{self, Ctx};
use crate::io::{self, Args, Out};
use crate::packs;
use crate::proj;
use crate::repo::{self, full, sha, Scratch};
use crate::rng::Rng;

/// The files which could be read, each with a content of its own
const FILES: &[&str] = &[
    "w/.git/HEAD", "w/.git/x", "w/.git/refs/x", "w/.git/refs/heads/x", "w/.git/heads/x", "w/.git/refs/heads/HEAD",
    "w/x", "w/HEAD", "w/refs/heads/x", "w/refs/x", "w/heads/x", "w/other/x", "w/other/HEAD",
    "x", "HEAD", "refs/x", "refs/heads/x", "heads/x", ".git/HEAD", ".git/refs/heads/x",
    "other/x", "other/HEAD", "other/.git/HEAD", "other/.git/refs/heads/x", "other/.git/x", "other/refs/heads/x",
];

struct World {
    s: Scratch,
    repo: Repository,
    ids: Vec<String>,
}

fn comps(p: &str) -> Vec<&str> {
    p.split('/').collect()
}

impl World {
    fn new(work: &Path) -> World {
        let top = Scratch::new(work);
        let s = Scratch { dir: top.dir.join("w") };
        std::fs::create_dir_all(&s.dir).unwrap();
        std::fs::rename(top.git(), s.git()).unwrap();
        std::mem::forget(top);
        let mut ids = vec![];
        for (i, f) in FILES.iter().enumerate() {
            let id = s.put_loose("blob", format!("content {}", i).as_bytes());
            let p = s.dir.parent().unwrap().join(f);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, format!("{}\n", id)).unwrap();
            ids.push(id);
        }
        let repo = s.open();
        World { s, repo, ids }
    }

    fn root(&self) -> String {
        self.s.dir.parent().unwrap().display().to_string()
    }

    fn which(&self, id: &str) -> Value {
        match self.ids.iter().position(|i| i == id) {
            Some(i) => json!(comps(&format!("{}/{}", self.root(), FILES[i])[1..])),
            None => json!(["unknown"]),
        }
    }

    fn ctx(&self) -> Box<Ctx> {
        Box::new(Ctx { root: self.s.root(), ..Ctx::default() })
    }

    /// One lookup: [which file was read], as a result
    fn look(&self, how: usize, name: &[u8]) -> Value {
        let db = self.repo.reference_database();
        let r = match how {
            0 => db.reference(name),
            1 => db.parse_reference(name),
            2 => db.read_reference_file(name).and_then(Reference::from_reader),
            _ => Reference::from_bytes(&[b"ref: ", name, b"\n"].concat()),
        };
        let show = |e: &Error| {
            let mut v = proj::ref_err(e);
            v.as_object_mut().unwrap().remove("m");
            v
        };
        match r {
            Err(e) => show(&e),
            Ok(r) => match r.peel(&self.repo) {
                Ok(o) => json!({"r": "ok", "file": self.which(&o.id().to_hex())}),
                Err(e) => show(&e),
            },
        }
    }
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(self.s.dir.parent().unwrap());
    }
}

fn opened(c: &Ctx) -> Vec<Value> {
    let mut v: Vec<&String> = c.raw.iter().map(|o| &o.path).filter(|p| !interpose::of_kernel(p)).collect();
    v.sort();
    v.dedup();
    v.into_iter().map(|p| json!(p.trim_start_matches('/').split('/').collect::<Vec<_>>())).collect()
}

fn lookup(w: &World, c: &Value) -> Value {
    let root = w.root();
    let mut name = String::new();
    let parts: Vec<&str> = c["name"].as_array().unwrap().iter().map(|p| p.as_str().unwrap()).collect();
    if c["abs"] == true && parts[0] != "ROOT" {
        name.push('/');
    }
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            name.push('/');
        }
        if *p == "ROOT" {
            name.push_str(&root);
        } else {
            name.push_str(p);
        }
    }
    let mut obs = vec![];
    let mut all = vec![];
    // through a file, a chain of files, or directly
    for how in 0..6 {
        if how >= 3 && name.is_empty() {
            continue;
        }
        let (v, x) = interpose::armed(w.ctx(), || {
            proj::guard(|| match how {
                0..=3 => w.look(how, name.as_bytes()),
                4 => {
                    // the repository's HEAD says so
                    w.look(3, b"sym/one")
                }
                _ => w.look(0, b"sym/two"),
            })
        });
        obs.push(v);
        all.extend(opened(&x));
        if how == 2 && !name.is_empty() {
            w.s.put("sym/one", format!("ref: {}\n", name).as_bytes());
            w.s.put("sym/two", b"ref: sym/one\n");
        }
    }
    let mut o = c.clone();
    o["src"] = json!("names");
    // "/x" and "x" with a leading empty component
    o["abs"] = json!(name.starts_with('/'));
    o["git"] = json!(comps(&w.s.root()[1..]));
    all.sort_by_key(|p| p.to_string());
    all.dedup();
    obs.sort_by_key(|p| p.to_string());
    obs.dedup();
    o["opened"] = json!(all);
    o["obs"] = json!(obs);
    o
}

/// Objects and lists
fn objects(work: &Path, r: &mut Rng, i: u64) -> Value {
    let w = World::new(work);
    let mut c = packs::random(r, if i % 4 == 0 { 7 } else { 0 });
    if r.pct(40) {
        packs::damage(r, &mut c);
    }
    packs::store(&c, &w.s);
    // git would look there, too
    let other = w.s.dir.parent().unwrap().join("other/.git");
    let hidden = full("blob", format!("hidden {}", i).as_bytes());
    let o = Scratch { dir: w.s.dir.parent().unwrap().join("other") };
    o.put_loose_as(&sha(&hidden), &hidden);
    std::mem::forget(o);
    w.s.put("objects/info/alternates", format!("{}/objects\n../../../other/.git/objects\n", other.display()).as_bytes());
    w.s.put("commondir", b"../../other/.git\n");
    w.s.put("config", b"[include]\n\tpath = ../../x\n[core]\n\tworktree = ../../other\n");
    let repo = w.s.open();
    let mut all = vec![];
    let mut obs = vec![];
    for k in 0..12 {
        let id = if k == 0 { sha(&hidden) } else { r.pick(&c.q).clone() };
        let (v, x) = interpose::armed(w.ctx(), || match k {
            0..=7 => proj::read(&repo, repo::id(&id)),
            8 => proj::guard(|| match repo.reference_database().reference_names() {
                Ok(_) => json!({"r": "ok"}),
                Err(e) => proj::ref_err(&e),
            }),
            9 => proj::guard(|| {
                let _ = repo.object_database().write_object(&full("blob", &r.bytes(40)));
                json!({"r": "ok"})
            }),
            _ => match proj::raw(&repo, repo::id(&id)) {
                Ok(_) => json!({"r": "ok"}),
                Err(v) => v,
            },
        });
        if k == 0 {
            let out = w.root();
            obs.push(match v["r"].as_str().unwrap() {
                "ok" => json!({"r": "ok", "file": comps(&out[1..])}),
                e => json!({"r": e}),
            });
        }
        all.extend(opened(&x));
    }
    all.sort_by_key(|p| p.to_string());
    all.dedup();
    json!({"src": "objects", "abs": false, "name": [], "git": comps(&w.s.root()[1..]), "opened": all, "obs": obs})
}

pub fn run(a: &Args) {
    let mut r = Rng::new(a.num("seed", 1) ^ 0x2121 ^ (a.num("part", 0) << 20));
    let work = a.work();
    let mut out: Out = a.out();
    io::watch(120);
    let w = World::new(&work);
    for (k, sub) in [("GIT_DIR", ""), ("GIT_COMMON_DIR", ""), ("GIT_OBJECT_DIRECTORY", "objects"), ("GIT_ALTERNATE_OBJECT_DIRECTORIES", "objects")] {
        std::env::set_var(k, w.s.dir.parent().unwrap().join("other/.git").join(sub));
    }
    for c in a.cases() {
        io::current(|| c.clone());
        let v = lookup(&w, &c);
        out.put(&v);
    }
    for i in 0..a.num("objects", 0) {
        io::current(|| json!({"objects": i}));
        out.put(&objects(&work, &mut r, i));
    }
}
