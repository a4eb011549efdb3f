//! C22: what a handle keeps: open files, memory, threads.

use std::any::Any;
use std::io::Read as _;

use rusty_git::repository::Repository;
use serde_json::{json, Value};

use crate::alloc;
use crate::interpose::{self, Class, Ctx, Fault};
use crate::io::{self, Args, Out};
use crate::pack::{varint, Entry, Pack};
use crate::proj;
use crate::repo::{self, full, sha, Scratch};
use crate::rng::Rng;

fn count(dir: &str) -> usize {
    std::fs::read_dir(dir).unwrap().count()
}

/// Open files, the one which reads the folder included
fn fds() -> usize {
    count("/proc/self/fd")
}

/// Threads which have ended may still be seen for a moment
fn tasks(least: usize) -> usize {
    for _ in 0..if least == 0 { 0 } else { 2000 } {
        if count("/proc/self/task") <= least {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    count("/proc/self/task")
}

struct World {
    s: Scratch,
    blob: String,
    commit: String,
    tag: String,
    cut: String,
    whole: String,
    chain: String,
    broken: String,
    other: String,
    first: Pack,
    second: Pack,
    placed: std::sync::atomic::AtomicU64,
}

const NEW: &[u8] = b"blob 5\0fresh";

fn replace(of: &[u8], by: &[u8], len: usize) -> Vec<u8> {
    [varint(of.len() as u64), varint(len as u64), vec![by.len() as u8], by.to_vec()].concat()
}

impl World {
    fn new(work: &std::path::Path, r: &mut Rng) -> World {
        let s = Scratch::new(work);
        let blob = s.put_loose("blob", b"some text");
        let tree = s.put_loose("tree", b"");
        let who = "A U Thor <a@example.com> 1700000000 +0100";
        let commit = s.put_loose("commit", format!("tree {}\nauthor {}\ncommitter {}\n\nmessage\n", tree, who, who).as_bytes());
        let tag = s.put_loose("tag", format!("object {}\ntype commit\ntag v1\ntagger {}\n\ntext\n", commit, who).as_bytes());
        let f = full("blob", b"which is cut off");
        let cut = sha(&f);
        let z = repo::deflate(&f);
        s.put(&Scratch::loose_rel(&cut), &z[..z.len() - 9]);
        let body = r.bytes(3000);
        let (b1, b2) = (b"first".to_vec(), b"second".to_vec());
        let id = |b: &[u8]| sha(&full("blob", b));
        let (whole, mid, chain) = (id(&body), id(&b1), id(&b2));
        let broken = id(b"broken");
        let es = vec![
            Entry::base("blob", &body),
            Entry::ofs_delta(&mid, &replace(&body, &b1, b1.len())),
            Entry::ref_delta(&chain, &mid, &replace(&b1, &b2, b2.len())),
            Entry::ofs_delta(&broken, &replace(&body, b"broken", 99)),
        ];
        let first = Pack::layout(2, es, &[None, Some(0), None, Some(0)], &[]);
        let other = id(b"in the other pack");
        let second = Pack::layout(2, vec![Entry::base("blob", b"in the other pack")], &[None], &[]);
        for n in ["HEAD", "refs/heads/master", "refs/heads/loop", "refs/heads/bad", "refs/tags/t"] {
            let t = match n {
                "HEAD" => "ref: refs/heads/master\n".to_string(),
                "refs/heads/loop" => "ref: refs/heads/loop\n".into(),
                "refs/heads/bad" => "what\n".into(),
                "refs/tags/t" => format!("{}\n", tag),
                _ => format!("{}\n", commit),
            };
            s.put(n, t.as_bytes());
        }
        let w = World { s, blob, commit, tag, cut, whole, chain, broken, other, first, second, placed: 0.into() };
        w.place(&w.first);
        w
    }

    fn place(&self, p: &Pack) {
        let stem = self.s.path(&format!("objects/pack/{}", p.name()));
        p.write_pack(&stem.with_extension("pack"));
        std::fs::write(stem.with_extension("idx"), p.index(2, u64::MAX)).unwrap();
        // always at another time
        let n = self.next();
        let t = std::time::UNIX_EPOCH + std::time::Duration::from_millis(1_600_000_000_000 + 1234 * n);
        for x in ["idx", "pack"] {
            std::fs::File::options().append(true).open(stem.with_extension(x)).unwrap().set_modified(t).unwrap();
        }
    }

    fn next(&self) -> u64 {
        self.placed.fetch_add(1, std::sync::atomic::Ordering::Relaxed) + 1
    }

    fn remove(&self, p: &Pack) {
        for x in ["idx", "pack"] {
            self.s.rm(&format!("objects/pack/{}.{}", p.name(), x));
        }
    }

    fn ctx(&self) -> Box<Ctx> {
        Box::new(Ctx { root: self.s.root(), ..Ctx::default() })
    }

    /// One operation on the handle; the readers held until the end of the round
    fn op(&self, h: &Repository, op: &str, round: usize, held: &mut Vec<Box<dyn Any>>, met: &mut [bool; 3], last: &str) {
        match op {
            "fail" | "deny" => {
                let mut c = self.ctx();
                let e = if op == "fail" { libc::EIO } else { libc::EMFILE };
                c.fault_at = Some((round % 9, if round % 2 == 0 { Fault::Errno(e) } else { Fault::PartialThenErrno(e) }));
                let what = if last.is_empty() { "absent" } else { last };
                interpose::armed(c, || self.call(h, what, held));
                self.s.rm(&Scratch::loose_rel(&sha(NEW)));
            }
            "opens" => {
                let mut c = self.ctx();
                c.fail = Some(Box::new(move |o| (o.class == Class::OpenRead && o.path.ends_with(".pack")).then_some(libc::EACCES)));
                self.place(&self.second);
                met[1] = true;
                interpose::advance_clock(5000);
                interpose::armed(c, || self.call(h, "other", held));
                self.remove(&self.second);
            }
            "come" => {
                self.place(&self.second);
                met[1] = true;
                interpose::advance_clock(5000);
                interpose::armed(self.ctx(), || self.call(h, "other", held));
                interpose::armed(self.ctx(), || self.call(h, "absent", held));
                self.remove(&self.second);
            }
            "anew" | "replace" => {
                // git writes a pack which exists, in its place or as another file
                if op == "replace" {
                    self.remove(&self.first);
                }
                self.place(&self.first);
                interpose::advance_clock(5000);
                interpose::armed(self.ctx(), || self.call(h, "absent", held));
                interpose::armed(self.ctx(), || self.call(h, "chain", held));
            }
            "bad" | "half" | "alien" | "lone" => {
                met[2] = true;
                let idx = self.second.index(2, u64::MAX);
                let idx = if op == "bad" { b"no index".to_vec() } else { idx };
                self.s.put("objects/pack/pack-x.idx", &idx);
                match op {
                    // of another pack with as many objects
                    "alien" => self.s.put("objects/pack/pack-x.pack", b"PACK\0\0\0\x02\0\0\0\x01 and not the pack of the index"),
                    "lone" => (),
                    _ => self.s.put("objects/pack/pack-x.pack", b"PACK\0\0\0\x02\0\0\0\x09 and no more than that"),
                };
                interpose::advance_clock(5000);
                interpose::armed(self.ctx(), || self.call(h, "absent", held));
                self.s.rm("objects/pack/pack-x.idx");
                self.s.rm("objects/pack/pack-x.pack");
            }
            "fresh" => {
                let b = full("blob", format!("number {}", self.next()).as_bytes());
                interpose::armed(self.ctx(), || {
                    if let Ok(id) = h.object_database().write_object(&b) {
                        proj::read(h, id);
                    }
                });
                self.s.rm(&Scratch::loose_rel(&sha(&b)));
            }
            "moving" => {
                // a reference with other contents each time
                for text in [format!("ref: refs/heads/of{}\n", self.next()), format!("{:040x}\n", self.next()), format!("{}\n", self.commit)] {
                    self.s.put("refs/heads/moving", text.as_bytes());
                    interpose::armed(self.ctx(), || self.call(h, "moving", held));
                }
                let dir = format!("refs/heads/at{}", self.next());
                self.s.put(&format!("{}/x", dir), b"what");
                interpose::armed(self.ctx(), || self.call(h, "names", held));
                self.s.rm(&format!("{}/x", dir));
                std::fs::remove_dir(self.s.path(&dir)).unwrap();
            }
            "clock" => interpose::advance_clock(5000),
            "threads" => std::thread::scope(|s| {
                for k in 0..3 {
                    s.spawn(move || {
                        for what in ["chain", "absent", "heads", "commit"].iter().cycle().skip(k).take(5) {
                            interpose::armed(self.ctx(), || self.call(h, what, &mut vec![]));
                        }
                    });
                }
            }),
            _ => {
                interpose::armed(self.ctx(), || self.call(h, op, held));
                if op == "new" {
                    self.s.rm(&Scratch::loose_rel(&sha(NEW)));
                }
            }
        }
    }

    fn call(&self, h: &Repository, op: &str, held: &mut Vec<Box<dyn Any>>) {
        let db = h.reference_database();
        let of = |id: &str| {
            proj::read(h, repo::id(id));
        };
        let name = |n: &[u8]| {
            if let Ok(x) = db.reference(n) {
                let _ = x.peel(h);
            }
        };
        match op {
            "blob" => of(&self.blob),
            "commit" => of(&self.commit),
            "tag" => of(&self.tag),
            "cut" => of(&self.cut),
            "whole" => of(&self.whole),
            "chain" => of(&self.chain),
            "broken" => of(&self.broken),
            "other" => of(&self.other),
            "absent" => of(&"01".repeat(20)),
            "absents" => {
                for _ in 0..3 {
                    of(&format!("{:040x}", self.next()));
                    name(format!("refs/heads/{}", self.next()).as_bytes());
                }
            }
            "raw" => {
                for id in [&self.blob, &self.chain, &self.cut] {
                    if let Ok(mut x) = h.object_database().read_object(repo::id(id)) {
                        let _ = x.reader().read(&mut [0; 3]);
                    }
                }
            }
            "hold" => {
                for id in [&self.blob, &self.whole, &self.cut] {
                    if let Ok(x) = h.object_database().read_object(repo::id(id)) {
                        held.push(Box::new(x));
                    }
                }
            }
            "peel" => {
                let _ = db.head().and_then(|x| x.peel(h));
            }
            "loop" => name(b"refs/heads/loop"),
            "moving" => name(b"refs/heads/moving"),
            "nothing" => name(b"refs/heads/nothing"),
            "badref" => name(b"refs/heads/bad"),
            "reader" => {
                let _ = db.read_head().map(|mut x| x.read(&mut [0; 2]));
            }
            "heads" => drop(db.head_reference_names()),
            "names" => drop(db.reference_names()),
            "same" => drop(h.object_database().write_object(&full("blob", b"some text"))),
            "new" => drop(h.object_database().write_object(NEW)),
            "open" => drop(Repository::open(&self.s.dir).map(|x| proj::read(&x, repo::id(&self.chain)))),
            "nowhere" => drop(Repository::open(self.s.path("refs"))),
            _ => panic!("{}", op),
        }
    }
}

/// As many as the specification wants; failures repeat after 18
const ROUNDS: usize = 28;

/// What can be done again while failing
const PLAIN: [&str; 21] = [
    "absents",
    "blob", "commit", "tag", "cut", "whole", "chain", "broken", "absent", "raw", "peel", "loop", "nothing", "badref", "reader", "heads", "names",
    "same", "new", "open", "nowhere",
];

fn program(w: &World, ops: &[String], lives: usize) -> Value {
    let mut ls = vec![];
    for _ in 0..lives {
        let (open, threads) = (fds(), tasks(0));
        let h = interpose::armed(w.ctx(), || w.s.open()).0;
        let mut met = [true, false, false];
        let mut rounds = vec![];
        let mut held: Vec<Box<dyn Any>> = Vec::with_capacity(3 * ops.len());
        let mut seen: Vec<(usize, usize, usize)> = Vec::with_capacity(ops.len() * ROUNDS);
        let mut mems = Vec::with_capacity(ROUNDS);
        for round in 0..ROUNDS {
            let mut last = "";
            for o in ops {
                w.op(&h, o, round, &mut held, &mut met, last);
                if PLAIN.contains(&&**o) {
                    last = o;
                }
                seen.push((fds().saturating_sub(open), held.len(), met.iter().filter(|m| **m).count()));
            }
            held.clear();
            mems.push((alloc::used(), fds().saturating_sub(open), tasks(threads).saturating_sub(threads)));
        }
        for (round, m) in mems.iter().enumerate() {
            let steps: Vec<_> = seen[round * ops.len()..][..ops.len()].iter().map(|s| json!([s.0, s.1, s.2])).collect();
            rounds.push(json!({"steps": steps, "mem": m.0, "files": m.1, "tasks": m.2}));
        }
        drop((seen, mems, held));
        drop(h);
        let kept = fds().saturating_sub(open);
        ls.push(json!({"rounds": rounds, "files": kept, "tasks": tasks(threads).saturating_sub(threads), "base": open}));
    }
    // whole lives without anything else in between
    let mut after = Vec::with_capacity(lives + 1);
    for _ in 0..=lives {
        {
            let h = interpose::armed(w.ctx(), || w.s.open()).0;
            let mut held = vec![];
            let mut met = [true, false, false];
            let mut last = "";
            for o in ops {
                w.op(&h, o, 4, &mut held, &mut met, last);
                if PLAIN.contains(&&**o) {
                    last = o;
                }
            }
        }
        after.push(alloc::used());
    }
    json!({"src": "program", "ops": ops, "lives": ls, "after": after})
}

pub fn run(a: &Args) {
    let mut r = Rng::new(a.num("seed", 1) ^ 0x2222 ^ (a.num("part", 0) << 20));
    let work = a.work();
    let mut out: Out = a.out();
    io::watch(120);
    let w = World::new(&work, &mut r);
    for c in a.cases() {
        io::current(|| c.clone());
        let ops: Vec<String> = c["ops"].as_array().unwrap().iter().map(|o| o.as_str().unwrap().to_string()).collect();
        out.put(&program(&w, &ops, 2));
    }
}
