//! C07: one handle, many reads: in any order, with failures in between, by several threads.

use std::collections::HashMap;
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::{Arc, Mutex};

use rusty_git::repository::Repository;
use serde_json::{json, Value};

use crate::interpose::{self, Ctx, Fault, Seg};
use crate::io::{self, Args, Out};
use crate::pack::{self, Entry, Pack};
use crate::packs::{self, Case};
use crate::proj;
use crate::repo::{self, deflate, full, sha, Scratch};
use crate::rng::Rng;
use crate::sched::{self, Sched};

type Bodies<'a> = Vec<Box<dyn FnOnce(&Arc<Sched>) + Send + 'a>>;

struct Run<'a> {
    c: &'a Case,
    s: Scratch,
    stored: (Vec<Value>, Vec<Value>),
    handle: Repository,
    /// What was observed for each query
    obs: Mutex<Vec<(Vec<Value>, Vec<Value>)>>,
}

static COUNTS: Mutex<Option<HashMap<&'static str, usize>>> = Mutex::new(None);

impl<'a> Run<'a> {
    fn new(c: &'a Case, work: &std::path::Path) -> Run<'a> {
        let s = Scratch::new(work);
        let stored = packs::store(c, &s);
        let handle = s.open();
        let obs = Mutex::new(c.q.iter().map(|_| (vec![], vec![])).collect());
        Run { c, s, stored, handle, obs }
    }

    fn ctx(&self) -> Box<Ctx> {
        Box::new(Ctx { root: self.s.root(), ..Ctx::default() })
    }

    fn count(&self, k: &'static str) {
        *COUNTS.lock().unwrap().get_or_insert_with(HashMap::new).entry(k).or_insert(0) += 1;
    }

    /// Read through the shared handle (or a new one). A read which met a fault may fail; if it
    /// does not, it counts as any other.
    fn read(&self, q: usize, is_raw: bool, fresh: bool, ctx: Box<Ctx>) -> Box<Ctx> {
        let mine;
        let h = if fresh {
            mine = self.s.open();
            &mine
        } else {
            &self.handle
        };
        let id = &self.c.q[q];
        let (v, ctx) = interpose::armed(ctx, || {
            if is_raw {
                packs::raw(h, id)
            } else {
                packs::strip(proj::read(h, repo::id(id)))
            }
        });
        let failed = matches!(v["r"].as_str().unwrap(), "err" | "rawerr" | "nf" | "rawnf");
        self.count(match (ctx.fault_hit.is_some(), failed) {
            (true, true) => "failed by a fault",
            (true, false) => "read in spite of a fault",
            (false, true) => "failed",
            (false, false) => "read",
        });
        if ctx.fault_hit.is_none() || !failed {
            let mut o = self.obs.lock().unwrap();
            let l = if is_raw { &mut o[q].1 } else { &mut o[q].0 };
            if !l.contains(&v) {
                l.push(v);
            }
        }
        ctx
    }

    fn value(self, src: &str) -> Value {
        // and once more through a fresh handle
        for i in 0..self.c.q.len() {
            self.read(i, false, true, self.ctx());
            self.read(i, true, true, self.ctx());
        }
        let obs = self.obs.into_inner().unwrap();
        let q: Vec<Value> = self
            .c
            .q
            .iter()
            .zip(obs)
            .map(|(id, (o, w))| json!({"id": proj::bytes(id.as_bytes()), "obs": o, "raw": w}))
            .collect();
        json!({"k": "pack", "src": src, "same": true, "packs": self.stored.0, "loose": self.stored.1, "q": q})
    }
}

/// A pack with chains of deltas as given; one entry may be damaged
fn chains(r: &mut Rng, base: &[usize], bad: &[bool]) -> Case {
    let n = base.len();
    let mut bodies: Vec<Vec<u8>> = vec![];
    let (mut es, mut bases) = (vec![], vec![]);
    for e in 0..n {
        let len = match r.below(12) {
            0 => 5000,
            1 => 0,
            k => 7 * k,
        };
        let mut own = r.bytes(len);
        own.extend(format!("entry {}", e).as_bytes());
        if base[e] == 0 {
            es.push(Entry::base("blob", &own));
            bases.push(None);
            bodies.push(own);
        } else {
            let b = base[e] - 1;
            let mut t = bodies[b].clone();
            t.extend(own);
            let (d, out) = packs::delta(r, &bodies[b].clone(), Some(&t));
            assert!(out == t);
            let id = sha(&full("blob", &t));
            if r.pct(50) {
                es.push(Entry::ofs_delta(&id, &d));
                bases.push(Some(b));
            } else {
                es.push(Entry::ref_delta(&id, &es[b].id.clone(), &d));
                bases.push(None);
            }
            bodies.push(t);
        }
        if bad[e] {
            let x = es.last_mut().unwrap();
            if r.pct(50) || base[e] == 0 {
                let l = (x.data.len() as i64 + *r.pick(&[-1i64, 1, 3, 40])).max(0) as u64;
                x.hdr = pack::type_no(packs::entry_type(x), l);
            } else {
                // a base of another length
                let mut d = pack::varint(bodies[base[e] - 1].len() as u64 + 1);
                let skip = pack::varint(bodies[base[e] - 1].len() as u64).len();
                d.extend(&x.data[skip..]);
                let t = packs::entry_type(x);
                x.hdr = pack::type_no(t, d.len() as u64);
                x.z = deflate(&d);
                x.data = d;
            }
        }
    }
    let mut c = Case::new("schedule");
    c.q = es.iter().map(|e| e.id.clone()).collect();
    c.packs.push((Pack::layout(2, es, &bases, &[]), *r.pick(&[1, 2]), u64::MAX));
    c
}

/// A schedule of PackRead
fn replay(h: &Value, work: &std::path::Path, r: &mut Rng) -> Value {
    let hist = h["hist"].as_array().unwrap();
    let base: Vec<usize> = hist[0]["base"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as usize).collect();
    let bad: Vec<bool> = hist[0]["bad"].as_array().unwrap().iter().map(|b| b.as_bool().unwrap()).collect();
    let c = chains(r, &base, &bad);
    let run = Run::new(&c, work);
    if r.pct(50) {
        // the packs are known already
        run.handle.object_database().parse_object(repo::id(&"00".repeat(20))).err();
    }
    let th = |v: &Value| v.as_str().unwrap()[1..].parse::<usize>().unwrap() - 1;
    let mut programs = vec![vec![]; 3];
    for s in &hist[1..] {
        if s["k"] == "call" {
            programs[th(&s["t"])].push((s["e"].as_u64().unwrap() as usize - 1, r.pct(30)));
        }
    }
    let flags: Vec<Arc<AtomicI32>> = (0..3).map(|_| Arc::default()).collect();
    let mut at = 1;
    let mut tries = 0;
    threads(&run, programs, &flags, &mut |parked, s| {
        while at < hist.len() {
            let h = &hist[at];
            let t = th(&h["t"]);
            if h["k"] == "fault" {
                at += 1;
                flags[t].store(libc::EIO, Ordering::SeqCst);
                continue;
            }
            let Some(op) = s.at(t).filter(|_| parked.contains(&t)) else {
                at += 1;
                tries = 0;
                continue;
            };
            let want = match h["l"].as_str() {
                Some("seek") | Some("aseek") => op.class == interpose::Class::Seek,
                Some(_) => op.class == interpose::Class::Read,
                None => op.path == "call",
            };
            if want || tries > 8 {
                at += 1;
                tries = 0;
            } else {
                tries += 1;
            }
            return Some(t);
        }
        None
    });
    run.value("schedule")
}

/// Each thread reads what its program says
fn threads(
    run: &Run,
    programs: Vec<Vec<(usize, bool)>>,
    flags: &[Arc<AtomicI32>],
    choose: &mut dyn FnMut(&[usize], &Sched) -> Option<usize>,
) {
    let s = Arc::new(Sched::new(programs.len()));
    let bodies: Bodies = programs
        .into_iter()
        .enumerate()
        .map(|(t, p)| {
            let flag = flags[t].clone();
            Box::new(move |s: &Arc<Sched>| {
                for (q, is_raw) in p {
                    s.gate(t, "call");
                    let mut c = run.ctx();
                    c.sched = Some(s.clone());
                    c.tid = t;
                    c.fail_flag = Some(flag.clone());
                    run.read(q, is_raw, false, c);
                }
            }) as Box<dyn FnOnce(&Arc<Sched>) + Send>
        })
        .collect();
    sched::drive(&s, bodies, choose);
}

/// One thread stops somewhere, another one reads
fn preempted(work: &std::path::Path, r: &mut Rng, put: &mut dyn FnMut(Value)) {
    let n = 4;
    let base: Vec<usize> = (0..n).map(|e| if e == 0 { 0 } else { r.below(e + 1) }).collect();
    let mut bad = vec![false; n];
    if r.pct(40) {
        bad[r.below(n)] = true;
    }
    let c = chains(r, &base, &bad);
    let (a, b) = (r.below(n), r.below(n));
    let raw = (r.pct(30), r.pct(30));
    let warm = r.pct(40);
    let fault = r.pct(25);
    let flags: Vec<Arc<AtomicI32>> = (0..2).map(|_| Arc::default()).collect();
    let mut k = 0;
    loop {
        let run = Run::new(&c, work);
        if warm {
            run.read(r.below(n), false, false, run.ctx());
        }
        let mut steps = 0;
        let mut reached = false;
        threads(&run, vec![vec![(a, raw.0), (b, raw.0)], vec![(b, raw.1), (a, raw.1)]], &flags, &mut |p, s| {
            if steps < k && p.contains(&0) {
                steps += 1;
                if fault && steps == k {
                    flags[0].store(libc::EIO, Ordering::SeqCst);
                }
                return Some(0);
            }
            if steps == k && !s.finished(0) {
                reached = true;
            }
            if p.contains(&1) {
                Some(1)
            } else {
                Some(p[0])
            }
        });
        flags.iter().for_each(|f| f.store(0, Ordering::SeqCst));
        put(run.value("preempted"));
        if !reached || k > 90 {
            break;
        }
        k += 1 + r.below(2);
    }
}

fn mixed(r: &mut Rng, i: u64) -> Case {
    let mut c = packs::random(r, if i % 5 == 0 { 7 } else { 0 });
    if r.pct(50) {
        packs::damage(r, &mut c);
    }
    c.q.truncate(14);
    c
}

/// A sequence of reads, some of them failing
fn history(work: &std::path::Path, r: &mut Rng, i: u64) -> Value {
    let c = mixed(r, i);
    let run = Run::new(&c, work);
    for _ in 0..r.range(5, 50) {
        let mut x = run.ctx();
        if r.pct(35) {
            let e = *r.pick(&[libc::EIO, libc::EMFILE, libc::ENOMEM, libc::EACCES, libc::ENOENT]);
            x.fault_at = Some((r.below(14), Fault::Errno(e)));
        }
        if r.pct(30) {
            x.seg = Some(Seg { rng: r.fork(i), eintr_pct: 20, max: *r.pick(&[1, 3, 64]), reads: 0, interrupted: 0 });
        }
        if r.pct(10) {
            interpose::advance_clock(3000);
        }
        run.read(r.below(c.q.len()), r.pct(30), r.pct(5), x);
    }
    // everything once more
    let mut order: Vec<usize> = (0..c.q.len()).collect();
    r.shuffle(&mut order);
    for q in order {
        run.read(q, false, false, run.ctx());
        run.read(q, true, false, run.ctx());
    }
    run.value("sequence")
}

/// Threads running freely
fn storm(work: &std::path::Path, r: &mut Rng, i: u64) -> Value {
    let c = mixed(r, i);
    let run = Run::new(&c, work);
    let n = r.range(2, 8);
    std::thread::scope(|s| {
        for t in 0..n {
            let mut r = r.fork(t as u64);
            let (run, c) = (&run, &c);
            s.spawn(move || {
                for _ in 0..40 {
                    run.read(r.below(c.q.len()), r.pct(30), false, run.ctx());
                }
            });
        }
    });
    run.value("threads")
}

pub fn run(a: &Args) {
    let mut r = Rng::new(a.num("seed", 1) ^ 0x0707 ^ (a.num("part", 0) << 20));
    let work = a.work();
    let mut out: Out = a.out();
    io::watch(120);
    for c in a.cases() {
        io::current(|| c.clone());
        let v = replay(&c, &work, &mut r);
        out.put(&v);
    }
    for i in 0..a.num("history", 0) {
        io::current(|| json!({"history": i}));
        out.put(&history(&work, &mut r, i));
    }
    for i in 0..a.num("preempted", 0) {
        io::current(|| json!({"preempted": i}));
        preempted(&work, &mut r, &mut |v| out.put(&v));
    }
    for i in 0..a.num("threads", 0) {
        io::current(|| json!({"threads": i}));
        out.put(&storm(&work, &mut r, i));
    }
    if let Some(f) = a.get("stats") {
        std::fs::write(f, serde_json::to_vec(&*COUNTS.lock().unwrap()).unwrap()).unwrap();
    }
}
