//! A controlled scheduler: armed threads stop at every boundary until they are granted a step.
//!
//! Exploration only: which schedule was really taken never decides a verdict, the recorded calls
//! and returns do.

use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

use crate::interpose::Op;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Running,
    Parked,
    Blocked,
    /// Running for longer than the controller waited for; probably spinning on a lock
    Spinning,
    Done,
}

struct Th {
    st: St,
    grant: bool,
    at: Option<Op>,
}

pub struct Sched {
    m: Mutex<(Vec<Th>, bool)>,
    to_thread: Condvar,
    to_ctl: Condvar,
}

pub enum Step {
    /// The thread executed this operation and stopped at the next boundary, blocked or finished
    Did(Op),
    Stuck,
    Finished,
}

impl Sched {
    pub fn new(n: usize) -> Sched {
        Sched {
            m: Mutex::new((
                (0..n).map(|_| Th { st: St::Running, grant: false, at: None }).collect(),
                false,
            )),
            to_thread: Condvar::new(),
            to_ctl: Condvar::new(),
        }
    }

    // ---- called by the threads ----

    pub fn park(&self, t: usize, op: &Op) {
        let mut g = self.m.lock().unwrap();
        if g.1 {
            return; // free running
        }
        g.0[t].st = St::Parked;
        g.0[t].at = Some(op.clone());
        self.to_ctl.notify_all();
        while !g.0[t].grant && !g.1 {
            g = self.to_thread.wait(g).unwrap();
        }
        g.0[t].grant = false;
        g.0[t].st = St::Running;
        g.0[t].at = None;
    }

    pub fn set_blocked(&self, t: usize, blocked: bool) {
        let mut g = self.m.lock().unwrap();
        g.0[t].st = if blocked { St::Blocked } else { St::Running };
        self.to_ctl.notify_all();
    }

    pub fn done(&self, t: usize) {
        let mut g = self.m.lock().unwrap();
        g.0[t].st = St::Done;
        self.to_ctl.notify_all();
    }

    /// Stop before doing anything observable, until granted.
    pub fn gate(&self, t: usize, name: &str) {
        self.park(t, &Op { class: crate::interpose::Class::Sync, path: name.to_string() });
    }

    // ---- called by the controller ----

    /// Wait until no thread is running (spinning threads are not waited for).
    pub fn quiesce(&self) {
        let mut g = self.m.lock().unwrap();
        let mut waited = 0;
        while g.0.iter().any(|t| t.st == St::Running) {
            let (g2, to) = self.to_ctl.wait_timeout(g, Duration::from_millis(5)).unwrap();
            g = g2;
            if to.timed_out() {
                waited += 1;
                if waited >= 6 {
                    for t in g.0.iter_mut().filter(|t| t.st == St::Running) {
                        t.st = St::Spinning;
                    }
                }
            }
        }
    }

    pub fn parked(&self) -> Vec<usize> {
        let g = self.m.lock().unwrap();
        (0..g.0.len()).filter(|&i| g.0[i].st == St::Parked).collect()
    }

    pub fn at(&self, t: usize) -> Option<Op> {
        self.m.lock().unwrap().0[t].at.clone()
    }

    pub fn finished(&self, t: usize) -> bool {
        self.m.lock().unwrap().0[t].st == St::Done
    }

    pub fn all_done(&self) -> bool {
        self.m.lock().unwrap().0.iter().all(|t| t.st == St::Done)
    }

    /// Let thread `t` execute the operation it is stopped at and run to its next boundary.
    pub fn step(&self, t: usize) -> Step {
        self.quiesce();
        let op;
        {
            let mut g = self.m.lock().unwrap();
            match g.0[t].st {
                St::Done => return Step::Finished,
                St::Parked => (),
                _ => return Step::Stuck,
            }
            op = g.0[t].at.clone().unwrap();
            g.0[t].grant = true;
            g.0[t].st = St::Running;
            self.to_thread.notify_all();
        }
        self.quiesce();
        Step::Did(op)
    }

    /// Let everything run freely.
    pub fn release(&self) {
        let mut g = self.m.lock().unwrap();
        g.1 = true;
        self.to_thread.notify_all();
    }
}

/// Runs the threads; `choose` says who acts next, None: everything has been decided.
/// The process ends if they do not come to an end.
pub fn drive<'a>(
    s: &Arc<Sched>,
    bodies: Vec<Box<dyn FnOnce(&Arc<Sched>) + Send + 'a>>,
    choose: &mut dyn FnMut(&[usize], &Sched) -> Option<usize>,
) {
    std::thread::scope(|sc| {
        for (t, b) in bodies.into_iter().enumerate() {
            let s = s.clone();
            sc.spawn(move || {
                b(&s);
                s.done(t);
            });
        }
        let mut idle = 0;
        loop {
            s.quiesce();
            if s.all_done() {
                return;
            }
            let p = s.parked();
            if p.is_empty() {
                idle += 1;
                if idle > 20_000 {
                    crate::io::hang();
                }
                std::thread::sleep(Duration::from_millis(1));
                continue;
            }
            idle = 0;
            match choose(&p, s) {
                Some(t) => {
                    s.step(t);
                }
                None => {
                    // the rest in turn
                    for t in p {
                        s.step(t);
                    }
                }
            }
        }
    })
}
