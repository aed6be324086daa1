//! C18, inside the library: resolutions in two threads, switched at any request the library makes to the
//! allocator and at any call to the model, with one or two preemptions. All positions are enumerated.

use crate::alloc;
use crate::base::*;
use crate::cases::*;
use crate::env::*;
use crate::explore::*;
use crate::s_log::Scratch;
use crate::s_sched::*;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::time::Duration;

enum Msg {
    Point,
    Done(Box<Done>, u64),
}

struct Worker {
    /// what to run, the points to pass before coming back
    start: Sender<(Item, String, u64)>,
    go: Sender<u64>,
    rx: Receiver<Msg>,
}

fn spawn_worker() -> Worker {
    let (start, start_rx) = channel::<(Item, String, u64)>();
    let (go, go_rx) = channel::<u64>();
    let (tx, rx) = channel::<Msg>();
    std::thread::spawn(move || {
        let go_rx = std::rc::Rc::new(go_rx);
        while let Ok((item, path, first)) = start_rx.recv() {
            let (g, t) = (go_rx.clone(), tx.clone());
            alloc::arm(
                first,
                Box::new(move || {
                    let _ = t.send(Msg::Point);
                    g.recv().unwrap_or(u64::MAX)
                }),
            );
            let d = execute(&item, &path, None);
            let n = alloc::disarm();
            if tx.send(Msg::Done(Box::new(d), n)).is_err() {
                return;
            }
        }
    });
    Worker { start, go, rx }
}

pub struct Pool {
    w: Vec<Worker>,
    dir: Scratch,
}

impl Pool {
    pub fn new() -> Pool {
        Pool { w: (0..2).map(|_| spawn_worker()).collect(), dir: Scratch::new() }
    }
}

pub struct Pair {
    pub id: String,
    pub a: Item,
    pub b: Item,
    pub two: bool,
}

enum Got {
    Point,
    Done,
    Blocked,
}

const BLOCK: Duration = Duration::from_millis(2000);
const DEADLOCK: Duration = Duration::from_secs(40);

struct Exec<'a> {
    pool: &'a Pool,
    items: [&'a Item; 2],
    started: [bool; 2],
    done: [Option<(Done, u64)>; 2],
}

impl Exec<'_> {
    fn wait(&mut self, t: usize, d: Duration) -> Got {
        match self.pool.w[t].rx.recv_timeout(d) {
            Ok(Msg::Point) => Got::Point,
            Ok(Msg::Done(d, n)) => {
                self.done[t] = Some((*d, n));
                Got::Done
            }
            Err(RecvTimeoutError::Timeout) => Got::Blocked,
            Err(_) => panic!("no worker left"),
        }
    }
    /// let thread t pass n points
    fn run(&mut self, t: usize, n: u64) -> Got {
        if self.done[t].is_some() {
            return Got::Done;
        }
        if !self.started[t] {
            self.started[t] = true;
            let path = self.pool.dir.file(&format!("in-{}.txt", t));
            let _ = std::fs::remove_file(&path);
            let _ = self.pool.w[t].start.send((self.items[t].clone(), path, n));
        } else {
            let _ = self.pool.w[t].go.send(n);
        }
        self.wait(t, BLOCK)
    }
}

const ALL: u64 = u64::MAX;

/// the results, and whether a thread waited for the other one
fn one(pool: &Pool, items: [&Item; 2], plan: &[(usize, u64)]) -> Result<([(Done, u64); 2], bool), String> {
    let mut e = Exec { pool, items, started: [false; 2], done: [None, None] };
    let mut blocked = false;
    // threads given the end of their resolution while blocked
    let mut pending = [false; 2];
    for (t, n) in plan {
        if pending[*t] {
            continue;
        }
        if let Got::Blocked = e.run(*t, *n) {
            blocked = true;
            pending[*t] = true;
        }
    }
    let t0 = std::time::Instant::now();
    while e.done.iter().any(|d| d.is_none()) {
        for t in 0..2 {
            if e.done[t].is_some() {
                continue;
            }
            let g = if pending[t] { e.wait(t, Duration::from_millis(50)) } else { e.run(t, ALL) };
            match g {
                Got::Point => pending[t] = false,
                Got::Done => {}
                Got::Blocked => {
                    blocked = true;
                    pending[t] = true
                }
            }
        }
        if t0.elapsed() > DEADLOCK {
            return Err("the resolutions wait for each other for ever".into());
        }
    }
    let [a, b] = e.done;
    Ok(([a.unwrap(), b.unwrap()], blocked))
}

pub fn pairs(thorough: bool) -> Vec<Pair> {
    let mut v = vec![];
    let c = |p: &str, v: &Var, m: usize, d: bool, fd: bool, iters: usize| -> crate::run::Cfg {
        let mut v = v.clone();
        v.max_iter = iters;
        v.tol = 1e-12;
        v.stat = false;
        mk(p, &v, m, d, fd, FULL)
    };
    let e = |a: EAlt| E_FULL.iter().position(|x| *x == a).unwrap() as u8;
    let mut add = |a: Item, b: Item, two: bool| {
        let id = format!("inside {}: {} || {}", if two { 2 } else { 1 }, a.cfg.id, b.cfg.id);
        v.push(Pair { id, a, b, two })
    };
    for m in ALL_M {
        for fd in BOTH {
            let other = (*m + 3) % 10;
            // one preemption: whole resolutions, logged
            add(item(c("cpl2", &V_MIXA, *m, true, *fd, 3), true), item(c("atan2", &V_MIXB, other, true, !*fd, 3), true), false);
            add(item(c("cpl3", &V_STEPS, *m, true, *fd, 3), false), item(c("cpl3", &V_MIXC, *m, true, *fd, 3), false), false);
            let mut worse = item(c("cpl2", &V_BASE, *m, true, *fd, 2), true);
            worse.script = vec![(if *fd { 3 } else { 2 }, e(EAlt::Worse))];
            add(worse, item(c("cpl2", &V_BASE, other, true, !*fd, 2), true), false);
            // two preemptions: short ones
            let (p, q) = if m % 2 == 0 { ("sq1", "cpl2") } else { ("cpl2", "atan1") };
            add(item(c(p, &V_BASE, *m, true, *fd, 1), false), item(c(q, &V_MIXA, *m, true, *fd, 1), false), true);
            if thorough {
                add(item(c("cpl2", &V_BASE, *m, true, *fd, 2), false), item(c("cpl2", &V_MIXA, other, true, *fd, 2), false), true);
                add(item(c("cpl2", &V_BASE, *m, true, *fd, 1), true), item(c("cpl2", &V_MIXA, other, true, !*fd, 1), true), true);
                for q in ["big4", "atan2", "cub1"] {
                    add(item(c("cpl2", &V_STEPS2, *m, false, *fd, 4), true), item(c(q, &V_MIXC, other, true, *fd, 4), true), false);
                }
            }
        }
    }
    v
}

pub fn explore_pair(pool: &Pool, g: &Pair, rep: &mut Report) {
    let items = [&g.a, &g.b];
    let gh = case_hash(&g.id);
    // alone, in the threads of the pool
    let mut alone: Vec<(Done, u64)> = vec![];
    for t in 0..2 {
        let mut e = Exec { pool, items, started: [false; 2], done: [None, None] };
        e.run(t, ALL);
        match e.done[t].take() {
            Some(d) => alone.push(d),
            None => {
                rep.viol("inside", &g.id, &vec![], format!("resolution {} alone does not end", t));
                return;
            }
        }
    }
    let n = [alone[0].1, alone[1].1];
    let mut plans: Vec<Vec<(usize, u64)>> = vec![];
    for t in 0..2usize {
        let u = 1 - t;
        for k in 1..=n[t] {
            plans.push(vec![(t, k), (u, ALL), (t, ALL)]);
            if g.two {
                for j in 1..=n[u] {
                    plans.push(vec![(t, k), (u, j), (t, ALL), (u, ALL)]);
                }
            }
        }
    }
    let mut nblocked = 0;
    for p in &plans {
        let describe = || p.iter().map(|(t, k)| if *k == ALL { format!("{} to its end", t) } else { format!("{} passes {} points", t, k) }).collect::<Vec<_>>().join(", ");
        rep.runs += 2;
        rep.transitions += p.len() as u64;
        let mut h = Hasher64::new();
        h.u(gh);
        for (t, k) in p {
            h.u(*t as u64);
            h.u(*k);
        }
        rep.state(h.0);
        match one(pool, items, p) {
            Err(m) => {
                rep.viol("inside", &g.id, &vec![], format!("{} | schedule: {}", m, describe()));
                return;
            }
            Ok((d, blocked)) => {
                for t in 0..2 {
                    if let Some(m) = diff_done(&alone[t].0, &d[t].0) {
                        rep.viol("inside", &g.id, &vec![], format!("resolution {} differs from itself alone: {} | schedule: {}", t, m, describe()));
                    }
                }
                if rep.nviol as usize >= MAX_VIOL {
                    return;
                }
                if blocked {
                    nblocked += 1;
                    rep.feat("a thread waited for another one");
                    if nblocked >= 2 {
                        break;
                    }
                }
            }
        }
    }
    rep.feat_n("schedules switched inside the library", plans.len() as u64);
    rep.feat_n("points inside the library", n[0] + n[1]);
}
