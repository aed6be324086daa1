//! C18: resolutions running concurrently, or nested in each other.
//!
//! Real threads under a controlled scheduler: one thread runs at a time, from one call to its model to the
//! next one; the controller enumerates the schedules. Every resolution is compared, call by call, with the
//! same resolution alone. The explorations run in child processes, one at a time in each, so that anything
//! shared inside the library is shared only by the resolutions of the schedule.

use crate::base::*;
use crate::cases::*;
use crate::env::*;
use crate::explore::*;
use crate::run::*;
use crate::s_log::Scratch;
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::{BufRead, BufReader};
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::time::{Duration, Instant};

/// which calls to the model are scheduling points
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Gran {
    /// evaluations and jacobian requests
    Heavy,
    /// every call
    All,
}

fn is_point(g: Gran, c: Call) -> bool {
    g == Gran::All || matches!(c, Call::Evaluate | Call::GetJac)
}

#[derive(Clone)]
pub struct Item {
    pub cfg: Cfg,
    pub script: Script,
    pub log: bool,
    /// resolutions made one after the other with the same object
    pub times: usize,
}

impl Item {
    fn jobs(&self) -> Vec<Job> {
        (0..self.times)
            .map(|_| Job { prob: self.cfg.prob, script: self.script.clone(), fd: None })
            .collect()
    }
}

#[derive(Clone)]
pub struct Done {
    pub runs: Vec<Run>,
    pub log: Option<String>,
}

enum Msg {
    Point,
    Done(Box<Done>),
}

struct Start {
    item: Item,
    gran: Gran,
    path: String,
}

struct Worker {
    start: Sender<Start>,
    go: Sender<()>,
}

pub fn execute(item: &Item, path: &str, hook: Option<Hook>) -> Done {
    let o = Opts { log: if item.log { Some(path.to_string()) } else { None }, hook, perm: None, ..Default::default() };
    let runs = run_many(&item.cfg, &item.jobs(), &o);
    let log = if item.log { Some(std::fs::read_to_string(path).unwrap_or_default()) } else { None };
    Done { runs, log }
}

fn spawn_worker(t: usize, out: Sender<(usize, Msg)>) -> Worker {
    let (start, start_rx) = channel::<Start>();
    let (go, go_rx) = channel::<()>();
    std::thread::spawn(move || {
        let go_rx: Rc<Receiver<()>> = Rc::new(go_rx);
        while let Ok(s) = start_rx.recv() {
            // the segment before the first call starts only when it is scheduled
            if go_rx.recv().is_err() {
                return;
            }
            let (rx, tx, gran) = (go_rx.clone(), out.clone(), s.gran);
            let hook: Hook = Rc::new(move |c, _| {
                if is_point(gran, c) {
                    let _ = tx.send((t, Msg::Point));
                    let _ = rx.recv();
                }
            });
            let d = execute(&s.item, &s.path, Some(hook));
            let _ = out.send((t, Msg::Done(Box::new(d))));
        }
    });
    Worker { start, go }
}

struct Pool {
    w: Vec<Worker>,
    rx: Receiver<(usize, Msg)>,
    dir: Scratch,
}

impl Pool {
    fn new(n: usize) -> Pool {
        let (tx, rx) = channel();
        Pool { w: (0..n).map(|t| spawn_worker(t, tx.clone())).collect(), rx, dir: Scratch::new() }
    }
}

struct Trail {
    /// at each decision: the threads that could run, the one chosen
    decisions: Vec<(Vec<usize>, usize)>,
    done: Vec<Option<Done>>,
    blocked: bool,
    deadlock: bool,
    states: Vec<u64>,
}

const BLOCK: Duration = Duration::from_millis(3000);
const DEADLOCK: Duration = Duration::from_secs(40);

/// Run the items under one schedule: `prefix` then the default policy (go on with the same thread)
fn one_schedule(pool: &Pool, items: &[Item], gran: Gran, prefix: &[usize]) -> Trail {
    let n = items.len();
    for (t, it) in items.iter().enumerate() {
        let path = pool.dir.file(&format!("log-{}.txt", t));
        let _ = std::fs::remove_file(&path);
        let _ = pool.w[t].start.send(Start { item: it.clone(), gran, path });
    }
    let mut tr = Trail { decisions: vec![], done: vec![None; n], blocked: false, deadlock: false, states: vec![] };
    // threads waiting for their turn
    let mut ready = vec![true; n];
    let mut pos = vec![0u64; n];
    let mut cur: Option<usize> = None;
    loop {
        let enabled: Vec<usize> = (0..n).filter(|t| ready[*t] && tr.done[*t].is_none()).collect();
        if enabled.is_empty() {
            if tr.done.iter().all(|d| d.is_some()) {
                return tr;
            }
            // everything is blocked: unless one of them comes back, it is a deadlock
            match pool.rx.recv_timeout(DEADLOCK) {
                Ok((t, Msg::Point)) => ready[t] = true,
                Ok((t, Msg::Done(d))) => tr.done[t] = Some(*d),
                Err(_) => {
                    tr.deadlock = true;
                    return tr;
                }
            }
            continue;
        }
        let k = tr.decisions.len();
        let t = if k < prefix.len() && enabled.contains(&prefix[k]) {
            prefix[k]
        } else {
            match cur {
                Some(c) if enabled.contains(&c) => c,
                _ => enabled[0],
            }
        };
        tr.decisions.push((enabled, t));
        ready[t] = false;
        pos[t] += 1;
        cur = Some(t);
        let mut h = Hasher64::new();
        for p in &pos {
            h.u(*p)
        }
        tr.states.push(h.0);
        let _ = pool.w[t].go.send(());
        // until this one comes back (another one, released, can come back too)
        let t0 = Instant::now();
        loop {
            match pool.rx.recv_timeout(BLOCK.saturating_sub(t0.elapsed())) {
                Ok((u, m)) => {
                    match m {
                        Msg::Point => ready[u] = true,
                        Msg::Done(d) => tr.done[u] = Some(*d),
                    }
                    if u == t {
                        break;
                    }
                }
                Err(RecvTimeoutError::Timeout) => {
                    tr.blocked = true;
                    break;
                }
                Err(_) => panic!("no worker left"),
            }
        }
    }
}

pub fn diff_done(a: &Done, b: &Done) -> Option<String> {
    for (k, (x, y)) in a.runs.iter().zip(&b.runs).enumerate() {
        if let Some(m) = diff_run(x, y) {
            return Some(format!("resolution {} of the object: {}", k + 1, m));
        }
        if x.ncb != y.ncb {
            return Some(format!("{} calls to the model instead of {}", y.ncb, x.ncb));
        }
    }
    if a.log != b.log {
        let (p, q) = (a.log.clone().unwrap_or_default(), b.log.clone().unwrap_or_default());
        let i = p.lines().zip(q.lines()).position(|(u, v)| u != v);
        return Some(format!(
            "the log is not the same, from line {:?}: {:?} instead of {:?} ({} and {} bytes)",
            i.map(|i| i + 1),
            i.and_then(|i| q.lines().nth(i)),
            i.and_then(|i| p.lines().nth(i)),
            q.len(),
            p.len()
        ));
    }
    None
}

struct Group {
    id: String,
    items: Vec<Item>,
    gran: Gran,
    /// None: every interleaving
    preemptions: Option<usize>,
}

pub fn item(cfg: Cfg, log: bool) -> Item {
    Item { cfg, script: vec![], log, times: 1 }
}

fn groups(thorough: bool) -> Vec<Group> {
    let mut g: Vec<Group> = vec![];
    let c = |p: &str, v: &Var, m: usize, d: bool, fd: bool, iters: usize, tol: f64| -> Cfg {
        let mut v = v.clone();
        v.max_iter = iters;
        v.tol = tol;
        mk(p, &v, m, d, fd, FULL)
    };
    let mut add = |items: Vec<Item>, gran: Gran, preemptions: Option<usize>, what: &str| {
        let id = format!(
            "{} {:?} {:?}: {}",
            what,
            gran,
            preemptions,
            items.iter().map(|i| format!("{}x{}", i.cfg.id, i.times)).collect::<Vec<_>>().join(" || ")
        );
        g.push(Group { id, items, gran, preemptions })
    };
    // the same configuration twice, then each method against another one
    for m in ALL_M {
        for fd in [false, true] {
            let a = c("cpl2", &V_BASE, *m, true, fd, 2, 1e-12);
            let mut other = (*m + 3) % 10;
            if other < 2 {
                other += 4
            }
            let b = c("atan2", &V_MIXB, other, fd, !fd, 2, 1e-12);
            add(vec![item(a.clone(), false), item(a.clone(), false)], Gran::Heavy, None, "same");
            add(vec![item(a.clone(), true), item(b.clone(), true)], Gran::Heavy, None, "two");
            // a short one against a long one: every phase of the long one
            let s = c("sq1", &V_BASE, other, true, fd, 1, 1e-12);
            let l = c("atan1", &V_LONG, *m, true, !fd, 4, 1e-9);
            add(vec![item(s, true), item(l, true)], Gran::Heavy, None, "short-long");
        }
        // three of them
        let a = c("sq1", &V_BASE, *m, false, false, 1, 1e-12);
        let b = c("atan1", &V_BASE, (*m + 1) % 10, true, false, 1, 1e-12);
        let d = c("cub1", &V_BASE, (*m + 5) % 10, false, false, 1, 1e-12);
        add(vec![item(a, true), item(b, false), item(d, true)], Gran::Heavy, None, "three");
        // at every call, few preemptions
        let a = c("cpl2", &V_MIXA, *m, true, false, 2, 1e-12);
        let b = c("aff2", &V_STEPS, (*m + 4) % 10, true, true, 2, 1e-12);
        add(vec![item(a.clone(), true), item(b, false)], Gran::All, Some(2), "every call");
        // resolutions repeated with the same object, in both threads
        let a = c("sq1", &V_BASE, *m, true, false, 1, 1e-12);
        let b = c("atan1", &V_BASE, *m, true, false, 1, 1e-12);
        let mut ia = item(a, true);
        ia.times = 2;
        let mut ib = item(b, true);
        ib.times = 2;
        add(vec![ia, ib], Gran::Heavy, None, "repeated");
    }
    // ends in error: unusable, singular jacobian, non-convergence, failed final evaluation
    let bad = |m: usize, script: Script| -> Item {
        Item { cfg: c("cpl2", &V_BASE, m, true, false, 2, 1e-3), script, log: true, times: 1 }
    };
    let e = |a: EAlt| E_FULL.iter().position(|x| *x == a).unwrap() as u8;
    let j = |a: JAlt| J_FULL.iter().position(|x| *x == a).unwrap() as u8;
    for m in [0, 2, 3, 6] {
        for sc in [
            vec![(0, e(EAlt::Unusable))],
            vec![(2, e(EAlt::Unusable))],
            vec![(2, e(EAlt::InaccZero))],
            vec![(2, e(EAlt::Worse))],
            vec![(2, e(EAlt::Worse)), (3, e(EAlt::Unusable))],
            vec![(1, j(JAlt::Zero))],
            vec![(1, j(JAlt::Unus))],
            vec![(2, e(EAlt::Zero))],
        ] {
            let good = item(c("atan2", &V_BASE, 4, true, false, 2, 1e-12), true);
            add(vec![bad(m, sc), good], Gran::Heavy, None, "error");
        }
    }
    if thorough {
        for m in ALL_M {
            for fd in [false, true] {
                let a = c("cpl2", &V_BASE, *m, true, fd, 3, 1e-12);
                let b = c("atan2", &V_MIXB, (*m + 3) % 10, true, false, 3, 1e-12);
                if !fd {
                    add(vec![item(a.clone(), true), item(b.clone(), true)], Gran::Heavy, None, "two-long");
                }
                let b2 = c("big4", &V_MIXC, (*m + 7) % 10, true, true, 3, 1e-12);
                add(vec![item(a.clone(), true), item(b2, true)], Gran::Heavy, Some(3), "other dimension");
                let b = c("aff2", &V_STEPS, (*m + 4) % 10, true, !fd, 3, 1e-12);
                add(vec![item(a.clone(), true), item(b, false)], Gran::All, Some(2), "every call");
            }
            let a = c("sq1", &V_BASE, *m, false, false, 1, 1e-12);
            let b = c("atan1", &V_BASE, (*m + 1) % 10, true, false, 2, 1e-12);
            let d = c("cub1", &V_BASE, (*m + 5) % 10, false, false, 1, 1e-12);
            add(vec![item(a.clone(), true), item(b.clone(), false), item(d.clone(), true)], Gran::Heavy, None, "three");
            add(vec![item(a, true), item(b, true), item(d, true)], Gran::All, Some(2), "three, every call");
        }
    }
    g
}

fn explore_group(pool: &Pool, g: &Group, rep: &mut Report, cap: usize) {
    let alone: Vec<Done> = g
        .items
        .iter()
        .enumerate()
        .map(|(t, i)| {
            let path = pool.dir.file(&format!("alone-{}.txt", t));
            let _ = std::fs::remove_file(&path);
            execute(i, &path, None)
        })
        .collect();
    let gh = case_hash(&g.id);
    // every interleaving when there are few enough of them, else a bound on the preemptions
    let bound = match g.preemptions {
        Some(b) => Some(b),
        None => {
            let mut count = 1f64;
            let mut total = 0u64;
            for d in &alone {
                let segments: usize = d.runs.iter().map(|r| r.points.len()).sum::<usize>() + 1;
                for k in 1..=segments as u64 {
                    total += 1;
                    count *= total as f64 / k as f64;
                }
            }
            if count <= cap as f64 {
                None
            } else {
                Some(if cap > 50_000 { 5 } else { 3 })
            }
        }
    };
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let mut n = 0usize;
    let mut nblocked = 0;
    let mut steps: HashSet<u64> = HashSet::new();
    while let Some(prefix) = stack.pop() {
        if n >= 20 * cap {
            rep.incomplete += 1;
            rep.errors.push(format!("{}: stopped after {} schedules", g.id, n));
            break;
        }
        let tr = one_schedule(pool, &g.items, g.gran, &prefix);
        n += 1;
        rep.runs += g.items.len() as u64;
        let chosen: Vec<usize> = tr.decisions.iter().map(|d| d.1).collect();
        let script: Script = chosen.iter().enumerate().map(|(i, t)| (i, *t as u8)).collect();
        if tr.deadlock {
            rep.viol("schedules", &g.id, &script, "the resolutions wait for each other for ever".into());
            return;
        }
        for (t, d) in tr.done.iter().enumerate() {
            if let Some(m) = diff_done(&alone[t], d.as_ref().unwrap()) {
                rep.viol("schedules", &g.id, &script, format!("resolution {} differs from itself alone: {} | schedule {:?}", t, m, chosen));
            }
        }
        if rep.nviol as usize >= MAX_VIOL {
            return;
        }
        for s in &tr.states {
            let mut h = Hasher64(gh);
            h.u(*s);
            rep.state(h.0);
        }
        rep.transitions += (tr.decisions.len() - prefix.len().saturating_sub(1).min(tr.decisions.len())) as u64;
        let mut sh = Hasher64(gh);
        for c in &chosen {
            sh.u(*c as u64 + 1)
        }
        if !steps.insert(sh.0) {
            rep.feat("schedule seen twice");
        }
        if tr.blocked {
            // threads that serialize themselves: correct, but each wait costs time
            nblocked += 1;
            rep.feat("a thread waited for another one");
            if nblocked >= 2 {
                break;
            }
            continue;
        }
        if prefix.is_empty() {
            rep.sample(format!("{}: default schedule {:?}", g.id, chosen));
        }
        // alternatives
        let mut pre = 0;
        for i in 0..tr.decisions.len() {
            let (en, ch) = &tr.decisions[i];
            let prev = if i > 0 { Some(tr.decisions[i - 1].1) } else { None };
            if i >= prefix.len() {
                for a in en {
                    if a != ch {
                        // leaving a thread that could go on
                        let is_pre = matches!(prev, Some(p) if p != *a && en.contains(&p));
                        let total = pre + is_pre as usize;
                        if bound.map(|b| total <= b).unwrap_or(true) {
                            let mut p = chosen[..i].to_vec();
                            p.push(*a);
                            stack.push(p);
                        }
                    }
                }
            }
            if matches!(prev, Some(p) if p != *ch && en.contains(&p)) {
                pre += 1
            }
        }
    }
    rep.feat_n("schedules", n as u64);
    if let Some(b) = bound {
        rep.feat_n(&format!("schedules with at most {} preemptions", b), n as u64);
    } else {
        rep.feat_n("schedules, all interleavings", n as u64);
    }
}

// ------------------------------------------------------------------------------------- nested resolutions

/// run `outer`, whose model runs the resolution `inner` at its call number `at` (every call when None)
fn nested(outer: &Item, inner: &[Item], at: Option<usize>, dir: &Scratch) -> (Done, Vec<(usize, Done)>) {
    let inn: Rc<RefCell<Vec<(usize, Done)>>> = Rc::new(RefCell::new(vec![]));
    let out = {
        let (inn, inner) = (inn.clone(), inner.to_vec());
        let files: Vec<String> = (0..inner.len()).map(|k| dir.file(&format!("inner-{}.txt", k))).collect();
        let hook: Hook = Rc::new(move |_, k| {
            if at.map(|a| a == k).unwrap_or(true) {
                // the innermost first: inner[0] calls inner[1] at each of its calls
                let deep: Option<Hook> = if inner.len() > 1 {
                    let (inn, it, f) = (inn.clone(), inner[1].clone(), files[1].clone());
                    Some(Rc::new(move |_, _| {
                        let _ = std::fs::remove_file(&f);
                        let d = execute(&it, &f, None);
                        inn.borrow_mut().push((1, d));
                    }))
                } else {
                    None
                };
                let _ = std::fs::remove_file(&files[0]);
                let d = execute(&inner[0], &files[0], deep);
                inn.borrow_mut().push((0, d));
            }
        });
        let path = dir.file("outer.txt");
        let _ = std::fs::remove_file(&path);
        execute(outer, &path, Some(hook))
    };
    let v = inn.borrow().clone();
    (out, v)
}

fn nested_all(outer: &Item, inner: &[Item], dir: &Scratch) -> Result<(u64, u64, Vec<u64>), String> {
    let alone = execute(outer, &{ let p = dir.file("alone.txt"); let _ = std::fs::remove_file(&p); p }, None);
    let ref_in: Vec<Done> = inner
        .iter()
        .map(|i| execute(i, &{ let p = dir.file("alone-inner.txt"); let _ = std::fs::remove_file(&p); p }, None))
        .collect();
    let ncb: usize = alone.runs.iter().map(|r| r.ncb).sum();
    let (mut runs, mut trans) = (0, 0);
    let mut states = vec![];
    let mut ats: Vec<Option<usize>> = (0..alone.runs[0].ncb).map(Some).collect();
    ats.push(None);
    let what = |at: &Option<usize>| match at {
        Some(k) => format!("at call {} of the outer one", k),
        None => "at every call of the outer one".to_string(),
    };
    let _ = ncb;
    for at in ats {
        let (o, ins) = nested(outer, inner, at, dir);
        runs += 1 + ins.len() as u64;
        trans += 1 + ins.len() as u64;
        states.push(at.map(|a| a as u64 + 1).unwrap_or(0));
        if ins.is_empty() {
            return Err(format!("nothing nested {}", what(&at)));
        }
        if let Some(m) = diff_done(&alone, &o) {
            return Err(format!("the outer resolution differs from itself alone: {} | nested {}", m, what(&at)));
        }
        for (k, d) in &ins {
            if let Some(m) = diff_done(&ref_in[*k], d) {
                return Err(format!("the nested resolution differs from itself alone: {} | nested {}", m, what(&at)));
            }
        }
    }
    Ok((runs, trans, states))
}

fn nested_pairs(thorough: bool) -> Vec<(String, Item, Vec<Item>)> {
    let mut v = vec![];
    let c = |p: &str, v: &Var, m: usize, d: bool, fd: bool, iters: usize| -> Cfg {
        let mut v = v.clone();
        v.max_iter = iters;
        v.tol = 1e-12;
        mk(p, &v, m, d, fd, FULL)
    };
    let e = |a: EAlt| E_FULL.iter().position(|x| *x == a).unwrap() as u8;
    for m in ALL_M {
        for m2 in ALL_M {
            if !thorough && (m + m2) % 3 != 0 {
                continue;
            }
            for fd in BOTH {
                for (p, q, w) in [
                    ("cpl2", "cpl2", &V_BASE),
                    ("atan2", "cpl2", &V_MIXB),
                    ("sq1", "cpl3", &V_MIXA),
                    ("cpl3", "atan1", &V_STEPS),
                ] {
                    let o = c(p, w, *m, true, *fd, 3);
                    let i = c(q, &V_BASE, *m2, true, (m + m2) % 2 == 0, 3);
                    let mut oi = item(o, true);
                    if p == "sq1" {
                        oi.script = vec![(2, e(EAlt::Worse))];
                    }
                    let ii = item(i, m2 % 2 == 0);
                    v.push((format!("nested {} in {}", ii.cfg.id, oi.cfg.id), oi, vec![ii]));
                }
            }
        }
        // three levels
        let a = item(c("cpl2", &V_BASE, *m, true, false, 2), true);
        let b = item(c("atan2", &V_BASE, (*m + 1) % 10, true, true, 2), true);
        let d = item(c("sq1", &V_BASE, (*m + 2) % 10, true, false, 2), true);
        v.push((format!("nested {} in {} in {}", d.cfg.id, b.cfg.id, a.cfg.id), a, vec![b, d]));
    }
    // nested resolutions ending in error
    for (k, sc) in [
        vec![(0usize, e(EAlt::Unusable))],
        vec![(2, e(EAlt::Unusable))],
        vec![(2, e(EAlt::InaccZero))],
        vec![(2, e(EAlt::Worse)), (3, e(EAlt::Unusable))],
    ]
    .into_iter()
    .enumerate()
    {
        for m in ALL_M {
            let o = item(c("cpl2", &V_BASE, *m, true, false, 2), true);
            let mut i = item(c("cpl2", &V_BASE, (*m + k) % 10, true, false, 2), true);
            i.script = sc.clone();
            v.push((format!("nested failing({}) {} in {}", k, i.cfg.id, o.cfg.id), o, vec![i]));
        }
    }
    v
}

// ------------------------------------------------------------------------------------- child processes

fn one_line(s: &str) -> String {
    s.replace('\n', " ").replace('\t', " ")
}

/// `mc sched-child <tier> <k> <n>`: explores the groups k, k+n, k+2n...
pub fn child(tier: &str, k: usize, n: usize) -> i32 {
    let thorough = tier == "thorough";
    let mut rep = Report::default();
    let cap = if thorough { 200_000 } else { 13_000 };
    let pool = Pool::new(3);
    let dir = Scratch::new();
    let mut count = 0usize;
    let mine = |count: &mut usize| -> bool {
        let r = *count % n == k;
        *count += 1;
        r
    };
    // heaviest groups first would balance better; the groups are many and small
    for g in groups(thorough) {
        if !mine(&mut count) {
            continue;
        }
        rep.cases += 1;
        explore_group(&pool, &g, &mut rep, cap);
        if rep.nviol as usize >= MAX_VIOL || rep.viols.iter().any(|v| v.msg.contains("for ever")) {
            break;
        }
    }
    if rep.nviol == 0 {
        let pool = crate::s_inside::Pool::new();
        for g in crate::s_inside::pairs(thorough) {
            if !mine(&mut count) {
                continue;
            }
            rep.cases += 1;
            crate::s_inside::explore_pair(&pool, &g, &mut rep);
            if rep.nviol as usize >= MAX_VIOL || rep.viols.iter().any(|v| v.msg.contains("for ever")) {
                break;
            }
        }
    }
    if rep.nviol == 0 {
        for (id, o, i) in nested_pairs(thorough) {
            if !mine(&mut count) {
                continue;
            }
            rep.cases += 1;
            // in its own thread: a nested resolution that never ends is reported
            let (tx, rx) = channel();
            let d2 = Scratch::new();
            let (o2, i2) = (o.clone(), i.clone());
            std::thread::spawn(move || {
                let r = nested_all(&o2, &i2, &d2);
                drop(d2);
                let _ = tx.send(r);
            });
            match rx.recv_timeout(Duration::from_secs(60)) {
                Ok(Ok((runs, trans, states))) => {
                    rep.runs += runs;
                    rep.transitions += trans;
                    rep.feat_n("nested resolutions", runs);
                    for s in states {
                        let mut h = Hasher64(case_hash(&id));
                        h.u(s);
                        rep.state(h.0)
                    }
                }
                Ok(Err(m)) => rep.viol("nested", &id, &vec![], m),
                Err(RecvTimeoutError::Timeout) => {
                    rep.viol("nested", &id, &vec![], "the nested resolutions never end".into());
                    break;
                }
                Err(_) => rep.viol("nested", &id, &vec![], "the nested resolutions panicked".into()),
            }
            if rep.nviol as usize >= MAX_VIOL {
                break;
            }
        }
    }
    drop(dir);
    println!("count\t{}\t{}\t{}", rep.cases, rep.runs, rep.transitions);
    println!("states\t{}", rep.states.len());
    for (f, n) in &rep.feats {
        println!("feat\t{}\t{}", f, n);
    }
    for s in &rep.samples {
        println!("sample\t{}", one_line(s));
    }
    for e in &rep.errors {
        println!("note\t{}", one_line(e));
    }
    for v in &rep.viols {
        let s: Vec<String> = v.script.iter().map(|(_, a)| a.to_string()).collect();
        println!("viol\t{}\t{}\t{}\t{}", v.suite, one_line(&v.case), s.join(","), one_line(&v.msg));
    }
    println!("end");
    // the scratch directories of stuck threads
    drop(pool);
    0
}

pub fn c18(thorough: bool) -> Report {
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let exe = std::env::current_exe().expect("own path");
    let mut rep = Report::default();
    let kids: Vec<_> = (0..n)
        .map(|k| {
            std::process::Command::new(&exe)
                .args(["sched-child", if thorough { "thorough" } else { "quick" }, &k.to_string(), &n.to_string()])
                .stdout(std::process::Stdio::piped())
                .spawn()
                .expect("child process")
        })
        .collect();
    let mut nstates = 0u64;
    for (k, mut kid) in kids.into_iter().enumerate() {
        let out = BufReader::new(kid.stdout.take().unwrap());
        let mut ended = false;
        for l in out.lines().map_while(|l| l.ok()) {
            let c: Vec<&str> = l.split('\t').collect();
            match c[0] {
                "count" => {
                    rep.cases += c[1].parse::<u64>().unwrap_or(0);
                    rep.runs += c[2].parse::<u64>().unwrap_or(0);
                    rep.transitions += c[3].parse::<u64>().unwrap_or(0);
                }
                "states" => {
                    for i in 0..c[1].parse::<u64>().unwrap_or(0) {
                        rep.states.insert(nstates + i);
                    }
                    nstates += c[1].parse::<u64>().unwrap_or(0);
                }
                "feat" => rep.feat_n(c[1], c[2].parse().unwrap_or(0)),
                "sample" => rep.sample(c[1].to_string()),
                "note" => rep.errors.push(c[1].to_string()),
                "viol" => {
                    let script: Script = c[3].split(',').enumerate().filter_map(|(i, a)| a.parse().ok().map(|a| (i, a))).collect();
                    let suite: &'static str = match c[1] {
                        "nested" => "nested",
                        "inside" => "inside",
                        _ => "schedules",
                    };
                    rep.viol(suite, c[2], &script, c[4].to_string());
                }
                "end" => ended = true,
                _ => {}
            }
        }
        let _ = kid.wait();
        if !ended {
            rep.viol("schedules", &format!("child {} of {}", k, n), &vec![], "the process of the resolutions died".into());
        }
    }
    rep.bounds.push(format!(
        "{} groups of two or three resolutions (each method, both jacobian kinds, damping, logs, errors, repeated resolutions) under every interleaving of their evaluations and jacobian requests when there are at most {} of them, else with at most {} preemptions there; or with at most {} preemptions at any call to the model; {} pairs switched at any allocation made by the library or call to the model, once at every position, or twice at every pair of positions; nested resolutions at each call and at every call of the outer one, up to three levels",
        groups(thorough).len(), if thorough { 200_000 } else { 13_000 }, if thorough { 5 } else { 3 }, 2, crate::s_inside::pairs(thorough).len()
    ));
    rep
}
