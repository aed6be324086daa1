//! Deviation-bounded exhaustive exploration and the report of a check.

use crate::base::*;
use crate::env::*;
use crate::run::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Viol {
    pub suite: &'static str,
    pub case: String,
    pub script: Script,
    pub msg: String,
}

#[derive(Default)]
pub struct Report {
    pub viols: Vec<Viol>,
    pub nviol: u64,
    pub states: HashSet<u64>,
    pub transitions: u64,
    /// executions of the real code checked against the reference
    pub runs: u64,
    pub cases: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub feats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub other: BTreeMap<String, u64>,
    pub bounds: Vec<String>,
    pub errors: Vec<String>,
    pub incomplete: u64,
}

pub const MAX_VIOL: usize = 8;

impl Report {
    pub fn feat(&mut self, k: &str) {
        self.feat_n(k, 1)
    }
    pub fn feat_n(&mut self, k: &str, n: u64) {
        if let Some(c) = self.feats.get_mut(k) {
            *c += n
        } else {
            self.feats.insert(k.to_string(), n);
        }
    }
    pub fn viol(&mut self, suite: &'static str, case: &str, script: &Script, msg: String) {
        self.nviol += 1;
        self.viols.push(Viol {
            suite,
            case: case.to_string(),
            script: script.clone(),
            msg,
        });
        if self.viols.len() > 4 * MAX_VIOL {
            self.viols.sort_by_key(|v| v.script.len());
            self.viols.truncate(MAX_VIOL);
        }
    }
    pub fn check(&mut self, suite: &'static str, case: &str, ok: bool, msg: impl FnOnce() -> String) {
        self.evals += 1;
        if !ok {
            let m = msg();
            self.viol(suite, case, &vec![], m)
        }
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 40_000_000 {
            self.states.insert(h);
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 4 {
            self.samples.push(s)
        }
    }
    pub fn merge(&mut self, o: Report) {
        self.viols.extend(o.viols);
        self.viols.sort_by_key(|v| v.script.len());
        self.viols.truncate(MAX_VIOL);
        self.nviol += o.nviol;
        if self.states.is_empty() {
            self.states = o.states
        } else {
            self.states.extend(o.states);
        }
        if self.distinct.is_empty() {
            self.distinct = o.distinct
        } else {
            self.distinct.extend(o.distinct);
        }
        self.transitions += o.transitions;
        self.runs += o.runs;
        self.cases += o.cases;
        self.evals += o.evals;
        self.incomplete += o.incomplete;
        for (k, n) in o.feats {
            *self.feats.entry(k).or_insert(0) += n;
        }
        for (k, n) in o.other {
            *self.other.entry(k).or_insert(0) += n;
        }
        for s in o.samples {
            self.sample(s)
        }
        self.bounds.extend(o.bounds);
        self.errors.extend(o.errors);
    }
}

/// Every script of at most `depth` deviations from the default answers.
/// `visit` sees every execution; the number of choice points of an execution decides its children.
pub fn explore(cfg: &Cfg, depth: usize, stop: &AtomicBool, visit: &mut dyn FnMut(&Script, &Run)) {
    let mut stack: Vec<Script> = vec![vec![]];
    while let Some(script) = stack.pop() {
        if stop.load(Ordering::Relaxed) {
            return;
        }
        let r = run(cfg, &script, &Opts::default());
        // a deviation that is never reached means that the replay of the prefix diverged
        if let Some((last, _)) = script.last() {
            if *last >= r.points.len() {
                panic!("replay diverged on {} {:?}", cfg.id, script);
            }
        }
        visit(&script, &r);
        if script.len() < depth {
            let first = script.last().map(|(i, _)| i + 1).unwrap_or(0);
            for i in (first..r.points.len()).rev() {
                let k = match r.points[i] {
                    Pt::Eval => cfg.alpha.e.len(),
                    Pt::Jac => cfg.alpha.j.len(),
                };
                for a in (1..k).rev() {
                    let mut s = script.clone();
                    s.push((i, a as u8));
                    stack.push(s);
                }
            }
        }
    }
}

pub fn explore_case(case: &crate::cases::Case, stop: &AtomicBool, visit: &mut dyn FnMut(&Script, &Run)) {
    if case.pat > 0 {
        stretches(&case.cfg, case.pat, stop, visit)
    } else {
        explore(&case.cfg, case.depth, stop, visit)
    }
}

/// The same answer given to every call (1), to one call out of two or three (2) of every stretch of calls; then one answer until
/// some call and another one from there on, for every pair of answers and every call (2)
pub fn stretches(cfg: &Cfg, level: u8, stop: &AtomicBool, visit: &mut dyn FnMut(&Script, &Run)) {
    let go = |pattern: Vec<Seg>| run(cfg, &vec![], &Opts { pattern, ..Default::default() });
    let base = go(vec![]);
    visit(&vec![], &base);
    for (pt, len) in [(Pt::Eval, cfg.alpha.e.len()), (Pt::Jac, cfg.alpha.j.len())] {
        for alt in 1..len as u8 {
            for stride in 1..=if level > 1 { 3 } else { 1 } {
                let mut from = 0;
                loop {
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let mut to = from;
                    loop {
                        let r = go(vec![Seg { from, to, stride, alt, pt }]);
                        // single deviations are explored elsewhere
                        if r.chosen.len() > 1 && r.chosen.last().map(|c| c.0) == Some(to) {
                            visit(&r.chosen.clone(), &r);
                        }
                        to += stride;
                        if r.points.len() <= to || r.points[from] != pt {
                            break;
                        }
                    }
                    from += 1;
                    if from >= base.points.len() {
                        break;
                    }
                }
            }
            if level < 2 {
                continue;
            }
            for next in 1..len as u8 {
                let mut k = 1;
                while next != alt {
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let until = Seg { from: 0, to: k - 1, stride: 1, alt, pt };
                    let r = go(vec![until, Seg { from: k, to: usize::MAX, stride: 1, alt: next, pt }]);
                    if r.points.len() <= k {
                        break;
                    }
                    if r.points[k] == pt {
                        visit(&r.chosen.clone(), &r);
                    }
                    k += 1;
                }
            }
        }
    }
}

pub fn new_points(script: &Script, r: &Run) -> u64 {
    match script.last() {
        Some((i, _)) => (r.points.len() - i) as u64,
        None => r.points.len() as u64,
    }
}

pub fn case_hash(id: &str) -> u64 {
    let mut h = Hasher64::new();
    for b in id.bytes() {
        h.u(b as u64)
    }
    h.0
}

pub fn describe_script(cfg: &Cfg, script: &Script, r: &Run) -> String {
    let s: Vec<String> = script
        .iter()
        .map(|(i, a)| {
            let name = match r.points.get(*i) {
                Some(Pt::Jac) => format!("{:?}", cfg.alpha.j[*a as usize]),
                _ => format!("{:?}", cfg.alpha.e[*a as usize]),
            };
            format!("call {}: {}", i, name)
        })
        .collect();
    format!("[{}]", s.join(", "))
}

/// Run `work` over the items on all cores; stops early when enough violations were found
pub fn parallel<T: Sync, F>(items: &[T], work: F) -> Report
where
    F: Fn(&T, &mut Report, &AtomicBool) + Sync,
{
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Report::default());
    let nthreads = std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(8)
        .min(items.len().max(1));
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            s.spawn(|| {
                let mut rep = Report::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    work(&items[i], &mut rep, &stop);
                    rep.cases += 1;
                    if rep.nviol as usize >= MAX_VIOL {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                total.lock().unwrap().merge(rep);
            });
        }
    });
    total.into_inner().unwrap()
}
