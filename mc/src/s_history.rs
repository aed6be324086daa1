//! C06: every bounded history of resolutions with one solver object, then a last resolution which is
//! compared, call by call, with the one of a freshly built solver.

use crate::cases::*;
use crate::env::*;
use crate::explore::*;
use crate::run::*;
use std::sync::atomic::{AtomicBool, Ordering};

/// every script of at most `depth` deviations with its execution
fn scripts(cfg: &Cfg, prob: usize, fd: Option<bool>, depth: usize) -> Vec<(Job, u64)> {
    let mut out: Vec<(Job, u64)> = vec![];
    let mut c = cfg.clone();
    c.prob = prob;
    if let Some(f) = fd {
        // keeps the kind of parameters
        c.fd_params = cfg.fd || cfg.fd_params;
        c.fd = f;
    }
    let stop = AtomicBool::new(false);
    explore(&c, depth, &stop, &mut |s, r| {
        let mut h = crate::base::Hasher64::new();
        for e in &r.events {
            if let Ev::Eval { x, l, r, .. } = e {
                h.fs(x);
                h.fs(l);
                h.fs(r);
            }
        }
        for b in r.outcome.kind().bytes() {
            h.u(b as u64)
        }
        out.push((
            Job {
                prob,
                script: s.clone(),
                fd,
            },
            h.0,
        ));
    });
    out
}

pub struct HCase {
    pub cfg: Cfg,
    /// alphabet of the histories
    pub halpha: Alphabet,
    pub hdepth: usize,
    pub fdepth: usize,
    pub two: bool,
    pub other: Option<&'static str>,
    pub swap_kind: bool,
}

/// histories of several resolutions, chosen among one representative of every way a resolution can go
/// (outcome, number of calls, whether a damped or a refused step took place)
pub struct KCase {
    pub cfg: Cfg,
    /// deviations of the executions the representatives are taken from
    pub rdepth: usize,
    /// at most so many representatives
    pub cap: usize,
    /// number of previous resolutions
    pub len: usize,
    /// the same history repeated: number of times each representative is solved in a row
    pub repeat: usize,
}

fn kinds(case: &KCase, rep: &mut Report, stop: &AtomicBool) {
    let cfg = &case.cfg;
    let ch = case_hash(&cfg.id);
    let mut reps: Vec<(String, Job)> = vec![];
    let quiet = AtomicBool::new(false);
    explore(cfg, case.rdepth, &quiet, &mut |s, r| {
        let v = crate::monitor::monitor(cfg, r);
        let mut f: Vec<&str> = v.feats.clone();
        f.sort();
        f.dedup();
        let key = format!("{}|{}|{}", r.outcome.kind(), v.iterations.min(3), f.join(","));
        if !reps.iter().any(|(k, _)| *k == key) {
            reps.push((key, Job { prob: cfg.prob, script: s.clone(), fd: None }));
        }
    });
    // every outcome first, then every number of iterations, then the rest
    let mut chosen: Vec<Job> = vec![];
    for part in [1usize, 2, 3] {
        let mut seen: Vec<String> = vec![];
        for (k, j) in &reps {
            let kk = k.split('|').take(part).collect::<Vec<_>>().join("|");
            if seen.contains(&kk) {
                continue;
            }
            seen.push(kk);
            if chosen.len() < case.cap && !chosen.iter().any(|c| c.script == j.script) {
                chosen.push(j.clone());
            }
        }
    }
    let fresh: Vec<Run> = chosen
        .iter()
        .map(|j| run_many(cfg, &[j.clone()], &Opts::default()).pop().unwrap())
        .collect();
    let k = chosen.len();
    let total = k.pow(case.len as u32);
    // the last resolution of each history is each representative in turn: prefixes are histories too
    for h in 0..total * k {
        if stop.load(Ordering::Relaxed) {
            return;
        }
        let mut ids = vec![];
        let mut q = h;
        for _ in 0..case.len + 1 {
            ids.push(q % k);
            q /= k;
        }
        let last = ids[case.len];
        let mut jobs: Vec<Job> = vec![];
        for i in &ids[..case.len] {
            for _ in 0..case.repeat {
                jobs.push(chosen[*i].clone());
            }
        }
        jobs.push(chosen[last].clone());
        let runs = run_many(cfg, &jobs, &Opts::default());
        rep.runs += 1;
        rep.transitions += jobs.len() as u64;
        let mut hh = ch;
        for i in &ids {
            hh = hh.rotate_left(9) ^ (*i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
        }
        rep.state(hh);
        rep.feat(&format!("history of {} resolutions", jobs.len() - 1));
        let got = runs.last().unwrap();
        if let Some(d) = diff_run(&fresh[last], got) {
            rep.viol(
                "history",
                &cfg.id,
                &vec![],
                format!("after {}: {} ({})", jobs_msg(&jobs), d, cfg.describe()),
            );
            if rep.nviol as usize >= MAX_VIOL {
                stop.store(true, Ordering::Relaxed);
                return;
            }
        }
    }
}

pub fn kcases(thorough: bool) -> Vec<KCase> {
    let mut v = vec![];
    let v_k = var("kinds", "abs", "free", 1e-3, 4, true, true);
    let v_k2 = var("kinds2", "mixC", "steps", 1e-2, 3, false, false);
    let v_long = var("kindslong", "abs", "free", 0.0, 12, false, true);
    for m in ALL_M {
        for d in BOTH {
            for fd in BOTH {
                v.push(KCase { cfg: mk("cpl2", &v_k, *m, *d, *fd, SMALL), rdepth: 2, cap: if thorough { 12 } else { 7 }, len: 3, repeat: 1 });
                v.push(KCase { cfg: mk("atan1", &v_k2, *m, *d, *fd, SMALL), rdepth: 2, cap: if thorough { 7 } else { 5 }, len: if thorough { 5 } else { 4 }, repeat: 1 });
                v.push(KCase { cfg: mk("big5", &v_k2, *m, *d, *fd, SMALL), rdepth: 1, cap: 8, len: 2, repeat: 1 });
                // the same resolution many times
                v.push(KCase { cfg: mk("atan1", &v_k, *m, *d, *fd, SMALL), rdepth: 1, cap: 8, len: 1, repeat: if thorough { 300 } else { 70 } });
                v.push(KCase { cfg: mk("noroot2", &v_long, *m, *d, *fd, SMALL), rdepth: 0, cap: 1, len: 1, repeat: 300 });
            }
        }
    }
    for (i, c) in v.iter_mut().enumerate() {
        c.cfg.id = format!("{}#k{}", c.cfg.id, i);
    }
    v
}

fn jobs_msg(jobs: &[Job]) -> String {
    let skip = jobs.len().saturating_sub(6);
    let tail = jobs.iter().skip(skip);
    let head = if skip > 0 { format!("{} resolutions and then ", skip) } else { String::new() };
    head + &tail
        .map(|j| format!("{}{}{:?}", prob(j.prob).name, match j.fd { Some(true) => "/fd", Some(false) => "/analytic", None => "" }, j.script))
        .collect::<Vec<_>>()
        .join(" then ")
}

fn one(case: &HCase, rep: &mut Report, stop: &AtomicBool) {
    let cfg = &case.cfg;
    let mut hcfg = cfg.clone();
    hcfg.alpha = case.halpha;
    let ch = case_hash(&cfg.id);
    // the alphabet is part of the model: histories and final runs use the same one
    let mut probs = vec![(cfg.prob, None)];
    if let Some(o) = case.other {
        probs.push((problem(o), None));
    }
    if case.swap_kind {
        probs.push((cfg.prob, Some(!cfg.fd)));
    }
    let finals: Vec<(Job, Run)> = {
        let mut v = vec![];
        let mut list = scripts(&hcfg, cfg.prob, None, case.fdepth);
        if let Some(o) = case.other {
            list.extend(scripts(&hcfg, problem(o), None, 0));
        }
        for (job, _) in list {
            let fresh = run_many(&hcfg, &[job.clone()], &Opts::default()).pop().unwrap();
            v.push((job, fresh));
        }
        v
    };
    let mut hists: Vec<(Vec<Job>, u64)> = vec![];
    let mut singles = vec![];
    for (p, fd) in &probs {
        singles.extend(scripts(&hcfg, *p, *fd, case.hdepth));
    }
    if case.two {
        let firsts: Vec<_> = singles.iter().filter(|(j, _)| j.script.len() <= 1).collect();
        for (a, ha) in &firsts {
            for (b, hb) in &singles {
                hists.push((vec![a.clone(), b.clone()], ha.rotate_left(7) ^ hb));
            }
        }
    } else {
        hists = singles.into_iter().map(|(j, h)| (vec![j], h)).collect();
    }
    for (hist, hh) in &hists {
        if stop.load(Ordering::Relaxed) {
            return;
        }
        rep.state(ch ^ hh);
        for (job, fresh) in &finals {
            let mut jobs = hist.clone();
            jobs.push(job.clone());
            let mut runs = run_many(&hcfg, &jobs, &Opts::default());
            let last = runs.pop().unwrap();
            rep.runs += 1;
            rep.transitions += last.points.len() as u64;
            for r in &runs {
                rep.feat(&format!("history:{}", r.outcome.kind()));
            }
            rep.feat(&format!("final:{}", fresh.outcome.kind()));
            if let Some(d) = diff_run(fresh, &last) {
                rep.viol(
                    "history",
                    &cfg.id,
                    &vec![],
                    format!("after {}: {} ({})", jobs_msg(&jobs), d, cfg.describe()),
                );
                if rep.nviol as usize >= MAX_VIOL {
                    stop.store(true, Ordering::Relaxed);
                    return;
                }
            }
            if rep.samples.is_empty() || (rep.samples.len() < 3 && hist[0].script.len() == 1) {
                rep.sample(format!("{}: {} -> {:?}", cfg.id, jobs_msg(&jobs), last.outcome));
            }
        }
    }
}

pub fn cases(thorough: bool) -> Vec<HCase> {
    let mut v = vec![];
    let v_hist = var("hist", "abs", "free", 1e-3, 3, false, true);
    let v_hist2 = var("hist2", "mixA", "steps", 1e-3, 3, true, false);
    for m in ALL_M {
        for d in BOTH {
            for fd in BOTH {
                // one previous resolution, any single deviation of the full alphabet
                v.push(HCase {
                    cfg: mk("cpl2", &v_hist, *m, *d, *fd, FULL),
                    halpha: FULL,
                    hdepth: 1,
                    fdepth: if thorough { 1 } else { 0 },
                    two: false,
                    other: Some("atan2"),
                    swap_kind: *fd,
                });
                v.push(HCase {
                    cfg: mk("atan1", &v_hist2, *m, *d, *fd, SMALL),
                    halpha: SMALL,
                    hdepth: 1,
                    fdepth: 1,
                    two: false,
                    other: Some("sq1"),
                    swap_kind: *fd,
                });
                // two deviations in the previous resolution
                v.push(HCase {
                    cfg: mk("atan1", &v_hist, *m, *d, *fd, SMALL),
                    halpha: SMALL,
                    hdepth: if thorough { 3 } else { 2 },
                    fdepth: 0,
                    two: false,
                    other: None,
                    swap_kind: false,
                });
                // two previous resolutions
                v.push(HCase {
                    cfg: mk("cpl2", &v_hist2, *m, *d, *fd, SMALL),
                    halpha: SMALL,
                    hdepth: if thorough { 1 } else { 0 },
                    fdepth: if thorough { 0 } else { 1 },
                    two: true,
                    other: Some("atan2"),
                    swap_kind: *fd,
                });
                if thorough {
                    v.push(HCase {
                        cfg: mk("cpl3", &v_hist, *m, *d, *fd, SMALL),
                        halpha: SMALL,
                        hdepth: 2,
                        fdepth: 0,
                        two: false,
                        other: Some("aff3"),
                        swap_kind: *fd,
                    });
                }
            }
        }
    }
    for (i, c) in v.iter_mut().enumerate() {
        c.cfg.id = format!("{}#{}", c.cfg.id, i);
    }
    v
}

/// histories in which the model panics (the panic being caught by the user): at every call of a resolution of at
/// most one deviation, in the first or in the second of three resolutions
fn crashes(cfg: &Cfg, depth: usize, rep: &mut Report, stop: &AtomicBool) {
    let ch = case_hash(&cfg.id);
    let natural = Job { prob: cfg.prob, script: vec![], fd: None };
    let fresh = run_many(cfg, &[natural.clone()], &Opts::default()).pop().unwrap();
    for (job, h) in scripts(cfg, cfg.prob, None, depth) {
        let whole = run_many(cfg, &[job.clone()], &Opts::default()).pop().unwrap();
        for at in 0..whole.ncb {
            for second in BOTH {
                if stop.load(Ordering::Relaxed) {
                    return;
                }
                let done = std::cell::Cell::new(false);
                let nth = std::cell::Cell::new(0usize);
                let hook: Hook = std::rc::Rc::new(move |_c, k| {
                    if k == 0 {
                        nth.set(nth.get() + 1)
                    }
                    if k == at && nth.get() == 1 + *second as usize && !done.get() {
                        done.set(true);
                        std::panic::panic_any(CRASH.to_string())
                    }
                });
                let mut jobs = vec![natural.clone(); *second as usize];
                jobs.push(job.clone());
                jobs.push(natural.clone());
                let runs = run_many(cfg, &jobs, &Opts { hook: Some(hook), ..Default::default() });
                rep.runs += 1;
                rep.transitions += runs.last().unwrap().points.len() as u64;
                rep.state(ch ^ h.rotate_left(11) ^ ((at as u64) << 1 | *second as u64).wrapping_mul(0x9e3779b97f4a7c15));
                rep.feat(&format!("history:{}", runs[*second as usize].outcome.kind()));
                if let Some(d) = diff_run(&fresh, runs.last().unwrap()) {
                    rep.viol(
                        "history",
                        &cfg.id,
                        &vec![],
                        format!("after {}, the model panicking at its call {}: {} ({})", jobs_msg(&jobs[..jobs.len() - 1]), at, d, cfg.describe()),
                    );
                    if rep.nviol as usize >= MAX_VIOL {
                        stop.store(true, Ordering::Relaxed);
                        return;
                    }
                }
            }
        }
    }
}

fn crash_cases(thorough: bool) -> Vec<(Cfg, usize)> {
    let v_c = var("crash", "abs", "free", 1e-3, 4, true, true);
    let v_c2 = var("crash2", "mixC", "steps", 1e-2, 3, false, false);
    let mut v = vec![];
    for m in ALL_M {
        for d in BOTH {
            for fd in BOTH {
                v.push((mk("cpl2", &v_c, *m, *d, *fd, SMALL), 1 + thorough as usize));
                v.push((mk("atan1", &v_c2, *m, *d, *fd, FULL), 1));
                v.push((mk("big5", &v_c, *m, *d, *fd, SMALL), thorough as usize));
            }
        }
    }
    for (i, c) in v.iter_mut().enumerate() {
        c.0.id = format!("{}#c{}", c.0.id, i);
    }
    v
}

pub fn suite(thorough: bool) -> Report {
    let cases = cases(thorough);
    let mut rep = parallel(&cases, |c, rep, stop| one(c, rep, stop));
    let more = kcases(thorough);
    rep.merge(parallel(&more, |c, rep, stop| kinds(c, rep, stop)));
    let crash = crash_cases(thorough);
    rep.merge(parallel(&crash, |c, rep, stop| crashes(&c.0, c.1, rep, stop)));
    rep.bounds.push(format!("{} configurations: the model panicking at each call of a previous resolution of at most {} deviations", crash.len(), 1 + thorough as usize));
    rep.bounds.push(format!(
        "{} configurations: every sequence of 2, 3 or {} resolutions over one representative of each way a resolution can go; each representative solved {} times in a row",
        more.len(),
        if thorough { 5 } else { 4 },
        if thorough { 300 } else { 70 }
    ));
    rep.bounds.push(format!(
        "{} configurations; histories of one or two resolutions with at most {} deviations, final resolution with at most 1",
        cases.len(),
        if thorough { 3 } else { 2 }
    ));
    rep
}
