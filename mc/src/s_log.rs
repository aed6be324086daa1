//! C16 and C17: the log of a resolution.
//!
//! C16: every explored resolution is run with and without log; both must make the same calls and end the
//! same way, and the parsed log must tell what the trace of the calls says.
//! C17: the file is read at every call made to the model, and after a crash at each of these calls.

use crate::base::*;
use crate::cases::*;
use crate::env::*;
use crate::explore::*;
use crate::monitor;
use crate::run::*;
use std::cell::RefCell;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

static COUNT: AtomicU64 = AtomicU64::new(0);

/// scratch directory, removed when dropped
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) {
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        };
        let d = base.join(format!("mc-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    pub fn file(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------------------------- the log

#[derive(Clone, Debug)]
pub struct Entry {
    /// Some(k): iteration k; None: damped point
    pub iter: Option<usize>,
    pub maxe: f64,
    pub x: V,
    pub l: V,
    pub r: V,
    pub e: V,
}

#[derive(Clone, Debug)]
pub enum Item {
    Header,
    Params { solver: Vec<String>, its: Vec<Vec<String>>, res: Vec<Vec<String>> },
    Point(Entry),
    Refused,
    Jac { j: Option<Mx>, h: Option<Mx> },
}

impl Item {
    fn what(&self) -> String {
        match self {
            Item::Header => "the header".into(),
            Item::Params { .. } => "the parameters".into(),
            Item::Point(e) => match e.iter {
                Some(k) => format!("iteration {}", k),
                None => "a damped point".into(),
            },
            Item::Refused => "a refused step".into(),
            Item::Jac { .. } => "a jacobian".into(),
        }
    }
}

fn cells(l: &str) -> Option<Vec<String>> {
    let l = l.trim();
    if !l.starts_with('|') || !l.ends_with('|') {
        return None;
    }
    let c: Vec<String> = l[1..l.len() - 1].split('|').map(|s| s.trim().to_string()).collect();
    // a row of values, not a title
    c[0].parse::<usize>().ok()?;
    Some(c)
}

pub fn parse_log(text: &str) -> Result<Vec<Item>, String> {
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("the last line is not complete".into());
    }
    let mut out: Vec<Item> = vec![];
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    // rows of the next table, in the section that starts at i
    let is_title = |l: &str| {
        l.starts_with("Iteration")
            || l.starts_with("Damping activated")
            || l.starts_with("Jacobian matrix")
            || l.starts_with("Solver parameters")
            || l.starts_with("Iteratives parameters")
            || l.starts_with("Residuals configuration")
            || l.starts_with("Runner informations")
            || l.starts_with("=========================")
    };
    let table = |mut k: usize| -> (Vec<Vec<String>>, usize) {
        let mut rows = vec![];
        while k < lines.len() && !is_title(lines[k]) {
            if let Some(c) = cells(lines[k]) {
                rows.push(c)
            }
            k += 1;
        }
        (rows, k)
    };
    let num = |s: &str| -> Result<f64, String> { s.trim().parse::<f64>().map_err(|_| format!("{:?} is not a number", s)) };
    let mut params: (Option<Vec<String>>, Option<Vec<Vec<String>>>) = (None, None);
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("Runner informations") {
            let mut k = i + 1;
            while k < lines.len() && !lines[k].starts_with("newton_rootfinder version: ") {
                k += 1
            }
            if k == lines.len() {
                return Err("header without the version".into());
            }
            let version = lines[k].trim_start_matches("newton_rootfinder version: ").trim();
            if version.split('.').count() != 3 || !version.starts_with(|c: char| c.is_ascii_digit()) {
                return Err(format!("the version shown is {:?}", version));
            }
            out.push(Item::Header);
            i = k + 1;
        } else if l.starts_with("Solver parameters") {
            // skips the underline
            let (rows, k) = table(i + 2);
            params.0 = rows.into_iter().next();
            i = k;
        } else if l.starts_with("Iteratives parameters") {
            let (rows, k) = table(i + 2);
            params.1 = Some(rows);
            i = k;
        } else if l.starts_with("Residuals configuration") {
            let (rows, k) = table(i + 2);
            out.push(Item::Params {
                solver: params.0.take().unwrap_or_default(),
                its: params.1.take().unwrap_or_default(),
                res: rows,
            });
            i = k;
        } else if l.starts_with("Iteration: ") || l.starts_with("Damping activated") {
            let iter = match l.strip_prefix("Iteration: ") {
                Some(k) => Some(k.trim().parse::<usize>().map_err(|_| format!("iteration {:?}", k))?),
                None => None,
            };
            i += 1;
            while i < lines.len() && lines[i].trim().is_empty() {
                i += 1
            }
            let maxe = match lines.get(i).and_then(|s| s.strip_prefix("Max error: ")) {
                Some(s) => num(s)?,
                None => return Err(format!("no biggest error after {:?}", l)),
            };
            let (rows, k) = table(i + 1);
            i = k;
            let mut e = Entry { iter, maxe, x: vec![], l: vec![], r: vec![], e: vec![] };
            for (q, c) in rows.iter().enumerate() {
                if c.len() != 4 || c[0] != q.to_string() {
                    return Err(format!("row {:?} at position {}", c, q));
                }
                e.x.push(num(&c[1])?);
                let (a, b) = c[2].split_once('=').ok_or(format!("row {:?}", c))?;
                e.l.push(num(a)?);
                e.r.push(num(b)?);
                e.e.push(num(&c[3])?);
            }
            out.push(Item::Point(e));
        } else if l.starts_with("Iteration refused") {
            out.push(Item::Refused);
            i += 1;
        } else if l.starts_with("Jacobian matrix") {
            let mut k = i + 2;
            let mut j: Mx = vec![];
            let mut h: Mx = vec![];
            let mut inv = false;
            while k < lines.len() && !is_title(lines[k]) {
                if lines[k].starts_with("Inverse of the jacobian") {
                    inv = true
                }
                let t = lines[k].trim();
                if let Some(t) = t.strip_prefix('\u{2502}').and_then(|t| t.strip_suffix('\u{2502}')) {
                    let row: Result<V, String> = t.split_whitespace().map(num).collect();
                    if inv {
                        h.push(row?)
                    } else {
                        j.push(row?)
                    }
                }
                k += 1;
            }
            out.push(Item::Jac {
                j: if j.is_empty() { None } else { Some(j) },
                h: if h.is_empty() { None } else { Some(h) },
            });
            i = k;
        } else {
            i += 1;
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------- expectations

#[derive(Clone, Debug)]
pub enum Exp {
    Header,
    Params,
    /// (event, number of the iteration or None when damped)
    Point(usize, Option<usize>),
    Refused,
}

/// what the log must contain after the calls before event `upto`
pub fn expected(run: &Run, v: &monitor::Verdict, upto: usize) -> Vec<Exp> {
    let mut out = vec![];
    let mut k = 0;
    for (idx, kind) in &v.kinds {
        if *kind == 3 {
            continue;
        }
        let usable = !matches!(&run.events[*idx], Ev::Eval { res: Res::Unus, .. });
        if *kind == 1 {
            k += 1
        }
        if *idx >= upto || !usable {
            continue;
        }
        match kind {
            0 => {
                out.push(Exp::Params);
                out.push(Exp::Point(*idx, Some(0)))
            }
            1 => {
                out.push(Exp::Point(*idx, Some(k)));
                if v.refused.contains(idx) {
                    out.push(Exp::Refused)
                }
            }
            _ => out.push(Exp::Point(*idx, None)),
        }
    }
    out
}

fn check_params(cfg: &Cfg, solver: &[String], its: &[Vec<String>], res: &[Vec<String>]) -> Result<(), String> {
    let n = cfg.n();
    let same_num = |s: &str, x: f64| s.parse::<f64>().map(|v| same(v, x)).unwrap_or(false);
    let name = match cfg.method() {
        Meth::Nr => "Newton-Raphson",
        Meth::Sn => "Frozen",
        Meth::Jac(0) | Meth::Inv(0) => "Broyden First",
        Meth::Jac(1) | Meth::Inv(1) => "Broyden Second",
        Meth::Jac(2) | Meth::Inv(2) => "Greenstadt First",
        _ => "Greenstadt Second",
    };
    if solver.len() != 5
        || solver[0] != n.to_string()
        || solver[1] != cfg.max_iter.to_string()
        || !same_num(&solver[2], cfg.tol)
        || solver[3] != cfg.damping.to_string()
        || !solver[4].contains(name)
    {
        return Err(format!("the parameters of the solver are logged as {:?}", solver));
    }
    let with_fd = cfg.fd || cfg.fd_params;
    if its.len() != n || res.len() != n {
        return Err(format!("{} unknowns and {} equations are logged", its.len(), res.len()));
    }
    for i in 0..n {
        let (c, l) = (&its[i], &cfg.lims[i]);
        let ok = c.len() == if with_fd { 8 } else { 5 }
            && c[0] == i.to_string()
            && same_num(&c[1], l.abs)
            && same_num(&c[2], l.rel)
            && same_num(&c[3], l.min)
            && same_num(&c[4], l.max)
            && (!with_fd || (c[5] == if l.sum { "Sum" } else { "Max" } && same_num(&c[6], l.dx_abs) && same_num(&c[7], l.dx_rel)));
        if !ok {
            return Err(format!("unknown {} {:?} is logged as {:?}", i, l, c));
        }
        let name = |k: Nm| match k {
            Nm::Abs => "Absolute",
            Nm::Rel => "Relative",
            Nm::Adapt => "Adapt",
        };
        let c = &res[i];
        if c.len() != 3 || c[0] != i.to_string() || !c[1].contains(name(cfg.stop[i])) || !c[2].contains(name(cfg.upd[i])) {
            return Err(format!("equation {} ({:?}, {:?}) is logged as {:?}", i, cfg.stop[i], cfg.upd[i], c));
        }
    }
    Ok(())
}

fn check_point(cfg: &Cfg, e: &Entry, ev: &Ev) -> Result<(), String> {
    if let Ev::Eval { x, l, r, .. } = ev {
        let what = match e.iter {
            Some(k) => format!("iteration {}", k),
            None => "damped point".to_string(),
        };
        if e.x.len() != cfg.n() {
            return Err(format!("{}: {} rows", what, e.x.len()));
        }
        if !same_v(&e.x, x) {
            return Err(format!("{}: iterates {:?} instead of {:?}", what, e.x, x));
        }
        if !same_v(&e.l, l) || !same_v(&e.r, r) {
            return Err(format!("{}: members {:?} = {:?} instead of {:?} = {:?}", what, e.l, e.r, l, r));
        }
        for i in 0..cfg.n() {
            let t = norm(cfg.stop[i], l[i], r[i]).abs();
            if !same(t, e.e[i]) && !((t - e.e[i]).abs() <= 1e-11 * t.abs() + 1e-300) {
                return Err(format!("{}, equation {}: stopping residual {} instead of {}", what, i, e.e[i], t));
            }
        }
        if !same(e.maxe, max_err(&e.e)) {
            return Err(format!("{}: biggest residual {} while they are {:?}", what, e.maxe, e.e));
        }
        Ok(())
    } else {
        Err("not an evaluation".into())
    }
}

/// the log tells exactly `exp`
fn check_items(cfg: &Cfg, items: &[Item], runs: &[&Run], exp: &[(usize, Exp)]) -> Result<(), String> {
    let it: Vec<&Item> = items.iter().filter(|i| !matches!(i, Item::Jac { .. })).collect();
    for k in 0..it.len().max(exp.len()) {
        let (a, b) = match (it.get(k), exp.get(k)) {
            (Some(a), Some(b)) => (*a, b),
            (Some(a), None) => return Err(format!("the log shows {} that did not take place", a.what())),
            (None, Some(b)) => return Err(format!("the log does not show {:?}", b.1)),
            _ => unreachable!(),
        };
        match (a, &b.1) {
            (Item::Header, Exp::Header) | (Item::Refused, Exp::Refused) => {}
            (Item::Params { solver, its, res }, Exp::Params) => check_params(cfg, solver, its, res)?,
            (Item::Point(e), Exp::Point(idx, iter)) if e.iter == *iter => {
                check_point(cfg, e, &runs[b.0].events[*idx])?
            }
            _ => return Err(format!("the log shows {} instead of {:?} (entry {})", a.what(), b.1, k)),
        }
    }
    Ok(())
}

/// the matrix shown before a step is the one this step was made with
fn check_matrices(cfg: &Cfg, items: &[Item], run: &Run, v: &monitor::Verdict, rep: &mut Report) -> Result<(), String> {
    let n = cfg.n();
    let mut shown: Option<bool> = None;
    for it in items {
        match it {
            Item::Jac { h, .. } => shown = Some(h.is_some()),
            Item::Point(e) => {
                if e.iter.unwrap_or(0) > 0 && (shown.is_none() || (n > 0 && shown == Some(false))) {
                    return Err(format!("the log does not show the inverse jacobian iteration {} is made with", e.iter.unwrap()));
                }
                shown = None
            }
            _ => {}
        }
    }
    if cfg.lims.iter().any(|l| l.abs.is_finite() || l.rel.is_finite() || l.min.is_finite() || l.max.is_finite()) {
        return Ok(());
    }
    let mut last: Option<&Item> = None;
    for it in items {
        match it {
            Item::Jac { .. } => last = Some(it),
            Item::Point(e) => {
                if let (Some(it), Some(q)) = (e.iter, last) {
                    if it > 0 && it <= v.accepted.len() {
                        if let (Ev::Eval { x, l, r, .. }, Item::Jac { j, h: Some(h) }) = (&run.events[v.accepted[it - 1]], q) {
                            let f: V = (0..n).map(|i| norm(cfg.upd[i], l[i], r[i])).collect();
                            if h.len() != n || !f.iter().chain(x.iter()).all(|v| v.is_finite()) || inf_norm(&f) > 1e60 {
                                continue;
                            }
                            let (inv, c) = match good_inverse(h, 1e6) {
                                Some(z) => z,
                                None => continue,
                            };
                            if let Some(j) = j {
                                for a in 0..n {
                                    for b in 0..n {
                                        if !((inv[a][b] - j[a][b]).abs() <= 1e-8 * c * mat_norm(&inv)) {
                                            return Err(format!("iteration {}: the jacobian {:?} and its inverse {:?} do not match", it, j, h));
                                        }
                                    }
                                }
                            }
                            let hf = mat_vec(h, &f);
                            let scale: f64 = inf_norm(x) + mat_norm(h) * inf_norm(&f) + 1.0;
                            rep.feat("matrix-checked");
                            for i in 0..n {
                                let want = x[i] - hf[i];
                                if !((e.x[i] - want).abs() <= 1e-8 * c * scale) {
                                    return Err(format!(
                                        "iteration {}: with the inverse jacobian shown {:?} unknown {} goes to {} and not {}",
                                        it, h, i, want, e.x[i]
                                    ));
                                }
                            }
                        }
                    }
                }
                last = None;
            }
            _ => {}
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C16

fn hash_run(ch: u64, r: &Run, rep: &mut Report) {
    let mut h = Hasher64::new();
    h.u(ch);
    for e in &r.events {
        if let Ev::Eval { x, l, r, res, .. } = e {
            h.fs(x);
            h.fs(l);
            h.fs(r);
            h.u(*res as u64);
            rep.state(h.0);
        }
    }
}

fn c16_cases(t: bool) -> Vec<Case> {
    let mut c = vec![];
    c.extend(product(&["cpl2", "atan1"], &[V_BASE], ALL_M, BOTH, BOTH, FULL, 1));
    c.extend(product(&["atan2"], &[V_MIXC, V_MIXB], ALL_M, BOTH, BOTH, FULL, 1));
    c.extend(product(&["cpl3"], &[V_LONG, V_MIXB, V_STEPS], ALL_M, BOTH, BOTH, SMALL, 1));
    c.extend(product(&["sq1", "atan1"], &[V_B0, V_B1, V_BOUNDS, V_ONE], ALL_M, BOTH, BOTH, SMALL, 1));
    c.extend(product(&["cpl2", "cpl3"], &[V_USER, V_USERL], ALL_M, BOTH, BOTH, SMALL, 1));
    c.extend(product(&["noroot1", "big4", "big5"], &[V_VLONG], ALL_M, BOTH, BOTH, SMALL, 0));
    c.extend(product(&["atan1"], &[V_MIXA], ALL_M, BOTH, BOTH, SMALL, 2));
    c.extend(product(&["noroot1"], &[V_CENT], ALL_M, BOTH, BOTH, SMALL, 0));
    c.extend(product(&["noroot1"], &[V_MILL], &[0, 3], BOTH, BOTH, SMALL, 0));
    c.extend(product(&["big12", "big17"], &[V_BASE, V_TIGHT], ALL_M, BOTH, BOTH, SMALL, 0));
    c.extend(product(&["mic2"], &[V_MICL], ALL_M, BOTH, BOTH, SMALL, 1));
    c.extend(product(&["scl3"], &[V_MIXA], ALL_M, BOTH, BOTH, SMALL, 1));
    c.extend(nothing(ALL_M, BOTH, BOTH, if t { 4 } else { 2 }));
    let dims = dims(false);
    c.extend(product(&dims, &[V_MIXB], &[0, 1, 3, 7], &[true], BOTH, SMALL, 0));
    c.extend(product(&crate::env::dims(true), &[V_MIXB], &[0, 3], &[true], BOTH, SMALL, 0));
    c.extend(stretched(product(&["cpl2"], &[V_LONG], &[0, 1, 2, 5, 6, 9], BOTH, &[false], SMALL, 0), 1));
    c.extend(stretched(product(&["atan1"], &[V_LONG, V_STEP12], if t { ALL_M } else { &[0, 3, 8] }, BOTH, BOTH, SMALL, 0), if t { 2 } else { 1 }));
    for mood in MOODS {
        c.extend(product(&["cpl2", "atan1"], &[V_LONG, V_MIXB], ALL_M, BOTH, BOTH, *mood, if t { 1 } else { 0 }));
        c.extend(product(&["atan1"], &[V_VLONGS], ALL_M, BOTH, BOTH, *mood, 0));
    }
    if t {
        c.extend(product(&["cpl2", "atan2"], &[V_BASE, V_MIXA, V_LONG], ALL_M, BOTH, BOTH, SMALL, 2));
        c.extend(product(&["atan1"], &[V_BASE, V_REL], ALL_M, BOTH, BOTH, FULL, 2));
        c.extend(product(&["cpl3", "big5", "noroot2"], &[V_ADAPT, V_MIXC, V_STEPS2], ALL_M, BOTH, BOTH, FULL, 1));
    }
    dedup(&mut c);
    c
}

fn dedup(c: &mut Vec<Case>) {
    c.sort_by(|a, b| a.cfg.id.cmp(&b.cfg.id).then(b.depth.cmp(&a.depth)));
    c.dedup_by(|a, b| a.cfg.id == b.cfg.id);
    c.sort_by_key(|k| {
        let mut w = 1u64;
        for _ in 0..k.depth {
            w *= k.cfg.max_calls().min(40) as u64 * k.cfg.alpha.e.len() as u64
        }
        std::cmp::Reverse(w)
    });
}

fn read(path: &str) -> String {
    String::from_utf8_lossy(&std::fs::read(path).unwrap_or_default()).into_owned()
}

/// first resolution, logged, then the same again in the same log: what is shown
fn c16_one(cfg: &Cfg, script: &Script, plain: &Run, path: &str, rep: &mut Report) -> Result<(), String> {
    let job = |s: &Script| Job { prob: cfg.prob, script: s.clone(), fd: None };
    let jobs = if script.len() <= 1 { vec![job(script), job(&vec![])] } else { vec![job(script)] };
    let runs = run_many(cfg, &jobs, &Opts { log: Some(path.to_string()), hook: None, perm: None, ..Default::default() });
    rep.runs += 2;
    if let Some(d) = diff_run(plain, &runs[0]) {
        return Err(format!("with the log: {}", d));
    }
    let v = monitor::monitor(cfg, &runs[0]);
    if v.unsure || !v.viol.is_empty() || !v.complete {
        rep.feat("content-not-judged");
        return Ok(());
    }
    let text = read(path);
    let items = parse_log(&text).map_err(|m| format!("unreadable log: {}", m))?;
    let mut exp: Vec<(usize, Exp)> = vec![(0, Exp::Header)];
    exp.extend(expected(&runs[0], &v, usize::MAX).into_iter().map(|e| (0, e)));
    if let Some(second) = runs.get(1) {
        let w = monitor::monitor(cfg, second);
        if w.unsure || !w.viol.is_empty() || !w.complete {
            rep.feat("content-not-judged");
            return Ok(());
        }
        exp.extend(expected(second, &w, usize::MAX).into_iter().map(|e| (1, e)));
    }
    for (_, e) in &exp {
        rep.feat(match e {
            Exp::Point(_, None) => "damped-point-in-log",
            Exp::Point(..) => "point-in-log",
            Exp::Refused => "refused-in-log",
            _ => "parameters-in-log",
        });
    }
    let refs: Vec<&Run> = runs.iter().collect();
    check_items(cfg, &items, &refs, &exp)?;
    let cut = items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Params { .. })).nth(1).map(|(k, _)| k).unwrap_or(items.len());
    check_matrices(cfg, &items[..cut], &runs[0], &v, rep)
}

pub fn c16(thorough: bool) -> Report {
    let cases = c16_cases(thorough);
    let dir = Scratch::new();
    let mut rep = parallel(&cases, |case, rep, stop| {
        let path = dir.file(&format!("log-{}.txt", COUNT.fetch_add(1, Ordering::Relaxed)));
        let ch = case_hash(&case.cfg.id);
        explore_case(case, stop, &mut |script, r| {
            hash_run(ch, r, rep);
            rep.transitions += new_points(script, r);
            if let Err(m) = c16_one(&case.cfg, script, r, &path, rep) {
                rep.viol("log", &case.cfg.id, script, format!("{} | answers {} | {}", m, describe_script(&case.cfg, script, r), case.cfg.describe()));
                if rep.nviol as usize >= MAX_VIOL {
                    stop.store(true, Ordering::Relaxed)
                }
            }
            if script.is_empty() {
                rep.sample(format!("{} with and without log -> {:?}", case.cfg.id, r.outcome));
            }
        });
        let _ = std::fs::remove_file(&path);
    });
    rep.bounds.push(format!("{} configurations, scripts of at most 2 deviations, each run without log, with log, and twice in the same log", cases.len()));
    rep
}

/// the model is used as its trait says when the log is activated too
pub fn c23(thorough: bool) -> Report {
    let cases = c16_cases(thorough);
    let dir = Scratch::new();
    let mut rep = parallel(&cases, |case, rep, stop| {
        let path = dir.file(&format!("log-{}.txt", COUNT.fetch_add(1, Ordering::Relaxed)));
        let ch = case_hash(&case.cfg.id);
        explore_case(case, stop, &mut |script, r| {
            hash_run(ch, r, rep);
            rep.transitions += new_points(script, r);
            rep.runs += 1;
            let l = run_many(&case.cfg, &[Job { prob: case.cfg.prob, script: script.clone(), fd: None }], &Opts { log: Some(path.clone()), ..Default::default() });
            if let Some(m) = &l[0].misuse {
                rep.viol("logged", &case.cfg.id, script, format!("with the log: {} | answers {} | {}", m, describe_script(&case.cfg, script, r), case.cfg.describe()));
                if rep.nviol as usize >= MAX_VIOL {
                    stop.store(true, Ordering::Relaxed)
                }
            }
        });
        let _ = std::fs::remove_file(&path);
    });
    rep.bounds.push(format!("{} configurations with the log activated, scripts of at most 2 deviations", cases.len()));
    rep
}

// ------------------------------------------------------------------------------------- C17

fn c17_cases(t: bool) -> Vec<Case> {
    let mut c = vec![];
    c.extend(product(&["cpl2", "atan1"], &[V_BASE], ALL_M, BOTH, BOTH, SMALL, 1));
    c.extend(product(&["cpl2"], &[V_USER, V_USERL], ALL_M, BOTH, BOTH, SMALL, 0));
    c.extend(product(&["atan2"], &[V_MIXC, V_STEPS2], ALL_M, BOTH, BOTH, SMALL, 1));
    c.extend(product(&["cpl3", "sq1"], &[V_LONG, V_B1], ALL_M, BOTH, BOTH, SMALL, 0));
    c.extend(product(&["noroot1", "big5"], &[V_VLONG], ALL_M, BOTH, BOTH, SMALL, 0));
    c.extend(product(&["big12"], &[V_BASE], ALL_M, BOTH, BOTH, SMALL, 0));
    for mood in MOODS {
        c.extend(product(&["cpl2"], &[V_LONG], ALL_M, BOTH, BOTH, *mood, 0));
    }
    if t {
        c.extend(product(&["cpl2", "atan2", "cpl3"], &[V_MIXA, V_MIXB, V_STEPS, V_LONG], ALL_M, BOTH, BOTH, FULL, 1));
        c.extend(product(&["atan1"], &[V_BASE, V_MIXA], ALL_M, BOTH, BOTH, SMALL, 2));
    }
    dedup(&mut c);
    c
}

/// the model panics (true) or the process aborts (false) when the callback number `at` starts
pub fn crash_hook(at: usize, panic: bool) -> Hook {
    Rc::new(move |_c, k| {
        if k == at {
            if panic {
                std::panic::panic_any(CRASH.to_string())
            } else {
                std::process::abort()
            }
        }
    })
}

/// first resolution `before` (complete), then the one that crashes
fn jobs_of(cfg: &Cfg, script: &Script, twice: bool) -> Vec<Job> {
    let job = |s: &Script| Job { prob: cfg.prob, script: s.clone(), fd: None };
    if twice {
        vec![job(&vec![]), job(script)]
    } else {
        vec![job(script)]
    }
}

/// call, callback number, resolution, number of evaluations and jacobian requests before, file
type Snaps = Vec<(Call, usize, usize, usize, String)>;

/// the file is read at one call out of `every`
fn c17_one(cfg: &Cfg, script: &Script, twice: bool, every: usize, path: &str, rep: &mut Report) -> Result<(), String> {
    let jobs = jobs_of(cfg, script, twice);
    // ---- the file at each call made to the model: (call, callback number, resolution)
    let snaps: Rc<RefCell<Snaps>> = Rc::new(RefCell::new(vec![]));
    let res_no = Rc::new(RefCell::new((0usize, 0usize)));
    // resolution, number of calls so far
    let count = RefCell::new((0usize, 0usize));
    let hook: Hook = {
        let snaps = snaps.clone();
        let path = path.to_string();
        Rc::new(move |c, k| {
            let mut s = res_no.borrow_mut();
            if k <= s.1 && k == 0 && s.1 > 0 {
                s.0 += 1
            }
            s.1 = k;
            if matches!(c, Call::Evaluate | Call::GetJac) {
                let q = &mut *count.borrow_mut();
                if s.0 > q.0 {
                    *q = (s.0, 0)
                }
                let nth = q.1;
                q.1 += 1;
                if nth % every == every - 1 {
                    snaps.borrow_mut().push((c, k, s.0, nth, read(&path)));
                }
            }
        })
    };
    let runs = run_many(cfg, &jobs, &Opts { log: Some(path.to_string()), hook: Some(hook), perm: None, ..Default::default() });
    rep.runs += 1;
    let snaps = snaps.borrow().clone();
    let last = read(path);
    let verdicts: Vec<_> = runs.iter().map(|r| monitor::monitor(cfg, r)).collect();
    let judged = verdicts.iter().all(|v| !v.unsure && v.viol.is_empty());
    let mut prev = String::new();
    for (c, k, ri, nth, text) in &snaps {
        rep.evals += 1;
        rep.distinct.insert(case_hash(text));
        if !text.starts_with(prev.as_str()) {
            return Err(format!("the log of call {} does not start with the one of the call before", k));
        }
        prev = text.clone();
        let items = parse_log(text).map_err(|m| format!("during callback {} ({:?}) the log is not complete: {}", k, c, m))?;
        // the calls before this one
        let mut upto = usize::MAX;
        let mut seen = 0;
        for (idx, ev) in runs[*ri].events.iter().enumerate() {
            if ev.is_call() {
                if seen == *nth {
                    upto = idx;
                    break;
                }
                seen += 1;
            }
        }
        if !judged {
            rep.feat("content-not-judged");
            continue;
        }
        let mut exp: Vec<(usize, Exp)> = vec![(0, Exp::Header)];
        for q in 0..=*ri {
            let u = if q == *ri { upto } else { usize::MAX };
            exp.extend(expected(&runs[q], &verdicts[q], u).into_iter().map(|e| (q, e)));
        }
        let refs: Vec<&Run> = runs.iter().collect();
        rep.feat("log-at-call");
        check_items(cfg, &items, &refs, &exp).map_err(|m| format!("during callback {} ({:?}): {}", k, c, m))?;
    }
    if !last.starts_with(prev.as_str()) {
        return Err("the final log does not start with the one of the last call".into());
    }
    // ---- the model panics at each of these calls
    for (c, k, ri, _, text) in &snaps {
        if twice && *ri == 0 {
            continue;
        }
        let at = *k;
        let inner = crash_hook(at, true);
        let want = *ri;
        let now = RefCell::new((0usize, 0usize));
        let hook: Hook = Rc::new(move |c, k| {
            let mut s = now.borrow_mut();
            if k == 0 && s.1 > 0 {
                s.0 += 1
            }
            s.1 = k;
            let r = s.0;
            drop(s);
            if r == want {
                inner(c, k)
            }
        });
        let crashed = run_many(cfg, &jobs, &Opts { log: Some(path.to_string()), hook: Some(hook), perm: None, ..Default::default() });
        rep.runs += 1;
        rep.evals += 1;
        if !matches!(crashed.last().unwrap().outcome, Outcome::Crash) {
            rep.feat("panic-intercepted");
        }
        rep.feat("panic-in-call");
        let after = read(path);
        if !after.starts_with(text.as_str()) {
            return Err(format!("after a panic of the model in callback {} ({:?}) the log lost what it showed: {:?}", k, c, tail(&after)));
        }
    }
    Ok(())
}

fn tail(s: &str) -> String {
    let k = s.len().saturating_sub(120);
    let mut k = k;
    while !s.is_char_boundary(k) {
        k += 1
    }
    s[k..].to_string()
}

/// the process is ended at each call by the child process of `mc crash-child`
fn c17_abort(cfg: &Cfg, dir: &Scratch, rep: &mut Report) -> Result<(), String> {
    let path = dir.file(&format!("abort-{}.txt", COUNT.fetch_add(1, Ordering::Relaxed)));
    let child_path = format!("{}.child", path);
    let snaps: Rc<RefCell<Snaps>> = Rc::new(RefCell::new(vec![]));
    let hook: Hook = {
        let snaps = snaps.clone();
        let path = path.clone();
        Rc::new(move |c, k| {
            if matches!(c, Call::Evaluate | Call::GetJac) {
                snaps.borrow_mut().push((c, k, 0, 0, read(&path)));
            }
        })
    };
    run_many(cfg, &jobs_of(cfg, &vec![], false), &Opts { log: Some(path.clone()), hook: Some(hook), perm: None, ..Default::default() });
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    for (c, k, _, _, text) in snaps.borrow().iter() {
        let st = std::process::Command::new(&exe)
            .args(["crash-child", &cfg.id, &k.to_string(), &child_path])
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .map_err(|e| format!("child process: {}", e))?;
        use std::os::unix::process::ExitStatusExt;
        if st.signal() != Some(6) {
            rep.errors.push(format!("{}: the child process ended with {:?}", cfg.id, st));
            continue;
        }
        rep.runs += 1;
        rep.evals += 1;
        rep.feat("process-ended-in-call");
        let after = read(&child_path);
        if &after != text && !after.starts_with(text.as_str()) {
            return Err(format!("after the end of the process in callback {} ({:?}) the file is not the log at that call: {:?}", k, c, tail(&after)));
        }
    }
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(&child_path);
    Ok(())
}

fn abort_cases(t: bool) -> Vec<Case> {
    let mut c = product(&["atan1"], &[V_BASE], ALL_M, &[true], BOTH, SMALL, 0);
    c.extend(product(&["cpl2"], &[V_MIXB], ALL_M, if t { BOTH } else { &[true] }, BOTH, SMALL, 0));
    if t {
        c.extend(product(&["atan2", "cpl3"], &[V_MIXA, V_LONG], ALL_M, BOTH, BOTH, SMALL, 0));
    }
    c
}

pub fn crash_child(id: &str, at: usize, path: &str) -> i32 {
    // no core file
    for c in abort_cases(true) {
        if c.cfg.id == id {
            let mut o = Opts { log: Some(path.to_string()), hook: None, perm: None, ..Default::default() };
            o.hook = Some(crash_hook(at, false));
            run_many(&c.cfg, &jobs_of(&c.cfg, &vec![], false), &o);
            return 3;
        }
    }
    4
}

pub fn c17(thorough: bool) -> Report {
    let cases = c17_cases(thorough);
    let dir = Scratch::new();
    let mut rep = parallel(&cases, |case, rep, stop| {
        let path = dir.file(&format!("log-{}.txt", COUNT.fetch_add(1, Ordering::Relaxed)));
        let ch = case_hash(&case.cfg.id);
        explore_case(case, stop, &mut |script, r| {
            hash_run(ch, r, rep);
            rep.transitions += new_points(script, r);
            for twice in [false, true] {
                if twice && script.len() > 1 {
                    continue;
                }
                if let Err(m) = c17_one(&case.cfg, script, twice, 1, &path, rep) {
                    rep.viol("crash", &case.cfg.id, script, format!("{} | answers {} | {}", m, describe_script(&case.cfg, script, r), case.cfg.describe()));
                    if rep.nviol as usize >= MAX_VIOL {
                        stop.store(true, Ordering::Relaxed)
                    }
                }
            }
            if script.is_empty() {
                rep.sample(format!("{}: crash at each of the {} calls -> alone {:?}", case.cfg.id, r.points.len(), r.outcome));
            }
        });
        let _ = std::fs::remove_file(&path);
    });
    // long logs: the file is read at some calls only
    let mut long: Vec<(Case, usize)> = vec![];
    let meths: &[usize] = if thorough { ALL_M } else { &[0, 1, 2, 5, 7, 8] };
    long.extend(product(&["noroot1", "noroot2"], &[V_CENT], meths, BOTH, BOTH, SMALL, 0).into_iter().map(|c| (c, 149)));
    long.extend(product(&["big17"], &[V_VLONG], meths, BOTH, BOTH, SMALL, 0).into_iter().map(|c| (c, 61)));
    long.extend(product(&["noroot1"], &[V_MILL], &[0, 3], &[true], BOTH, SMALL, 0).into_iter().map(|c| (c, 3989)));
    let r3 = parallel(&long, |(case, every), rep, stop| {
        let path = dir.file(&format!("log-{}.txt", COUNT.fetch_add(1, Ordering::Relaxed)));
        for twice in [false, true] {
            if let Err(m) = c17_one(&case.cfg, &vec![], twice, *every, &path, rep) {
                rep.viol("crash", &case.cfg.id, &vec![], format!("{} | {}", m, case.cfg.describe()));
                if rep.nviol as usize >= MAX_VIOL {
                    stop.store(true, Ordering::Relaxed)
                }
            }
        }
        rep.feat("long-log");
        let _ = std::fs::remove_file(&path);
    });
    rep.merge(r3);
    rep.bounds.push(format!("{} resolutions of 60 to 5000 iterations, the log being read and the model crashing at one call out of 61, 149 or 3989", long.len()));
    let ab = abort_cases(thorough);
    let r2 = parallel(&ab, |case, rep, _| {
        if let Err(m) = c17_abort(&case.cfg, &dir, rep) {
            rep.viol("crash", &case.cfg.id, &vec![], m)
        }
    });
    rep.merge(r2);
    rep.bounds.push(format!(
        "crash at every evaluation and jacobian request: panic of the model in {} configurations with scripts of at most {} deviations (first or second resolution of the object), end of the process in {} configurations",
        cases.len(), if thorough { 2 } else { 1 }, ab.len()
    ));
    rep
}
