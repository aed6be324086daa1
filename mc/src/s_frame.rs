//! C27: the same problem in other units, orientations and sides. C28: settings that do not come into play.

use crate::base::*;
use crate::cases::*;
use crate::env::*;
use crate::explore::*;
use crate::monitor;
use crate::run::*;
use crate::s_equiv::{cmp_runs, comparable};
use std::rc::Rc;
use std::sync::atomic::Ordering;

fn sorted(mut cases: Vec<Case>) -> Vec<Case> {
    cases.sort_by(|a, b| a.cfg.id.cmp(&b.cfg.id).then(b.depth.cmp(&a.depth)));
    cases.dedup_by(|a, b| a.cfg.id == b.cfg.id);
    cases.sort_by_key(|k| std::cmp::Reverse((k.depth, k.pat, k.cfg.n(), k.cfg.fd)));
    cases
}

// ------------------------------------------------------------------------------------- C27

/// does the method commute with a scaling of each unknown, of each equation
fn affine(m: Meth) -> (bool, bool) {
    match m {
        Meth::Nr | Meth::Sn => (true, true),
        Meth::Jac(k) | Meth::Inv(k) => (k == 1 || k == 2, k == 0 || k == 3),
    }
}

fn p2(k: i32) -> f64 {
    2f64.powi(k)
}

/// the configuration of the solver that sees the problem through the frame, when it is the same problem
fn seen(cfg: &Cfg, f: &Frame) -> Option<Cfg> {
    let n = cfg.n();
    let (by_unknown, by_equation) = affine(cfg.method());
    let same_abs = |v: &[f64]| v.iter().all(|x| x.abs() == v[0].abs());
    if !same_abs(&f.su) && !by_unknown {
        return None;
    }
    // scaling of the tolerance, of the residuals used for the steps
    let mut tol: Option<f64> = None;
    let mut g = vec![];
    for e in 0..n {
        let m = f.me[e].abs();
        match cfg.stop[e] {
            Nm::Abs => match tol {
                None => tol = Some(m),
                Some(t) if t == m => {}
                _ => return None,
            },
            Nm::Rel => {}
            Nm::Adapt if m == 1.0 => match tol {
                None => tol = Some(1.0),
                Some(t) if t == 1.0 => {}
                _ => return None,
            },
            Nm::Adapt => return None,
        }
        g.push(match cfg.upd[e] {
            Nm::Abs => m,
            Nm::Rel => 1.0,
            Nm::Adapt if m == 1.0 => 1.0,
            Nm::Adapt => return None,
        });
    }
    // a tolerance common to relative residuals does not change
    let t = tol.unwrap_or(1.0);
    if t != 1.0 && cfg.stop.iter().any(|k| *k != Nm::Abs) {
        return None;
    }
    if !same_abs(&g) && !by_equation {
        return None;
    }
    let mut c = cfg.clone();
    c.tol *= t;
    for k in 0..n {
        let s = f.su[k];
        c.x0[k] *= s;
        let l = &mut c.lims[k];
        l.abs *= s.abs();
        l.dx_abs *= s.abs();
        (l.min, l.max) = if s > 0.0 { (l.min * s, l.max * s) } else { (l.max * s, l.min * s) };
        if s < 0.0 && cfg.fd {
            l.back = !l.back;
        }
    }
    Some(c)
}

fn frames(n: usize) -> Vec<(String, Frame)> {
    let id = || Frame { su: vec![1.0; n], me: vec![1.0; n], swap: vec![false; n] };
    let mut out = vec![];
    let mut add = |name: String, change: &dyn Fn(&mut Frame)| {
        let mut f = id();
        change(&mut f);
        out.push((name, f));
    };
    for k in [-60, -27, 33, 71] {
        add(format!("unknowns x 2^{}", k), &|f| f.su = vec![p2(k); n]);
        add(format!("equations x 2^{}", k), &|f| f.me = vec![p2(k); n]);
        add(format!("unknowns x 2^{}, equations x 2^{}", k, 6 - k), &|f| {
            f.su = vec![p2(k); n];
            f.me = vec![p2(6 - k); n];
        });
    }
    let ks = [5, -9, 3, -4, 11];
    add("each unknown its own unit".into(), &|f| f.su = (0..n).map(|i| p2(ks[i % 5])).collect());
    add("last unknown x 2^-13".into(), &|f| f.su[n - 1] = p2(-13));
    add("each equation its own unit".into(), &|f| f.me = (0..n).map(|i| p2(ks[(i + 1) % 5])).collect());
    add("first equation x 2^-12".into(), &|f| f.me[0] = p2(-12));
    let some: Vec<usize> = if n <= 4 { (0..n).collect() } else { vec![0, n / 2, n - 1] };
    for e in &some {
        add(format!("equation {} x 2^9", e), &|f| f.me[*e] = p2(9));
        add(format!("equation {} changes sign", e), &|f| f.me[*e] = -1.0);
        add(format!("sides of equation {} exchanged", e), &|f| f.swap[*e] = true);
        add(format!("unknown {} changes sign", e), &|f| f.su[*e] = -1.0);
    }
    if n > 1 {
        add("every equation changes sign".into(), &|f| f.me = vec![-1.0; n]);
        add("sides of every equation exchanged".into(), &|f| f.swap = vec![true; n]);
        add("every unknown changes sign".into(), &|f| f.su = vec![-1.0; n]);
    }
    add("signs of some, sides of others".into(), &|f| {
        for i in 0..n {
            f.su[i] = if i % 2 == 0 { -1.0 } else { 1.0 };
            f.me[i] = if i % 2 == 1 { -1.0 } else { 1.0 };
            f.swap[i] = i % 2 == 0;
        }
    });
    add("everything at once".into(), &|f| {
        for i in 0..n {
            f.su[i] = if i % 2 == 0 { -p2(-7) } else { p2(-7) };
            f.me[i] = if i % 2 == 1 { -p2(14) } else { p2(14) };
            f.swap[i] = i % 3 == 0;
        }
    });
    out
}

/// far from the ends of the floating-point range: no change of units overflows
fn moderate(r: &Run, k: i32) -> bool {
    let (lo, hi) = (10f64.powi(-k), 10f64.powi(k));
    let ok = |v: &V| v.iter().all(|x| *x == 0.0 || !x.is_finite() || (x.abs() < hi && x.abs() > lo));
    r.events.iter().all(|e| match e {
        Ev::Eval { x, l, r, .. } => ok(x) && ok(l) && ok(r),
        Ev::Jac { jl, jr, .. } => jl.iter().all(ok) && jr.iter().all(ok),
        _ => true,
    })
}

pub fn c27(thorough: bool) -> Report {
    let t = thorough;
    let mut cases = vec![];
    let vars = [V_BASE, V_REL, V_MIXA, V_MIXB, V_MIXC, V_STEPS, V_BOUNDS, V_PERT, V_TIGHT, V_STEPS2, V_MIXED, V_USER, V_USERL, V_LONG, V_ADAPT, V_OUT];
    cases.extend(product(&["cpl2", "atan2", "atan1", "sq1"], &vars, ALL_M, BOTH, BOTH, if t { FULL } else { VALUES }, 1));
    cases.extend(product(&["cpl2", "atan1"], &[V_BASE, V_REL, V_STEPS, V_BOUNDS], ALL_M, BOTH, BOTH, FULL, 1));
    cases.extend(product(&["cpl3", "aff3"], &[V_BASE, V_REL, V_MIXB, V_TIGHT, V_PERT, V_STEPS2], ALL_M, BOTH, BOTH, SMALL, 1));
    cases.extend(product(&["cpl2"], &[V_BASE, V_REL], ALL_M, BOTH, BOTH, SMALL, 2));
    cases.extend(product(&crate::env::dims(true), &[V_LONG, V_MIXB], &[0, 1, 3], BOTH, BOTH, SMALL, 0));
    cases.extend(product(&["big4", "big5", "big7", "big10", "dim6", "dim16", "dim33", "noroot1", "noroot2", "cub1", "aff2"], &[V_LONG, V_REL, V_MIXB, V_TIGHT, V_DFLT], ALL_M, BOTH, BOTH, SMALL, 0));
    cases.extend(product(&["cpl2", "atan1"], &[V_DFLT, V_VLONG, V_VLONGS], ALL_M, BOTH, BOTH, VALUES, 0));
    for mood in MOODS {
        cases.extend(product(&["cpl2", "atan1"], &[V_LONG, V_REL, V_BOUNDS], ALL_M, BOTH, BOTH, *mood, if t { 1 } else { 0 }));
    }
    cases.extend(stretched(product(&["cpl2"], &[V_LONG, V_REL], ALL_M, BOTH, &[false], SMALL, 0), 1));
    if t {
        cases.extend(product(&["cpl2", "atan1"], &[V_BASE, V_REL, V_STEPS, V_BOUNDS, V_MIXB], ALL_M, BOTH, BOTH, SMALL, 2));
        cases.extend(product(&["cpl3"], &[V_BASE, V_REL, V_MIXB, V_TIGHT, V_PERT, V_STEPS2], ALL_M, BOTH, BOTH, FULL, 1));
        cases.extend(stretched(product(&["cpl2", "atan1"], &[V_LONG, V_REL, V_STEP12], ALL_M, BOTH, &[false], SMALL, 0), 2));
    }
    let cases = sorted(cases);
    let mut rep = parallel(&cases, |case, rep, stop| {
        let cfg = &case.cfg;
        let n = cfg.n();
        let ch = case_hash(&cfg.id);
        let fs: Vec<(String, Frame, Cfg)> =
            frames(n).into_iter().filter_map(|(name, f)| seen(cfg, &f).map(|c| (name, f, c))).collect();
        let mut worst = 0f64;
        explore_case(case, stop, &mut |script, r| {
            rep.transitions += new_points(script, r);
            let v = monitor::monitor(cfg, r);
            for s in &v.states {
                rep.state(s ^ ch)
            }
            for (name, f, c) in &fs {
                let o = Opts { frame: Some(Rc::new(f.clone())), outer: Some(Rc::new(c.clone())), ..Default::default() };
                let b = run(cfg, script, &o);
                rep.runs += 1;
                if diff_run(r, &b).is_none() {
                    rep.feat("identical");
                    continue;
                }
                let w = monitor::monitor(cfg, &b);
                // nothing rounds in a common unit: whatever is not at the ends of the range is the same
                let common = |v: &V| v.iter().all(|x| *x == v[0] && *x > 1e-12 && *x < 1e12);
                let exact = !f.swap.contains(&true) && common(&f.su) && common(&f.me) && moderate(r, 30) && moderate(&b, 30);
                if !exact && (v.tie || w.tie || !(comparable(&v, r) || comparable(&w, &b))) {
                    rep.feat("rounding or singularity decides: not compared");
                    continue;
                }
                if !moderate(r, 90) || !moderate(&b, 90) {
                    rep.feat("the units bring an overflow: not compared");
                    continue;
                }
                match cmp_runs(n, r, &b, false, &mut worst) {
                    None => rep.feat("identical up to rounding"),
                    Some(m) => {
                        rep.viol("frames", &cfg.id, script, format!(
                            "{}: {} | answers {} | {}", name, m, describe_script(cfg, script, r), cfg.describe()
                        ));
                        if rep.nviol as usize >= MAX_VIOL {
                            stop.store(true, Ordering::Relaxed);
                        }
                        return;
                    }
                }
            }
            if script.is_empty() {
                rep.sample(format!("{}: {} frames -> {:?}", cfg.id, fs.len(), r.outcome));
            }
            rep.feat(r.outcome.feat());
        });
    });
    rep.bounds.push(format!(
        "{} configurations of 1 to 33 unknowns, scripts of at most {} deviations and stretches; frames: every unknown (equation) multiplied by 2^-60, 2^-27, 2^33 and 2^71, each by its own power of two, each (up to 4; three of them beyond) changing its sign or its sides alone, all of them, and mixes",
        cases.len(), if t { "2 (3 unknowns: 1)" } else { "1 (2 on some)" }
    ));
    rep
}

// ------------------------------------------------------------------------------------- C28

/// is `a` a beginning of `b`: None, or the first difference
fn prefix(a: &Run, b: &Run) -> Option<String> {
    for (i, e) in a.events.iter().enumerate() {
        match b.events.get(i) {
            Some(f) if same_ev(e, f) => {}
            f => return Some(format!("call {}: {:?} instead of {:?}", i, e, f)),
        }
    }
    None
}

/// errors of the evaluations made, in the order of their values
fn errors(cfg: &Cfg, r: &Run) -> V {
    let mut v: V = vec![];
    for e in &r.events {
        if let Ev::Eval { l, r, .. } = e {
            let m = max_err(&(0..l.len()).map(|i| norm(cfg.stop[i], l[i], r[i])).collect::<V>());
            if m.is_finite() {
                v.push(m)
            }
        }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}

fn went_on_then(a: &Run, b: &Run) -> bool {
    a.events.len() < b.events.len()
}

pub fn c28(thorough: bool) -> Report {
    let t = thorough;
    let mut cases = vec![];
    let vars = [V_BASE, V_REL, V_MIXA, V_MIXB, V_MIXC, V_STEPS, V_BOUNDS, V_TIGHT, V_STEPS2, V_MIXED, V_USER, V_LONG, V_ADAPT, V_LOOSE, V_TOL0];
    cases.extend(product(&["cpl2", "atan1", "atan2"], &vars, ALL_M, BOTH, BOTH, if t { FULL } else { SMALL }, 1));
    cases.extend(product(&["cpl2", "atan1"], &[V_BASE, V_LONG], ALL_M, BOTH, BOTH, FULL, 1));
    cases.extend(product(&["cpl3"], &[V_MIXB, V_LONG, V_TIGHT], ALL_M, BOTH, BOTH, SMALL, 1));
    cases.extend(product(&["cpl2", "atan1"], &[V_BASE, V_MIXB], ALL_M, BOTH, BOTH, SMALL, if t { 2 } else { 1 }));
    cases.extend(product(&["atan1"], &[V_BASE], ALL_M, BOTH, BOTH, SMALL, 2));
    cases.extend(product(&crate::env::dims(true), &[V_LONG], &[0, 3], BOTH, BOTH, SMALL, 0));
    cases.extend(product(&["big4", "big5", "dim6", "big10", "dim16", "noroot1", "noroot2", "cub1", "scl3"], &[V_LONG, V_REL, V_MIXB, V_DFLT, V_STEP12], ALL_M, BOTH, BOTH, SMALL, 0));
    cases.extend(product(&["cpl2", "atan1", "noroot2"], &[V_VLONG, V_VLONGM, V_VLONGT, V_VLONGS], ALL_M, BOTH, BOTH, SMALL, 0));
    for mood in MOODS {
        cases.extend(product(&["cpl2", "atan1"], &[V_LONG, V_MIXB], ALL_M, BOTH, BOTH, *mood, if t { 1 } else { 0 }));
    }
    cases.extend(stretched(product(&["cpl2"], &[V_LONG, V_MIXB], ALL_M, BOTH, &[false], SMALL, 0), 1));
    let cases = sorted(cases);
    let mut rep = parallel(&cases, |case, rep, stop| {
        let cfg = &case.cfg;
        let n = cfg.n();
        let ch = case_hash(&cfg.id);
        explore_case(case, stop, &mut |script, r| {
            rep.transitions += new_points(script, r);
            let mut h = Hasher64(ch);
            for e in &r.events {
                if let Ev::Eval { x, l, r, res, .. } = e {
                    h.fs(x);
                    h.fs(l);
                    h.fs(r);
                    h.u(*res as u64);
                    rep.state(h.0);
                }
            }
            rep.feat(r.outcome.feat());
            let with = |c: Cfg| -> Run { run(cfg, script, &Opts { outer: Some(Rc::new(c)), ..Default::default() }) };
            let mut fail = |rep: &mut Report, what: String, m: String| {
                rep.viol("settings", &cfg.id, script, format!("{}: {} | answers {} | {}", what, m, describe_script(cfg, script, r), cfg.describe()));
                if rep.nviol as usize >= MAX_VIOL {
                    stop.store(true, Ordering::Relaxed);
                }
            };

            // ---- smaller budgets
            let v = monitor::monitor(cfg, r);
            let sure = !v.unsure && !v.ambiguous && !v.tie;
            let budgets: Vec<usize> = if cfg.max_iter <= 12 { (0..cfg.max_iter).collect() } else { vec![0, 1, 2, 3, 7, 19, cfg.max_iter - 1] };
            let mut before: Option<Run> = None;
            for b in budgets {
                let mut c = cfg.clone();
                c.max_iter = b;
                let a = with(c);
                rep.runs += 1;
                let name = format!("{} iterations instead of {}", b, cfg.max_iter);
                if let Some(m) = prefix(&a, r) {
                    return fail(rep, name, m);
                }
                if went_on_then(&a, r) {
                    if !matches!(a.outcome, Outcome::NonConv | Outcome::Final) {
                        return fail(rep, name, format!("{:?} where {} iterations go on", a.outcome, cfg.max_iter));
                    }
                    if let (true, Some(last)) = (sure, v.accepted.get(b)) {
                        if a.events.len() != last + 1 {
                            return fail(rep, name, format!("cut at call {}, the point accepted by this iteration being the one of call {}", a.events.len() - 1, last));
                        }
                        rep.feat("cut by the budget at the accepted point");
                    }
                    rep.feat("cut by the budget");
                } else if a.outcome != r.outcome && !(matches!(r.outcome, Outcome::JacInv) && matches!(a.outcome, Outcome::NonConv | Outcome::Final)) {
                    return fail(rep, name, format!("{:?} instead of {:?}", a.outcome, r.outcome));
                }
                if let Some(p) = &before {
                    // one more iteration than the smaller budget, at most
                    if a.events.len() < p.events.len() {
                        return fail(rep, name, format!("{} calls, fewer than with a smaller budget", a.events.len()));
                    }
                    if b <= 12 && went_on_then(&a, r) && a.events.len() == p.events.len() {
                        return fail(rep, name, "no more calls than with one iteration less, the budget being the limit".into());
                    }
                }
                before = Some(a);
            }

            // ---- other tolerances
            let mut tols: V = vec![0.0, 1e-300];
            for e in errors(cfg, r).into_iter().rev().take(6) {
                tols.extend([e * 0.75, e, e * 1.5]);
            }
            tols.extend([1e300, f64::INFINITY]);
            tols.push(cfg.tol);
            tols.sort_by(|a, b| a.partial_cmp(b).unwrap());
            tols.dedup();
            let mut tighter: Option<(f64, Run)> = None;
            for tol in tols {
                let mut c = cfg.clone();
                c.tol = tol;
                let a = with(c);
                rep.runs += 1;
                if let Some((u, p)) = &tighter {
                    let name = format!("tolerance {:e} instead of {:e}", tol, u);
                    if let Some(m) = prefix(&a, p) {
                        return fail(rep, name, m);
                    }
                    if went_on_then(&a, p) {
                        if !matches!(a.outcome, Outcome::Ok | Outcome::Final) {
                            return fail(rep, name, format!("{:?} where the tighter one goes on", a.outcome));
                        }
                        rep.feat("cut by the tolerance");
                    } else if a.outcome != p.outcome && !matches!(a.outcome, Outcome::Ok | Outcome::Final) {
                        return fail(rep, name, format!("{:?} instead of {:?}", a.outcome, p.outcome));
                    }
                }
                tighter = Some((tol, a));
            }

            // ---- limits that are not reached
            let free = cfg.lims.iter().all(|l| l.abs.is_infinite() && l.rel.is_infinite() && l.min.is_infinite() && l.max.is_infinite());
            let pts: Vec<&V> = r.events.iter().filter_map(|e| if let Ev::Eval { x, .. } = e { Some(x) } else { None }).collect();
            if free && pts.iter().all(|x| x.iter().all(|v| v.abs() < 1e200)) {
                let range = |k: usize| {
                    let lo = pts.iter().map(|x| x[k]).fold(f64::INFINITY, f64::min);
                    let hi = pts.iter().map(|x| x[k]).fold(f64::NEG_INFINITY, f64::max);
                    let near = pts.iter().map(|x| x[k].abs()).fold(f64::INFINITY, f64::min);
                    (lo, hi, near)
                };
                for kind in 0..4 {
                    let mut c = cfg.clone();
                    for k in 0..n {
                        let (lo, hi, near) = range(k);
                        let l = &mut c.lims[k];
                        let span = 1.01 * (hi - lo) + 1e-9 * (lo.abs() + hi.abs()) + 1e-30;
                        if kind == 0 || kind == 3 {
                            l.abs = span
                        }
                        if (kind == 1 || kind == 3) && near > 1e-100 {
                            l.rel = span / near
                        }
                        if kind == 2 || kind == 3 {
                            l.min = lo;
                            l.max = if hi > lo { hi } else { hi + 1e-3 * hi.abs() + 1e-30 };
                        }
                    }
                    let a = with(c.clone());
                    rep.runs += 1;
                    if let Some(m) = diff_run(r, &a) {
                        return fail(rep, format!("limits never reached {:?}", c.lims), m);
                    }
                    rep.feat("limits never reached");
                }
            }

            // ---- perturbations nobody uses
            if !cfg.fd {
                let mut c = cfg.clone();
                c.fd_params = !c.fd_params;
                for l in c.lims.iter_mut() {
                    l.dx_abs *= 3.0;
                    l.dx_rel *= 0.1;
                    l.sum = !l.sum;
                }
                let a = with(c);
                rep.runs += 1;
                if let Some(m) = diff_run(r, &a) {
                    return fail(rep, "other perturbations, the jacobian being provided".into(), m);
                }
            }

            // ---- normalization of the stopping residuals without damping: when to stop, and nothing else
            if !cfg.damping {
                for kind in NMS {
                    let mut c = cfg.clone();
                    c.stop = vec![kind; n];
                    let a = with(c);
                    rep.runs += 1;
                    let (s, l) = if a.events.len() < r.events.len() { (&a, r) } else { (r, &a) };
                    if let Some(m) = prefix(s, l) {
                        return fail(rep, format!("stopping residuals {:?}", kind), m);
                    }
                    if went_on_then(s, l) && !matches!(s.outcome, Outcome::Ok | Outcome::Final) {
                        return fail(rep, format!("stopping residuals {:?}", kind), format!("{:?} where the others go on", s.outcome));
                    }
                }
            }

            // ---- damping that has nothing to damp
            if !cfg.damping && cfg.stop.iter().all(|k| *k == Nm::Abs) {
                let errs: Vec<f64> = r.events
                    .iter()
                    .position(|e| matches!(e, Ev::Eval { .. }))
                    .into_iter()
                    .chain(v.kinds.iter().filter(|(_, k)| *k == 1).map(|(i, _)| *i))
                    .filter_map(|i| match r.events.get(i) {
                        Some(Ev::Eval { l, r, .. }) => Some(max_err(&l.iter().zip(r).map(|(a, b)| a - b).collect::<V>())),
                        _ => None,
                    })
                    .collect();
                if v.viol.is_empty() && errs.windows(2).all(|w| w[1] <= w[0]) {
                    let mut c = cfg.clone();
                    c.damping = true;
                    let a = with(c);
                    rep.runs += 1;
                    rep.feat("damping without anything to damp");
                    if let Some(m) = diff_run(r, &a) {
                        return fail(rep, "damping activated while no step is worse".into(), m);
                    }
                }
            }
            if script.is_empty() {
                rep.sample(format!("{}: -> {:?}", cfg.id, r.outcome));
            }
        });
    });
    rep.bounds.push(format!(
        "{} configurations of 1 to 16 unknowns, scripts of at most {} deviations and stretches; every smaller budget (up to 12; 7 of them beyond), 2 + 3 tolerances around each of the 6 biggest errors met, 4 sets of limits just not reached, other perturbations, other stopping residuals, damping",
        cases.len(), if t { "2" } else { "1 (2 on some)" }
    ));
    rep
}
