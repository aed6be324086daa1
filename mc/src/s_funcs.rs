//! Exhaustive grids over the public building blocks, against independent formulas.

use crate::base::*;
use crate::cases::lims;
use crate::env::*;
use crate::explore::*;
use crate::monitor::limits_ok;
use crate::run::*;
use nalgebra::{DMatrix, DVector, Dyn};
use newton_rootfinder as nrf;
use nrf::errors::{SolverError, SolverInternalError};
use nrf::iteratives::*;
use nrf::model::{Model, ModelError};
use nrf::residuals::*;
use nrf::solver::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::AtomicBool;

const INF: f64 = f64::INFINITY;

fn dv(v: &[f64]) -> DVector<f64> {
    DVector::from_vec(v.to_vec())
}
fn dm(m: &Mx) -> DMatrix<f64> {
    DMatrix::from_fn(m.len(), m.len(), |i, j| m[i][j])
}
fn to_mx(m: &DMatrix<f64>) -> Mx {
    (0..m.nrows()).map(|i| (0..m.ncols()).map(|j| m[(i, j)]).collect()).collect()
}

fn hash(parts: &[f64]) -> u64 {
    let mut h = Hasher64::new();
    h.fs(parts);
    h.0
}

/// odometer over several alphabets
pub fn product_idx(sizes: &[usize], mut f: impl FnMut(&[usize])) {
    if sizes.iter().any(|s| *s == 0) {
        return;
    }
    let mut i = vec![0; sizes.len()];
    loop {
        f(&i);
        let mut k = 0;
        loop {
            if k == sizes.len() {
                return;
            }
            i[k] += 1;
            if i[k] < sizes[k] {
                break;
            }
            i[k] = 0;
            k += 1;
        }
    }
}

// ------------------------------------------------------------------ C07

fn lim_ok(l: &Lim, cur: f64, raw: f64, got: f64) -> Result<(), String> {
    if raw.is_nan() {
        // no direction is proposed
        if got.is_nan() {
            return Ok(());
        }
        return limits_ok(l, cur, got);
    }
    if got.is_nan() {
        return Err("the next value is NaN".into());
    }
    if got < l.min || got > l.max {
        return Err(format!("{} is outside the bounds", got));
    }
    let exp = l.apply(cur, raw);
    if got == exp {
        return Ok(());
    }
    let m = l.max_step(cur).min(raw.abs());
    let scale = cur.abs() + if m.is_finite() { m } else { 0.0 };
    if (got - exp).abs() <= 1e-14 * scale {
        return Ok(());
    }
    Err(format!("the next value is {} instead of {}", got, exp))
}

pub fn c07(thorough: bool) -> Report {
    let steps: &[f64] = &[1e-3, 0.25, 1.0, 7.0, 1e300, INF, f64::MIN_POSITIVE, 1e-12];
    let bounds: &[(f64, f64)] = &[
        (-INF, INF),
        (-1.0, 1.0),
        (0.0, 2.0),
        (-2.0, 0.0),
        (-0.0, 1.0),
        (0.5, INF),
        (-INF, -0.5),
        (1e-3, 1.1e-3),
        (-3.0, -2.5),
        (1.0, 3.0),
        (-1e-300, 1e-300),
        (-1e300, 1e308),
    ];
    let mut curs: V = vec![0.0, 1.0, 0.5, 2.0, 1e-300, 1e300, 1e-3, 3.7, 0.1, 2.75];
    let mut raws: V = vec![0.0, 1e-9, 1e-3, 0.1, 0.25, 0.5, 1.0, 1.5, 3.0, 1e3, 1e300, INF, f64::MIN_POSITIVE];
    for v in [&mut curs, &mut raws] {
        let neg: V = v.iter().map(|x| -x).collect();
        v.extend(neg);
    }
    raws.push(f64::NAN);
    // a bound, a limit, and the points around them
    let mut items = vec![];
    for a in steps {
        for r in steps {
            for b in bounds {
                items.push(Lim { abs: *a, rel: *r, min: b.0, max: b.1, dx_abs: 0.1, dx_rel: 0.2, sum: false, relax: 1.0, back: false });
            }
        }
    }
    let mut rep = parallel(&items, |l, rep, _| {
        let it = lib_it(l);
        let fd = lib_fd(l);
        let mut cs = curs.clone();
        for b in [l.min, l.max] {
            if b.is_finite() {
                cs.extend([b, b + 0.01, b - 0.01]);
            }
        }
        for cur in &cs {
            let mut rs = raws.clone();
            let m = l.max_step(*cur);
            if m.is_finite() && m > 0.0 {
                rs.extend([m, -m, m * 1.5, -m * 0.5]);
            }
            for raw in &rs {
                rep.evals += 2;
                rep.distinct.insert(hash(&[l.abs, l.rel, l.min, l.max, *cur, *raw]));
                for (kind, got) in [("limits", it.step_limitation(*cur, *raw)), ("fd limits", fd.step_limitation(*cur, *raw))] {
                    if let Err(m) = lim_ok(l, *cur, *raw, got) {
                        rep.viol("grid-limits", kind, &vec![], format!("{:?} at {} with the step {}: {}", l, cur, raw, m));
                    }
                }
            }
        }
    });
    // vectors: each unknown has its own parameters
    let menu: Vec<Lim> = vec![
        Lim { abs: 0.5, ..Lim::free(0.1, 0.2, false) },
        Lim { rel: 0.25, ..Lim::free(0.1, 0.2, true) },
        Lim { min: -1.0, max: 1.5, ..Lim::free(0.3, 0.2, false) },
        Lim { abs: 2.0, rel: 0.75, min: 0.25, ..Lim::free(0.1, 0.5, false) },
        Lim::free(0.2, 0.1, true),
    ];
    let vals = [0.75, -1.25, 3.0];
    let stp = [0.1, -1.0, 4.0];
    for n in 1..=(if thorough { 4 } else { 3 }) {
        let mut sizes = vec![menu.len(); n];
        sizes.extend(vec![vals.len(); n]);
        sizes.extend(vec![stp.len(); n]);
        let mut count = 0u64;
        product_idx(&sizes, |ix| {
            count += 1;
            if n == 4 && ix[2 * n] != ix[3 * n - 1] {
                // for four unknowns, the first and last steps are equal
                return;
            }
            let ls: Vec<Lim> = ix[..n].iter().map(|k| menu[*k]).collect();
            let x: V = ix[n..2 * n].iter().enumerate().map(|(i, k)| vals[*k] + 0.125 * i as f64).collect();
            let s: V = ix[2 * n..].iter().enumerate().map(|(i, k)| stp[*k] - 0.0625 * i as f64).collect();
            let its: Vec<IterativeParams> = ls.iter().map(lib_it).collect();
            let got = Iteratives::new(&its).step_limitations(&dv(&x), &dv(&s));
            rep.evals += 1;
            for i in 0..n {
                if let Err(m) = lim_ok(&ls[i], x[i], s[i], got[i]) {
                    rep.viol("grid-limits", "vector", &vec![], format!("unknown {} of {:?} {:?} {:?}: {}", i, ls, x, s, m));
                }
            }
            if got.len() != n {
                rep.viol("grid-limits", "vector", &vec![], format!("{} components for {} unknowns", got.len(), n));
            }
        });
    }
    // any number of unknowns, every position of an unknown that is not like the others
    let odd: Vec<(Lim, f64, f64)> = {
        let l = |abs: f64, rel: f64, min: f64, max: f64| Lim { abs, rel, min, max, ..Lim::free(0.1, 0.2, false) };
        let mut v = vec![];
        for r in [1e-11, 1e-3, 0.4, 30.0, 1e12, INF, f64::NAN] {
            for s in [1.0, -1.0] {
                v.push((l(INF, INF, -1.0, 0.5), 0.5, s * r));
                v.push((l(INF, INF, -1.0, 0.5), -1.0, s * r));
                v.push((l(INF, INF, -1.0, 0.5), 2.0, s * r));
                v.push((l(5e-12, INF, -INF, INF), -1.5, s * r));
                v.push((l(0.25, INF, -INF, INF), 0.0, s * r));
                v.push((l(INF, 1e-3, -INF, 1e3), 700.0, s * r));
                v.push((l(INF, INF, -INF, INF), 0.75, s * r));
                v.push((l(1e-9, 0.5, 1.0, 1.0 + 1e-9), 1.0, s * r));
            }
        }
        v
    };
    let usual = [
        (Lim { abs: 0.5, ..Lim::free(0.1, 0.2, false) }, 0.75, 2.0),
        (Lim::free(0.2, 0.1, true), 3.0, -1.0),
        (Lim { min: -1.0, max: 1.5, rel: 0.25, ..Lim::free(0.3, 0.2, false) }, -1.0, -0.125),
    ];
    let sizes: Vec<usize> = if thorough { (1..=66).collect() } else { (1..=24).chain([31, 32, 33, 40, 63, 64, 65, 66]).collect() };
    rep.merge(parallel(&sizes, |n, rep, _| {
        for u in &usual {
            for (k, o) in odd.iter().enumerate() {
                for at in 0..=*n {
                    // alone among others, or everywhere
                    let all: Vec<(Lim, f64, f64)> = (0..*n).map(|i| if i == at || at == *n { *o } else { *u }).collect();
                    let x: V = all.iter().map(|a| a.1).collect();
                    let s: V = all.iter().map(|a| a.2).collect();
                    let got = if k % 2 == 0 {
                        let its: Vec<IterativeParams> = all.iter().map(|a| lib_it(&a.0)).collect();
                        Iteratives::new(&its).step_limitations(&dv(&x), &dv(&s))
                    } else {
                        let its: Vec<IterativeParamsFD> = all.iter().map(|a| lib_fd(&a.0)).collect();
                        Iteratives::new(&its).step_limitations(&dv(&x), &dv(&s))
                    };
                    rep.evals += 1;
                    for i in 0..*n {
                        if let Err(m) = lim_ok(&all[i].0, x[i], s[i], got[i]) {
                            rep.viol("grid-limits", "long vector", &vec![], format!("unknown {} of {}, {:?} at {} with the step {}: {}", i, n, all[i].0, x[i], s[i], m));
                        }
                    }
                }
            }
        }
    }));
    rep.bounds.push(format!(
        "step limits: {} sizes of vectors up to 66 x every position x {} kinds of unknown",
        sizes.len(),
        odd.len()
    ));
    rep.bounds.push(format!("step limits: {} parameter sets x current values x proposed steps, and vectors of {} parameter sets", items.len(), menu.len()));
    rep
}

// ------------------------------------------------------------------ C09

pub fn c09_perturbations() -> Report {
    let mut rep = Report::default();
    let dxs = [1e-9, 0.01, 0.5, 3.0];
    let xs = [0.0, -0.0, 1.0, -1.0, 0.125, -50.0, 1e8, -1e-8];
    let wide_dx = [1e-300, 1e-30, 1e-9, 0.01, 0.5, 3.0, 1e7, 1e200];
    let wide_x = [0.0, -0.0, 1.0, -1.0, 0.125, -50.0, 1e8, -1e-8, 7e30, -1e-40, 1e100, -1e100, 1e-290];
    for a in wide_dx {
        for r in wide_dx {
            for sum in [false, true] {
                for x in wide_x {
                    let l = Lim::free(a, r, sum);
                    let p = lib_fd(&l);
                    let got = p.compute_perturbation(x);
                    let ext = IterativeParamsFD::extend(
                        IterativeParams::default(),
                        a,
                        r,
                        if sum { PerturbationMethod::Sum } else { PerturbationMethod::Max },
                    )
                    .compute_perturbation(x);
                    rep.evals += 2;
                    rep.distinct.insert(hash(&[a, r, x, sum as u8 as f64]));
                    for g in [got, ext] {
                        if !((g - l.pert(x)).abs() <= 1e-15 * l.pert(x)) {
                            rep.viol("grid-perturbations", "one", &vec![], format!("{:?} at {}: {} instead of {}", l, x, g, l.pert(x)));
                        }
                    }
                }
            }
        }
    }
    for n in 1..=3usize {
        let mut sizes = vec![4; n];
        sizes.extend(vec![xs.len(); n]);
        product_idx(&sizes, |ix| {
            let ls: Vec<Lim> = ix[..n].iter().enumerate().map(|(i, k)| Lim::free(dxs[*k], dxs[3 - k], (i + k) % 2 == 0)).collect();
            let x: V = ix[n..].iter().map(|k| xs[*k]).collect();
            let its: Vec<IterativeParamsFD> = ls.iter().map(lib_fd).collect();
            let got = Iteratives::new(&its).compute_perturbations(&dv(&x));
            rep.evals += 1;
            for i in 0..n {
                if !((got[i] - ls[i].pert(x[i])).abs() <= 1e-15 * got[i].abs()) {
                    rep.viol("grid-perturbations", "vector", &vec![], format!("unknown {} of {:?} at {:?}: {}", i, ls, x, got[i]));
                }
            }
        });
    }
    // any number of unknowns, every position
    let odd = [
        (Lim::free(0.5, 1e-3, false), 7.0),
        (Lim::free(1e-6, 0.25, true), -4000.0),
        (Lim::free(1e-3, 2.0, false), -0.0),
        (Lim::free(1e9, 2.0, true), 1e12),
        (Lim::free(1e-20, 1e-20, false), 1.0),
    ];
    let usual = (Lim::free(0.01, 0.02, false), 3.0);
    let sizes: Vec<usize> = (1..=24).chain([31, 32, 33, 40, 63, 64, 65, 66]).collect();
    for n in &sizes {
        for o in &odd {
            for at in 0..=*n {
                let all: Vec<(Lim, f64)> = (0..*n).map(|i| if i == at || at == *n { *o } else { usual }).collect();
                let its: Vec<IterativeParamsFD> = all.iter().map(|a| lib_fd(&a.0)).collect();
                let x: V = all.iter().map(|a| a.1).collect();
                let got = Iteratives::new(&its).compute_perturbations(&dv(&x));
                rep.evals += 1;
                for i in 0..*n {
                    let e = all[i].0.pert(x[i]);
                    if !((got[i] - e).abs() <= 1e-15 * e) {
                        rep.viol("grid-perturbations", "long vector", &vec![], format!("unknown {} of {}, {:?} at {}: {} instead of {}", i, n, all[i].0, x[i], got[i], e));
                    }
                }
            }
        }
    }
    rep.bounds.push(format!(
        "perturbations: {} x {} x 2 parameters x {} values, vectors of {} sizes up to 66 with every position",
        wide_dx.len(),
        wide_dx.len(),
        wide_x.len(),
        sizes.len()
    ));
    rep
}

struct FdCase {
    id: String,
    prob: usize,
    perts: Option<V>,
    lims: Vec<Lim>,
    upd: Vec<Nm>,
    hist: bool,
    depth: usize,
    alpha: Alphabet,
}

/// the finite-difference jacobian alone, under every script of answers of its columns
pub fn c09_jacobian(thorough: bool) -> Report {
    let mut cases = vec![];
    for prob in ["sq1", "cpl2", "aff2", "cpl3", "aff3", "big4", "big5"] {
        let p = problem(prob);
        let n = crate::env::prob(p).n;
        for (k, which) in ["free", "pert"].iter().enumerate() {
            for norms in ["abs", "mixA", "mixB"] {
                for explicit in [false, true] {
                    for hist in [false, true] {
                        cases.push(FdCase {
                            id: format!("{}/{}/{}/{}/{}", prob, which, norms, explicit, hist),
                            prob: p,
                            perts: if explicit { Some((0..n).map(|i| 0.03 + 0.05 * ((i + k) % 3) as f64).collect()) } else { None },
                            lims: lims(which, crate::env::prob(p).x0),
                            upd: crate::cases::norms(norms, n).1,
                            hist,
                            depth: if n <= 2 || thorough { 2 } else { 1 },
                            alpha: if n <= 3 { FULL } else { SMALL },
                        });
                    }
                }
            }
        }
    }
    // other perturbations: negative, lost in the rounding of one unknown, of very different sizes
    for prob in ["sq1", "cpl2", "atan2", "cpl3", "big4"] {
        let p = problem(prob);
        let n = crate::env::prob(p).n;
        let x0 = crate::env::prob(p).x0;
        for (k, norms) in ["abs", "mixA", "mixB", "mixC"].iter().enumerate() {
            for kind in 0..3 + n {
                let perts: V = (0..n)
                    .map(|i| match kind {
                        0 => -0.04 - 0.02 * i as f64,
                        1 => if i % 2 == 0 { 1e-7 } else { -0.5 },
                        2 => x0[i] * 2f64.powi(if i % 2 == 0 { 9 } else { -9 }),
                        m => if i == m - 3 { x0[i] * 1e-18 } else { 0.03 },
                    })
                    .collect();
                cases.push(FdCase {
                    id: format!("{}/{}/other{}/{}", prob, norms, kind, k),
                    prob: p,
                    perts: Some(perts),
                    lims: lims("free", x0),
                    upd: crate::cases::norms(norms, n).1,
                    hist: k % 2 == 1,
                    depth: if n <= 2 || thorough { 2 } else { 1 },
                    alpha: if n <= 3 { FULL } else { SMALL },
                });
            }
        }
    }
    // every number of unknowns
    for d in DIMS {
        for norms in ["abs", "mixA"] {
            for explicit in [false, true] {
                cases.push(FdCase {
                    id: format!("{}/{}/{}", d.name, norms, explicit),
                    prob: problem(d.name),
                    perts: if explicit { Some((0..d.n).map(|i| 0.03 + 0.05 * (i % 3) as f64).collect()) } else { None },
                    lims: lims("pert", d.x0),
                    upd: crate::cases::norms(norms, d.n).1,
                    hist: explicit,
                    depth: if d.n <= 16 || thorough { 1 } else { 0 },
                    alpha: SMALL,
                });
            }
        }
    }
    let mut rep = parallel(&cases, |c, rep, stop| fd_case(c, rep, stop));
    rep.bounds.push(format!("finite-difference jacobian alone: {} cases, at most 2 columns answered differently", cases.len()));
    rep
}

fn fd_case(c: &FdCase, rep: &mut Report, stop: &AtomicBool) {
    let n = prob(c.prob).n;
    let x0 = prob(c.prob).x0;
    let upd: Vec<NormalizationMethod> = c.upd.iter().map(|k| lib_nm(*k)).collect();
    let rc = ResidualsConfig::new(&upd, &upd);
    let params: Vec<IterativeParamsFD> = c.lims.iter().map(lib_fd).collect();
    let its = Iteratives::new(&params);
    let perts: V = match &c.perts {
        Some(p) => p.clone(),
        None => (0..n).map(|i| c.lims[i].pert(x0[i])).collect(),
    };
    let mut stack: Vec<Script> = vec![vec![]];
    while let Some(script) = stack.pop() {
        if stop.load(std::sync::atomic::Ordering::Relaxed) {
            return;
        }
        let mut env = Env::new(Dyn(n), prob(c.prob), false, 1e-3, c.alpha, script.clone(), 3 * n + 20);
        env.hist = c.hist;
        env.set_iteratives(&dv(x0));
        let _ = env.evaluate();
        let base = env.events.borrow().len();
        // 0: jacobian alone, 1: with the jacobian structure
        enum R {
            Mat(Mx, Option<Mx>),
            Err(Res, usize),
            Singular,
            Panic(String),
        }
        let res = catch_unwind(AssertUnwindSafe(|| match &c.perts {
            Some(p) => match compute_jacobian_from_finite_difference(&mut env, &dv(p), &rc) {
                Ok(m) => R::Mat(to_mx(&m), None),
                Err(ModelError::UnusableValuesError(EUnus(i))) => R::Err(Res::Unus, i),
                Err(ModelError::InaccurateValuesError(EInacc(i))) => R::Err(Res::Inacc, i),
            },
            None => {
                let mut jm = JacobianMatrix::new();
                match evaluate_jacobian_from_finite_difference(&mut jm, &mut env, &its, &rc) {
                    Ok(()) => R::Mat(
                        jm.get_jacobian().as_ref().map(to_mx).unwrap_or_default(),
                        Some(jm.get_inverse().as_ref().map(to_mx).unwrap_or_default()),
                    ),
                    Err(SolverInternalError::InvalidJacobianInverseError) => R::Singular,
                    Err(SolverInternalError::InvalidJacobianError(ModelError::UnusableValuesError(EUnus(i)))) => R::Err(Res::Unus, i),
                    Err(SolverInternalError::InvalidJacobianError(ModelError::InaccurateValuesError(EInacc(i)))) => R::Err(Res::Inacc, i),
                }
            }
        }))
        .unwrap_or_else(|_| R::Panic("panic".into()));
        rep.runs += 1;
        let events = env.events.borrow().clone();
        let points = env.points.len();
        let mut bad = |rep: &mut Report, m: String| {
            rep.viol("fd-jacobian", &c.id, &vec![], format!("{} (answers {:?})", m, script));
        };
        let (f0, m0) = match &events[base - 1] {
            Ev::Eval { l, r, id, mem, .. } => (
                (0..n).map(|i| norm(c.upd[i], l[i], r[i])).collect::<V>(),
                vec![*id as f64, mem[1] + 1.0],
            ),
            _ => unreachable!(),
        };
        let mut expected: Mx = vec![vec![f64::NAN; n]; n];
        let mut err: Mx = vec![vec![0.0; n]; n];
        let mut seen = vec![false; n];
        let mut failed: Option<usize> = None;
        let mut h = Hasher64::new();
        h.u(case_hash(&c.id));
        for e in &events[base..] {
            if let Ev::Eval { id, x, mem, l, r, res } = e {
                rep.transitions += 1;
                if failed.is_some() {
                    bad(rep, "goes on after an unusable column".into());
                    break;
                }
                if !same_v(mem, &m0) {
                    bad(rep, format!("a column starts from the memory {:?} instead of {:?}", mem, m0));
                }
                let mut ch: Vec<usize> = (0..n).filter(|i| x[*i] != x0[*i]).collect();
                if ch.is_empty() {
                    // a perturbation lost in the rounding of its unknown
                    ch = (0..n).filter(|i| x0[*i] + perts[*i] == x0[*i] && !seen[*i]).collect();
                }
                if ch.len() != 1 || seen[ch[0]] {
                    bad(rep, format!("column at {:?}, the point being {:?}", x, x0));
                    break;
                }
                let j = ch[0];
                seen[j] = true;
                if (x[j] - (x0[j] + perts[j])).abs() > if x0[j] + perts[j] == x0[j] { 0.0 } else { 1e-13 * (1.0 + x0[j].abs() + perts[j].abs()) } {
                    bad(rep, format!("unknown {} at {} instead of {} + {}", j, x[j], x0[j], perts[j]));
                }
                let f: V = (0..n).map(|i| norm(c.upd[i], l[i], r[i])).collect();
                h.u(j as u64);
                h.fs(&f);
                for i in 0..n {
                    expected[i][j] = (f[i] - f0[i]) / perts[j];
                    err[i][j] = 1e-13 * (f[i].abs() + f0[i].abs() + l[i].abs() + r[i].abs()) / perts[j].abs() + 1e-12 * expected[i][j].abs();
                }
                if *res == Res::Unus {
                    failed = Some(*id);
                }
            } else if let Ev::Jac { .. } = e {
                bad(rep, "the jacobian of the model is requested".into());
            }
        }
        rep.state(h.0);
        match (&res, failed) {
            (R::Panic(_), _) => bad(rep, "panic".into()),
            (R::Err(Res::Unus, i), Some(k)) if *i == k => {}
            (R::Err(r, i), f) => bad(rep, format!("error {:?} {} (unusable column: {:?})", r, i, f)),
            (_, Some(k)) => bad(rep, format!("the unusable column {} does not end the evaluation", k)),
            (R::Mat(m, inv), None) => {
                if !seen.iter().all(|s| *s) {
                    bad(rep, "a column is missing".into());
                } else if m.len() != n {
                    bad(rep, "no matrix".into());
                } else {
                    for i in 0..n {
                        for j in 0..n {
                            let (a, b) = (m[i][j], expected[i][j]);
                            if b.is_finite() && !((a - b).abs() <= err[i][j]) || b.is_nan() != a.is_nan() {
                                bad(rep, format!("entry ({}, {}) is {} instead of {}", i, j, a, b));
                            }
                        }
                    }
                    if let (Some(h), Some((_, k))) = (inv, good_inverse(&expected, 1e8)) {
                        let p = mat_mul(&expected, h);
                        for i in 0..n {
                            for j in 0..n {
                                let id = if i == j { 1.0 } else { 0.0 };
                                if !((p[i][j] - id).abs() <= 1e-11 * k.max(1.0)) {
                                    bad(rep, format!("the inverse does not match the jacobian at ({}, {})", i, j));
                                }
                            }
                        }
                    }
                }
                if !same_v(&env.get_memory().iter().cloned().collect::<V>(), &m0) {
                    bad(rep, "the memory of the current point is not given back after the last column".into());
                }
            }
            (R::Singular, None) => {
                if good_inverse(&expected, 1e8).is_some() {
                    bad(rep, format!("a regular jacobian is said singular: {:?}", expected));
                }
                rep.feat("singular");
            }
        }
        if script.len() < c.depth {
            let first = script.last().map(|(i, _)| i + 1).unwrap_or(1);
            for i in (first..points).rev() {
                for a in 1..c.alpha.e.len() {
                    let mut s = script.clone();
                    s.push((i, a as u8));
                    stack.push(s);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C10

pub fn reference_update(kind: u8, j: &Mx, h: &Mx, s: &[f64], y: &[f64], f: &[f64]) -> Option<(Mx, Mx)> {
    let n = s.len();
    let hy = mat_vec(h, y);
    let js = mat_vec(j, s);
    let c = match kind {
        0 => mat_vec(&transpose(h), s),
        1 => y.to_vec(),
        2 => f.to_vec(),
        _ => mat_vec(&transpose(h), &hy),
    };
    let cj = mat_vec(&transpose(j), &c);
    let dj = dot(&cj, s);
    let dh = dot(&c, y);
    let scale = norm2(&c) * norm2(y);
    let scale2 = norm2(&cj) * norm2(s);
    if dj.abs() < 1e-3 * scale2 || dh.abs() < 1e-3 * scale || scale == 0.0 || scale2 == 0.0 {
        return None;
    }
    let jn = (0..n).map(|a| (0..n).map(|b| j[a][b] - (js[a] - y[a]) * cj[b] / dj).collect()).collect();
    let hn = (0..n).map(|a| (0..n).map(|b| h[a][b] - (hy[a] - s[a]) * c[b] / dh).collect()).collect();
    Some((jn, hn))
}

fn close_m(a: &Mx, b: &Mx, tol: f64) -> bool {
    let s = 1.0 + mat_norm(b);
    a.len() == b.len() && a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| (x - y).abs() <= tol * s)
}

pub fn c10(thorough: bool) -> Report {
    // items: (matrix)
    let mut mats: Vec<Mx> = vec![];
    let e2: V = vec![-2.0, -1.0, 0.0, 1.0, 2.0];
    product_idx(&[5; 4], |ix| {
        mats.push(vec![vec![e2[ix[0]], e2[ix[1]]], vec![e2[ix[2]], e2[ix[3]]]]);
    });
    for a in [-3.0, -1.0, 0.5, 2.0] {
        mats.push(vec![vec![a]]);
    }
    let e3: V = if thorough { vec![-1.0, 0.0, 2.0] } else { vec![0.0, 1.0] };
    product_idx(&vec![e3.len(); 9], |ix| {
        mats.push((0..3).map(|i| (0..3).map(|j| e3[ix[3 * i + j]]).collect()).collect());
    });
    mats.retain(|m| good_inverse(m, 1e4).is_some());
    let umeth = [
        UpdateQuasiNewtonMethod::BroydenFirstMethod,
        UpdateQuasiNewtonMethod::BroydenSecondMethod,
        UpdateQuasiNewtonMethod::GreenstadtFirstMethod,
        UpdateQuasiNewtonMethod::GreenstadtSecondMethod,
    ];
    let mut rep = parallel(&mats, |j, rep, _| {
        let n = j.len();
        let h = inverse(j).unwrap();
        let mut vs: Vec<V> = vec![];
        if n == 3 {
            vs.extend([
                vec![1.0, 2.0, -1.0],
                vec![0.5, 0.0, -3.0],
                vec![-1.0, 1.0, 2.0],
                vec![0.0, 0.25, 0.0],
            ]);
        } else {
            product_idx(&vec![4; n], |ix| vs.push(ix.iter().map(|k| [-1.0, 0.0, 2.0, 0.5][*k]).collect()));
            vs.retain(|v| norm2(v) > 0.0);
        }
        let (dj, dh) = (dm(j), dm(&h));
        for s in &vs {
            for y in &vs {
                let fs: Vec<V> = vec![vs[0].clone(), vs[vs.len() - 1].clone(), y.iter().map(|v| -0.5 * v).collect()];
                for kind in 0..4u8 {
                    for (k, f) in fs.iter().enumerate() {
                        if kind != 2 && k > 0 {
                            continue;
                        }
                        let (jn, hn) = match reference_update(kind, j, &h, s, y, f) {
                            Some(x) => x,
                            None => {
                                rep.feat("degenerate");
                                continue;
                            }
                        };
                        rep.evals += 1;
                        let mut hh = Hasher64::new();
                        for r in j.iter().chain(&jn) {
                            hh.fs(r)
                        }
                        hh.u(kind as u64);
                        rep.distinct.insert(hh.0);
                        let (ds, dy, df) = (dv(s), dv(y), dv(f));
                        let what = |m: &str| format!("method {} J={:?} s={:?} y={:?} f={:?}: {}", kind, j, s, y, f, m);
                        // the formulas
                        let hy = mat_vec(&h, y);
                        let c = match kind {
                            0 => mat_vec(&transpose(&h), s),
                            1 => y.clone(),
                            2 => f.clone(),
                            _ => mat_vec(&transpose(&h), &hy),
                        };
                        let mut forms: Vec<(&str, Mx, &Mx)> = vec![
                            ("quasi_method_update_jac", to_mx(&quasi_method_update_jac(&dj, &ds, &dy, &dv(&c))), &jn),
                            ("quasi_method_update_inv_jac", to_mx(&quasi_method_update_inv_jac(&dh, &ds, &dy, &dv(&c))), &hn),
                        ];
                        match kind {
                            0 => {
                                forms.push(("broyden first jac", to_mx(&broyden_first_method_udpate_jac(&dj, &ds, &dy)), &jn));
                                forms.push(("broyden first inverse", to_mx(&broyden_first_method_udpate_inv_jac(&dh, &ds, &dy)), &hn));
                            }
                            1 => {
                                forms.push(("broyden second jac", to_mx(&broyden_second_method_udpate_jac(&dj, &ds, &dy)), &jn));
                                forms.push(("broyden second inverse", to_mx(&broyden_second_method_udpate_inv_jac(&dh, &ds, &dy)), &hn));
                            }
                            3 => {
                                forms.push(("greenstadt second jac", to_mx(&greenstadt_second_method_udpate_jac(&dj, &ds, &dy, &dv(&hy))), &jn));
                            }
                            _ => {}
                        }
                        // through the jacobian of the solver
                        let mut jm = JacobianMatrix::new();
                        let mut ji = JacobianMatrix::new();
                        if jm.update_jacobian_with_exact_value(dj.clone()).is_err() || ji.update_jacobian_with_exact_value(dj.clone()).is_err() {
                            rep.viol("formulas", "inverse", &vec![], what("a regular matrix is said singular"));
                            continue;
                        }
                        let sing = approximate_jacobian(&mut jm, umeth[kind as usize], &ds, &dy, &df).is_err();
                        approximate_inv_jacobian(&mut ji, umeth[kind as usize], &ds, &dy, &df);
                        let good = good_inverse(&jn, 1e5);
                        if sing {
                            if good.is_some() {
                                rep.viol("formulas", "approximate_jacobian", &vec![], what("a regular update is said singular"));
                            }
                            rep.feat("singular-update");
                        } else {
                            let a = jm.get_jacobian().as_ref().map(to_mx).unwrap_or_default();
                            forms.push(("approximate_jacobian", a, &jn));
                        }
                        forms.push(("approximate_inv_jacobian", ji.get_inverse().as_ref().map(to_mx).unwrap_or_default(), &hn));
                        for (name, got, exp) in &forms {
                            if !close_m(got, exp, 1e-9) {
                                rep.viol("formulas", name, &vec![], what(&format!("{} gives {:?} instead of {:?}", name, got, exp)));
                            }
                        }
                        // secant equations, and both forms are inverse of each other
                        let sec = mat_vec(&forms[0].1, s);
                        if !(0..n).all(|i| (sec[i] - y[i]).abs() <= 1e-8 * (1.0 + mat_norm(&jn)) * (1.0 + norm2(s))) {
                            rep.viol("formulas", "secant", &vec![], what(&format!("J's = {:?}", sec)));
                        }
                        let sec = mat_vec(&forms[1].1, y);
                        if !(0..n).all(|i| (sec[i] - s[i]).abs() <= 1e-8 * (1.0 + mat_norm(&hn)) * (1.0 + norm2(y))) {
                            rep.viol("formulas", "secant-inverse", &vec![], what(&format!("H'y = {:?}", sec)));
                        }
                        if let (Some((_, k)), false) = (good, sing) {
                            let inv = jm.get_inverse().as_ref().map(to_mx).unwrap_or_default();
                            let ih = ji.get_inverse().as_ref().map(to_mx).unwrap_or_default();
                            if !close_m(&inv, &ih, 1e-9 * k) {
                                rep.viol("formulas", "forms", &vec![], what(&format!("the inverse of the jacobian form {:?} is not the inverse form {:?}", inv, ih)));
                            }
                        }
                    }
                }
            }
        }
    });
    rep.bounds.push(format!("update formulas: {} small matrices x all pairs of small vectors, 4 methods, both forms", mats.len()));
    rep.sample("J=[[1,2],[-1,0.5]] s=[2,0.5] y=[-1,2]: formulas, secant equations, inverse of each other".into());
    rep
}

// ------------------------------------------------------------------ C08

struct Affine {
    a: Mx,
    b: Mx,
    ca: V,
    cb: V,
    analytic: bool,
    x: V,
    calls: usize,
}
impl Model<Dyn> for Affine {
    type InaccurateValuesError = EInacc;
    type UnusableValuesError = EUnus;
    fn len_problem(&self) -> usize {
        self.x.len()
    }
    fn set_iteratives(&mut self, v: &DVector<f64>) {
        self.x = v.iter().cloned().collect()
    }
    fn get_iteratives(&self) -> DVector<f64> {
        dv(&self.x)
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, Dyn>> {
        self.calls += 1;
        Ok(())
    }
    fn get_residuals(&self) -> ResidualsValues<Dyn> {
        let add = |m: &Mx, c: &V| -> V { mat_vec(m, &self.x).iter().zip(c).map(|(p, q)| p + q).collect() };
        ResidualsValues::new(dv(&add(&self.a, &self.ca)), dv(&add(&self.b, &self.cb)))
    }
    fn jacobian_provided(&self) -> bool {
        self.analytic
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<Dyn>, ModelError<Self, Dyn>> {
        Ok(JacobianValues::new(dm(&self.a), dm(&self.b)))
    }
}

pub fn c08_affine(thorough: bool) -> Report {
    let mut mats: Vec<Mx> = vec![];
    let e2: V = if thorough { vec![-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.0] } else { vec![-2.0, -1.0, 0.0, 1.0, 2.0] };
    product_idx(&vec![e2.len(); 4], |ix| mats.push(vec![vec![e2[ix[0]], e2[ix[1]]], vec![e2[ix[2]], e2[ix[3]]]]));
    for a in [-3.0, 0.25, 2.0, 0.0] {
        mats.push(vec![vec![a]]);
    }
    let e3: V = if thorough { vec![-1.0, 0.0, 2.0] } else { vec![0.0, 1.0] };
    product_idx(&vec![e3.len(); 9], |ix| {
        mats.push((0..3).map(|i| (0..3).map(|j| e3[ix[3 * i + j]]).collect()).collect());
    });
    let x0s: [V; 3] = [vec![0.0, 0.0, 0.0], vec![1.5, -2.0, 0.5], vec![-3.0, 4.0, 100.0]];
    let mut rep = parallel(&mats, |m, rep, _| {
        let n = m.len();
        // the left member carries a part, the right member the other
        for (ib, bk) in [0.0, 1.0, -0.5].iter().enumerate() {
            let b: Mx = (0..n).map(|i| (0..n).map(|j| bk * (1.0 + i as f64 - j as f64)).collect()).collect();
            let a: Mx = (0..n).map(|i| (0..n).map(|j| m[i][j] + b[i][j]).collect()).collect();
            for (ix, x0) in x0s.iter().enumerate() {
                let x0 = &x0[..n];
                let ca: V = (0..n).map(|i| 1.0 - i as f64).collect();
                let cb: V = (0..n).map(|i| 2.0 + 0.5 * i as f64).collect();
                let good = good_inverse(m, 1e4);
                let singular = surely_singular(m) && *bk == 0.0;
                if good.is_none() && !singular {
                    rep.feat("not judged");
                    continue;
                }
                let sol: V = good
                    .as_ref()
                    .map(|(h, _)| mat_vec(h, &(0..n).map(|i| cb[i] - ca[i]).collect::<V>()))
                    .unwrap_or_default();
                let k = good.as_ref().map(|g| g.1).unwrap_or(1.0);
                for (im, meth) in METHS.iter().enumerate() {
                    for analytic in [true, false] {
                        for damping in [false, true] {
                            if damping && (im + ix + ib) % 2 == 1 && !thorough {
                                continue;
                            }
                            let mut model = Affine { a: a.clone(), b: b.clone(), ca: ca.clone(), cb: cb.clone(), analytic, x: vec![0.0; n], calls: 0 };
                            let its: Vec<IterativeParamsFD> = (0..n).map(|i| lib_fd(&Lim::free(0.25 * (1.0 + i as f64), 0.125, i % 2 == 0))).collect();
                            let its = Iteratives::new(&its);
                            let ab = vec![NormalizationMethod::Abs; n];
                            let rc = ResidualsConfig::new(&ab, &ab);
                            let sp = SolverParameters::new(n, 1e-7, 1, lib_meth(*meth), damping);
                            let mut rf = RootFinder::new(sp, dv(x0), &its, &rc);
                            let r = catch_unwind(AssertUnwindSafe(|| rf.solve(&mut model).map_err(|e| {
                                (matches!(e, SolverError::JacobianError(SolverInternalError::InvalidJacobianInverseError)), format!("{:?}", e))
                            })));
                            rep.runs += 1;
                            rep.transitions += model.calls as u64;
                            rep.state(hash(&m.concat()) ^ hash(x0) ^ (im as u64 * 4 + analytic as u64 * 2 + damping as u64) ^ ((ib as u64) << 40));
                            let what = |t: &str| {
                                format!("{}: A={:?} B={:?} from {:?} by {} analytic={} damping={}", t, a, b, x0, METH_NAMES[im], analytic, damping)
                            };
                            let x = &model.x;
                            if singular {
                                rep.feat("singular");
                                // the initial guess may be the solution already: not with these constants
                                let ok = matches!(&r, Ok(Err((true, _))));
                                let already = {
                                    let f = mat_vec(m, x0);
                                    (0..n).all(|i| (f[i] + ca[i] - cb[i]).abs() <= 1e-7)
                                };
                                if !ok && !already {
                                    rep.viol("affine", "singular", &vec![], what(&format!("singular system ends with {:?}", r)));
                                }
                                continue;
                            }
                            let tol = 1e-11 * k * (1.0 + inf_norm(&sol) + inf_norm(x0));
                            let ok = matches!(&r, Ok(Ok(()))) && (0..n).all(|i| (x[i] - sol[i]).abs() <= tol);
                            if !ok {
                                rep.viol("affine", "regular", &vec![], what(&format!("{:?} at {:?} instead of {:?} after one iteration", r, x, sol)));
                            }
                        }
                    }
                }
            }
        }
    });
    rep.bounds.push(format!("affine systems: {} integer matrices split over both members x 3 initial guesses x 10 methods x both jacobian kinds, one iteration", mats.len()));
    rep
}

// ------------------------------------------------------------------ C13

fn ok_close(got: f64, exp: f64, tol: f64) -> bool {
    same(got, exp) || (got - exp).abs() <= tol
}

pub fn c13_grids(thorough: bool) -> Report {
    let mut vals: V = vec![0.0, 1.0, 0.5, 3.0, 2.5, 1e-8, 1e6, 1e-3, 0.9999999, 7.0, 1e-30, 1e30];
    if thorough {
        vals.extend([1.0000001, 123.456, 1e-140, 1e140, 0.1, 0.3, 17.0, 1e3, 1e-5, 2.0, 4.0, 1e12]);
    }
    let neg: V = vals.iter().map(|v| -v).collect();
    vals.extend(neg);
    let ders = [0.0, 1.0, -1.0, 0.5, -3.0, 1e3, -1e-3];
    let mut rep = parallel(&vals.clone(), |l, rep, _| {
        for r in &vals {
            for k in NMS {
                let got = normalization(*l, *r, lib_nm(k));
                let exp = norm(k, *l, *r);
                rep.evals += 1;
                rep.distinct.insert(hash(&[*l, *r, k as u8 as f64]));
                // the difference itself is exact up to one rounding
                if !ok_close(got, exp, 4e-15 * exp.abs()) && !(exp.is_infinite() && got.is_infinite() && got.signum() == exp.signum()) {
                    rep.viol("grid-residuals", "value", &vec![], format!("{:?}({}, {}) = {} instead of {}", k, l, r, got, exp));
                }
                for dl in ders {
                    for dr in ders {
                        if let Some(exp) = dnorm(k, *l, *r, dl, dr) {
                            let t = dnorm_terms(k, *l, *r, dl, dr);
                            if !t.is_finite() || !exp.is_finite() {
                                continue;
                            }
                            let got = deriv_normalization(*l, *r, dl, dr, lib_nm(k));
                            rep.evals += 1;
                            if !ok_close(got, exp, 1e-14 * t) {
                                rep.viol("grid-residuals", "derivative", &vec![], format!("{:?}'({}, {}; {}, {}) = {} instead of {}", k, l, r, dl, dr, got, exp));
                            }
                            // the reference itself, against the difference quotient
                            let s = (l + r).abs();
                            let h = 1e-5 * (s / (1.0 + dl.abs() + dr.abs())).min(1.0);
                            if s > 1e-3 && s < 1e4 {
                                let q = (norm(k, l + h * dl, r + h * dr) - norm(k, l - h * dl, r - h * dr)) / (2.0 * h);
                                if (q - exp).abs() > 1e-4 * (1.0 + t) {
                                    rep.errors.push(format!("reference derivative {:?} ({}, {}, {}, {})", k, l, r, dl, dr));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // any number of equations, one of which is normalized in its own way
    let long: Vec<usize> = (4..=if thorough { 130 } else { 40 }).chain([63, 64, 65, 66]).collect();
    rep.merge(parallel(&long, |n, rep, _| {
        let n = *n;
        let l: V = (0..n).map(|i| 1.5 + 0.37 * i as f64 - if i % 3 == 1 { 7.0 } else { 0.0 }).collect();
        let r: V = (0..n).map(|i| 0.25 - 0.61 * i as f64 + if i % 4 == 2 { 9.0 } else { 0.0 }).collect();
        let jl: Mx = (0..n).map(|i| (0..n).map(|j| 0.5 + i as f64 - 0.75 * j as f64 + l[j]).collect()).collect();
        let jr: Mx = (0..n).map(|i| (0..n).map(|j| -1.0 + 0.3 * i as f64 + 2.0 * j as f64 - r[i]).collect()).collect();
        let v = ResidualsValues::new(dv(&l), dv(&r));
        let jac = JacobianValues::new(dm(&jl), dm(&jr));
        for base in 0..3 {
            for other in 1..3 {
                for k in 0..n {
                    let kind = |i: usize| NMS[if i == k { (base + other) % 3 } else { base }];
                    let lk: Vec<_> = (0..n).map(|i| lib_nm(kind(i))).collect();
                    let lo: Vec<_> = (0..n).map(|i| lib_nm(NMS[(base + i) % 3])).collect();
                    rep.evals += 1;
                    let s = ResidualsConfig::new(&lk, &lo).evaluate_stopping_residuals(&v);
                    let u = ResidualsConfig::new(&lo, &lk).evaluate_update_residuals(&v);
                    for i in 0..n {
                        let e = norm(kind(i), l[i], r[i]);
                        if !ok_close(s[i], e.abs(), 1e-14 * e.abs()) {
                            rep.viol("grid-residuals", "long-stopping", &vec![], format!("equation {} of {} ({:?}): {} instead of {}", i, n, kind(i), s[i], e.abs()));
                        }
                        if !ok_close(u[i], e, 1e-14 * e.abs()) {
                            rep.viol("grid-residuals", "long-update", &vec![], format!("equation {} of {} ({:?}): {} instead of {}", i, n, kind(i), u[i], e));
                        }
                    }
                    // by the jacobian too
                    let j = jac.normalize(&v, &lk);
                    for a in 0..n {
                        for b in 0..n {
                            if let Some(e) = dnorm(kind(a), l[a], r[a], jl[a][b], jr[a][b]) {
                                let t = dnorm_terms(kind(a), l[a], r[a], jl[a][b], jr[a][b]);
                                if !ok_close(j[(a, b)], e, 1e-13 * t) {
                                    rep.viol("grid-residuals", "long-jacobian", &vec![], format!("entry ({}, {}) of {} ({:?}): {} instead of {}", a, b, n, kind(a), j[(a, b)], e));
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }));
    // each equation its own methods
    let lv = [1.5, -2.0, 0.25, 3.0, -0.5];
    let rv = [0.5, 1.25, -4.0, 3.0, 2.0];
    for n in 1..=3usize {
        let mut sizes = vec![9; n];
        sizes.extend(vec![lv.len(); n]);
        sizes.extend(vec![rv.len(); n]);
        product_idx(&sizes, |ix| {
            let stop: Vec<Nm> = ix[..n].iter().map(|k| NMS[k % 3]).collect();
            let upd: Vec<Nm> = ix[..n].iter().map(|k| NMS[k / 3]).collect();
            let l: V = ix[n..2 * n].iter().map(|k| lv[*k]).collect();
            let r: V = ix[2 * n..].iter().map(|k| rv[*k]).collect();
            if n == 3 && !thorough && (ix[3] + ix[6]) % 4 != 0 {
                return;
            }
            let (ls, lu): (Vec<_>, Vec<_>) = (stop.iter().map(|k| lib_nm(*k)).collect(), upd.iter().map(|k| lib_nm(*k)).collect());
            let rc = ResidualsConfig::new(&ls, &lu);
            let v = ResidualsValues::new(dv(&l), dv(&r));
            let s = rc.evaluate_stopping_residuals(&v);
            let u = rc.evaluate_update_residuals(&v);
            rep.evals += 1;
            for i in 0..n {
                let es = norm(stop[i], l[i], r[i]).abs();
                let eu = norm(upd[i], l[i], r[i]);
                if !ok_close(s[i], es, 1e-14 * es.abs()) {
                    rep.viol("grid-residuals", "stopping", &vec![], format!("equation {} of {:?}: {} instead of {}", i, stop, s[i], es));
                }
                if !ok_close(u[i], eu, 1e-14 * eu.abs()) {
                    rep.viol("grid-residuals", "update", &vec![], format!("equation {} of {:?}: {} instead of {}", i, upd, u[i], eu));
                }
                if v.get_values(i) != (l[i], r[i]) {
                    rep.viol("grid-residuals", "values", &vec![], format!("get_values({}) = {:?}", i, v.get_values(i)));
                }
            }
            // jacobian of the update residuals, derivatives all different
            let jl: Mx = (0..n).map(|i| (0..n).map(|j| 0.5 + 1.0 * i as f64 - 0.75 * j as f64 + l[j]).collect()).collect();
            let jr: Mx = (0..n).map(|i| (0..n).map(|j| -1.0 + 0.3 * i as f64 + 2.0 * j as f64 - r[i]).collect()).collect();
            let j = JacobianValues::new(dm(&jl), dm(&jr)).normalize(&v, &lu);
            for a in 0..n {
                for b in 0..n {
                    if let Some(e) = dnorm(upd[a], l[a], r[a], jl[a][b], jr[a][b]) {
                        let t = dnorm_terms(upd[a], l[a], r[a], jl[a][b], jr[a][b]);
                        if !ok_close(j[(a, b)], e, 1e-13 * t) {
                            rep.viol("grid-residuals", "jacobian", &vec![], format!("entry ({}, {}) for {:?}: {} instead of {}", a, b, upd, j[(a, b)], e));
                        }
                    }
                }
            }
        });
    }
    rep.bounds.push(format!("residuals: {} signed members squared x 49 derivative pairs x 3 normalizations; all assignments of methods to at most 3 equations", vals.len()));
    rep
}

// ------------------------------------------------------------------ C15

fn accepts<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn c15(thorough: bool) -> Report {
    let nan = f64::NAN;
    let steps = [nan, -INF, -1.0, -0.0, 0.0, f64::MIN_POSITIVE, 1.0, 2.5, INF, -f64::MIN_POSITIVE];
    let bnds = [nan, -INF, -1.0, -0.0, 0.0, 1.0, 1.0 + f64::EPSILON, INF, 1e-300, -2.0];
    let dxs = [nan, -INF, -1.0, -0.0, 0.0, 1e-8, 1.0, INF];
    let mut items = vec![];
    for a in steps {
        for r in steps {
            items.push((a, r));
        }
    }
    let mut rep = parallel(&items, |(a, r), rep, _| {
        let pos = |v: f64| v > 0.0;
        for mi in bnds {
            for ma in bnds {
                let valid = pos(*a) && pos(*r) && mi < ma;
                let got = accepts(|| IterativeParams::new(*a, *r, mi, ma));
                rep.evals += 1;
                rep.distinct.insert(hash(&[*a, *r, mi, ma]));
                let what = format!("limits abs={} rel={} min={} max={}", a, r, mi, ma);
                match &got {
                    Some(p) => {
                        if !valid {
                            rep.viol("constructors", "limits", &vec![], format!("{} accepted", what));
                        } else if p.get_max_step_abs() != *a || p.get_max_step_rel() != *r || p.get_min_value() != mi || p.get_max_value() != ma {
                            rep.viol("constructors", "limits", &vec![], format!("{} exposes {:?}", what, p));
                        }
                    }
                    None => {
                        if valid {
                            rep.viol("constructors", "limits", &vec![], format!("{} refused", what));
                        }
                    }
                }
                // finite differences
                for da in dxs {
                    for dr in dxs {
                        // the full product only where it can matter
                        if !thorough && !valid && !(pos(da) && pos(dr)) {
                            continue;
                        }
                        for sum in [false, true] {
                            let m = if sum { PerturbationMethod::Sum } else { PerturbationMethod::Max };
                            let v2 = valid && pos(da) && pos(dr);
                            let what = format!("{} dx_abs={} dx_rel={}", what, da, dr);
                            let built = [
                                accepts(|| IterativeParamsFD::new(*a, *r, mi, ma, da, dr, m)),
                                match &got {
                                    Some(p) => {
                                        let p = p.clone();
                                        accepts(|| IterativeParamsFD::extend(p, da, dr, m))
                                    }
                                    None => None,
                                },
                            ];
                            for (k, b) in built.iter().enumerate() {
                                rep.evals += 1;
                                let name = ["new", "extend"][k];
                                match b {
                                    Some(p) => {
                                        if !v2 {
                                            rep.viol("constructors", "fd", &vec![], format!("{} {} accepted", name, what));
                                            continue;
                                        }
                                        let i = p.get_iterative_params();
                                        if p.get_max_step_abs() != *a
                                            || p.get_max_step_rel() != *r
                                            || p.get_min_value() != mi
                                            || p.get_max_value() != ma
                                            || p.get_dx_abs() != da
                                            || p.get_dx_rel() != dr
                                            || p.get_perturbation_method() != m
                                            || i.get_max_step_abs() != *a
                                            || i.get_max_step_rel() != *r
                                            || i.get_min_value() != mi
                                            || i.get_max_value() != ma
                                        {
                                            rep.viol("constructors", "fd", &vec![], format!("{} {} exposes {:?}", name, what, p));
                                        }
                                        if !p.with_finite_diff() || i.with_finite_diff() {
                                            rep.viol("constructors", "fd", &vec![], format!("with_finite_diff of {}", what));
                                        }
                                    }
                                    None => {
                                        if v2 {
                                            rep.viol("constructors", "fd", &vec![], format!("{} {} refused", name, what));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // dimensions of a solver
    let x = 5usize;
    product_idx(&[x, x, x, x], |ix| {
        let (n, nx, ni, nr) = (ix[0], ix[1], ix[2], ix[3]);
        let valid = n == nx && n == ni && n == nr;
        for fd in [false, true] {
            for default_guess in [false, true] {
                if default_guess && n != 0 {
                    continue;
                }
                rep.evals += 1;
                let ok = accepts(|| {
                    let ab = vec![NormalizationMethod::Abs; nr];
                    let rc = ResidualsConfig::new(&ab, &ab);
                    let x0 = dv(&vec![1.0; nx]);
                    if fd {
                        let p = default_vec_iteratives_fd(ni);
                        let its = Iteratives::new(&p);
                        if default_guess {
                            let _ = default_with_guess(x0, &its, &rc, lib_meth(METHS[0]), false);
                        } else {
                            let _ = RootFinder::new(SolverParameters::new(n, 1e-6, 10, lib_meth(METHS[0]), false), x0, &its, &rc);
                        }
                    } else {
                        let p = default_vec_iteratives(ni);
                        let its = Iteratives::new(&p);
                        if default_guess {
                            let _ = default_with_guess(x0, &its, &rc, lib_meth(METHS[0]), false);
                        } else {
                            let _ = RootFinder::new(SolverParameters::new(n, 1e-6, 10, lib_meth(METHS[0]), false), x0, &its, &rc);
                        }
                    }
                })
                .is_some();
                let valid = if default_guess { nx == ni && nx == nr } else { valid };
                if ok != valid {
                    rep.viol(
                        "constructors",
                        "dimensions",
                        &vec![],
                        format!("solver of size {} with {} initial values, {} limits and {} residuals: accepted={} (default_with_guess={})", n, nx, ni, nr, ok, default_guess),
                    );
                }
            }
        }
    });
    for a in 0..6usize {
        for b in 0..6usize {
            rep.evals += 2;
            let ok = accepts(|| {
                let (p, q) = (vec![NormalizationMethod::Rel; a], vec![NormalizationMethod::Adapt; b]);
                let l = ResidualsConfig::new(&p, &q).len();
                assert_eq!(l, a);
            })
            .is_some();
            if ok != (a == b) {
                rep.viol("constructors", "residuals", &vec![], format!("{} stopping and {} update methods: accepted={}", a, b, ok));
            }
            let ok = accepts(|| {
                let l = ResidualsValues::new(dv(&vec![1.0; a]), dv(&vec![2.0; b])).len();
                assert_eq!(l, a);
            })
            .is_some();
            if ok != (a == b) {
                rep.viol("constructors", "values", &vec![], format!("{} left and {} right members: accepted={}", a, b, ok));
            }
        }
    }
    product_idx(&[4, 4, 4, 4], |ix| {
        let (a, b, c, d) = (ix[0] + 1, ix[1] + 1, ix[2] + 1, ix[3] + 1);
        rep.evals += 1;
        let ok = accepts(|| JacobianValues::new(DMatrix::from_element(a, b, 1.0), DMatrix::from_element(c, d, 2.0))).is_some();
        if ok != (a == b && b == c && c == d) {
            rep.viol("constructors", "jacobian", &vec![], format!("jacobians {}x{} and {}x{}: accepted={}", a, b, c, d, ok));
        }
    });
    // what was given is what is exposed
    for n in [1usize, 2, 17] {
        for tol in [0.0, 1e-12, 1e-3, 2.0] {
            for mi in [0usize, 1, 50, 100000] {
                for m in METHS {
                    for d in [false, true] {
                        let p = SolverParameters::new(n, tol, mi, lib_meth(m), d);
                        rep.evals += 1;
                        if p.get_problem_size() != n
                            || p.get_tolerance() != tol
                            || p.get_max_iter() != mi
                            || p.get_resolution_method() != lib_meth(m)
                            || p.get_damping() != d
                        {
                            rep.viol("constructors", "parameters", &vec![], format!("{:?}", p));
                        }
                    }
                }
            }
        }
    }
    for n in 1..=3usize {
        product_idx(&vec![9; n], |ix| {
            let stop: Vec<_> = ix.iter().map(|k| lib_nm(NMS[k % 3])).collect();
            let upd: Vec<_> = ix.iter().map(|k| lib_nm(NMS[k / 3])).collect();
            let rc = ResidualsConfig::new(&stop, &upd);
            let v: Vec<ResidualConfig> = (0..n).map(|i| ResidualConfig::new(stop[i], upd[i])).collect();
            let (s2, u2) = ResidualsConfig::convert_into_vecs(v.clone());
            rep.evals += 1;
            let one = (0..n).all(|i| v[i].get_stopping_criteria() == stop[i] && v[i].get_update_method() == upd[i]);
            if rc.get_stopping_criterias() != &stop[..] || rc.get_update_methods() != &upd[..] || s2 != stop || u2 != upd || !one {
                rep.viol("constructors", "residual methods", &vec![], format!("stop {:?} update {:?}", stop, upd));
            }
        });
    }
    rep.bounds.push("limits: 10x10 step limits x 10x10 bounds x 8x8 perturbations x 2 methods; dimensions 0..4 of the 4 parts of a solver".into());
    rep.sample("IterativeParamsFD::new(abs=1, rel=inf, min=-0, max=0, ..) is refused: bounds not strictly ordered".into());
    rep
}
