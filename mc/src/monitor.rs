//! Reference machine of a resolution.
//!
//! It consumes the calls the real solver made on the model, knows at each point which
//! continuations the properties allow, and reports every deviation under the property it breaks.
//! Values are compared three-valued: where rounding or an ill-conditioned matrix leaves the
//! correct answer open, every continuation that some correct implementation could choose is accepted.

use crate::base::*;
use crate::env::*;
use crate::run::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tri {
    Yes,
    No,
    Maybe,
}

#[derive(Default, Clone, Debug)]
pub struct Verdict {
    pub viol: Vec<(&'static str, String)>,
    pub states: Vec<u64>,
    pub complete: bool,
    /// features this trace went through, for the coverage report
    pub feats: Vec<&'static str>,
    /// points accepted by the iteration (indices of the evaluations in the events)
    pub accepted: Vec<usize>,
    /// (evaluation index, kind): 0 initial 1 full step 2 damped 3 column
    pub kinds: Vec<(usize, u8)>,
    /// evaluations after which the step was refused (jacobian to be recomputed)
    pub refused: Vec<usize>,
    pub iterations: usize,
    pub ambiguous: bool,
    /// some decision was left open: damping could go either way
    pub unsure: bool,
    /// sum of the bounds of the relative rounding errors of the matrices used, infinite when unknown
    pub err: f64,
    /// biggest condition number met
    pub cond: f64,
    /// some comparison (with the tolerance, or of two errors) is within the rounding
    pub tie: bool,
}

struct E<'a> {
    idx: usize,
    ev: &'a Ev,
    gm: bool,
}

struct Point {
    x: V,
    l: V,
    r: V,
    f: V,
    maxe: f64,
    /// all stopping residuals are computed exactly as the library does
    exact: bool,
    valid: bool,
    mem_after: V,
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    same(a, b) || (a - b).abs() <= tol
}

pub fn point_of(cfg: &Cfg, ev: &Ev, next_mem: &V) -> (V, f64, bool) {
    if let Ev::Eval { l, r, .. } = ev {
        let _ = next_mem;
        let e: V = (0..cfg.n()).map(|i| norm(cfg.stop[i], l[i], r[i]).abs()).collect();
        let f: V = (0..cfg.n()).map(|i| norm(cfg.upd[i], l[i], r[i])).collect();
        (f, max_err(&e), cfg.stop.iter().all(|k| *k == Nm::Abs))
    } else {
        unreachable!()
    }
}

fn mk_point(cfg: &Cfg, ev: &Ev) -> Point {
    if let Ev::Eval { id, x, mem, l, r, res } = ev {
        let (f, maxe, exact) = point_of(cfg, ev, mem);
        Point {
            x: x.clone(),
            l: l.clone(),
            r: r.clone(),
            f,
            maxe,
            exact,
            valid: *res == Res::Ok,
            mem_after: vec![*id as f64, mem.get(1).copied().unwrap_or(0.0) + 1.0],
        }
    } else {
        unreachable!()
    }
}

const SLACK: f64 = 1e-11;

/// is `e <= tol`
fn within(e: f64, tol: f64, exact: bool) -> Tri {
    if e.is_nan() {
        return Tri::No;
    }
    if tol.is_infinite() {
        return if tol > 0.0 { Tri::Yes } else { Tri::No };
    }
    if !exact && (e - tol).abs() <= SLACK * (e.abs() + tol.abs()) + 1e-300 {
        return Tri::Maybe;
    }
    if e <= tol {
        Tri::Yes
    } else {
        Tri::No
    }
}

/// is `b` an increase over `a`
fn increase(a: &Point, b: &Point) -> Tri {
    let (x, y) = (a.maxe, b.maxe);
    // what is not a number is not an increase, neither is infinity over infinity
    if x.is_nan() || y.is_nan() || (x.is_infinite() && y.is_infinite()) {
        return Tri::No;
    }
    let tie = (0..a.l.len()).all(|i| {
        (a.l[i] == b.l[i] && a.r[i] == b.r[i]) || (a.l[i] == b.r[i] && a.r[i] == b.l[i])
    });
    if tie {
        // the same members, exchanged or not: equal for every order of the operations
        return Tri::No;
    }
    if !(a.exact && b.exact) && (x - y).abs() <= SLACK * (x.abs() + y.abs()) + 1e-300 {
        return Tri::Maybe;
    }
    if y > x {
        Tri::Yes
    } else {
        Tri::No
    }
}

struct Known {
    j: Mx,
    h: Mx,
    k: f64,
    /// bounds of the relative rounding errors of any correct implementation on j and h
    rj: f64,
    rh: f64,
    /// updated matrix (not an evaluated jacobian)
    approx: bool,
    /// the same matrix (its inverse for the inverse methods) computed with other roundings
    smp: Vec<Mx>,
}

/// roundings of the samples: deterministic, uniform in [-1, 1]
struct Rounding(u64);
impl Rounding {
    fn next(&mut self) -> f64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) as f64 / (1u64 << 52) as f64 - 1.0
    }
    fn abs(&mut self, v: &[f64], err: &[f64]) -> V {
        v.iter().zip(err).map(|(x, e)| x + e * self.next()).collect()
    }
    /// a computed vector whose terms are as big as `big`
    fn rel(&mut self, v: V, big: f64) -> V {
        v.iter().map(|x| x + EPS * (x.abs() + big) * self.next()).collect()
    }
    fn mx(&mut self, m: &Mx, err: f64) -> Mx {
        let e = err * mat_norm(m);
        m.iter().map(|r| r.iter().map(|x| x + e * self.next()).collect()).collect()
    }
}
const SAMPLES: usize = 4;

/// relative spread of the samples, with a margin
fn spread(m: &Mx, smp: &[Mx]) -> f64 {
    let n = m.len();
    let mut d = 0f64;
    for s in smp {
        for i in 0..n {
            for j in 0..n {
                let e = (s[i][j] - m[i][j]).abs();
                if e.is_nan() {
                    return f64::INFINITY;
                }
                d = d.max(e)
            }
        }
    }
    10.0 * n as f64 * d / mat_norm(m) + 20.0 * EPS
}

/// above this relative uncertainty the matrix is not used to judge a step
const MAX_REL: f64 = 1e-8;
const EPS: f64 = 4e-16;

enum Mat {
    Known(Known),
    /// certainly not invertible
    Singular,
    Unknown,
}

impl Mat {
    fn from_j(j: Mx, rj: f64, approx: bool, exact: bool) -> Mat {
        if !approx && exact && surely_singular(&j) {
            return Mat::Singular;
        }
        let mj = mat_norm(&j);
        if !(1e-60..1e60).contains(&mj) {
            return Mat::Unknown;
        }
        match good_inverse(&j, 1e9) {
            Some((h, k)) if k * (rj + 8.0 * EPS) < MAX_REL => Mat::Known(Known {
                j,
                h,
                k,
                rj,
                rh: k * (rj + 8.0 * EPS),
                approx,
                smp: vec![],
            }),
            _ => Mat::Unknown,
        }
    }
    fn with(self, smp: Vec<Mx>) -> Mat {
        match self {
            Mat::Known(k) => Mat::Known(Known { smp, ..k }),
            o => o,
        }
    }
    fn from_h(h: Mx, rh: f64) -> Mat {
        let mh = mat_norm(&h);
        if !(1e-60..1e60).contains(&mh) {
            return Mat::Unknown;
        }
        match good_inverse(&h, 1e9) {
            Some((j, k)) if rh < MAX_REL && k * rh < 1e-2 => Mat::Known(Known {
                j,
                h,
                k,
                rj: k * (rh + 8.0 * EPS),
                rh,
                approx: true,
                smp: vec![],
            }),
            _ => Mat::Unknown,
        }
    }
}

/// next matrix by the selected formula
fn update(m: &Mat, meth: Meth, s: &[f64], y: &[f64], fnext: &[f64]) -> Mat {
    let n = s.len();
    let k = match m {
        Mat::Known(k) => k,
        _ => return Mat::Unknown,
    };
    if !s.iter().chain(y).chain(fnext).all(|v| v.is_finite()) {
        return Mat::Unknown;
    }
    let big = inf_norm(s).max(inf_norm(y)).max(inf_norm(fnext));
    // products of smaller values are not in the normal range any more: their order matters
    if big > 1e60 || inf_norm(s) < 1e-100 || inf_norm(y) < 1e-100 {
        return Mat::Unknown;
    }
    // y is the difference of two residuals, each known up to a few ulp
    let fcur: V = (0..n).map(|i| fnext[i] - y[i]).collect();
    let ry = EPS * 4.0 * (norm2(fnext) + norm2(&fcur)) / norm2(y);
    if !(ry < MAX_REL) || norm2(s) == 0.0 {
        return Mat::Unknown;
    }
    // the roundings of any implementation
    let ef: V = fnext.iter().map(|f| EPS * 4.0 * f.abs()).collect();
    let ey: V = (0..n).map(|i| EPS * 4.0 * (fnext[i].abs() + fcur[i].abs())).collect();
    let mut rnd = Rounding({
        let mut h = Hasher64::new();
        s.iter().chain(y).for_each(|v| h.u(v.to_bits()));
        h.0 | 1
    });
    let hy = mat_vec(&k.h, y);
    let kind = match meth {
        Meth::Jac(q) | Meth::Inv(q) => q,
        _ => unreachable!(),
    };
    let c: V = match kind {
        0 => mat_vec(&transpose(&k.h), s),
        1 => y.to_vec(),
        2 => fnext.to_vec(),
        _ => mat_vec(&transpose(&k.h), &hy),
    };
    match meth {
        Meth::Inv(_) => {
            let den = dot(&c, y);
            let amp = norm2(&c) * norm2(y) / den.abs();
            if !(amp < 1e7) || den.abs() < 1e-200 {
                return Mat::Unknown;
            }
            let h: Mx = (0..n)
                .map(|i| (0..n).map(|j| k.h[i][j] - (hy[i] - s[i]) * c[j] / den).collect())
                .collect();
            let mh = mat_norm(&k.h);
            // relative error of the correction: c, den and hy each carry the errors of h and y
            let rc = k.rh * mh * norm2(s).max(mh * norm2(y)) * (if kind == 0 || kind == 3 { 1.0 } else { 0.0 })
                / norm2(&c).max(1e-300);
            let corr = amp * (mh + norm2(s) / norm2(y));
            let err = mh * k.rh * (1.0 + amp) + corr * (amp * (ry + rc + 4.0 * EPS) + ry + rc + 4.0 * EPS);
            let bound = 4.0 * err / mat_norm(&h).max(1e-300);
            let smp: Vec<Mx> = (0..SAMPLES)
                .map(|q| {
                    let g = &mut rnd;
                    let hq = if k.smp.is_empty() { g.mx(&k.h, k.rh) } else { k.smp[q].clone() };
                    let (y, f) = (g.abs(y, &ey), g.abs(fnext, &ef));
                    let hn = mat_norm(&hq);
                    let hy = g.rel(mat_vec(&hq, &y), hn * inf_norm(&y));
                    let c = match kind {
                        0 => g.rel(mat_vec(&transpose(&hq), s), hn * inf_norm(s)),
                        1 => y.clone(),
                        2 => f,
                        _ => g.rel(mat_vec(&transpose(&hq), &hy), hn * inf_norm(&hy)),
                    };
                    let den = dot(&c, &y) + EPS * norm2(&c) * norm2(&y) * g.next();
                    let h: Mx = (0..n)
                        .map(|i| (0..n).map(|j| hq[i][j] - (hy[i] - s[i]) * c[j] / den).collect())
                        .collect();
                    g.mx(&h, EPS * (1.0 + corr / mat_norm(&h)))
                })
                .collect();
            let est = spread(&h, &smp);
            Mat::from_h(h, if bound < 1e-10 { bound } else { bound.min(est) }).with(smp)
        }
        _ => {
            let js = mat_vec(&k.j, s);
            let cj = mat_vec(&transpose(&k.j), &c);
            let den = dot(&cj, s);
            let amp = norm2(&cj) * norm2(s) / den.abs();
            if !(amp < 1e7) || den.abs() < 1e-200 {
                return Mat::Unknown;
            }
            let jn: Mx = (0..n)
                .map(|i| (0..n).map(|j| k.j[i][j] - (js[i] - y[i]) * cj[j] / den).collect())
                .collect();
            let mj = mat_norm(&k.j);
            let mh = mat_norm(&k.h);
            let rc = match kind {
                0 => 0.0, // c' J = s
                1 | 2 => (k.rj + ry) * mj * norm2(&c) / norm2(&cj).max(1e-300),
                _ => (k.rh + ry) * mh * norm2(y) / norm2(&cj).max(1e-300), // c' J = H y
            };
            let corr = amp * (mj + norm2(y) / norm2(s));
            let err = mj * k.rj * (1.0 + amp) + corr * (amp * (rc + k.rj + 4.0 * EPS) + ry + rc + 4.0 * EPS);
            let bound = 4.0 * err / mat_norm(&jn).max(1e-300);
            let smp: Vec<Mx> = (0..SAMPLES)
                .map(|q| {
                    let g = &mut rnd;
                    let jq = if k.smp.is_empty() { g.mx(&k.j, k.rj) } else { k.smp[q].clone() };
                    let (y, f) = (g.abs(y, &ey), g.abs(fnext, &ef));
                    let jm = mat_norm(&jq);
                    let js = g.rel(mat_vec(&jq, s), jm * inf_norm(s));
                    // (c' J)': s for Broyden's first method, H y for Greenstadt's second one
                    let cj = match kind {
                        0 => s.to_vec(),
                        1 => g.rel(mat_vec(&transpose(&jq), &y), jm * inf_norm(&y)),
                        2 => g.rel(mat_vec(&transpose(&jq), &f), jm * inf_norm(&f)),
                        _ => {
                            let h = match good_inverse(&jq, 1e9) {
                                Some((h, k)) => g.mx(&h, 8.0 * EPS * k),
                                None => return vec![vec![f64::NAN; n]; n],
                            };
                            g.rel(mat_vec(&h, &y), mat_norm(&h) * inf_norm(&y))
                        }
                    };
                    let den = dot(&cj, s) + EPS * norm2(&cj) * norm2(s) * g.next();
                    let j: Mx = (0..n)
                        .map(|i| (0..n).map(|c| jq[i][c] - (js[i] - y[i]) * cj[c] / den).collect())
                        .collect();
                    g.mx(&j, EPS * (1.0 + corr / mat_norm(&j)))
                })
                .collect();
            let est = spread(&jn, &smp);
            Mat::from_j(jn, if bound < 1e-10 { bound } else { bound.min(est) }, true, false).with(smp)
        }
    }
}

/// jacobian of the residuals and its relative rounding error
fn jac_of(cfg: &Cfg, kinds: &[Nm], l: &[f64], r: &[f64], jl: &Mx, jr: &Mx) -> Option<(Mx, f64)> {
    let n = cfg.n();
    let mut m = vec![vec![0.0; n]; n];
    let mut err = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..n {
            m[i][j] = dnorm(kinds[i], l[i], r[i], jl[i][j], jr[i][j])?;
            err[i][j] = EPS * dnorm_terms(kinds[i], l[i], r[i], jl[i][j], jr[i][j]);
        }
    }
    let rel = 4.0 * mat_norm(&err) / mat_norm(&m);
    Some((m, if rel.is_nan() { 1.0 } else { rel }))
}

/// a null row or column of the jacobian is null for every order of the operations
fn exact_jac(cfg: &Cfg, jl: &Mx, jr: &Mx) -> bool {
    let n = cfg.n();
    if cfg.upd.iter().all(|k| *k == Nm::Abs) {
        return true;
    }
    let null = |i: usize, j: usize| jl[i][j] == 0.0 && jr[i][j] == 0.0;
    (0..n).any(|k| (0..n).all(|j| null(k, j)) || (0..n).all(|i| null(i, k)))
}

pub fn limits_ok(lim: &Lim, cur: f64, next: f64) -> Result<(), String> {
    if !cur.is_finite() || next.is_nan() {
        return Ok(());
    }
    if next < lim.min || next > lim.max {
        return Err(format!("{} outside [{}, {}]", next, lim.min, lim.max));
    }
    let m = lim.max_step(cur);
    let moved = (next - cur).abs();
    let slack = 1e-12 * (m.abs() + cur.abs()) + 1e-300;
    if m.is_finite() && moved > m + slack {
        // only a bound can explain a longer move, when the current value is outside the bounds
        let outside = cur < lim.min || cur > lim.max;
        if !(outside && (next == lim.min || next == lim.max)) {
            return Err(format!(
                "moved by {} from {} while the limit is {}",
                moved, cur, m
            ));
        }
    }
    Ok(())
}

pub fn monitor(cfg: &Cfg, run: &Run) -> Verdict {
    let mut v = Verdict::default();
    direct(cfg, run, &mut v);
    parse(cfg, run, &mut v);
    v.ambiguous = false;
    if run.outcome == Outcome::Runaway {
        push(&mut v, "C05", "the resolution does not end within its budget".into());
    }
    v
}

fn push(v: &mut Verdict, p: &'static str, msg: String) {
    if v.ambiguous {
        return;
    }
    if !v.viol.iter().any(|(q, _)| *q == p) {
        v.viol.push((p, msg));
    }
}

/// checks that need no understanding of the trace
fn direct(cfg: &Cfg, run: &Run, v: &mut Verdict) {
    let last = run.events.iter().rev().find(|e| matches!(e, Ev::Eval { .. }));
    match &run.outcome {
        Outcome::Panic(m) => {
            push(v, "C04", format!("the resolution panicked: {}", m));
            push(v, "C03", format!("panic instead of an outcome: {}", m));
        }
        Outcome::Ok => {
            match last {
                Some(Ev::Eval { res, x, .. }) => {
                    if *res != Res::Ok {
                        push(v, "C01", format!("success after an evaluation that ended with {:?}", res));
                    }
                    if !same_v(x, &run.final_x) {
                        push(
                            v,
                            "C01",
                            format!("success, but the model holds {:?} and was last evaluated at {:?}", run.final_x, x),
                        );
                    }
                }
                _ => push(v, "C01", "success without any evaluation".into()),
            }
            let (l, r) = &run.final_lr;
            for i in 0..cfg.n() {
                let e = norm(cfg.stop[i], l[i], r[i]).abs();
                if within(e, cfg.tol, cfg.stop[i] == Nm::Abs) == Tri::No {
                    push(
                        v,
                        "C01",
                        format!("success with the stopping residual {} of equation {} (tolerance {})", e, i, cfg.tol),
                    );
                }
            }
        }
        _ => {}
    }
    if matches!(run.outcome, Outcome::Ok | Outcome::NonConv | Outcome::Final) {
        if run.dirty {
            push(
                v,
                "C02",
                format!("{}: the model was changed after its last evaluation (it holds {:?})", run.outcome.kind(), run.final_x),
            );
        }
        if let Some(Ev::Eval { x, .. }) = last {
            if !same_v(x, &run.final_x) {
                push(
                    v,
                    "C02",
                    format!("{}: last evaluated at {:?} but holding {:?}", run.outcome.kind(), x, run.final_x),
                );
            }
        }
    }
    if let Some(m) = &run.misuse {
        push(v, "C23", m.clone());
    }
    let ne = run.events.iter().filter(|e| matches!(e, Ev::Eval { .. })).count();
    let nj = run.events.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
    let per = 1 + if cfg.damping { 1 } else { 0 } + if cfg.fd { cfg.n() } else { 0 };
    if ne > 1 + cfg.max_iter * per {
        push(v, "C05", format!("{} evaluations for a budget of {} iterations", ne, cfg.max_iter));
    }
    if nj > cfg.max_iter {
        push(v, "C05", format!("{} jacobians for a budget of {} iterations", nj, cfg.max_iter));
    }
    // the messages carry the error of the model
    let text = |id: usize, r: Res| match r {
        Res::Inacc => format!("{}", EInacc(id)),
        _ => format!("{}", EUnus(id)),
    };
    match &run.outcome {
        Outcome::ModelEval(r, id) | Outcome::JacErr(r, id) => {
            let t = text(*id, *r);
            if !run.display.contains(&t) {
                push(v, "C03", format!("the displayed error {:?} does not carry {:?}", run.display, t));
            }
        }
        Outcome::Init(s) => {
            if !run.display.contains(s.as_str()) {
                push(v, "C03", format!("the displayed error {:?} does not carry {:?}", run.display, s));
            }
        }
        _ => {}
    }
}

fn parse(cfg: &Cfg, run: &Run, v: &mut Verdict) {
    let n = cfg.n();
    let meth = cfg.method();
    let mut evs: Vec<E> = Vec::with_capacity(run.events.len());
    let mut gm = false;
    for (idx, ev) in run.events.iter().enumerate() {
        match ev {
            Ev::GetMem => gm = true,
            Ev::Set(_) | Ev::SetMem(_) => {}
            _ => {
                evs.push(E { idx, ev, gm });
                gm = false;
            }
        }
    }
    let crashed = matches!(run.outcome, Outcome::Panic(_) | Outcome::Runaway | Outcome::Crash);
    let mut pos = 0;

    // ---- initial evaluation
    let e0 = match evs.get(0) {
        Some(E { ev: ev @ Ev::Eval { x, .. }, .. }) => {
            if !same_v(x, &cfg.x0) {
                push(v, "C02", format!("the initial evaluation is made at {:?} instead of {:?}", x, cfg.x0));
                push(v, "C05", format!("the resolution does not start at its initial guess {:?}", cfg.x0));
                return;
            }
            ev
        }
        Some(_) => {
            push(v, "C05", "jacobian requested before the initial evaluation".into());
            return;
        }
        None => {
            if !crashed {
                push(v, "C03", format!("{} without any evaluation", run.outcome.kind()));
            }
            return;
        }
    };
    pos += 1;
    v.kinds.push((evs[0].idx, 0));
    let mut cur = mk_point(cfg, e0);
    if let Ev::Eval { id, res: Res::Unus, .. } = e0 {
        v.feats.push("unusable-initial");
        if pos < evs.len() {
            push(v, "C03", "the resolution goes on after an unusable initial evaluation".into());
            return;
        }
        if crashed {
            return;
        }
        match &run.outcome {
            Outcome::Init(m) if m.contains(&format!("{}", EUnus(*id))) => v.complete = true,
            Outcome::Init(m) => push(v, "C03", format!("initial error without the error of the model: {}", m)),
            o => push(v, "C03", format!("unusable initial evaluation ends with {}", o.kind())),
        }
        return;
    }
    v.accepted.push(evs[0].idx);

    let mut iter = 0usize;
    let mut mat = Mat::Unknown;
    let mut have_mat = false;
    // last matrix used, to recognise a jacobian that was not evaluated
    let mut need_jac = Tri::Yes;
    let mut last_s: V = vec![];
    let mut last_y: V = vec![];
    let mut prev_x: Option<V> = None; // previous accepted point
    let mut last_damped = false;

    loop {
        // ---- state of the reference machine
        let mut h = Hasher64::new();
        h.fs(&cur.x);
        h.fs(&cur.f);
        h.f(cur.maxe);
        h.u(iter as u64);
        h.u(cur.valid as u64 + 2 * (need_jac as u64) + 8 * have_mat as u64);
        if let Mat::Known(k) = &mat {
            for r in &k.h {
                h.fs(r);
            }
        }
        h.fs(&last_s);
        h.fs(&last_y);
        v.states.push(h.0);

        let conv = within(cur.maxe, cfg.tol, cur.exact);
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-8 * (a.abs() + b.abs()) + 1e-12;
        v.tie |= near(cur.maxe, cfg.tol);
        let more = pos < evs.len();
        let budget = iter < cfg.max_iter;
        v.iterations = iter;

        if conv == Tri::Yes && more {
            push(
                v,
                "C05",
                format!("work is done after the convergence reached at iteration {} (error {})", iter, cur.maxe),
            );
            if let Some(name) = stop_hypothesis(cfg, &cur, false) {
                push(
                    v,
                    "C13",
                    format!("the resolution goes on from an error {} within the tolerance: this is the decision of {}", cur.maxe, name),
                );
            }
            return;
        }
        if !budget && more {
            push(v, "C05", format!("work is done after the {} iterations of the budget", cfg.max_iter));
            // a trailing evaluation leaves the model elsewhere
            if matches!(run.outcome, Outcome::Ok | Outcome::NonConv | Outcome::Final) && !same_v(&run.final_x, &cur.x) {
                push(v, "C02", "the model is left on another point than the last accepted one".into());
            }
            return;
        }
        if !more && !crashed {
            // a singular matrix ends the resolution without any call when the update is approximated
            let upd_form = matches!(meth, Meth::Jac(_)) && have_mat && need_jac != Tri::Yes;
            if run.outcome == Outcome::JacInv && conv != Tri::Yes && budget && upd_form {
                v.err = f64::INFINITY;
                match update(&mat, meth, &last_s, &last_y, &cur.f) {
                    Mat::Known(k) if k.k < 1e5 => {
                        let m = format!("singular jacobian reported while its update is invertible (condition {:.1})", k.k);
                        push(v, "C10", m.clone());
                        push(v, "C03", m);
                    }
                    _ => {
                        v.feats.push("singular-update");
                        v.complete = true;
                    }
                }
                return;
            }
            v.complete = true;
            end_at_point(cfg, run, v, &cur, conv, budget, iter);
            return;
        }
        if !more {
            return;
        }

        // ---- one iteration
        iter += 1;
        let expect = match meth {
            Meth::Nr => Tri::Yes,
            Meth::Sn => {
                if iter == 1 {
                    Tri::Yes
                } else {
                    Tri::No
                }
            }
            _ => need_jac,
        };
        let next = &evs[pos];
        let perts: V = (0..n).map(|j| cfg.lims[j].pert(cur.x[j])).collect();
        let degenerate = (0..n).any(|j| !cur.x[j].is_finite() || cur.x[j] + perts[j] == cur.x[j]);
        // coordinate changed by a column
        let column = |x: &V| -> Option<usize> {
            let ch: Vec<usize> = (0..n).filter(|j| !same(x[*j], cur.x[*j])).collect();
            if ch.len() == 1 {
                Some(ch[0])
            } else {
                None
            }
        };
        let pert_ok = |x: &V, j: usize| close(x[j], cur.x[j] + perts[j], 1e-13 * (cur.x[j].abs() + perts[j].abs()));

        // prediction of the step without a new jacobian
        let upd_mat = if have_mat && !matches!(meth, Meth::Nr) && expect != Tri::Yes {
            match (meth, &mat) {
                (Meth::Sn, Mat::Known(k)) => Mat::Known(Known {
                    j: k.j.clone(),
                    h: k.h.clone(),
                    k: k.k,
                    rj: k.rj,
                    rh: k.rh,
                    approx: false,
                    smp: vec![],
                }),
                (Meth::Sn, _) => Mat::Unknown,
                _ => update(&mat, meth, &last_s, &last_y, &cur.f),
            }
        } else {
            Mat::Unknown
        };
        let (next_x, next_is_jac) = match next.ev {
            Ev::Eval { x, .. } => (x.clone(), false),
            Ev::Jac { x, .. } => (x.clone(), true),
            _ => unreachable!(),
        };
        let steps_with = |m: &Mat| -> Option<bool> {
            match m {
                Mat::Known(k) => step_matches(cfg, &cur, k, &next_x).map(|b| b.is_none()),
                _ => None,
            }
        };
        let is_mid = |x: &V| -> bool {
            match &prev_x {
                Some(p) => {
                    (0..n).all(|i| {
                        let m = 0.5 * p[i] + 0.5 * cur.x[i];
                        m.is_finite() && (x[i] - m).abs() <= 1e-12 * (p[i].abs() + cur.x[i].abs())
                    }) && !same_v(x, &cur.x)
                }
                _ => false,
            }
        };

        let observed = if cfg.fd {
            !next_is_jac
                && (next.gm
                    || (!degenerate
                        && column(&next_x).map_or(false, |j| pert_ok(&next_x, j))
                        && (expect == Tri::Yes || steps_with(&upd_mat) == Some(false)))
                    || (degenerate && expect == Tri::Yes))
        } else {
            next_is_jac
        };
        if cfg.fd && next_is_jac {
            push(v, "C11", "the model does not provide its jacobian, which is requested".into());
            return;
        }

        if expect == Tri::No && observed {
            push(v, "C11", format!("jacobian evaluated at iteration {} where the method does not call for it", iter));
        }
        if expect == Tri::Yes && !observed {
            // something else than a jacobian comes first
            if is_mid(&next_x) {
                push(v, "C12", format!("iteration {}: the accepted step is halved although it must not be", iter - 1));
                if last_damped {
                    push(v, "C05", format!("iteration {}: two damped evaluations", iter - 1));
                }
                return;
            }
            let old = if have_mat { steps_with(&mat) } else { None };
            let upd = if have_mat && matches!(meth, Meth::Jac(_) | Meth::Inv(_)) {
                steps_with(&update(&mat, meth, &last_s, &last_y, &cur.f))
            } else {
                None
            };
            if !cfg.fd || old == Some(true) || upd == Some(true) {
                push(v, "C11", format!("the jacobian is not evaluated at iteration {}", iter));
            } else {
                push(
                    v,
                    "C09",
                    format!("iteration {}: column expected at {:?} + one of {:?}, evaluated at {:?}", iter, cur.x, perts, next_x),
                );
            }
            return;
        }

        let mut cols: Vec<(usize, V)> = vec![]; // (coordinate, residuals)
        if observed && !cfg.fd {
            v.feats.push("jac");
            let (jx, dirty, jl, jr, res, id) = match next.ev {
                Ev::Jac { x, dirty, jl, jr, res, id, .. } => (x, *dirty, jl, jr, *res, *id),
                _ => unreachable!(),
            };
            pos += 1;
            if dirty || !same_v(jx, &cur.x) {
                push(v, "C08", format!("the jacobian is requested at {:?} instead of the current point {:?}", jx, cur.x));
                return;
            }
            if res != Res::Ok {
                v.feats.push("jac-error");
                if pos < evs.len() {
                    push(v, "C03", "the resolution goes on after a failing jacobian".into());
                    return;
                }
                if crashed {
                    return;
                }
                match &run.outcome {
                    Outcome::JacErr(r, i) if *r == res && *i == id => v.complete = true,
                    o => push(v, "C03", format!("failing user jacobian ({:?}) ends with {:?}", res, o)),
                }
                return;
            }
            if let Some(E { ev: Ev::Jac { .. }, .. }) = evs.get(pos) {
                push(v, "C05", "two jacobians in one iteration".into());
                push(v, "C11", "two jacobians in one iteration".into());
                return;
            }
            mat = match jac_of(cfg, &cfg.upd, &cur.l, &cur.r, jl, jr) {
                Some((j, rj)) => Mat::from_j(j, rj, false, exact_jac(cfg, jl, jr)),
                None => Mat::Unknown,
            };
            have_mat = true;
        } else if observed {
            v.feats.push("fd-jac");
            let mut seen = vec![false; n];
            for _ in 0..n {
                let e = match evs.get(pos) {
                    Some(e) => e,
                    None => {
                        if crashed {
                            return;
                        }
                        push(v, "C03", format!("{} in the middle of a finite-difference jacobian", run.outcome.kind()));
                        return;
                    }
                };
                let (x, mem, l, r, res, id) = match e.ev {
                    Ev::Eval { x, mem, l, r, res, id } => (x, mem, l, r, *res, *id),
                    _ => {
                        push(v, "C11", "jacobian requested in a finite-difference jacobian".into());
                        return;
                    }
                };
                if !degenerate {
                    match column(x) {
                        None => {
                            push(
                                v,
                                "C09",
                                format!("column evaluated at {:?}, the current point being {:?}", x, cur.x),
                            );
                            return;
                        }
                        Some(j) => {
                            if seen[j] {
                                push(v, "C09", format!("unknown {} perturbed twice in one jacobian", j));
                                return;
                            }
                            seen[j] = true;
                            if !pert_ok(x, j) {
                                push(
                                    v,
                                    "C09",
                                    format!("unknown {} perturbed by {} instead of {}", j, x[j] - cur.x[j], perts[j]),
                                );
                            }
                            let f: V = (0..n).map(|i| norm(cfg.upd[i], l[i], r[i])).collect();
                            let dx = x[j] - cur.x[j];
                            let _ = dx;
                            cols.push((j, f));
                        }
                    }
                }
                if !same_v(mem, &cur.mem_after) {
                    push(
                        v,
                        "C09",
                        format!("the memory {:?} of a column is not the one of the current point {:?}", mem, cur.mem_after),
                    );
                }
                v.kinds.push((e.idx, 3));
                pos += 1;
                match res {
                    Res::Unus => {
                        v.feats.push("unusable-column");
                        if pos < evs.len() {
                            push(v, "C03", "the resolution goes on after an unusable column".into());
                            push(v, "C09", "the resolution goes on after an unusable column".into());
                            return;
                        }
                        if crashed {
                            return;
                        }
                        match &run.outcome {
                            Outcome::JacErr(Res::Unus, i) if *i == id => v.complete = true,
                            o => {
                                push(v, "C03", format!("unusable column ends with {:?}", o));
                                push(v, "C09", format!("unusable column ends with {:?}", o));
                            }
                        }
                        return;
                    }
                    Res::Inacc => {
                        v.feats.push("inaccurate-column");
                        if pos == evs.len() {
                            if let Outcome::JacErr(Res::Inacc, _) = run.outcome {
                                push(v, "C03", "an inaccurate column ends the resolution".into());
                                push(v, "C09", "an inaccurate column ends the resolution".into());
                                return;
                            }
                        }
                    }
                    Res::Ok => {}
                }
            }
            if degenerate {
                mat = Mat::Unknown;
            } else {
                let mut j = vec![vec![0.0; n]; n];
                for (c, f) in &cols {
                    for i in 0..n {
                        j[i][*c] = (f[i] - cur.f[i]) / perts[*c];
                    }
                }
                // cancellation: the reference matrix is trusted only when the differences are significant
                let fm = cols.iter().map(|(_, f)| inf_norm(f)).fold(inf_norm(&cur.f), f64::max);
                let dmin = perts.iter().map(|p| p.abs()).fold(f64::INFINITY, f64::min);
                let rj = 4.0 * EPS * fm / dmin / mat_norm(&j);
                let exact = cfg.upd.iter().all(|k| *k == Nm::Abs);
                mat = Mat::from_j(j, if rj.is_nan() { 1.0 } else { rj }, false, exact);
            }
            have_mat = true;
        } else {
            v.feats.push("no-jac");
            mat = upd_mat;
        }

        // ---- end during the jacobian phase
        if pos == evs.len() {
            if !matches!(mat, Mat::Singular) {
                v.err = f64::INFINITY;
            }
            if crashed {
                return;
            }
            match &run.outcome {
                Outcome::JacInv => match &mat {
                    Mat::Known(k) if k.k < 1e5 => {
                        let m = format!("singular jacobian reported for an invertible one (condition {:.1})", k.k);
                        // no step at all where the linearized equations have one solution
                        push(v, if k.approx { "C10" } else { "C08" }, m.clone());
                        push(v, "C03", m);
                    }
                    _ => {
                        v.feats.push("singular");
                        v.complete = true;
                    }
                },
                o => {
                    push(v, "C03", format!("{} right after a jacobian evaluation", o.kind()));
                    if matches!(o, Outcome::NonConv | Outcome::Final) {
                        push(v, "C05", format!("{} in the middle of an iteration", o.kind()));
                    }
                }
            }
            return;
        }
        if let Mat::Singular = mat {
            push(v, "C03", "the resolution goes on with a singular jacobian".into());
            return;
        }

        // ---- full step
        let e = &evs[pos];
        let (sx, smem, sres, sid) = match e.ev {
            Ev::Eval { x, mem, res, id, .. } => (x, mem, *res, *id),
            _ => {
                push(v, "C11", "unexpected jacobian request".into());
                return;
            }
        };
        pos += 1;
        v.kinds.push((e.idx, 1));
        // limits
        for i in 0..n {
            if let Err(m) = limits_ok(&cfg.lims[i], cur.x[i], sx[i]) {
                push(v, "C07", format!("iteration {}, unknown {}: {}", iter, i, m));
            }
        }
        match &mat {
            Mat::Known(k) => {
                v.err += k.rh;
                v.cond = v.cond.max(k.k)
            }
            _ => v.err = f64::INFINITY,
        }
        if let Mat::Known(k) = &mat {
            v.feats.push(if k.approx { "approx-step-checked" } else { "exact-step-checked" });
            if let Some(Some((i, exp, limited))) = step_matches(cfg, &cur, k, sx) {
                if !observed && is_mid(sx) {
                    push(v, "C12", format!("iteration {}: the accepted step is halved although it must not be", iter - 1));
                    if last_damped {
                        push(v, "C05", format!("iteration {}: two damped evaluations", iter - 1));
                    }
                    return;
                }
                let what = format!(
                    "iteration {}, unknown {}: proposed {} instead of {} (from {})",
                    iter, i, sx[i], exp, cur.x[i]
                );
                if limited || cut_without_reason(cfg, &cur, k, sx) {
                    push(v, "C07", what.clone());
                } else {
                    push(v, if k.approx { "C10" } else { "C08" }, what.clone());
                }
                // a wrong normalization explains the step
                if observed {
                    if let Some(name) = norm_hypothesis(cfg, &cur, evs[pos - 2].ev, &cols, &perts, sx) {
                        push(v, "C13", format!("{}: this is the step of {}", what, name));
                    }
                }
            }
        } else {
            v.feats.push("step-unknown");
        }
        if !degenerate && !same_v(smem, &cur.mem_after) {
            push(
                v,
                "C09",
                format!("iteration {}: the memory {:?} of the step is not the one of the current point {:?}", iter, smem, cur.mem_after),
            );
        }
        if sres == Res::Unus {
            v.feats.push("unusable-step");
            if pos < evs.len() {
                push(v, "C03", "the resolution goes on after an unusable step".into());
                return;
            }
            if crashed {
                return;
            }
            match &run.outcome {
                Outcome::ModelEval(Res::Unus, i) if *i == sid => v.complete = true,
                o => push(v, "C03", format!("unusable step ends with {:?}", o)),
            }
            return;
        }
        let full = mk_point(cfg, e.ev);
        let mut acc = full;
        let mut acc_idx = e.idx;
        let worse = increase(&cur, &acc);
        v.tie |= cfg.damping && near(cur.maxe, acc.maxe);
        if worse == Tri::Yes {
            v.feats.push("worse");
        }
        let approximated = matches!(meth, Meth::Jac(_) | Meth::Inv(_)) && !observed;
        let mut damped = false;
        need_jac = Tri::No;
        if cfg.damping {
            let mid: V = (0..n).map(|i| 0.5 * cur.x[i] + 0.5 * acc.x[i]).collect();
            let mid_ok = |x: &V| -> bool {
                (0..n).all(|i| {
                    !mid[i].is_finite()
                        || (x[i] - mid[i]).abs() <= 1e-12 * (cur.x[i].abs() + acc.x[i].abs()) + 1e-300
                })
            };
            let do_mid = match (approximated, worse) {
                (true, Tri::Yes) => {
                    v.feats.push("refused");
                    v.refused.push(acc_idx);
                    need_jac = Tri::Yes;
                    false
                }
                (true, Tri::Maybe) => {
                    v.unsure = true;
                    need_jac = Tri::Maybe;
                    false
                }
                (false, Tri::Yes) => {
                    match evs.get(pos) {
                        Some(E { ev: Ev::Eval { x, .. }, gm: false, .. }) => {
                            if mid_ok(x) {
                                true
                            } else {
                                // neither the midpoint nor (maybe) the next phase
                                push(
                                    v,
                                    "C12",
                                    format!("iteration {}: worsening step followed by {:?} instead of the midpoint {:?}", iter, x, mid),
                                );
                                for i in 0..n {
                                    let (lo, hi) = (cfg.lims[i].min, cfg.lims[i].max);
                                    if cur.x[i] < lo || cur.x[i] > hi {
                                        continue;
                                    }
                                    if let Err(m) = limits_ok(&cfg.lims[i], cur.x[i], x[i]) {
                                        push(v, "C07", format!("damped point of iteration {}, unknown {}: {}", iter, i, m));
                                    }
                                }
                                return;
                            }
                        }
                        Some(_) => {
                            push(v, "C12", format!("iteration {}: worsening step not damped", iter));
                            return;
                        }
                        None => {
                            if crashed {
                                return;
                            }
                            push(v, "C12", format!("iteration {}: worsening step not damped ({})", iter, run.outcome.kind()));
                            return;
                        }
                    }
                }
                (false, Tri::Maybe) => {
                    // either decision is right: what follows is judged only if it can be told apart
                    v.ambiguous = true;
                    v.unsure = true;
                    match evs.get(pos) {
                        Some(E { ev: Ev::Eval { x, .. }, gm: false, .. }) => mid_ok(x) && !same_v(x, &acc.x),
                        _ => false,
                    }
                }
                (_, Tri::No) => false,
            };
            if do_mid {
                let e = &evs[pos];
                pos += 1;
                v.feats.push("damped");
                v.kinds.push((e.idx, 2));
                let (x, res, id) = match e.ev {
                    Ev::Eval { x, res, id, .. } => (x, *res, *id),
                    _ => unreachable!(),
                };
                for i in 0..n {
                    // the midpoint can be outside the bounds only when the current point is
                    let (lo, hi) = (cfg.lims[i].min, cfg.lims[i].max);
                    if cur.x[i] < lo || cur.x[i] > hi {
                        continue;
                    }
                    if let Err(m) = limits_ok(&cfg.lims[i], cur.x[i], x[i]) {
                        push(v, "C07", format!("damped point of iteration {}, unknown {}: {}", iter, i, m));
                    }
                }
                if res == Res::Unus {
                    v.feats.push("unusable-damped");
                    if pos < evs.len() {
                        push(v, "C03", "the resolution goes on after an unusable damped step".into());
                        return;
                    }
                    if crashed {
                        return;
                    }
                    match &run.outcome {
                        Outcome::ModelEval(Res::Unus, i) if *i == id => v.complete = true,
                        o => push(v, "C03", format!("unusable damped step ends with {:?}", o)),
                    }
                    return;
                }
                acc = mk_point(cfg, e.ev);
                acc_idx = e.idx;
                damped = true;
            }
        }
        v.accepted.push(acc_idx);
        last_s = (0..n).map(|i| acc.x[i] - cur.x[i]).collect();
        last_y = (0..n).map(|i| acc.f[i] - cur.f[i]).collect();
        prev_x = Some(cur.x.clone());
        last_damped = damped;
        cur = acc;
    }
}

/// None: the expected step is not decidable; Some(None): matches;
/// Some(Some((component, expected, limited))): first mismatch
fn step_matches(cfg: &Cfg, cur: &Point, k: &Known, x: &[f64]) -> Option<Option<(usize, f64, bool)>> {
    let n = cfg.n();
    if !cur.x.iter().chain(&cur.f).all(|v| v.is_finite()) {
        return None;
    }
    let raw: V = mat_vec(&k.h, &cur.f).iter().map(|v| -v).collect();
    if !raw.iter().all(|v| v.is_finite()) {
        return None;
    }
    let dx = if cfg.fd {
        (0..n).map(|j| cfg.lims[j].pert(cur.x[j]).abs()).fold(0.0, f64::max)
    } else {
        0.0
    };
    let tol = (400.0 * k.rh + 100.0 * EPS) * (mat_norm(&k.h) * inf_norm(&cur.f) + k.k * dx)
        + 100.0 * EPS * (inf_norm(&cur.x) + dx)
        + 1e-14 * inf_norm(&raw).min(1.0)
        + 1e-300;
    for i in 0..n {
        let exp = cfg.lims[i].apply(cur.x[i], raw[i]);
        if !((x[i] - exp).abs() <= tol) {
            let free = cur.x[i] + raw[i];
            let limited = (exp - free).abs() > tol;
            return Some(Some((i, exp, limited)));
        }
    }
    Some(None)
}

/// the step is the right one, except that it was shortened where nothing limits it
fn cut_without_reason(cfg: &Cfg, cur: &Point, k: &Known, x: &[f64]) -> bool {
    let n = cfg.n();
    let has_limits = cfg.lims.iter().any(|l| {
        l.abs.is_finite() || l.rel.is_finite() || l.min.is_finite() || l.max.is_finite()
    });
    if !has_limits {
        return false;
    }
    let raw: V = mat_vec(&k.h, &cur.f).iter().map(|v| -v).collect();
    (0..n).all(|i| {
        let exp = cfg.lims[i].apply(cur.x[i], raw[i]) - cur.x[i];
        let got = x[i] - cur.x[i];
        got * exp >= 0.0 && got.abs() <= exp.abs() * (1.0 + 1e-6) + 1e-12
    })
}

/// does another choice of normalizations explain the step
fn norm_hypothesis(
    cfg: &Cfg,
    cur: &Point,
    jac: &Ev,
    cols: &[(usize, V)],
    perts: &[f64],
    x: &[f64],
) -> Option<String> {
    let n = cfg.n();
    let mut rev = cfg.upd.clone();
    rev.reverse();
    let mut cands: Vec<(String, Vec<Nm>)> = vec![
        ("the stopping methods".into(), cfg.stop.clone()),
        ("the method of another equation".into(), rev),
    ];
    for k in NMS {
        cands.push((format!("{:?} everywhere", k), vec![k; n]));
    }
    for k in 0..n {
        cands.push((format!("the method of equation {} everywhere", k), vec![cfg.upd[k]; n]));
    }
    let _ = (cols, perts);
    let (jl, jr) = match jac {
        Ev::Jac { jl, jr, .. } => (jl, jr),
        _ => return None,
    };
    // residual and jacobian may use different wrong methods
    let mut all = cands.clone();
    all.push(("".into(), cfg.upd.clone()));
    for (name, m) in &all {
        for (name2, m2) in &all {
            if m == &cfg.upd && m2 == &cfg.upd {
                continue;
            }
            let f: V = (0..n).map(|i| norm(m[i], cur.l[i], cur.r[i])).collect();
            if let Some(j) = jac_of(cfg, m2, &cur.l, &cur.r, jl, jr) {
                if let Mat::Known(k) = Mat::from_j(j.0, j.1, false, false) {
                    let p = Point {
                        x: cur.x.clone(),
                        l: cur.l.clone(),
                        r: cur.r.clone(),
                        f,
                        maxe: cur.maxe,
                        exact: cur.exact,
                        valid: cur.valid,
                        mem_after: vec![],
                    };
                    if step_matches(cfg, &p, &k, x) == Some(None) {
                        return Some(format!("residuals by {:?} {} and jacobian by {:?} {}", m, name, m2, name2));
                    }
                }
            }
        }
    }
    None
}

fn end_at_point(
    cfg: &Cfg,
    run: &Run,
    v: &mut Verdict,
    cur: &Point,
    conv: Tri,
    budget: bool,
    iter: usize,
) {
    let mut allowed: Vec<Outcome> = vec![];
    if conv != Tri::No {
        allowed.push(if cur.valid { Outcome::Ok } else { Outcome::Final });
    }
    if conv != Tri::Yes && !budget {
        allowed.push(Outcome::NonConv);
    }
    if allowed.contains(&run.outcome) {
        v.feats.push(match run.outcome {
            Outcome::Ok => "success",
            Outcome::NonConv => "non-convergence",
            _ => "failed-final",
        });
        if !same_v(&run.final_x, &cur.x) {
            push(
                v,
                "C02",
                format!("the model holds {:?} and not the last accepted point {:?}", run.final_x, cur.x),
            );
        }
        return;
    }
    let what = format!(
        "{:?} after {} iterations of {} with the error {} (tolerance {}), the last accepted evaluation being {}",
        run.outcome,
        iter,
        cfg.max_iter,
        cur.maxe,
        cfg.tol,
        if cur.valid { "accurate" } else { "inaccurate" }
    );
    push(v, "C03", what.clone());
    match &run.outcome {
        Outcome::Ok => push(v, "C01", what.clone()),
        Outcome::NonConv => {
            if budget && conv == Tri::No {
                push(v, "C05", format!("non-convergence before the end of the budget: {}", what))
            }
        }
        _ => {}
    }
    // the stop decision is the one of another normalization
    let stopped = match run.outcome {
        Outcome::Ok | Outcome::Final if conv == Tri::No => true,
        Outcome::NonConv if conv == Tri::Yes => false,
        _ => return,
    };
    if let Some(name) = stop_hypothesis(cfg, cur, stopped) {
        push(v, "C13", format!("{}: this is the decision of {}", what, name));
    }
}

/// which other choice of stopping methods gives this decision
fn stop_hypothesis(cfg: &Cfg, cur: &Point, stopped: bool) -> Option<String> {
    let n = cfg.n();
    let mut cands: Vec<(String, Vec<Nm>)> = vec![("the update methods".into(), cfg.upd.clone())];
    let mut rev = cfg.stop.clone();
    rev.reverse();
    cands.push(("the method of another equation".into(), rev));
    for k in NMS {
        cands.push((format!("{:?} everywhere", k), vec![k; n]));
    }
    for (name, m) in cands {
        if m == cfg.stop {
            continue;
        }
        let e: V = (0..n).map(|i| norm(m[i], cur.l[i], cur.r[i]).abs()).collect();
        if (max_err(&e) <= cfg.tol) == stopped {
            return Some(name);
        }
    }
    None
}
