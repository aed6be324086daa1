//! C19, C20, C21: the same problem expressed otherwise, renumbered, or given to the minimal solvers.

use crate::base::*;
use crate::cases::*;
use crate::env::*;
use crate::explore::*;
use crate::monitor;
use crate::run::*;
use nalgebra::{Const, DMatrix, DVector, Dyn, OMatrix, OVector};
use newton_rootfinder as nrf;
use nrf::iteratives::{Iterative, IterativeParams, IterativeParamsFD, Iteratives};
use nrf::model::{
    Model, ModelError, UserModelFromClosure, UserModelFromClosureAndJacobian, UserModelFromFunction,
    UserModelFromFunctionAndJacobian,
};
use nrf::residuals::{JacobianValues, NormalizationMethod, ResidualsConfig, ResidualsValues};
use nrf::solver::{RootFinder, SolverParameters};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::convert::Infallible;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::Ordering;

// ------------------------------------------------------------------------------------- comparison of two runs

const REL: f64 = 1e-6;

fn close_v(a: &V, b: &V, scale: f64) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(p, q)| same(*p, *q) || (p - q).abs() <= REL * (1e-3 * scale + p.abs().max(q.abs())))
}

/// points of the resolution, the columns of a finite-difference jacobian put together
#[derive(Debug)]
enum Phase<'a> {
    One(&'a Ev),
    Cols(Vec<&'a Ev>),
}

fn phases<'a>(n: usize, r: &'a Run) -> Vec<Phase<'a>> {
    let mut out: Vec<Phase> = vec![];
    let mut left = 0usize;
    for e in &r.events {
        match e {
            Ev::GetMem => {
                if left == 0 {
                    left = n;
                    out.push(Phase::Cols(vec![]));
                }
            }
            Ev::Eval { .. } if left > 0 => {
                left -= 1;
                if let Some(Phase::Cols(c)) = out.last_mut() {
                    c.push(e)
                }
            }
            Ev::Eval { .. } | Ev::Jac { .. } => out.push(Phase::One(e)),
            _ => {}
        }
    }
    out
}

fn ev_x(e: &Ev) -> &V {
    match e {
        Ev::Eval { x, .. } | Ev::Jac { x, .. } => x,
        _ => unreachable!(),
    }
}

/// biggest relative difference, for the report
fn gap(a: &V, b: &V) -> f64 {
    a.iter().zip(b).map(|(p, q)| if same(*p, *q) { 0.0 } else { (p - q).abs() / (1e-3 + p.abs().max(q.abs())) }).fold(0.0, f64::max)
}

pub fn cmp_runs(n: usize, a: &Run, b: &Run, renumbered: bool, worst: &mut f64) -> Option<String> {
    let (pa, pb) = (phases(n, a), phases(n, b));
    let scale = a.events.iter().filter_map(|e| if e.is_call() { Some(inf_norm(ev_x(e))) } else { None }).fold(1e-3, f64::max);
    for k in 0..pa.len().max(pb.len()) {
        match (pa.get(k), pb.get(k)) {
            (Some(Phase::One(x)), Some(Phase::One(y))) => {
                if std::mem::discriminant(*x) != std::mem::discriminant(*y) {
                    return Some(format!("call {}: {:?} instead of {:?}", k, y, x));
                }
                if !close_v(ev_x(x), ev_x(y), scale) {
                    return Some(format!("call {}: at {:?} instead of {:?}", k, ev_x(y), ev_x(x)));
                }
                *worst = worst.max(gap(ev_x(x), ev_x(y)));
            }
            (Some(Phase::Cols(p)), Some(Phase::Cols(q))) => {
                if p.len() != q.len() {
                    return Some(format!("phase {}: {} columns instead of {}", k, q.len(), p.len()));
                }
                for e in p {
                    if !q.iter().any(|f| close_v(ev_x(e), ev_x(f), scale)) {
                        return Some(format!("phase {}: no column at {:?} but at {:?}", k, ev_x(e), q.iter().map(|f| ev_x(f)).collect::<Vec<_>>()));
                    }
                }
            }
            (x, y) => return Some(format!("phase {}: {:?} instead of {:?}", k, y, x)),
        }
    }
    if a.outcome != b.outcome {
        return Some(format!("{:?} instead of {:?}", b.outcome, a.outcome));
    }
    if a.display != b.display {
        return Some(format!("message {:?} instead of {:?}", b.display, a.display));
    }
    // a resolution that ends in a finite-difference jacobian leaves the model at its last column, which depends on the numbering
    let in_columns = renumbered && matches!(pa.last(), Some(Phase::Cols(_)));
    if !in_columns && !close_v(&a.final_x, &b.final_x, scale) {
        return Some(format!("the model holds {:?} instead of {:?}", b.final_x, a.final_x));
    }
    None
}

/// can two correct executions of this resolution differ (rounding, singular matrices)
pub fn comparable(v: &monitor::Verdict, r: &Run) -> bool {
    !v.unsure && v.err < 1e-10 && v.cond < 1e6 && !cancels(r)
}

/// an unknown comes back from so far that what is left of it is rounding
fn cancels(r: &Run) -> bool {
    let mut far: V = vec![];
    for x in r.events.iter().filter(|e| e.is_call()).map(ev_x).chain([&r.final_x]) {
        far.resize(x.len(), 0.0);
        for (m, c) in far.iter_mut().zip(x) {
            let a = c.abs();
            if *m > 1e8 && a < 1e-6 * *m {
                return true;
            }
            *m = m.max(a);
        }
    }
    false
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n > 5 {
        // the generators: every exchange of two neighbours, the extremes, the rotation, the reversal
        let id: Vec<usize> = (0..n).collect();
        let mut out = vec![id.clone()];
        for k in 0..n {
            let mut p = id.clone();
            p.swap(k, (k + 1) % n);
            out.push(p);
        }
        out.push((1..=n).map(|k| k % n).collect());
        out.push((0..n).rev().collect());
        return out;
    }
    if n == 1 {
        return vec![vec![0]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            out.push(q);
        }
    }
    out
}

// ------------------------------------------------------------------------------------- C20

fn permuted(cfg: &Cfg, pu: &[usize], pe: &[usize]) -> Cfg {
    let mut c = cfg.clone();
    c.x0 = pu.iter().map(|u| cfg.x0[*u]).collect();
    c.lims = pu.iter().map(|u| cfg.lims[*u]).collect();
    c.stop = pe.iter().map(|e| cfg.stop[*e]).collect();
    c.upd = pe.iter().map(|e| cfg.upd[*e]).collect();
    c
}

pub fn c20(thorough: bool) -> Report {
    let t = thorough;
    let mut cases = vec![];
    let vars = [V_BASE, V_MIXA, V_MIXB, V_MIXC, V_STEPS, V_BOUNDS, V_PERT, V_TIGHT, V_STEPS2, V_MIXED, V_USER, V_USERL];
    cases.extend(product(&["cpl2", "atan2"], &vars, ALL_M, BOTH, BOTH, if t { FULL } else { VALUES }, 1));
    cases.extend(product(&["cpl3"], &[V_MIXA, V_MIXB, V_MIXC, V_PERT, V_MIXED, V_STEPS2], ALL_M, BOTH, BOTH, if t { FULL } else { SMALL }, 1));
    cases.extend(product(&["big4"], &[V_MIXA, V_MIXB, V_TIGHT, V_PERT], ALL_M, BOTH, BOTH, SMALL, if t { 1 } else { 0 }));
    cases.extend(product(&["dim6", "big7", "dim8", "big10", "dim16", "dim33"], &[V_MIXA, V_MIXB, V_TIGHT], if t { ALL_M } else { &[0, 1, 2, 5, 7, 8] }, BOTH, BOTH, SMALL, 0));
    cases.extend(product(&["cpl2"], &[V_MIXA, V_MIXB], ALL_M, BOTH, BOTH, SMALL, 2));
    // every number of unknowns, the equation that matters being anywhere
    let dims = dims(false);
    cases.extend(product(&dims, &[V_POS, V_POSL], if t { ALL_M } else { &[0, 6] }, BOTH, if t { BOTH } else { &[false] }, POS, 1));
    cases.extend(product(&crate::env::dims(true), &[V_MIXB, V_LONG], &[0, 6], BOTH, BOTH, SMALL, 0));
    for mood in MOODS {
        cases.extend(product(&["cpl2", "atan2", "big4"], &[V_LONG, V_MIXB], ALL_M, BOTH, BOTH, *mood, 0));
    }
    if t {
        cases.extend(product(&["cpl2", "atan2"], &[V_MIXA, V_MIXB, V_STEPS2, V_PERT], ALL_M, BOTH, BOTH, SMALL, 2));
        cases.extend(product(&["big5"], &[V_MIXB], ALL_M, BOTH, BOTH, SMALL, 0));
        cases.extend(stretched(product(&["cpl2", "atan2"], &[V_LONG, V_MIXB, V_STEP12], ALL_M, BOTH, &[false], SMALL, 0), 2));
    }
    cases.extend(stretched(product(&["cpl2"], &[V_LONG, V_MIXB], ALL_M, BOTH, &[false], SMALL, 0), 1));
    cases.sort_by(|a, b| a.cfg.id.cmp(&b.cfg.id).then(b.depth.cmp(&a.depth)));
    cases.dedup_by(|a, b| a.cfg.id == b.cfg.id);
    cases.sort_by_key(|k| std::cmp::Reverse((k.depth, k.cfg.n(), k.cfg.fd)));
    let mut rep = parallel(&cases, |case, rep, stop| {
        let cfg = &case.cfg;
        let n = cfg.n();
        let ch = case_hash(&cfg.id);
        let id: Vec<usize> = (0..n).collect();
        let ps = if cfg.alpha.name == "pos" && n > 3 {
            let mut out = vec![id.clone(), (1..=n).map(|k| k % n).collect(), (0..n).rev().collect()];
            for (a, b) in [(0, n - 1), (n / 2, n - 1), (n / 2, 0)] {
                let mut p = id.clone();
                p.swap(a, b);
                out.push(p);
            }
            out
        } else {
            perms(n)
        };
        let mut worst = 0f64;
        explore_case(case, stop, &mut |script, r| {
            rep.transitions += new_points(script, r);
            let v = monitor::monitor(cfg, r);
            for s in &v.states {
                rep.state(s ^ ch)
            }
            // the answers of a column depend on its position: these scripts do not commute with the numbering
            let mut col = vec![];
            let mut left = 0;
            for e in &r.events {
                match e {
                    Ev::GetMem => left = n,
                    Ev::Eval { .. } => {
                        col.push(left > 0);
                        left = left.saturating_sub(1)
                    }
                    Ev::Jac { .. } => col.push(false),
                    _ => {}
                }
            }
            if script.iter().any(|(i, _)| col.get(*i).copied().unwrap_or(false)) {
                rep.feat("deviation in a column: not compared");
                return;
            }
            // the answers that designate a row of the jacobian by its number
            if !comparable(&v, r) {
                rep.feat("rounding or singularity decides: not compared");
                return;
            }
            for pu in &ps {
                for pe in &ps {
                    if *pu == id && *pe == id {
                        continue;
                    }
                    // every pair up to three unknowns; beyond: one permutation, the other being the same or the identity
                    if n > 3 && !(pu == pe || *pu == id || *pe == id) {
                        continue;
                    }
                    let c2 = permuted(cfg, pu, pe);
                    let o = Opts { perm: Some(Rc::new((pu.clone(), pe.clone()))), ..Default::default() };
                    let b = run(&c2, script, &o);
                    rep.runs += 1;
                    rep.feat(b.outcome.feat());
                    if let Some(m) = cmp_runs(n, r, &b, true, &mut worst) {
                        if v.tie {
                            rep.feat("rounding decides: not compared");
                            return;
                        }
                        rep.viol("renumbering", &cfg.id, script, format!(
                            "unknowns {:?} equations {:?}: {} | answers {} | {}", pu, pe, m, describe_script(cfg, script, r), cfg.describe()
                        ));
                        if rep.nviol as usize >= MAX_VIOL {
                            stop.store(true, Ordering::Relaxed);
                        }
                        return;
                    }
                }
            }
            if script.is_empty() {
                rep.sample(format!("{}: {} renumberings -> {:?}", cfg.id, ps.len() * ps.len() - 1, r.outcome));
            }
        });
        if worst > 1e-9 {
            rep.feat("differences above 1e-9")
        }
    });
    rep.bounds.push(format!(
        "{} configurations of 2 to {} unknowns, scripts of at most {} deviations outside the columns; every pair of permutations of the unknowns and of the equations (up to 3 unknowns), every single or common permutation beyond",
        cases.len(), if t { 5 } else { 4 }, if t { 2 } else { 1 }
    ));
    rep
}

// ------------------------------------------------------------------------------------- C19: formulations

thread_local! {
    static CALLS: RefCell<Vec<(char, V)>> = const { RefCell::new(vec![]) };
}
fn rec(c: char, x: V) {
    let n = CALLS.with(|v| {
        let mut v = v.borrow_mut();
        v.push((c, x));
        v.len()
    });
    // no resolution explored here makes so many calls
    if n > 100_000 {
        std::panic::panic_any(RUNAWAY.to_string())
    }
}
fn take() -> Vec<(char, V)> {
    CALLS.with(|v| std::mem::take(&mut *v.borrow_mut()))
}

pub struct Pb {
    pub name: &'static str,
    pub n: usize,
    pub f: fn(&[f64]) -> V,
    pub j: fn(&[f64]) -> Mx,
    pub ff: fn(&DVector<f64>) -> DVector<f64>,
    pub jj: fn(&DVector<f64>) -> DMatrix<f64>,
    pub starts: &'static [&'static [f64]],
}

macro_rules! pb {
    ($m:ident, $name:expr, $n:expr, $starts:expr, $f:expr, $j:expr) => {
        mod $m {
            use super::*;
            pub fn f(x: &[f64]) -> V {
                let g: fn(&[f64]) -> V = $f;
                g(x)
            }
            pub fn j(x: &[f64]) -> Mx {
                let g: fn(&[f64]) -> Mx = $j;
                g(x)
            }
            pub fn ff(x: &DVector<f64>) -> DVector<f64> {
                rec('f', x.iter().cloned().collect());
                DVector::from_vec(f(x.as_slice()))
            }
            pub fn jj(x: &DVector<f64>) -> DMatrix<f64> {
                rec('j', x.iter().cloned().collect());
                let m = j(x.as_slice());
                DMatrix::from_fn(x.len(), x.len(), |a, b| m[a][b])
            }
            pub const P: Pb = Pb { name: $name, n: $n, f, j, ff, jj, starts: $starts };
        }
    };
}

pb!(p_sq, "square", 1, &[&[1.0], &[-3.0], &[25.0]], |x| vec![x[0] * x[0] - 2.0], |x| vec![vec![2.0 * x[0]]]);
pb!(p_atan, "atan", 1, &[&[1.25], &[2.5]], |x| vec![x[0].atan()], |x| vec![vec![1.0 / (1.0 + x[0] * x[0])]]);
pb!(p_noroot, "noroot", 1, &[&[0.5]], |x| vec![x[0] * x[0] + 1.0], |x| vec![vec![2.0 * x[0]]]);
pb!(p_flat, "flat", 1, &[&[0.0], &[1.0]], |x| vec![x[0] * x[0] * x[0] - 1.0], |x| vec![vec![3.0 * x[0] * x[0]]]);
pb!(
    p_two, "two", 2, &[&[1.5, 0.75], &[-2.0, 3.0], &[0.0, 0.0]],
    |x| vec![x[0] * x[0] + x[1] - 3.0, x[0] * x[1] - 1.0],
    |x| vec![vec![2.0 * x[0], 1.0], vec![x[1], x[0]]]
);
pb!(
    p_aff, "affine", 2, &[&[10.0, -4.0]],
    |x| vec![3.0 * x[0] - x[1] + 1.0, x[0] + 2.0 * x[1] - 4.0],
    |_| vec![vec![3.0, -1.0], vec![1.0, 2.0]]
);
pb!(
    p_three, "three", 3, &[&[1.0, 0.5, -0.25], &[2.0, -2.0, 1.0]],
    |x| vec![x[0] + x[1] * x[2] - 1.0, x[1] + 0.5 * x[0] * x[0] - 2.0, x[2] + 0.25 * x[0] * x[1] + 0.5],
    |x| vec![vec![1.0, x[2], x[1]], vec![x[0], 1.0, 0.0], vec![0.25 * x[1], 0.25 * x[0], 1.0]]
);
pb!(
    p_sqrt, "sqrt", 2, &[&[0.25, 4.0]],
    |x| vec![x[0].sqrt() - x[1] + 1.0, x[1] - 0.5 * x[0] - 1.0],
    |x| vec![vec![0.5 / x[0].sqrt(), -1.0], vec![-0.5, 1.0]]
);

const PBS: &[Pb] = &[p_sq::P, p_atan::P, p_noroot::P, p_flat::P, p_two::P, p_aff::P, p_three::P, p_sqrt::P];

/// a model written by hand, of any dimension kind
struct Hand<D: nalgebra::Dim>
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D>,
{
    d: D,
    p: &'static Pb,
    jac: bool,
    x: OVector<f64, D>,
    l: OVector<f64, D>,
}

impl<D: nalgebra::Dim> Hand<D>
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D>,
{
    fn new(d: D, p: &'static Pb, jac: bool) -> Self {
        Hand { d, p, jac, x: ovec(d, &vec![0.0; p.n]), l: ovec(d, &vec![f64::NAN; p.n]) }
    }
    fn xs(&self) -> V {
        self.x.iter().cloned().collect()
    }
}

impl<D: nalgebra::Dim> Model<D> for Hand<D>
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D> + nalgebra::allocator::Allocator<D, D>,
{
    type InaccurateValuesError = Infallible;
    type UnusableValuesError = Infallible;
    fn len_problem(&self) -> usize {
        self.p.n
    }
    fn set_iteratives(&mut self, x: &OVector<f64, D>) {
        self.x = x.clone()
    }
    fn get_iteratives(&self) -> OVector<f64, D> {
        self.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, D>> {
        let x = self.xs();
        self.l = ovec(self.d, &(self.p.f)(&x));
        rec('f', x);
        Ok(())
    }
    fn get_residuals(&self) -> ResidualsValues<D> {
        ResidualsValues::new(self.l.clone(), ovec(self.d, &vec![0.0; self.p.n]))
    }
    fn jacobian_provided(&self) -> bool {
        self.jac
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<D>, ModelError<Self, D>> {
        let x = self.xs();
        let j = omat(self.d, &(self.p.j)(&x));
        rec('j', x);
        let z: OMatrix<f64, D, D> = omat(self.d, &vec![vec![0.0; self.p.n]; self.p.n]);
        Ok(JacobianValues::new(j, z))
    }
}

#[derive(Clone, Debug)]
struct Sol {
    calls: Vec<(char, V)>,
    x: V,
    res: String,
}

#[derive(Clone, Debug)]
struct Fc {
    p: usize,
    start: usize,
    meth: usize,
    damping: bool,
    jac: bool,
    norm: &'static str,
    lim: &'static str,
    max_iter: usize,
    tol: f64,
}

impl Fc {
    fn id(&self) -> String {
        format!(
            "{}#{}/{}/{}/{}/{}/{}/{}/{}",
            PBS[self.p].name, self.start, METH_NAMES[self.meth], if self.damping { "damped" } else { "plain" },
            if self.jac { "analytic" } else { "fd" }, self.norm, self.lim, self.max_iter, self.tol
        )
    }
}

struct Cfgd {
    c: Fc,
    fdp: bool,
}

fn go_model<T, D, M>(c: &Fc, params: &[T], d: D, model: &mut M, get: &dyn Fn(&M) -> V) -> Sol
where
    T: Iterative + fmt::Display + fmt::Debug,
    D: nalgebra::DimMin<D, Output = D>,
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D>
        + nalgebra::allocator::Allocator<D, D>
        + nalgebra::allocator::Allocator<nalgebra::U1, D>,
    M: Model<D>,
{
    let its = Iteratives::new(params);
    let n = PBS[c.p].n;
    let (stop, upd) = norms(c.norm, n);
    let stop: Vec<NormalizationMethod> = stop.iter().map(|k| lib_nm(*k)).collect();
    let upd: Vec<NormalizationMethod> = upd.iter().map(|k| lib_nm(*k)).collect();
    let rc = ResidualsConfig::new(&stop, &upd);
    let guess = ovec(d, PBS[c.p].starts[c.start]);
    let mut rf = if c.max_iter == 50 && c.tol == 1e-6 {
        // what the documentation of the default constructor promises
        nrf::solver::default_with_guess(guess, &its, &rc, lib_meth(METHS[c.meth]), c.damping)
    } else {
        let sp = SolverParameters::new(n, c.tol, c.max_iter, lib_meth(METHS[c.meth]), c.damping);
        RootFinder::new(sp, guess, &its, &rc)
    };
    take();
    let r = catch_unwind(AssertUnwindSafe(|| match rf.solve(model) {
        Ok(()) => "success".to_string(),
        Err(e) => format!("{}", e),
    }))
    .unwrap_or("panic".into());
    Sol { calls: take(), x: get(model), res: r }
}

fn solve_as(cd: &Cfgd, what: &str) -> Sol {
    let c = &cd.c;
    let p = &PBS[c.p];
    let x0 = p.starts[c.start];
    let ls = lims(c.lim, x0);
    let fd: Vec<IterativeParamsFD> = ls.iter().map(lib_fd).collect();
    let it: Vec<IterativeParams> = ls.iter().map(lib_it).collect();
    macro_rules! both {
        ($d:expr, $m:expr, $get:expr) => {
            if cd.fdp {
                go_model(c, &fd, $d, $m, $get)
            } else {
                go_model(c, &it, $d, $m, $get)
            }
        };
    }
    let n = p.n;
    match what {
        "function" => {
            if c.jac {
                let mut m = UserModelFromFunctionAndJacobian::new(n, p.ff, p.jj);
                both!(Dyn(n), &mut m, &|m: &UserModelFromFunctionAndJacobian| m.get_iteratives().iter().cloned().collect())
            } else {
                let mut m = UserModelFromFunction::new(n, p.ff);
                both!(Dyn(n), &mut m, &|m: &UserModelFromFunction| m.get_iteratives().iter().cloned().collect())
            }
        }
        "closure" => {
            let cl = |x: &DVector<f64>| -> DVector<f64> {
                rec('f', x.iter().cloned().collect());
                DVector::from_vec((p.f)(x.as_slice()))
            };
            let cj = |x: &DVector<f64>| -> DMatrix<f64> {
                rec('j', x.iter().cloned().collect());
                let m = (p.j)(x.as_slice());
                DMatrix::from_fn(n, n, |a, b| m[a][b])
            };
            if c.jac {
                let mut m = UserModelFromClosureAndJacobian::new(n, &cl, &cj);
                both!(Dyn(n), &mut m, &|m: &UserModelFromClosureAndJacobian| m.get_iteratives().iter().cloned().collect())
            } else {
                let mut m = UserModelFromClosure::new(n, &cl);
                both!(Dyn(n), &mut m, &|m: &UserModelFromClosure| m.get_iteratives().iter().cloned().collect())
            }
        }
        "hand-dynamic" => {
            let mut m = Hand::new(Dyn(n), p, c.jac);
            both!(Dyn(n), &mut m, &|m: &Hand<Dyn>| m.xs())
        }
        _ => match n {
            1 => {
                let mut m = Hand::new(Const::<1>, p, c.jac);
                both!(Const::<1>, &mut m, &|m: &Hand<Const<1>>| m.xs())
            }
            2 => {
                let mut m = Hand::new(Const::<2>, p, c.jac);
                both!(Const::<2>, &mut m, &|m: &Hand<Const<2>>| m.xs())
            }
            _ => {
                let mut m = Hand::new(Const::<3>, p, c.jac);
                both!(Const::<3>, &mut m, &|m: &Hand<Const<3>>| m.xs())
            }
        },
    }
}

fn same_sol(a: &Sol, b: &Sol, exact: bool) -> Option<String> {
    // the order of the columns of a finite-difference jacobian is the same in both
    for k in 0..a.calls.len().max(b.calls.len()) {
        match (a.calls.get(k), b.calls.get(k)) {
            (Some((p, x)), Some((q, y))) if p == q && (same_v(x, y) || (!exact && close_v(x, y, inf_norm(x)))) => {}
            (x, y) => return Some(format!("call {}: {:?} instead of {:?}", k, y, x)),
        }
    }
    if a.res != b.res {
        return Some(format!("{:?} instead of {:?}", b.res, a.res));
    }
    if !(same_v(&a.x, &b.x) || (!exact && close_v(&a.x, &b.x, inf_norm(&a.x)))) {
        return Some(format!("the model holds {:?} instead of {:?}", b.x, a.x));
    }
    None
}

/// a long or chaotic resolution amplifies the rounding: the static and dynamic ones are compared on their beginning
fn cut(s: &Sol, k: usize) -> Sol {
    Sol { calls: s.calls.iter().take(k).cloned().collect(), x: vec![], res: String::new() }
}

fn formulations(thorough: bool) -> Report {
    let mut items = vec![];
    let nrms: &[&'static str] = if thorough { &["abs", "mixA", "mixB", "mixC", "rel", "adapt"] } else { &["abs", "mixA"] };
    let lms: &[&'static str] = if thorough { &["free", "steps", "bounds", "mixed", "tight", "pert"] } else { &["free", "steps", "pert"] };
    for p in 0..PBS.len() {
        for start in 0..PBS[p].starts.len() {
            for meth in ALL_M {
                for damping in BOTH {
                    for jac in BOTH {
                        for norm in nrms {
                            for lim in lms {
                                for (max_iter, tol) in [(50, 1e-6), (4, 1e-12), (0, 1e-3), (15, 1e-9)] {
                                    items.push(Fc { p, start, meth: *meth, damping: *damping, jac: *jac, norm, lim, max_iter, tol });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let mut rep = parallel(&items, |c, rep, stop| {
        let base = solve_as(&Cfgd { c: c.clone(), fdp: true }, "function");
        rep.runs += 1;
        rep.transitions += base.calls.len() as u64;
        let mut h = Hasher64::new();
        for (k, x) in &base.calls {
            h.u(*k as u64);
            h.fs(x);
            rep.states.insert(h.0 ^ case_hash(&c.id()));
        }
        rep.feat(if base.res == "success" { "outcome:success" } else if base.res == "panic" { "outcome:panic" } else { "outcome:error" });
        let mut against = vec![("closure", true), ("hand-dynamic", true), ("hand-static", true)];
        if c.jac {
            against.extend([("function", false), ("closure", false), ("hand-dynamic", false), ("hand-static", false)]);
        }
        for (what, fdp) in against {
            let s = solve_as(&Cfgd { c: c.clone(), fdp }, what);
            rep.runs += 1;
            let m = if what == "hand-static" {
                let k = 1 + 3 * (1 + PBS[c.p].n);
                // exact in practice; the rounding of the two kinds of vectors is not specified
                same_sol(&base, &s, true).and_then(|_| {
                    rep.feat("static and dynamic differ by rounding");
                    if base.calls.len() <= k {
                        same_sol(&base, &s, false)
                    } else {
                        same_sol(&cut(&base, k), &cut(&s, k), false)
                    }
                })
            } else {
                same_sol(&base, &s, true)
            };
            if let Some(m) = m {
                rep.viol("formulations", &c.id(), &vec![], format!(
                    "{} (parameters {} finite differences) differs from the function: {}", what, if fdp { "with" } else { "without" }, m
                ));
                if rep.nviol as usize >= MAX_VIOL {
                    stop.store(true, Ordering::Relaxed)
                }
            }
        }
        if c.max_iter == 50 {
            // default parameters against the explicit ones: a tolerance one ulp away selects the explicit constructor
            let mut d = c.clone();
            d.max_iter = 50;
            d.tol = f64::from_bits(1e-6f64.to_bits() + 1);
            let s = solve_as(&Cfgd { c: d, fdp: true }, "function");
            rep.runs += 1;
            if let Some(m) = same_sol(&s, &base, true) {
                rep.viol("formulations", &c.id(), &vec![], format!("the default parameters differ from the documented ones: {}", m));
            }
        }
        rep.sample(format!("{} -> {} after {} calls", c.id(), base.res, base.calls.len()));
    });
    rep.bounds.push(format!("{} resolutions of {} problems, each expressed in 4 ways (8 with a jacobian)", items.len(), PBS.len()));
    rep
}

// ------------------------------------------------------------------------------------- C19: static and dynamic, scripted

fn static_dynamic(thorough: bool) -> Report {
    let mut cases = vec![];
    cases.extend(product(&["atan1", "cpl2", "cpl3"], &[V_BASE, V_MIXA, V_MIXB, V_STEPS, V_LONG, V_MIXED, V_USER, V_USERL], ALL_M, BOTH, BOTH, if thorough { FULL } else { SMALL }, 1));
    cases.extend(product(&["atan1", "cpl2"], &[V_MIXC, V_STEPS2], ALL_M, BOTH, BOTH, SMALL, 2));
    if thorough {
        cases.extend(product(&["atan1", "cpl2"], &[V_BASE, V_MIXB, V_STEPS2], ALL_M, BOTH, BOTH, SMALL, 2));
        cases.extend(product(&["big4", "big5"], &[V_BASE, V_MIXB], ALL_M, BOTH, BOTH, SMALL, 1));
        cases.extend(stretched(product(&["cpl2", "atan1"], &[V_LONG, V_MIXB, V_STEP12], ALL_M, BOTH, BOTH, SMALL, 0), 2));
    }
    cases.extend(stretched(product(&["cpl2", "atan1"], &[V_LONG, V_MIXB], ALL_M, BOTH, BOTH, SMALL, 0), 1));
    cases.extend(product(&["dim6", "big10", "dim16"], &[V_LONG, V_MIXB, V_TIGHT], ALL_M, BOTH, BOTH, SMALL, if thorough { 1 } else { 0 }));
    for mood in MOODS {
        cases.extend(product(&["cpl2", "big4", "atan1"], &[V_LONG, V_VLONGS], ALL_M, BOTH, BOTH, *mood, 0));
    }
    cases.sort_by(|a, b| a.cfg.id.cmp(&b.cfg.id).then(b.depth.cmp(&a.depth)));
    cases.dedup_by(|a, b| a.cfg.id == b.cfg.id);
    let mut rep = parallel(&cases, |case, rep, stop| {
        let mut cfg = case.cfg.clone();
        cfg.stat = false;
        cfg.fd_params = true;
        let mut st = cfg.clone();
        st.stat = true;
        let mut nofd = cfg.clone();
        nofd.fd_params = false;
        let ch = case_hash(&cfg.id);
        let mut worst = 0f64;
        let case = Case { cfg: cfg.clone(), ..case.clone() };
        explore_case(&case, stop, &mut |script, r| {
            rep.transitions += new_points(script, r);
            rep.runs += 1;
            let v = monitor::monitor(&cfg, r);
            for s in &v.states {
                rep.state(s ^ ch)
            }
            if !cfg.fd {
                let b = run(&nofd, script, &Opts::default());
                rep.runs += 1;
                if let Some(m) = diff_run(r, &b) {
                    rep.viol("static-dynamic", &cfg.id, script, format!(
                        "with limits without finite-difference parameters: {} | answers {} | {}", m, describe_script(&cfg, script, r), cfg.describe()
                    ));
                }
            }
            let b = run(&st, script, &Opts::default());
            rep.runs += 1;
            if diff_run(r, &b).is_none() {
                rep.feat("static and dynamic agree to the last bit");
            } else if comparable(&v, r) {
                rep.feat("static and dynamic differ by rounding");
                if let (Some(m), false) = (cmp_runs(cfg.n(), r, &b, false, &mut worst), v.tie) {
                    rep.viol("static-dynamic", &cfg.id, script, format!(
                        "with vectors of static size: {} | answers {} | {}", m, describe_script(&cfg, script, r), cfg.describe()
                    ));
                }
            } else {
                rep.feat("static and dynamic not comparable");
            }
            if rep.nviol as usize >= MAX_VIOL {
                stop.store(true, Ordering::Relaxed)
            }
        });
    });
    rep.bounds.push(format!("{} configurations with scripts of at most {} deviations, with static and dynamic sizes, with and without finite-difference parameters", cases.len(), if thorough { 2 } else { 1 }));
    rep
}

// ------------------------------------------------------------------------------------- C19: sequences of calls on the adapters

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Set(u8),
    Evaluate,
    Residuals,
    Iteratives,
    Jacobian,
    SetMemory,
    GetMemory,
    Static,
}

const OPS: &[Op] = &[
    Op::Set(0), Op::Set(1), Op::Set(2), Op::Evaluate, Op::Residuals, Op::Iteratives, Op::Jacobian, Op::SetMemory, Op::GetMemory, Op::Static,
];

fn points_of(n: usize) -> [V; 3] {
    [
        (0..n).map(|i| 1.25 + i as f64).collect(),
        (0..n).map(|i| -0.5 * (i as f64 + 1.0)).collect(),
        (0..n).map(|i| if i == 0 { f64::NAN } else { 3.0 }).collect(),
    ]
}

/// one sequence on one adapter; the state of the reference is (iterates, value of the last evaluation, is it of these iterates)
fn sequence<M: Model<Dyn>>(p: &'static Pb, mut m: M, has_jac: bool, seq: &[Op], states: &mut HashSet<u64>) -> Option<String> {
    let n = p.n;
    let pts = points_of(n);
    let mut x: Option<V> = None;
    let mut l: Option<V> = None;
    let mut fresh = false;
    take();
    for (k, op) in seq.iter().enumerate() {
        let fail = |m: String| Some(format!("after {:?}, {:?}: {}", &seq[..k], op, m));
        match op {
            Op::Set(q) => {
                let v = pts[*q as usize].clone();
                m.set_iteratives(&DVector::from_vec(v.clone()));
                fresh = fresh && x.as_ref().map(|o| same_v(o, &v)).unwrap_or(false);
                x = Some(v);
            }
            Op::Evaluate => {
                if x.is_none() {
                    continue;
                }
                if m.evaluate().is_err() {
                    return fail("an error".into());
                }
                l = x.as_ref().map(|v| (p.f)(v));
                fresh = true;
            }
            Op::Residuals => {
                if !fresh {
                    // what is exposed before the evaluation is open; it must not panic
                    let _ = m.get_residuals();
                    continue;
                }
                let rv = m.get_residuals();
                for i in 0..n {
                    let (a, b) = rv.get_values(i);
                    if !same(a, l.as_ref().unwrap()[i]) || b != 0.0 {
                        return fail(format!("equation {} exposes ({}, {}) instead of ({}, 0)", i, a, b, l.as_ref().unwrap()[i]));
                    }
                }
            }
            Op::Iteratives => {
                if let Some(v) = &x {
                    let g: V = m.get_iteratives().iter().cloned().collect();
                    if !same_v(&g, v) {
                        return fail(format!("{:?} instead of {:?}", g, v));
                    }
                }
            }
            Op::Jacobian => {
                if m.jacobian_provided() != has_jac {
                    return fail(format!("jacobian_provided() is {}", m.jacobian_provided()));
                }
                if let (true, Some(v)) = (has_jac, &x) {
                    let e = (p.j)(v);
                    match m.get_jacobian() {
                        Ok(jv) => {
                            let (a, b) = jv.get_jacobians();
                            for i in 0..n {
                                for j in 0..n {
                                    if !same(a[(i, j)], e[i][j]) || b[(i, j)] != 0.0 {
                                        return fail(format!("derivative ({}, {}) is ({}, {}) instead of ({}, 0)", i, j, a[(i, j)], b[(i, j)], e[i][j]));
                                    }
                                }
                            }
                        }
                        Err(_) => return fail("an error".into()),
                    }
                }
            }
            Op::SetMemory => {
                let mem = m.get_memory();
                m.set_memory(&mem)
            }
            Op::GetMemory => {
                let _ = m.get_memory();
            }
            Op::Static => {
                if m.len_problem() != n {
                    return fail(format!("len_problem() is {}", m.len_problem()));
                }
            }
        }
        let mut h = Hasher64::new();
        h.u(has_jac as u64 + 2 * fresh as u64 + 4 * x.is_some() as u64 + 8 * l.is_some() as u64);
        h.fs(x.as_deref().unwrap_or(&[]));
        h.fs(l.as_deref().unwrap_or(&[]));
        states.insert(h.0);
    }
    // the wrapped function is called at the iterates last set, nowhere else
    for (_, v) in take() {
        if !pts.iter().any(|q| same_v(q, &v)) {
            return Some(format!("{:?}: the function is called at {:?}, which was never set", seq, v));
        }
    }
    None
}

fn adapters(thorough: bool) -> Report {
    let depth = if thorough { 6 } else { 5 };
    let items: Vec<(usize, usize, usize)> = [1usize, 4, 6]
        .iter()
        .flat_map(|p| (0..4).flat_map(move |a| (0..OPS.len()).map(move |o| (*p, a, o))))
        .collect();
    let mut rep = parallel(&items, |(pi, a, first), rep, stop| {
        let p: &'static Pb = &PBS[*pi];
        let mut seq: Vec<usize> = vec![*first];
        let cl = |x: &DVector<f64>| -> DVector<f64> {
            rec('f', x.iter().cloned().collect());
            DVector::from_vec((p.f)(x.as_slice()))
        };
        let cj = |x: &DVector<f64>| -> DMatrix<f64> {
            rec('j', x.iter().cloned().collect());
            let m = (p.j)(x.as_slice());
            DMatrix::from_fn(p.n, p.n, |a, b| m[a][b])
        };
        let ch = case_hash(&format!("{}/{}", p.name, a));
        // every sequence of exactly `depth` operations starting with `first` contains all the shorter ones
        seq.resize(depth, 0);
        let mut states = Default::default();
        loop {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let ops: Vec<Op> = seq.iter().map(|k| OPS[*k]).collect();
            let m = match a {
                0 => sequence(p, UserModelFromFunction::new(p.n, p.ff), false, &ops, &mut states),
                1 => sequence(p, UserModelFromFunctionAndJacobian::new(p.n, p.ff, p.jj), true, &ops, &mut states),
                2 => sequence(p, UserModelFromClosure::new(p.n, &cl), false, &ops, &mut states),
                _ => sequence(p, UserModelFromClosureAndJacobian::new(p.n, &cl, &cj), true, &ops, &mut states),
            };
            rep.runs += 1;
            rep.transitions += depth as u64;
            if let Some(m) = m {
                rep.viol("adapters", &format!("{} adapter {}", p.name, ["function", "function and jacobian", "closure", "closure and jacobian"][*a]), &vec![], m);
                if rep.nviol as usize >= MAX_VIOL {
                    stop.store(true, Ordering::Relaxed)
                }
                break;
            }
            // next sequence, the first operation being fixed
            let mut k = depth - 1;
            loop {
                if k == 0 {
                    break;
                }
                seq[k] += 1;
                if seq[k] < OPS.len() {
                    break;
                }
                seq[k] = 0;
                k -= 1;
            }
            if k == 0 {
                break;
            }
        }
        for s in states {
            rep.states.insert(s ^ ch);
        }
    });
    rep.bounds.push(format!("adapters: every sequence of {} operations among {} on each of the 4 adapters for 3 problems", depth, OPS.len()));
    rep
}

/// functions handed to a resolution through the environment too
pub fn c19(thorough: bool) -> Report {
    let mut rep = formulations(thorough);
    if rep.nviol == 0 {
        rep.merge(static_dynamic(thorough));
    }
    rep.merge(adapters(thorough));
    rep
}

// ------------------------------------------------------------------------------------- C21

struct F1 {
    name: &'static str,
    f: fn(f64) -> f64,
    d: fn(f64) -> f64,
    pf: fn(f64) -> f64,
    pd: fn(f64) -> f64,
    ff: fn(&DVector<f64>) -> DVector<f64>,
    jj: fn(&DVector<f64>) -> DMatrix<f64>,
}

macro_rules! f1 {
    ($m:ident, $f:expr, $d:expr) => {
        mod $m {
            use super::*;
            pub fn pf(x: f64) -> f64 {
                let g: fn(f64) -> f64 = $f;
                g(x)
            }
            pub fn pd(x: f64) -> f64 {
                let g: fn(f64) -> f64 = $d;
                g(x)
            }
            pub fn f(x: f64) -> f64 {
                rec('f', vec![x]);
                pf(x)
            }
            pub fn d(x: f64) -> f64 {
                rec('d', vec![x]);
                pd(x)
            }
            pub fn ff(x: &DVector<f64>) -> DVector<f64> {
                rec('f', vec![x[0]]);
                DVector::from_vec(vec![pf(x[0])])
            }
            pub fn jj(x: &DVector<f64>) -> DMatrix<f64> {
                DMatrix::from_element(1, 1, pd(x[0]))
            }
            pub const P: F1 = F1 { name: stringify!($m), f, d, pf, pd, ff, jj };
        }
    };
}
f1!(square, |x| x * x - 2.0, |x| 2.0 * x);
f1!(cube, |x| x * x * x - 1.0, |x| 3.0 * x * x);
f1!(double_root, |x| (x - 1.0) * (x - 1.0), |x| 2.0 * (x - 1.0));
f1!(line, |x| 3.0 * x - 7.0, |_| 3.0);
f1!(minus_line, |x| -0.25 * x + 1.0, |_| -0.25);
f1!(arctan, |x| x.atan(), |x| 1.0 / (1.0 + x * x));
f1!(no_root, |x| x * x + 1.0, |x| 2.0 * x);
f1!(constant, |_| 4.0, |_| 0.0);
f1!(zero_everywhere, |_| 0.0, |_| 0.0);
f1!(exponential, |x| x.exp() - 3.0, |x| x.exp());
f1!(square_root, |x| x.sqrt() - 2.0, |x| 0.5 / x.sqrt());
f1!(inverse_of, |x| 1.0 / x - 0.5, |x| -1.0 / (x * x));
f1!(steep, |x| 1e6 * (x - 0.125), |_| 1e6);
f1!(shallow, |x| 1e-7 * (x - 5.0), |_| 1e-7);
f1!(wrong_derivative, |x| x * x - 9.0, |x| -x);
f1!(half_derivative, |x| x - 3.0, |_| 2.0);
f1!(jump, |x| if x < 2.0 { -1.0 } else { 1.0 }, |_| 0.5);

const F1S: &[F1] = &[
    square::P, cube::P, double_root::P, line::P, minus_line::P, arctan::P, no_root::P, constant::P, zero_everywhere::P, exponential::P,
    square_root::P, inverse_of::P, steep::P, shallow::P, wrong_derivative::P, half_derivative::P, jump::P,
];

fn near(a: f64, b: f64, scale: f64) -> bool {
    same(a, b) || (a - b).abs() <= 1e-10 * scale
}

/// the next point of the n-dimensional Newton-Raphson resolution
fn nr_next(p: &F1, x: f64, dx: Option<f64>) -> Option<f64> {
    let lim = Lim::free(dx.unwrap_or(0.1), 1e-300, false);
    let fd = [lib_fd(&lim)];
    let its = Iteratives::new(&fd);
    let nm = [NormalizationMethod::Abs];
    let rc = ResidualsConfig::new(&nm, &nm);
    let sp = SolverParameters::new(1, -1.0, 1, lib_meth(Meth::Nr), false);
    let mut rf = RootFinder::new(sp, DVector::from_vec(vec![x]), &its, &rc);
    match dx {
        None => {
            let mut m = UserModelFromFunctionAndJacobian::new(1, p.ff, p.jj);
            let _ = catch_unwind(AssertUnwindSafe(|| rf.solve(&mut m))).ok()?;
        }
        Some(_) => {
            let mut m = UserModelFromFunction::new(1, p.ff);
            let _ = catch_unwind(AssertUnwindSafe(|| rf.solve(&mut m))).ok()?;
        }
    };
    let calls: Vec<f64> = take().iter().filter(|(c, _)| *c == 'f').map(|(_, v)| v[0]).collect();
    let n = calls.len();
    // initial evaluation, column, step: otherwise the resolution stopped (singular)
    if n == 2 + dx.is_some() as usize {
        calls.last().copied()
    } else {
        None
    }
}

/// the points of a whole n-dimensional resolution
fn nr_points(p: &F1, x: f64, max_iter: usize, tol: f64, dx: Option<f64>) -> Vec<f64> {
    let lim = Lim::free(dx.unwrap_or(0.1), 1e-300, false);
    let fd = [lib_fd(&lim)];
    let its = Iteratives::new(&fd);
    let nm = [NormalizationMethod::Abs];
    let rc = ResidualsConfig::new(&nm, &nm);
    let sp = SolverParameters::new(1, tol, max_iter, lib_meth(Meth::Nr), false);
    let mut rf = RootFinder::new(sp, DVector::from_vec(vec![x]), &its, &rc);
    take();
    match dx {
        None => {
            let mut m = UserModelFromFunctionAndJacobian::new(1, p.ff, p.jj);
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _ = rf.solve(&mut m);
            }));
        }
        Some(_) => {
            let mut m = UserModelFromFunction::new(1, p.ff);
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _ = rf.solve(&mut m);
            }));
        }
    };
    take().iter().filter(|(c, _)| *c == 'f').map(|(_, v)| v[0]).collect()
}

/// a reading of the calls of a one-dimensional resolution: which of them are the points of
/// the iteration, and which only repeat a call where the function was just called
#[derive(Clone)]
struct Reading {
    k: usize,
    pts: Vec<f64>,
    seen: Vec<f64>,
    noise: f64,
    // calls before any significant cancellation
    clean: usize,
}

enum Read1 {
    Done(Reading),
    /// the property says nothing further
    Open,
    Bad(usize, String),
}

struct Ask<'a> {
    p: &'a F1,
    fc: &'a [f64],
    max_iter: usize,
    tol: f64,
    dx: Option<f64>,
    failed: HashSet<(usize, usize)>,
}

fn read1(q: &mut Ask, mut r: Reading, next: &mut HashMap<u64, Option<f64>>, rep: &mut Report) -> Read1 {
    let (p, fc, dx) = (q.p, q.fc, q.dx);
    loop {
        let cur = *r.pts.last().unwrap();
        let e = (p.pf)(cur).abs();
        let done = e <= q.tol || r.pts.len() - 1 >= q.max_iter;
        if e.is_nan() {
            // not covered by the property
            rep.feat("NaN");
            return Read1::Open;
        }
        // calling the function again where it was just called is no new point
        let known = |v: f64| same(v, cur) || dx.map_or(false, |d| same(v, cur + d));
        if done {
            let mut k = r.k;
            while k < fc.len() && (known(fc[k]) || fc[..k].last().map_or(false, |q| same(*q, fc[k]))) {
                k += 1;
            }
            if k < fc.len() {
                return Read1::Bad(k, format!("the function is called at {} after the end of the resolution at {} (error {}, {} iterations)", fc[k], cur, e, r.pts.len() - 1));
            }
            return Read1::Done(r);
        }
        if r.k >= fc.len() {
            return Read1::Bad(r.k, format!("stops at {} (error {}, tolerance {}) after {} iterations of {}", cur, e, q.tol, r.pts.len() - 1, q.max_iter));
        }
        let deriv = match dx {
            None => (p.pd)(cur),
            Some(dx) => {
                while r.k + 1 < fc.len() && same(fc[r.k], cur) && !same(fc[r.k], cur + dx) {
                    r.k += 1;
                }
                if !near(fc[r.k], cur + dx, cur.abs() + dx) {
                    return Read1::Bad(r.k, format!("perturbed call at {} instead of {} + {}", fc[r.k], cur, dx));
                }
                r.k += 1;
                r.seen.push(fc[r.k - 1]);
                ((p.pf)(fc[r.k - 1]) - (p.pf)(cur)) / dx
            }
        };
        // the formula speaks of finite values
        if !(deriv.is_finite() && e.is_finite() && (dx.is_none() || (p.pf)(fc[r.k - 1]).is_finite())) {
            rep.feat("not finite");
            return Read1::Open;
        }
        // cancellation in the difference, amplified by the next iterations
        if let Some(dx) = dx {
            r.noise += 4e-16 * ((p.pf)(cur).abs() / (dx * deriv.abs()) + cur.abs() / dx);
            if r.noise < 1e-9 {
                r.clean = r.seen.len() + 1;
            }
        } else {
            r.clean = r.seen.len() + 1;
        }
        if r.k >= fc.len() {
            return Read1::Bad(r.k, format!("stops in the middle of iteration {}", r.pts.len()));
        }
        let step = (p.pf)(cur) / deriv;
        let scale = cur.abs() + step.abs() + dx.unwrap_or(0.0);
        if !step.is_finite() {
            rep.feat("null derivative");
            return Read1::Open;
        }
        // which call is the next point: after calls where the function was just called
        let mut cand = vec![];
        for j in r.k..fc.len() {
            if near(fc[j], cur - step, scale) {
                cand.push(j);
            }
            if !known(fc[j]) || cand.len() == 4 {
                break;
            }
        }
        let it = r.pts.len();
        cand.retain(|j| !q.failed.contains(&(*j, it)));
        let first = match cand.first() {
            None => return Read1::Bad(r.k, format!("iteration {}: {} instead of {} (from {})", it, fc[r.k], cur - step, cur)),
            Some(j) => *j,
        };
        // the n-dimensional resolution from the same point
        let key = {
            let mut h = Hasher64::new();
            h.f(cur);
            h.f(dx.unwrap_or(0.0));
            h.0
        };
        let nn = *next.entry(key).or_insert_with(|| nr_next(p, cur, dx));
        rep.evals += 1;
        rep.distinct.insert(key ^ case_hash(p.name));
        match nn {
            Some(v) => {
                if !near(fc[first], v, scale) && step.abs() < 1e100 {
                    return Read1::Bad(first, format!("iteration {}: {} while the n-dimensional resolution goes to {} (from {})", it, fc[first], v, cur));
                }
            }
            None => {
                rep.feat("n-dimensional resolution stopped by a singular jacobian");
                // a tiny derivative is not invertible for it
                if deriv.abs() > 1e-3 {
                    return Read1::Bad(first, format!("the n-dimensional resolution does not go on from {}", cur));
                }
            }
        }
        let go = |mut r: Reading, j: usize| {
            r.seen.push(fc[j]);
            r.k = j + 1;
            r.pts.push(fc[j]);
            r
        };
        if cand.len() == 1 {
            r = go(r, first);
            continue;
        }
        let mut worst = (0, String::new());
        for j in cand {
            match read1(q, go(r.clone(), j), next, rep) {
                Read1::Bad(k, m) => {
                    q.failed.insert((j, it));
                    if k >= worst.0 {
                        worst = (k, m);
                    }
                }
                other => return other,
            }
        }
        return Read1::Bad(worst.0, worst.1);
    }
}

fn c21_one(p: &F1, x0: f64, max_iter: usize, tol: f64, dx: Option<f64>, next: &mut HashMap<u64, Option<f64>>, rep: &mut Report) -> Result<(), String> {
    take();
    let ret = catch_unwind(|| match dx {
        None => util::solver_one_dimensional::solver1d(x0, p.f, p.d, max_iter, tol),
        Some(dx) => util::solver_one_dimensional::solver1d_fd(x0, p.f, max_iter, tol, dx),
    });
    let calls = take();
    let ret = match ret {
        Ok(x) => x,
        Err(_) if calls.len() > 100_000 => return Err("does not stop".into()),
        Err(_) => return Err(format!("panics after {} calls", calls.len())),
    };
    let fc: Vec<f64> = calls.iter().filter(|(c, _)| *c == 'f').map(|(_, v)| v[0]).collect();
    if fc.is_empty() {
        return Err("the function is never called".into());
    }
    if !same(fc[0], x0) {
        return Err(format!("the first call is at {} instead of {}", fc[0], x0));
    }
    let start = Reading { k: 1, pts: vec![fc[0]], seen: vec![fc[0]], noise: 0.0, clean: 1 };
    let mut q = Ask { p, fc: &fc, max_iter, tol, dx, failed: HashSet::new() };
    let Reading { pts, seen, clean, .. } = match read1(&mut q, start, next, rep) {
        Read1::Done(r) => r,
        Read1::Open => return Ok(()),
        Read1::Bad(_, m) => return Err(m),
    };
    if !same(ret, *pts.last().unwrap()) {
        return Err(format!("returns {} while the last point is {}", ret, pts.last().unwrap()));
    }
    rep.feat(if (p.pf)(ret).abs() <= tol { "within tolerance" } else { "budget used" });
    // the whole resolution, on its beginning when it is long (rounding)
    let whole = nr_points(p, x0, max_iter, tol, dx);
    let q = whole.len().min(seen.len()).min(5).min(clean);
    for i in 0..q {
        if !same(whole[i], seen[i]) && (whole[i] - seen[i]).abs() > 1e-5 * (whole[i].abs() + seen[i].abs() + 1e-3) {
            return Err(format!("call {}: at {} while the n-dimensional resolution evaluates {}", i, seen[i], whole[i]));
        }
    }
    if clean == seen.len() && q < 5 && whole.len() != seen.len() && pts.iter().all(|x| {
        let (f, d) = ((p.pf)(*x), (p.pd)(*x));
        // neither singular nor decided by the rounding
        d.abs() > 1e-3 && (f.abs() - tol).abs() > 1e-6 * (f.abs() + tol + d.abs() * x.abs())
    }) {
        return Err(format!("{} calls while the n-dimensional resolution makes {}", seen.len(), whole.len()));
    }
    rep.runs += 1;
    rep.transitions += pts.len() as u64;
    Ok(())
}

pub fn c21(thorough: bool) -> Report {
    let x0s: Vec<f64> = if thorough {
        let mut v = vec![];
        for m in [0.0, 0.01, 0.1, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 7.0, 10.0, 33.0, 100.0, 1e4, 1e8] {
            v.push(m);
            v.push(-m);
        }
        v
    } else {
        vec![0.0, 0.25, 1.0, -1.0, 1.5, 2.0, -2.5, 3.0, 5.0, -7.0, 33.0, 1e4]
    };
    let tols = [0.0, 1e-12, 1e-6, 1e-3, 0.1, 1.0, 2.0, 7.0];
    let iters: Vec<usize> = if thorough { (0..=12).chain([20, 50, 200]).collect() } else { vec![0, 1, 2, 3, 5, 8, 50] };
    let dxs = [None, Some(1e-8), Some(1e-4), Some(0.25), Some(1.0)];
    let items: Vec<usize> = (0..F1S.len()).collect();
    let mut rep = parallel(&items, |pi, rep, stop| {
        let p = &F1S[*pi];
        let mut next = HashMap::new();
        for x0 in &x0s {
            for tol in &tols {
                for mi in &iters {
                    for dx in &dxs {
                        rep.cases += 1;
                        if let Err(m) = c21_one(p, *x0, *mi, *tol, *dx, &mut next, rep) {
                            rep.viol("one-dimensional", &format!("{} from {} tol {} max_iter {} dx {:?}", p.name, x0, tol, mi, dx), &vec![], m);
                            if rep.nviol as usize >= MAX_VIOL {
                                stop.store(true, Ordering::Relaxed);
                                return;
                            }
                        }
                    }
                }
            }
        }
        rep.sample(format!("{}: {} resolutions", p.name, x0s.len() * tols.len() * iters.len() * dxs.len()));
    });
    let d: Vec<u64> = rep.distinct.iter().cloned().collect();
    rep.states.extend(d);
    rep.bounds.push(format!(
        "{} equations x {} initial guesses x {} tolerances x {} budgets x (derivative or {} perturbations)",
        F1S.len(), x0s.len(), tols.len(), iters.len(), dxs.len() - 1
    ));
    rep
}
