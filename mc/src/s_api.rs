//! C24: the descriptions of errors and settings; C25: the jacobian object; C26: the published test problems.

use crate::base::*;
use crate::cases::*;
use crate::env::*;
use crate::explore::*;
use crate::run::*;
use crate::s_funcs::product_idx;
use nalgebra::allocator::Allocator;
use nalgebra::{DMatrix, DVector, DefaultAllocator, Dim, DimMin, Dyn, OMatrix, OVector, U1};
use newton_rootfinder as nrf;
use nrf::errors::{SolverError, SolverInternalError};
use nrf::iteratives::*;
use nrf::model::{Model, ModelError};
use nrf::residuals::*;
use nrf::solver::*;
use std::collections::BTreeMap;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::Mutex;

const INF: f64 = f64::INFINITY;

// ------------------------------------------------------------------ C24: errors

/// an error of the user with any text
struct Said(String);
impl fmt::Display for Said {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Debug for Said {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Said({})", self.0.len())
    }
}
impl std::error::Error for Said {}

/// a model that fails, or not, as it is told
struct Tell<D: Dim>
where
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    n: D,
    x: OVector<f64, D>,
    /// 0: none, 1: inaccurate, 2: unusable, for the evaluations and the jacobian
    eval: u8,
    jac: u8,
    text: String,
    jacobian: OMatrix<f64, D, D>,
}

impl<D: Dim> Model<D> for Tell<D>
where
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    type InaccurateValuesError = Said;
    type UnusableValuesError = Said;
    fn len_problem(&self) -> usize {
        self.n.value()
    }
    fn set_iteratives(&mut self, x: &OVector<f64, D>) {
        self.x = x.clone();
    }
    fn get_iteratives(&self) -> OVector<f64, D> {
        self.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, D>> {
        fail(self.eval, &self.text)
    }
    fn get_residuals(&self) -> ResidualsValues<D> {
        // affine with the right member in it
        let l = &self.jacobian * &self.x;
        let r = OVector::<f64, D>::from_fn_generic(self.n, U1, |i, _| 1.0 + i as f64);
        ResidualsValues::new(l, r)
    }
    fn jacobian_provided(&self) -> bool {
        true
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<D>, ModelError<Self, D>> {
        fail(self.jac, &self.text)?;
        Ok(JacobianValues::new(
            self.jacobian.clone(),
            OMatrix::<f64, D, D>::zeros_generic(self.n, self.n),
        ))
    }
}

fn fail<D: Dim>(k: u8, text: &str) -> Result<(), ModelError<Tell<D>, D>>
where
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    match k {
        0 => Ok(()),
        1 => Err(ModelError::InaccurateValuesError(Said(text.into()))),
        _ => Err(ModelError::UnusableValuesError(Said(text.into()))),
    }
}

/// what an error is, apart from the text of the model
const KINDS: [&str; 8] = [
    "non convergence",
    "failed final evaluation",
    "initial evaluation",
    "evaluation, unusable",
    "evaluation, inaccurate",
    "jacobian, unusable",
    "jacobian, inaccurate",
    "singular jacobian",
];

fn make<D: Dim>(kind: usize, t: &str) -> SolverError<Tell<D>, D>
where
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    let s = || Said(t.into());
    match kind {
        0 => SolverError::NonConvergenceError,
        1 => SolverError::FinalEvaluationError,
        2 => SolverError::ModelInitialEvaluationError(t.into()),
        3 => SolverError::ModelEvaluationError(ModelError::UnusableValuesError(s())),
        4 => SolverError::ModelEvaluationError(ModelError::InaccurateValuesError(s())),
        5 => SolverError::JacobianError(SolverInternalError::InvalidJacobianError(ModelError::UnusableValuesError(s()))),
        6 => SolverError::JacobianError(SolverInternalError::InvalidJacobianError(ModelError::InaccurateValuesError(s()))),
        _ => SolverError::JacobianError(SolverInternalError::InvalidJacobianInverseError),
    }
}

fn carries(kind: usize) -> bool {
    (2..7).contains(&kind)
}

fn inner<D: Dim>(e: &SolverError<Tell<D>, D>) -> Option<(String, String)>
where
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    match e {
        SolverError::ModelEvaluationError(m) => Some((format!("{}", m), format!("{:?}", m))),
        SolverError::JacobianError(i) => Some((format!("{}", i), format!("{:?}", i))),
        _ => None,
    }
}

fn c24_errors(rep: &mut Report) {
    let long = "x".repeat(5000);
    let texts = [
        "", " ", "plain", "{}", "{0:?} %s \\n", "two\nlines", "accents éà中🦀", "Convergence not reached", "Non invertible jacobian",
        "Initial model evaluation failed: ", "0", "NaN", "\u{0}\t\r", "trailing  ", &long,
    ];
    // the text of an error without the text of the model, per kind
    for debug in [false, true] {
        let show = |k: usize, t: &str, stat: bool| -> (String, Option<(String, String)>) {
            if stat {
                let e = make::<nalgebra::Const<2>>(k, t);
                (if debug { format!("{:?}", e) } else { format!("{}", e) }, inner(&e))
            } else {
                let e = make::<Dyn>(k, t);
                (if debug { format!("{:?}", e) } else { format!("{}", e) }, inner(&e))
            }
        };
        let mark = "\u{1}mark\u{2}";
        let frames: Vec<String> = (0..KINDS.len()).map(|k| show(k, mark, false).0).collect();
        for k in 0..KINDS.len() {
            rep.check("described", KINDS[k], frames[k].contains(mark) == carries(k), || {
                format!("debug {}: the description {:?} of a {} for an error of the model {:?}", debug, frames[k], KINDS[k], mark)
            });
            rep.check("described", KINDS[k], !frames[k].trim().is_empty(), || format!("debug {}: nothing said of a {}", debug, KINDS[k]));
            for q in 0..k {
                rep.check("described", KINDS[k], frames[k] != frames[q], || {
                    format!("debug {}: a {} and a {} are both described by {:?}", debug, KINDS[k], KINDS[q], frames[k])
                });
            }
            for t in texts {
                rep.cases += 1;
                let (a, i) = show(k, t, false);
                let (b, _) = show(k, t, true);
                rep.check("described", KINDS[k], a == b, || {
                    format!("debug {}: a {} is {:?} for a dynamic model, {:?} for a static one", debug, KINDS[k], a, b)
                });
                rep.check("described", KINDS[k], a == frames[k].replace(mark, t), || {
                    format!("debug {}: a {} with the model's error {:?} is described by {:?} (with another text: {:?})", debug, KINDS[k], t, a, frames[k])
                });
                if let Some((d, g)) = i {
                    rep.check("described", KINDS[k], !carries(k) || (d.contains(t) && g.contains(t)), || {
                        format!("the error in a {} is described by {:?} and {:?} for {:?}", KINDS[k], d, g, t)
                    });
                }
                let mut h = Hasher64::new();
                h.u(case_hash(&a) ^ k as u64);
                rep.distinct.insert(h.0);
            }
        }
    }
    rep.bounds.push(format!("errors: {} kinds x {} texts of the model, displayed and debugged, dynamic and static models", KINDS.len(), texts.len()));
}

/// which kind a result is, with the text of the model it carries
fn kind_of(o: &Outcome) -> Option<(usize, String)> {
    let t = |r: &Res, id: usize| match r {
        Res::Inacc => format!("{}", EInacc(id)),
        _ => format!("{}", EUnus(id)),
    };
    Some(match o {
        Outcome::NonConv => (0, String::new()),
        Outcome::Final => (1, String::new()),
        Outcome::Init(s) => (2, s.clone()),
        Outcome::ModelEval(Res::Inacc, id) => (4, t(&Res::Inacc, *id)),
        Outcome::ModelEval(r, id) => (3, t(r, *id)),
        Outcome::JacErr(Res::Inacc, id) => (6, t(&Res::Inacc, *id)),
        Outcome::JacErr(r, id) => (5, t(r, *id)),
        Outcome::JacInv => (7, String::new()),
        _ => return None,
    })
}

fn c24_runs(thorough: bool) -> Report {
    let t = thorough;
    let mut c = vec![];
    c.extend(product(&["sq1", "cpl2"], &[V_BASE, V_MIXA, V_B0, V_LOOSE, V_TOL0], ALL_M, BOTH, BOTH, FULL, 1));
    c.extend(product(&["atan1", "cpl2"], &[V_BASE, V_STEPS], ALL_M, BOTH, BOTH, SMALL, if t { 3 } else { 2 }));
    c.extend(product(&["cpl3", "noroot1", "noroot2"], &[V_LONG, V_MIXB], ALL_M, BOTH, BOTH, SMALL, if t { 2 } else { 1 }));
    for mood in MOODS {
        c.extend(product(&["cpl2"], &[V_LOOSE, V_MIXB], ALL_M, BOTH, BOTH, *mood, if t { 2 } else { 1 }));
    }
    let dims = dims(false);
    c.extend(product(&dims, &[V_MIXB, V_LONG], ALL_M, BOTH, BOTH, SMALL, 0));
    c.sort_by(|a, b| a.cfg.id.cmp(&b.cfg.id).then(b.depth.cmp(&a.depth)));
    c.dedup_by(|a, b| a.cfg.id == b.cfg.id);
    c.sort_by_key(|k| std::cmp::Reverse((k.depth, k.cfg.alpha.e.len())));
    // the same kind reads the same whatever the problem: (kind, debug) -> text with the model's own replaced
    let frames: Mutex<BTreeMap<(usize, bool), String>> = Mutex::new(BTreeMap::new());
    let mut rep = parallel(&c, |case, rep, stop| {
        let ch = case_hash(&case.cfg.id);
        explore_case(case, stop, &mut |script, r| {
            let v = crate::monitor::monitor(&case.cfg, r);
            rep.runs += 1;
            rep.transitions += new_points(script, r);
            for s in &v.states {
                rep.state(s ^ ch);
            }
            rep.feat(r.outcome.feat());
            if let Some((k, t)) = kind_of(&r.outcome) {
                for (debug, said) in [(false, &r.display), (true, &r.debug)] {
                    let mut bad = |m: String| {
                        rep.viol("described", &case.cfg.id, script, format!(
                            "debug {}: {} is described by {:?}: {} | answers {}", debug, KINDS[k], said, m, describe_script(&case.cfg, script, r)
                        ));
                        if rep.nviol as usize >= MAX_VIOL {
                            stop.store(true, Ordering::Relaxed);
                        }
                    };
                    if carries(k) && (t.is_empty() || !said.contains(&t)) {
                        bad(format!("without the error of the model {:?}", t));
                        continue;
                    }
                    let frame = if t.is_empty() { said.clone() } else { said.replace(&t, "\u{1}") };
                    let mut f = frames.lock().unwrap();
                    match f.get(&(k, debug)) {
                        Some(x) if *x == frame => {}
                        Some(x) => bad(format!("another {} is described by {:?}", KINDS[k], x)),
                        None => {
                            if let Some(((q, _), _)) = f.iter().find(|((_, d), x)| *d == debug && **x == frame) {
                                bad(format!("as a {}", KINDS[*q]));
                            }
                            f.insert((k, debug), frame);
                        }
                    }
                }
            }
        });
    });
    for ((k, debug), f) in frames.lock().unwrap().iter() {
        if !debug {
            rep.sample(format!("{}: {:?}", KINDS[*k], f));
        }
    }
    rep.bounds.push(format!("{} configurations, every script of at most {} deviations: the description of every result", c.len(), if t { 3 } else { 2 }));
    rep
}

// ------------------------------------------------------------------ C24: settings

fn tokens(s: &str) -> Vec<String> {
    s.split(|c: char| c.is_whitespace() || "|,()[]{}:=;+".contains(c)).filter(|t| !t.is_empty()).map(|t| t.to_string()).collect()
}

/// the numbers written in a text
fn numbers(s: &str) -> Vec<f64> {
    tokens(s).iter().filter_map(|t| t.parse::<f64>().ok()).collect()
}

fn holds(s: &str, wanted: &[f64]) -> bool {
    let mut have = numbers(s);
    wanted.iter().all(|w| match have.iter().position(|h| h == w || h.is_nan() && w.is_nan()) {
        Some(i) => {
            have.remove(i);
            true
        }
        None => false,
    })
}

const METHODS: [ResolutionMethod; 10] = {
    use QuasiNewtonMethod::*;
    use UpdateQuasiNewtonMethod::*;
    [
        ResolutionMethod::NewtonRaphson,
        ResolutionMethod::QuasiNewton(StationaryNewton),
        ResolutionMethod::QuasiNewton(JacobianUpdate(BroydenFirstMethod)),
        ResolutionMethod::QuasiNewton(JacobianUpdate(BroydenSecondMethod)),
        ResolutionMethod::QuasiNewton(JacobianUpdate(GreenstadtFirstMethod)),
        ResolutionMethod::QuasiNewton(JacobianUpdate(GreenstadtSecondMethod)),
        ResolutionMethod::QuasiNewton(InverseJacobianUpdate(BroydenFirstMethod)),
        ResolutionMethod::QuasiNewton(InverseJacobianUpdate(BroydenSecondMethod)),
        ResolutionMethod::QuasiNewton(InverseJacobianUpdate(GreenstadtFirstMethod)),
        ResolutionMethod::QuasiNewton(InverseJacobianUpdate(GreenstadtSecondMethod)),
    ]
};

const NORMS: [NormalizationMethod; 3] = [NormalizationMethod::Abs, NormalizationMethod::Rel, NormalizationMethod::Adapt];

fn c24_settings(rep: &mut Report) {
    // (text, what it describes): the same text for two settings is a violation
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let mut unique = |rep: &mut Report, what: &str, text: String, key: String| {
        rep.cases += 1;
        rep.distinct.insert(case_hash(&text));
        if let Some(k) = seen.get(&text) {
            let ok = *k == key;
            rep.check("described", what, ok, || format!("{} and {} are both described by {:?}", k, key, text));
        } else {
            rep.evals += 1;
            seen.insert(text, key);
        }
    };
    let floats = [1.0, 0.5, 1e-6, 1e-12, 123456.75, 1e20, 5e-8, 0.1, 1.0 / 3.0, 2e-300, INF];
    for m in METHODS {
        unique(rep, "method", format!("method {}", m), format!("method {:?}", m));
        unique(rep, "method", format!("method debug {:?}", m), format!("method {:?}", m));
        for n in [0usize, 1, 2, 10, 123] {
            for it in [0usize, 1, 50, 100_000] {
                for tol in floats {
                    for damping in [false, true] {
                        let p = SolverParameters::new(n, tol, it, m, damping);
                        let (a, b) = (format!("{}", p), format!("{:?}", p));
                        for (s, name) in [(&a, "display"), (&b, "debug")] {
                            rep.check("described", "parameters", holds(s, &[n as f64, it as f64, tol]) && s.contains(&damping.to_string()), || {
                                format!("{} of size {} tolerance {:e} budget {} damping {}: {}", name, n, tol, it, damping, s)
                            });
                        }
                        rep.check("described", "parameters", a.contains(&m.to_string()), || format!("{:?} is not in {}", m, a));
                        unique(rep, "parameters", a, format!("parameters {} {:e} {} {} {:?}", n, tol, it, damping, m));
                        unique(rep, "parameters", b, format!("parameters {} {:e} {} {} {:?}", n, tol, it, damping, m));
                    }
                }
            }
        }
    }
    // unknowns
    let bounds = [-INF, -1e20, -2.5, -1e-9, 0.0, 0.3, 1.0, 1e6, INF];
    let steps = [1e-9, 0.5, 2.0, 1e20, INF];
    let dx = [5e-8, 0.25, 3.0];
    for a in steps {
        for r in steps {
            for (i, lo) in bounds.iter().enumerate() {
                for hi in &bounds[i + 1..] {
                    let p = IterativeParams::new(a, r, *lo, *hi);
                    let s = format!("{}", p);
                    rep.check("described", "unknown", numbers(&s) == vec![a, r, *lo, *hi], || format!("{:?} is displayed as {}", p, s));
                    unique(rep, "unknown", s, format!("{:?}", p));
                    for u in dx {
                        for w in dx {
                            for m in [PerturbationMethod::Max, PerturbationMethod::Sum] {
                                let f = IterativeParamsFD::new(a, r, *lo, *hi, u, w, m);
                                let s = format!("{}", f);
                                rep.check("described", "unknown", numbers(&s) == vec![a, r, *lo, *hi, u, w] && s.contains(&m.to_string()), || {
                                    format!("{:?} is displayed as {}", f, s)
                                });
                                if a == 0.5 || r == 2.0 {
                                    unique(rep, "unknown", s, format!("{:?}", f));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    unique(rep, "perturbation", format!("perturbation {}", PerturbationMethod::Max), "Max".into());
    unique(rep, "perturbation", format!("perturbation {}", PerturbationMethod::Sum), "Sum".into());
    for k in NORMS {
        unique(rep, "normalization", format!("normalization {}", k), format!("{:?}", k));
    }
    // lists of unknowns and of equations, each in its own line
    for n in 1..=4usize {
        product_idx(&vec![3; n], |ix| {
            let mk = |i: usize, k: usize| [(0.5 + i as f64, 2.0), (INF, 0.25), (7.0, 0.125)][k];
            let v: Vec<IterativeParams> = ix.iter().enumerate().map(|(i, k)| IterativeParams::new(mk(i, *k).0, mk(i, *k).1, -1.0 - i as f64, 2.0 + *k as f64)).collect();
            let f: Vec<IterativeParamsFD> = v.iter().enumerate().map(|(i, p)| {
                IterativeParamsFD::new(p.get_max_step_abs(), p.get_max_step_rel(), p.get_min_value(), p.get_max_value(), 0.5 + i as f64, 0.75, PerturbationMethod::Sum)
            }).collect();
            let s = format!("{}", Iteratives::new(&v));
            let g = format!("{}", Iteratives::new(&f));
            for i in 0..n {
                rep.check("described", "unknowns", s.lines().any(|l| numbers(l).first() == Some(&(i as f64)) && l.contains(&v[i].to_string())), || {
                    format!("unknown {} {:?} is not in {}", i, v[i], s)
                });
                rep.check("described", "unknowns", g.lines().any(|l| numbers(l).first() == Some(&(i as f64)) && l.contains(&f[i].to_string())), || {
                    format!("unknown {} {:?} is not in {}", i, f[i], g)
                });
            }
            unique(rep, "unknowns", s, format!("{:?}", v));
            unique(rep, "unknowns", g, format!("{:?}", f));
            let st: Vec<NormalizationMethod> = ix.iter().map(|k| NORMS[*k]).collect();
            product_idx(&vec![3; n], |jx| {
                let up: Vec<NormalizationMethod> = jx.iter().map(|k| NORMS[*k]).collect();
                let s = format!("{}", ResidualsConfig::new(&st, &up));
                unique(rep, "equations", s, format!("{:?} {:?}", st, up));
            });
        });
    }
    // values of the equations
    let vals = [0.0, -0.0, 1.0, -2.5, 1e-9, 1e20, 1.0 / 3.0, f64::NAN, INF, -INF];
    for a in vals {
        for b in vals {
            for c in vals {
                let r = ResidualsValues::new(DVector::from_vec(vec![a, c]), DVector::from_vec(vec![b, 4.0]));
                let s = format!("{}", r);
                let same = |x: &[f64], y: &[f64]| x.len() == y.len() && x.iter().zip(y).all(|(u, w)| u == w || u.is_nan() && w.is_nan());
                let lines: Vec<Vec<f64>> = s.lines().map(numbers).filter(|v| v.len() >= 2).collect();
                rep.check(
                    "described",
                    "values",
                    lines.len() == 2 && lines.iter().zip([[0.0, a, b], [1.0, c, 4.0]]).all(|(l, w)| same(l, &w)),
                    || format!("the members {} = {} and {} = 4 are displayed as {}", a, b, c, s),
                );
                for width in [0usize, 5, 30] {
                    let e = r.get_values_str_eq(0, width);
                    rep.check("described", "values", same(&numbers(&e), &[a, b]) && e.contains('='), || {
                        format!("the members {} = {} are written {:?} with a width of {}", a, b, e, width)
                    });
                }
            }
        }
    }
    rep.bounds.push(format!("settings: {} distinct descriptions of parameters, methods, limits, perturbations, normalizations and values", seen.len()));
}

pub fn c24_described(thorough: bool) -> Report {
    let mut rep = Report::default();
    c24_errors(&mut rep);
    c24_settings(&mut rep);
    rep.merge(c24_runs(thorough));
    rep
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug)]
enum Op {
    /// update with an exact / approximated matrix
    Exact(Mx),
    Approx(Mx),
    Inverse(Mx),
    Force,
    Forget,
    /// quasi-Newton updates of the matrix, of the inverse: method, move, change of residuals, residuals
    Quasi(u8, V, V, V),
    QuasiInv(u8, V, V, V),
    /// evaluation with the jacobian of the model: its failure (0: none), the jacobian
    Analytic(u8, Mx),
    Differences(u8, Mx),
}

fn ops(n: usize) -> Vec<Op> {
    let id: Mx = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
    let reg: Mx = (0..n).map(|i| (0..n).map(|j| if i == j { 2.0 + i as f64 } else { 0.5 + 0.25 * (i as f64) - 0.125 * (j as f64) }).collect()).collect();
    // needs a permutation of the rows when n > 1
    let rev: Mx = (0..n).map(|i| (0..n).map(|j| if i + j == n - 1 { -1.5 - i as f64 } else { 0.0 }).collect()).collect();
    let sing: Mx = (0..n).map(|i| (0..n).map(|j| if i == n - 1 { 0.0 } else { 1.0 + (i * j) as f64 }).collect()).collect();
    let s: V = (0..n).map(|i| 0.5 - 0.75 * i as f64).collect();
    let y: V = (0..n).map(|i| -1.0 + 0.4 * i as f64).collect();
    let f: V = (0..n).map(|i| 0.3 + 0.2 * i as f64).collect();
    let mut o = vec![
        Op::Exact(reg.clone()),
        Op::Exact(rev.clone()),
        Op::Exact(sing.clone()),
        Op::Approx(reg.clone()),
        Op::Approx(rev.clone()),
        Op::Approx(sing.clone()),
        Op::Inverse(reg.clone()),
        Op::Inverse(id.clone()),
        Op::Force,
        Op::Forget,
        Op::Analytic(0, rev.clone()),
        Op::Analytic(0, sing.clone()),
        Op::Analytic(1, reg.clone()),
        Op::Analytic(2, reg.clone()),
        Op::Differences(0, reg.clone()),
        Op::Differences(0, sing),
        Op::Differences(1, rev),
        Op::Differences(2, reg),
    ];
    for k in 0..4 {
        o.push(Op::Quasi(k, s.clone(), y.clone(), f.clone()));
        o.push(Op::QuasiInv(k, s.clone(), y.clone(), f.clone()));
    }
    o
}

const UM: [UpdateQuasiNewtonMethod; 4] = [
    UpdateQuasiNewtonMethod::BroydenFirstMethod,
    UpdateQuasiNewtonMethod::BroydenSecondMethod,
    UpdateQuasiNewtonMethod::GreenstadtFirstMethod,
    UpdateQuasiNewtonMethod::GreenstadtSecondMethod,
];

fn close(a: &Mx, b: &Mx, tol: f64) -> bool {
    a.len() == b.len() && (0..a.len()).all(|i| (0..a.len()).all(|j| (a[i][j] - b[i][j]).abs() <= tol * (1.0 + mat_norm(b))))
}

/// one sequence on a new object; (message if it is wrong, how many operations were applied)
fn sequence<D>(d: D, ops: &[Op], seq: &[usize], rep: &mut Report) -> (Option<String>, usize)
where
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let n = d.value();
    let om = |m: &Mx| OMatrix::<f64, D, D>::from_fn_generic(d, d, |i, j| m[i][j]);
    let ov = |v: &V| OVector::<f64, D>::from_fn_generic(d, U1, |i, _| v[i]);
    let mx = |m: &Option<OMatrix<f64, D, D>>| -> Option<Mx> { m.as_ref().map(|m| (0..n).map(|i| (0..n).map(|j| m[(i, j)]).collect()).collect()) };
    let mut o: JacobianMatrix<D> = JacobianMatrix::new();
    // what is known of it
    let (mut mat, mut inv): (Option<Mx>, Option<Mx>) = (None, None);
    let (mut compute, mut approx) = (true, false);
    if o.get_jacobian().is_some() || o.get_inverse().is_some() || !o.compute_jacobian() || o.is_jacobian_approximated() {
        return (Some("a new object does not ask for a first jacobian".into()), 0);
    }
    for (k, op) in seq.iter().enumerate() {
        let op = &ops[*op];
        let err = |m: String| (Some(format!("operation {} ({:?}): {}", k, op, m)), k + 1);
        // (accepted or not, expected matrix and inverse when it is known, expected flags)
        let want_ok: bool;
        let mut want_mat: Option<Mx> = None;
        let mut want_inv: Option<Mx> = None;
        let mut exact_bits = false;
        let want_approx;
        let ok: bool;
        let regular = |m: &Mx| good_inverse(m, 1e8).is_some();
        match op {
            Op::Exact(m) | Op::Approx(m) => {
                ok = if matches!(op, Op::Exact(_)) { o.update_jacobian_with_exact_value(om(m)).is_ok() } else { o.update_jacobian_with_approximated_value(om(m)).is_ok() };
                want_ok = regular(m);
                want_mat = Some(m.clone());
                exact_bits = true;
                want_approx = matches!(op, Op::Approx(_));
            }
            Op::Inverse(m) => {
                o.update_inverse(om(m));
                ok = true;
                want_ok = true;
                want_inv = Some(m.clone());
                exact_bits = true;
                want_approx = true;
            }
            Op::Force => {
                o.force_jacobian_computation();
                if mx(o.get_jacobian()) != mat || mx(o.get_inverse()) != inv || o.is_jacobian_approximated() != approx {
                    return err("the matrices change".into());
                }
                if !o.compute_jacobian() {
                    return err("no jacobian is asked for".into());
                }
                compute = true;
                continue;
            }
            Op::Forget => {
                o.invalidate_jacobian();
                if o.get_jacobian().is_some() || o.get_inverse().is_some() {
                    return err("a matrix is left".into());
                }
                mat = None;
                inv = None;
                if compute && !o.compute_jacobian() {
                    return err("the jacobian is not asked for any more".into());
                }
                compute = o.compute_jacobian();
                approx = o.is_jacobian_approximated();
                continue;
            }
            Op::Quasi(q, s, y, f) => {
                let (Some(j), Some(h)) = (&mat, &inv) else { return (None, k) };
                let Some((jn, _)) = crate::s_funcs::reference_update(*q, j, h, s, y, f) else { return (None, k) };
                if good_inverse(&jn, 1e8).is_none() {
                    return (None, k);
                }
                ok = approximate_jacobian(&mut o, UM[*q as usize], &ov(s), &ov(y), &ov(f)).is_ok();
                want_ok = true;
                want_mat = Some(jn);
                want_approx = true;
            }
            Op::QuasiInv(q, s, y, f) => {
                let Some(h) = &inv else { return (None, k) };
                let Some((j, _)) = good_inverse(h, 1e8) else { return (None, k) };
                let Some((_, hn)) = crate::s_funcs::reference_update(*q, &j, h, s, y, f) else { return (None, k) };
                if !all_finite(&hn) || mat_norm(&hn) > 1e6 {
                    return (None, k);
                }
                approximate_inv_jacobian(&mut o, UM[*q as usize], &ov(s), &ov(y), &ov(f));
                ok = true;
                want_ok = true;
                want_inv = Some(hn);
                want_approx = true;
            }
            Op::Analytic(fails, m) | Op::Differences(fails, m) => {
                let fd = matches!(op, Op::Differences(..));
                let mut model = Tell {
                    n: d,
                    x: OVector::<f64, D>::from_fn_generic(d, U1, |i, _| 1.0 + 0.5 * i as f64),
                    eval: if fd { *fails } else { 0 },
                    jac: if fd { 0 } else { *fails },
                    text: "told".into(),
                    jacobian: om(m),
                };
                let norms = vec![NormalizationMethod::Abs; n];
                let rc = ResidualsConfig::new(&norms, &norms);
                let r = if fd {
                    let p = vec![IterativeParamsFD::new(INF, INF, -INF, INF, 0.5, 0.25, PerturbationMethod::Sum); n];
                    evaluate_jacobian_from_finite_difference(&mut o, &mut model, &Iteratives::new(&p), &rc)
                } else {
                    evaluate_jacobian_from_analytical_function(&mut o, &mut model, &rc)
                };
                let failed = *fails == 2 || *fails == 1 && !fd;
                let verdict = match &r {
                    Ok(()) => 0,
                    Err(SolverInternalError::InvalidJacobianError(ModelError::InaccurateValuesError(_))) => 1,
                    Err(SolverInternalError::InvalidJacobianError(ModelError::UnusableValuesError(_))) => 2,
                    Err(SolverInternalError::InvalidJacobianInverseError) => 3,
                };
                let expected = if failed {
                    *fails
                } else if regular(m) {
                    0
                } else {
                    3
                };
                if verdict != expected {
                    return err(format!("verdict {} instead of {} (0: accepted, 1: inaccurate, 2: unusable, 3: singular)", verdict, expected));
                }
                if failed {
                    // no stale jacobian passes for the new one: either none or the previous one, still the same
                    let (a, b) = (mx(o.get_jacobian()), mx(o.get_inverse()));
                    if !(a.is_none() && b.is_none() || fd && a == mat && b == inv) {
                        return err(format!("after its failure the object holds {:?} {:?}", a, b));
                    }
                    if compute && !o.compute_jacobian() {
                        return err("the jacobian is not asked for any more".into());
                    }
                    if (a.is_some() || b.is_some()) && o.is_jacobian_approximated() != approx {
                        return err("what is left changes from exact to approximated or back".into());
                    }
                    mat = a;
                    inv = b;
                    compute = o.compute_jacobian();
                    approx = o.is_jacobian_approximated();
                    continue;
                }
                ok = expected == 0;
                want_ok = ok;
                want_mat = Some(m.clone());
                exact_bits = !fd;
                want_approx = false;
            }
        }
        if ok != want_ok {
            return err(if ok { "a singular matrix is accepted".into() } else { "a regular matrix is said singular".into() });
        }
        let (a, b) = (mx(o.get_jacobian()), mx(o.get_inverse()));
        if !ok {
            if a.is_some() || b.is_some() {
                return err(format!("after its refusal the object holds {:?} {:?}", a, b));
            }
            if compute && !o.compute_jacobian() {
                return err("the jacobian is not asked for any more".into());
            }
            compute = o.compute_jacobian();
            approx = o.is_jacobian_approximated();
        } else {
            if o.is_jacobian_approximated() != want_approx {
                return err(format!("is_jacobian_approximated is {}", !want_approx));
            }
            approx = want_approx;
            if let Some(m) = &want_mat {
                let Some(a) = &a else { return err("no jacobian".into()) };
                let Some(b) = &b else { return err("no inverse".into()) };
                if exact_bits && a != m || !close(a, m, 1e-9) {
                    return err(format!("the jacobian is {:?} instead of {:?}", a, m));
                }
                let id = mat_mul(a, b);
                let one: Mx = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
                if !close(&id, &one, 1e-7) {
                    return err(format!("the inverse {:?} is not the one of {:?}", b, a));
                }
                if o.compute_jacobian() {
                    return err("a jacobian is still asked for".into());
                }
                compute = false;
            } else if let Some(h) = &want_inv {
                let Some(b) = &b else { return err("no inverse".into()) };
                if exact_bits && b != h || !close(b, h, 1e-9) {
                    return err(format!("the inverse is {:?} instead of {:?}", b, h));
                }
                if a.is_some() {
                    return err("a jacobian that is not the one of this inverse".into());
                }
                if compute && !o.compute_jacobian() {
                    return err("the jacobian is not asked for any more".into());
                }
                compute = o.compute_jacobian();
            }
        }
        mat = a;
        inv = b;
        let _ = (format!("{}", o), format!("{:?}", o));
        rep.transitions += 1;
        let mut h = Hasher64::new();
        h.u(n as u64);
        for m in [&mat, &inv] {
            h.u(m.is_some() as u64);
            for r in m.iter().flat_map(|m| m.iter()) {
                h.fs(r);
            }
        }
        h.u(compute as u64 * 2 + approx as u64);
        rep.state(h.0);
    }
    (None, seq.len())
}

pub fn c25(thorough: bool) -> Report {
    // (dimension, static, length of the sequences)
    let mut items: Vec<(usize, bool, usize, usize)> = vec![];
    for (n, stat, depth) in [(1, false, 4), (2, false, 4), (2, true, 4), (3, false, 3), (5, false, 2), (9, false, 2)] {
        let depth = depth + if thorough { 1 } else { 0 };
        for first in 0..ops(n).len() {
            items.push((n, stat, depth, first));
        }
    }
    items.sort_by_key(|i| std::cmp::Reverse((i.2, i.0)));
    let mut rep = parallel(&items, |(n, stat, depth, first), rep, stop| {
        let list = ops(*n);
        let mut stack = vec![vec![*first]];
        while let Some(seq) = stack.pop() {
            if stop.load(Ordering::Relaxed) {
                return;
            }
            let (bad, done) = catch_unwind(AssertUnwindSafe(|| {
                if *stat {
                    sequence(nalgebra::Const::<2>, &list, &seq, rep)
                } else {
                    sequence(Dyn(*n), &list, &seq, rep)
                }
            }))
            .unwrap_or_else(|_| (Some("panic".into()), seq.len()));
            rep.runs += 1;
            if let Some(m) = bad {
                let shown: Vec<String> = seq.iter().map(|k| format!("{:?}", list[*k])).collect();
                rep.viol("jacobian-object", &format!("n{} static {}", n, stat), &vec![], format!("{} in {}", m, shown.join(" ; ")));
                continue;
            }
            // the last operation has no meaning here
            if done < seq.len() {
                rep.feat("not applicable");
                continue;
            }
            if seq.len() < *depth {
                for k in 0..list.len() {
                    let mut s = seq.clone();
                    s.push(k);
                    stack.push(s);
                }
            }
        }
    });
    rep.sample(format!("operations: {:?}", ops(2)));
    rep.bounds.push(format!(
        "every sequence of {} operations on a new object, of length {} for 1 and 2 unknowns (static and dynamic), {} for 3, {} for 5 and 9",
        ops(2).len(), if thorough { 5 } else { 4 }, if thorough { 4 } else { 3 }, if thorough { 3 } else { 2 }
    ));
    rep
}

// ------------------------------------------------------------------ C26

type Fun = fn(&DVector<f64>) -> DVector<f64>;
type Jac = fn(&DVector<f64>) -> DMatrix<f64>;

struct Published {
    name: &'static str,
    n: usize,
    f: Fun,
    j: Jac,
    init: Option<fn() -> DVector<f64>>,
    solution: fn() -> DVector<f64>,
    grid: &'static [f64],
}

fn published() -> Vec<Published> {
    use util::test_cases::broyden1965::*;
    use util::test_cases::polynom::*;
    const G: &[f64] = &[-2.0, -1.0, -0.75, -0.3125, 0.0, 0.125, 0.5, 1.0, 1.5, 3.0];
    const W: &[f64] = &[-100.0, -15.0, -4.0, -2.0, -1.25, -0.75, -0.3125, 0.0, 0.03125, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 15.0, 64.0];
    vec![
        Published { name: "broyden1965 case 5", n: 5, f: broyden1965_case5, j: broyden1965_case5_jac, init: Some(init_broyden1965_case5), solution: solution_broyden1965_case5, grid: G },
        Published { name: "broyden1965 case 6", n: 5, f: broyden1965_case6, j: broyden1965_case6_jac, init: Some(init_broyden1965_case6), solution: solution_broyden1965_case6, grid: G },
        Published { name: "broyden1965 case 7", n: 10, f: broyden1965_case7, j: broyden1965_case7_jac, init: Some(init_broyden1965_case7), solution: solution_broyden1965_case7, grid: G },
        Published { name: "broyden1965 case 8", n: 20, f: broyden1965_case8, j: broyden1965_case8_jac, init: Some(init_broyden1965_case8), solution: solution_broyden1965_case8, grid: G },
        Published { name: "broyden1965 case 9", n: 2, f: broyden1965_case9, j: broyden1965_case9_jac, init: Some(init_broyden1965_case9), solution: solution_broyden1965_case9, grid: W },
        Published { name: "broyden1965 case 10", n: 2, f: broyden1965_case10, j: broyden1965_case10_jac, init: Some(init_broyden1965_case10), solution: solution_broyden1965_case10, grid: W },
        Published { name: "square", n: 1, f: square2, j: dsquare, init: None, solution: || DVector::from_vec(vec![2f64.sqrt()]), grid: W },
        Published { name: "high derivative", n: 1, f: root_with_high_derivative, j: root_with_high_derivative_jac, init: None, solution: || DVector::from_vec(vec![0.1]), grid: W },
    ]
}

/// nodes and weights of a first derivative exact for polynomials of degree 10
fn stencil() -> Vec<(f64, f64)> {
    vec![(1.0, 5.0 / 6.0), (2.0, -5.0 / 21.0), (3.0, 5.0 / 84.0), (4.0, -5.0 / 504.0), (5.0, 1.0 / 1260.0)]
}

fn c26_at(p: &Published, x: &DVector<f64>, rep: &mut Report) {
    let n = p.n;
    let mut h = Hasher64::new();
    h.u(case_hash(p.name));
    h.fs(x.as_slice());
    rep.distinct.insert(h.0);
    let (v, j) = ((p.f)(x), (p.j)(x));
    let where_ = || format!("{:?}", x.as_slice());
    rep.check("published", p.name, v.len() == n && j.shape() == (n, n), || format!("{} values and a jacobian {:?} at {}", v.len(), j.shape(), where_()));
    rep.check("published", p.name, v == (p.f)(x) && j == (p.j)(x), || format!("another value the second time at {}", where_()));
    if v.len() != n || j.shape() != (n, n) {
        return;
    }
    for c in 0..n {
        let step = 0.0625 * x[c].abs().max(0.5);
        let mut col = vec![0.0; n];
        let mut size = vec![0.0; n];
        for (k, w) in stencil() {
            let (mut a, mut b) = (x.clone(), x.clone());
            a[c] += k * step;
            b[c] -= k * step;
            let (fa, fb) = ((p.f)(&a), (p.f)(&b));
            for i in 0..n {
                col[i] += 2.0 * w * (fa[i] - fb[i]) / (2.0 * step);
                size[i] += (fa[i].abs() + fb[i].abs()) / step;
            }
        }
        for i in 0..n {
            let ok = (col[i] - j[(i, c)]).abs() <= 1e-11 * (1.0 + size[i]);
            rep.check("published", p.name, ok, || {
                format!("the derivative of equation {} by unknown {} is {} but the jacobian holds {} at {}", i, c, col[i], j[(i, c)], where_())
            });
        }
    }
}

pub fn c26(thorough: bool) -> Report {
    let mut rep = Report::default();
    for p in published() {
        rep.cases += 1;
        let n = p.n;
        let sol = (p.solution)();
        rep.check("published", p.name, sol.len() == n, || format!("a solution of {} unknowns", sol.len()));
        let v = (p.f)(&sol);
        rep.check("published", p.name, v.len() == n && v.iter().all(|e| e.abs() <= 1e-9), || format!("its solution is no root: {:?}", v.as_slice()));
        let mut bases = vec![DVector::from_element(n, 0.5), DVector::from_fn(n, |i, _| -1.0 + 0.25 * (i % 7) as f64), sol.clone()];
        if let Some(init) = p.init {
            let x0 = init();
            rep.check("published", p.name, x0.len() == n, || format!("an initial guess of {} unknowns", x0.len()));
            // the documented guesses
            let doc: Vec<f64> = match p.name {
                "broyden1965 case 9" => vec![-1.2, 1.0],
                "broyden1965 case 10" => vec![15.0, -2.0],
                _ => vec![-1.0; n],
            };
            rep.check("published", p.name, x0.as_slice() == &doc[..], || format!("the initial guess is {:?}", x0.as_slice()));
            bases.push(x0);
        }
        // every point with at most two unknowns away from a base point
        for b in &bases {
            c26_at(&p, b, &mut rep);
            for i in 0..n {
                for u in p.grid {
                    let mut x = b.clone();
                    x[i] = *u;
                    c26_at(&p, &x, &mut rep);
                    if n > 5 && !thorough {
                        continue;
                    }
                    for k in i + 1..n {
                        for w in p.grid {
                            x[k] = *w;
                            c26_at(&p, &x, &mut rep);
                        }
                        x[k] = b[k];
                    }
                }
            }
        }
        // solved from its guess
        if let Some(init) = p.init {
            for fd in [false, true] {
                // case 10 is badly scaled: whether finite differences converge depends on the rounding
                if fd && p.name.ends_with("case 10") {
                    continue;
                }
                let norms = vec![NormalizationMethod::Abs; n];
                let rc = ResidualsConfig::new(&norms, &norms);
                let pf = default_vec_iteratives_fd(n);
                let it = Iteratives::new(&pf);
                let mut solver = default_with_guess(init(), &it, &rc, ResolutionMethod::NewtonRaphson, false);
                let x = if fd {
                    let mut m = nrf::model::UserModelFromFunction::new(n, p.f);
                    solver.solve(&mut m).ok().map(|_| m.get_iteratives())
                } else {
                    let mut m = nrf::model::UserModelFromFunctionAndJacobian::new(n, p.f, p.j);
                    solver.solve(&mut m).ok().map(|_| m.get_iteratives())
                };
                rep.runs += 1;
                let ok = x.as_ref().map(|x| (x - &sol).amax() <= 1e-4).unwrap_or(false);
                rep.check("published", p.name, ok, || format!("Newton-Raphson (finite differences {}) gives {:?} from the published guess", fd, x));
            }
        }
        rep.sample(format!("{}: solution {:?}", p.name, sol.as_slice()));
    }
    rep.bounds.push(format!(
        "every published problem at every point with at most {} away from four base points, over a grid of 10 or 18 values each",
        if thorough { "two unknowns" } else { "two unknowns (one when there are more than 5)" }
    ));
    rep
}
