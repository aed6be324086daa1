//! Configuration of a resolution and its execution on the real code.

use crate::base::*;
use crate::env::*;
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, Dim, DimMin, Dyn, U1};
use newton_rootfinder as nrf;
use nrf::errors::{SolverError, SolverInternalError};
use nrf::iteratives::{
    Iterative, IterativeParams, IterativeParamsFD, Iteratives, PerturbationMethod,
};
use nrf::model::ModelError;
use nrf::residuals::{NormalizationMethod, ResidualsConfig};
use nrf::solver::{
    QuasiNewtonMethod, ResolutionMethod, RootFinder, SolverParameters, UpdateQuasiNewtonMethod,
};
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Meth {
    Nr,
    Sn,
    Jac(u8),
    Inv(u8),
}

pub const METHS: [Meth; 10] = [
    Meth::Nr,
    Meth::Sn,
    Meth::Jac(0),
    Meth::Inv(0),
    Meth::Jac(1),
    Meth::Inv(1),
    Meth::Jac(2),
    Meth::Inv(2),
    Meth::Jac(3),
    Meth::Inv(3),
];
pub const METH_NAMES: [&str; 10] = [
    "NR", "SN", "BROY1", "BROY1_INV", "BROY2", "BROY2_INV", "GRST1", "GRST1_INV", "GRST2",
    "GRST2_INV",
];

pub fn lib_meth(m: Meth) -> ResolutionMethod {
    let u = |k: u8| match k {
        0 => UpdateQuasiNewtonMethod::BroydenFirstMethod,
        1 => UpdateQuasiNewtonMethod::BroydenSecondMethod,
        2 => UpdateQuasiNewtonMethod::GreenstadtFirstMethod,
        _ => UpdateQuasiNewtonMethod::GreenstadtSecondMethod,
    };
    match m {
        Meth::Nr => ResolutionMethod::NewtonRaphson,
        Meth::Sn => ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton),
        Meth::Jac(k) => ResolutionMethod::QuasiNewton(QuasiNewtonMethod::JacobianUpdate(u(k))),
        Meth::Inv(k) => {
            ResolutionMethod::QuasiNewton(QuasiNewtonMethod::InverseJacobianUpdate(u(k)))
        }
    }
}

pub fn lib_nm(n: Nm) -> NormalizationMethod {
    match n {
        Nm::Abs => NormalizationMethod::Abs,
        Nm::Rel => NormalizationMethod::Rel,
        Nm::Adapt => NormalizationMethod::Adapt,
    }
}

pub fn lib_fd(l: &Lim) -> IterativeParamsFD {
    IterativeParamsFD::new(
        l.abs,
        l.rel,
        l.min,
        l.max,
        l.dx_abs,
        l.dx_rel,
        if l.sum {
            PerturbationMethod::Sum
        } else {
            PerturbationMethod::Max
        },
    )
}

pub fn lib_it(l: &Lim) -> IterativeParams {
    IterativeParams::new(l.abs, l.rel, l.min, l.max)
}

/// Parameters implemented by the user of the library: a part of the limited step, or more than it,
/// and perturbations in both directions
#[derive(Debug, Clone)]
pub struct Custom {
    lim: Lim,
    fd: Option<IterativeParamsFD>,
    it: IterativeParams,
}

impl Custom {
    fn new(l: &Lim, fd: bool) -> Custom {
        Custom { lim: *l, fd: if fd { Some(lib_fd(l)) } else { None }, it: lib_it(l) }
    }
}

impl Iterative for Custom {
    fn step_limitation(&self, value_current: f64, raw_step: f64) -> f64 {
        self.lim.apply(value_current, raw_step)
    }
    fn compute_perturbation(&self, x: f64) -> f64 {
        assert!(self.fd.is_some(), "these parameters have no perturbation");
        self.lim.pert(x)
    }
    fn with_finite_diff(&self) -> bool {
        self.fd.is_some()
    }
}

impl fmt::Display for Custom {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.fd {
            Some(p) => fmt::Display::fmt(p, f),
            None => fmt::Display::fmt(&self.it, f),
        }
    }
}

/// One configuration of a resolution
#[derive(Clone, Debug)]
pub struct Cfg {
    pub id: String,
    pub prob: usize,
    pub stat: bool,
    pub meth: usize,
    pub damping: bool,
    /// finite differences (the model does not provide the jacobian)
    pub fd: bool,
    /// with a provided jacobian: use IterativeParamsFD nevertheless
    pub fd_params: bool,
    pub stop: Vec<Nm>,
    pub upd: Vec<Nm>,
    pub lims: Vec<Lim>,
    pub tol: f64,
    pub max_iter: usize,
    pub x0: V,
    pub alpha: Alphabet,
    pub hist: bool,
}

impl Cfg {
    pub fn n(&self) -> usize {
        prob(self.prob).n
    }
    pub fn method(&self) -> Meth {
        METHS[self.meth]
    }
    pub fn max_calls(&self) -> usize {
        let n = self.n();
        1 + self.max_iter * (2 + if self.fd { n } else { 1 }) + 3 * (n + 2)
    }
    pub fn describe(&self) -> String {
        format!(
            "{} problem={} method={} damping={} fd={} fd_params={} static={} stop={:?} upd={:?} tol={} max_iter={} x0={:?} lims={:?} alphabet={} hist={}",
            self.id, prob(self.prob).name, METH_NAMES[self.meth], self.damping, self.fd,
            self.fd_params, self.stat, self.stop, self.upd, self.tol, self.max_iter, self.x0, self.lims,
            self.alpha.name, self.hist
        )
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    NonConv,
    Final,
    Init(String),
    ModelEval(Res, usize),
    JacErr(Res, usize),
    JacInv,
    Panic(String),
    Runaway,
    Crash,
}

impl Outcome {
    pub fn feat(&self) -> &'static str {
        match self {
            Outcome::Ok => "outcome:success",
            Outcome::NonConv => "outcome:non-convergence",
            Outcome::Final => "outcome:failed-final-evaluation",
            Outcome::Init(_) => "outcome:initial-evaluation-error",
            Outcome::ModelEval(..) => "outcome:model-evaluation-error",
            Outcome::JacErr(..) => "outcome:jacobian-evaluation-error",
            Outcome::JacInv => "outcome:singular-jacobian",
            Outcome::Panic(_) => "outcome:panic",
            Outcome::Runaway => "outcome:runaway",
            Outcome::Crash => "outcome:crash",
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Outcome::Ok => "success",
            Outcome::NonConv => "non-convergence",
            Outcome::Final => "failed-final-evaluation",
            Outcome::Init(_) => "initial-evaluation-error",
            Outcome::ModelEval(..) => "model-evaluation-error",
            Outcome::JacErr(..) => "jacobian-evaluation-error",
            Outcome::JacInv => "singular-jacobian",
            Outcome::Panic(_) => "panic",
            Outcome::Runaway => "runaway",
            Outcome::Crash => "crash",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Run {
    pub events: Vec<Ev>,
    pub points: Vec<Pt>,
    /// the deviations made
    pub chosen: Script,
    pub outcome: Outcome,
    pub display: String,
    pub debug: String,
    pub final_x: V,
    pub final_lr: (V, V),
    pub dirty: bool,
    pub misuse: Option<String>,
    pub ncb: usize,
}

pub trait Dims: Dim {}

#[derive(Clone, Default)]
pub struct Opts {
    pub log: Option<String>,
    pub hook: Option<Hook>,
    pub perm: Option<std::rc::Rc<(Vec<usize>, Vec<usize>)>>,
    pub pattern: Vec<Seg>,
    /// the solver is built from this configuration, the model being the one of the other
    pub outer: Option<std::rc::Rc<Cfg>>,
    pub frame: Option<std::rc::Rc<Frame>>,
    /// built by the constructors of default configurations (of the limits, of the residuals, of the solver)
    pub default: (bool, bool, bool),
}

/// A resolution to run: problem, script of deviations
#[derive(Clone, Debug)]
pub struct Job {
    pub prob: usize,
    pub script: Script,
    /// overrides the configuration: does the model provide its jacobian
    pub fd: Option<bool>,
}

fn solve_one<T, D>(rf: &mut RootFinder<T, D>, cfg: &Cfg, job: &Job, d: D, opts: &Opts) -> Run
where
    T: Iterative + fmt::Display + fmt::Debug,
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let mut env = Env::new(
        d,
        prob(job.prob),
        !job.fd.unwrap_or(cfg.fd),
        cfg.tol,
        cfg.alpha,
        job.script.clone(),
        cfg.max_calls(),
    );
    env.hook = opts.hook.clone();
    env.perm = opts.perm.clone();
    env.frame = opts.frame.clone();
    env.pattern = opts.pattern.clone();
    env.hist = cfg.hist;
    let (outcome, display, debug) = {
        let res = {
            let _i = crate::alloc::inside();
            catch_unwind(AssertUnwindSafe(|| rf.solve(&mut env)))
        };
        match res {
            Ok(Ok(())) => (Outcome::Ok, String::new(), String::new()),
            Ok(Err(e)) => {
                let disp = format!("{}", e);
                let dbg = format!("{:?}", e);
                let unpack = |m: ModelError<Env<D>, D>| match m {
                    ModelError::InaccurateValuesError(EInacc(id)) => (Res::Inacc, id),
                    ModelError::UnusableValuesError(EUnus(id)) => (Res::Unus, id),
                };
                let o = match e {
                    SolverError::NonConvergenceError => Outcome::NonConv,
                    SolverError::FinalEvaluationError => Outcome::Final,
                    SolverError::ModelInitialEvaluationError(s) => Outcome::Init(s),
                    SolverError::ModelEvaluationError(m) => {
                        let (r, id) = unpack(m);
                        Outcome::ModelEval(r, id)
                    }
                    SolverError::JacobianError(SolverInternalError::InvalidJacobianError(m)) => {
                        let (r, id) = unpack(m);
                        Outcome::JacErr(r, id)
                    }
                    SolverError::JacobianError(
                        SolverInternalError::InvalidJacobianInverseError,
                    ) => Outcome::JacInv,
                };
                (o, disp, dbg)
            }
            Err(p) => {
                let msg = if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "?".into()
                };
                let o = if msg == RUNAWAY {
                    Outcome::Runaway
                } else if msg == CRASH {
                    Outcome::Crash
                } else {
                    Outcome::Panic(msg)
                };
                (o, String::new(), String::new())
            }
        }
    };
    env.hook = None;
    Run {
        final_x: env.xs(),
        final_lr: env.values(),
        dirty: env.dirty(),
        misuse: env.misuse.take(),
        ncb: env.ncb.get(),
        points: std::mem::take(&mut env.points),
        chosen: std::mem::take(&mut env.chosen),
        events: env.events.take(),
        outcome,
        display,
        debug,
    }
}

fn go<T, D>(inner: &Cfg, params: &[T], d: D, jobs: &[Job], opts: &Opts) -> Vec<Run>
where
    T: Iterative + fmt::Display + fmt::Debug,
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let cfg = opts.outer.as_deref().unwrap_or(inner);
    let its = Iteratives::new(params);
    let (stop, upd): (Vec<NormalizationMethod>, Vec<NormalizationMethod>) = if opts.default.1 {
        ResidualsConfig::convert_into_vecs(nrf::residuals::default_vec_residuals(cfg.n()))
    } else {
        (cfg.stop.iter().map(|k| lib_nm(*k)).collect(), cfg.upd.iter().map(|k| lib_nm(*k)).collect())
    };
    let rc = ResidualsConfig::new(&stop, &upd);
    let sp = SolverParameters::new(
        cfg.n(),
        cfg.tol,
        cfg.max_iter,
        lib_meth(cfg.method()),
        cfg.damping,
    );
    let i = crate::alloc::inside();
    let mut rf = if opts.default.2 {
        nrf::solver::default_with_guess(ovec(d, &cfg.x0), &its, &rc, lib_meth(cfg.method()), cfg.damping)
    } else {
        RootFinder::new(sp, ovec(d, &cfg.x0), &its, &rc)
    };
    if let Some(p) = &opts.log {
        rf.activate_debug(p);
    }
    drop(i);
    jobs.iter()
        .map(|job| solve_one(&mut rf, inner, job, d, opts))
        .collect()
}

fn go_d<D>(inner: &Cfg, d: D, jobs: &[Job], opts: &Opts) -> Vec<Run>
where
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
{
    let cfg = opts.outer.as_deref().unwrap_or(inner);
    if opts.default.0 {
        if cfg.fd || cfg.fd_params {
            let p = nrf::iteratives::default_vec_iteratives_fd(cfg.n());
            go(inner, &p, d, jobs, opts)
        } else {
            let p = nrf::iteratives::default_vec_iteratives(cfg.n());
            go(inner, &p, d, jobs, opts)
        }
    } else if cfg.lims.iter().any(|l| l.custom()) {
        let p: Vec<Custom> = cfg.lims.iter().map(|l| Custom::new(l, cfg.fd || cfg.fd_params)).collect();
        go(inner, &p, d, jobs, opts)
    } else if cfg.fd || cfg.fd_params {
        let p: Vec<IterativeParamsFD> = cfg.lims.iter().map(lib_fd).collect();
        go(inner, &p, d, jobs, opts)
    } else {
        let p: Vec<IterativeParams> = cfg.lims.iter().map(lib_it).collect();
        go(inner, &p, d, jobs, opts)
    }
}

/// Solve the jobs one after the other with the same solver object
pub fn run_many(cfg: &Cfg, jobs: &[Job], opts: &Opts) -> Vec<Run> {
    if cfg.stat {
        match cfg.n() {
            0 => go_d(cfg, Const::<0>, jobs, opts),
            1 => go_d(cfg, Const::<1>, jobs, opts),
            2 => go_d(cfg, Const::<2>, jobs, opts),
            5 => go_d(cfg, Const::<5>, jobs, opts),
            3 => go_d(cfg, Const::<3>, jobs, opts),
            4 => go_d(cfg, Const::<4>, jobs, opts),
            6 => go_d(cfg, Const::<6>, jobs, opts),
            10 => go_d(cfg, Const::<10>, jobs, opts),
            16 => go_d(cfg, Const::<16>, jobs, opts),
            _ => go_d(cfg, Dyn(cfg.n()), jobs, opts),
        }
    } else {
        go_d(cfg, Dyn(cfg.n()), jobs, opts)
    }
}

pub fn run(cfg: &Cfg, script: &Script, opts: &Opts) -> Run {
    run_many(
        cfg,
        &[Job {
            prob: cfg.prob,
            script: script.clone(),
            fd: None,
        }],
        opts,
    )
    .pop()
    .unwrap()
}

/// NaN-aware equality of two events
pub fn same_ev(a: &Ev, b: &Ev) -> bool {
    let m = |p: &Mx, q: &Mx| p.len() == q.len() && p.iter().zip(q).all(|(u, w)| same_v(u, w));
    match (a, b) {
        (
            Ev::Eval { id, x, mem, l, r, res },
            Ev::Eval { id: id2, x: x2, mem: mem2, l: l2, r: r2, res: res2 },
        ) => id == id2 && res == res2 && same_v(x, x2) && same_v(mem, mem2) && same_v(l, l2) && same_v(r, r2),
        (
            Ev::Jac { id, x, mem, dirty, jl, jr, res },
            Ev::Jac { id: id2, x: x2, mem: mem2, dirty: d2, jl: jl2, jr: jr2, res: res2 },
        ) => {
            id == id2 && res == res2 && dirty == d2 && same_v(x, x2) && same_v(mem, mem2) && m(jl, jl2) && m(jr, jr2)
        }
        (Ev::GetMem, Ev::GetMem) => true,
        (Ev::SetMem(a), Ev::SetMem(b)) | (Ev::Set(a), Ev::Set(b)) => same_v(a, b),
        _ => false,
    }
}

/// first difference between two executions of the same resolution
pub fn diff_run(a: &Run, b: &Run) -> Option<String> {
    let n = a.events.len().max(b.events.len());
    for i in 0..n {
        match (a.events.get(i), b.events.get(i)) {
            (Some(x), Some(y)) if same_ev(x, y) => {}
            (x, y) => return Some(format!("call {}: {:?} instead of {:?}", i, y, x)),
        }
    }
    if a.outcome != b.outcome {
        return Some(format!("{:?} instead of {:?}", b.outcome, a.outcome));
    }
    if a.display != b.display || a.debug != b.debug {
        return Some(format!("message {:?} instead of {:?}", b.display, a.display));
    }
    if !same_v(&a.final_x, &b.final_x) || !same_v(&a.final_lr.0, &b.final_lr.0) || !same_v(&a.final_lr.1, &b.final_lr.1) {
        return Some(format!("the model holds {:?} instead of {:?}", b.final_x, a.final_x));
    }
    None
}
