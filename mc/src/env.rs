//! The environment of a resolution: a model whose every answer is chosen by the explorer.

use crate::base::*;
use nalgebra::allocator::Allocator;
use nalgebra::{DefaultAllocator, Dim, OMatrix, OVector, U1};
use newton_rootfinder::model::{Model, ModelError};
use newton_rootfinder::residuals::{JacobianValues, ResidualsValues};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

/// A base problem: both members of each equation and their derivatives
pub struct Problem {
    pub name: &'static str,
    pub n: usize,
    pub x0: &'static [f64],
    pub f: fn(&[f64]) -> (V, V),
    pub j: fn(&[f64]) -> (Mx, Mx),
    pub affine: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Ok,
    Inacc,
    Unus,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Eval {
        id: usize,
        x: V,
        mem: V,
        l: V,
        r: V,
        res: Res,
    },
    Jac {
        id: usize,
        x: V,
        mem: V,
        /// values currently exposed by the model
        dirty: bool,
        jl: Mx,
        jr: Mx,
        res: Res,
    },
    GetMem,
    SetMem(V),
    Set(V),
}

impl Ev {
    pub fn is_call(&self) -> bool {
        matches!(self, Ev::Eval { .. } | Ev::Jac { .. })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Call {
    SetIter,
    GetIter,
    Evaluate,
    GetRes,
    GetJac,
    GetMem,
    SetMem,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pt {
    Eval,
    Jac,
}

/// the same deviation every `stride` calls from `from` to `to`, on one kind of calls
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Seg {
    pub from: usize,
    pub to: usize,
    pub stride: usize,
    pub alt: u8,
    pub pt: Pt,
}
impl Seg {
    fn at(&self, idx: usize, pt: Pt) -> bool {
        pt == self.pt && idx >= self.from && idx <= self.to && (idx - self.from) % self.stride == 0
    }
}

// ---------------------------------------------------------------- alternatives

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum EAlt {
    Natural,
    Neg,
    TieNegRef,
    TieRef,
    Worse,
    SlightWorse,
    SlightBetter,
    Half,
    AtTol,
    AboveTol,
    NineTenthsTol,
    NineTenthsRef,
    Zero,
    ZeroBoth,
    NanFirst,
    NanLast,
    NanAll,
    InfFirst,
    MinusInfAll,
    InaccNatural,
    InaccZero,
    InaccWorse,
    InaccNan,
    InaccAtTol,
    Unusable,
    UnusableZero,
    FirstBad,
    LastBad,
    Huge,
    WorseOne,
    BetterOne,
    BigMembers,
    MidBad,
    NanMid,
    WorseMid,
    Opposite,
}

pub const E_FULL: &[EAlt] = &[
    EAlt::Natural,
    EAlt::Zero,
    EAlt::Neg,
    EAlt::TieNegRef,
    EAlt::TieRef,
    EAlt::Worse,
    EAlt::SlightWorse,
    EAlt::SlightBetter,
    EAlt::Half,
    EAlt::AtTol,
    EAlt::AboveTol,
    EAlt::NineTenthsTol,
    EAlt::NineTenthsRef,
    EAlt::ZeroBoth,
    EAlt::NanFirst,
    EAlt::NanLast,
    EAlt::NanAll,
    EAlt::InfFirst,
    EAlt::MinusInfAll,
    EAlt::InaccNatural,
    EAlt::InaccZero,
    EAlt::InaccWorse,
    EAlt::InaccNan,
    EAlt::InaccAtTol,
    EAlt::Unusable,
    EAlt::UnusableZero,
    EAlt::FirstBad,
    EAlt::LastBad,
    EAlt::Huge,
    EAlt::WorseOne,
    EAlt::BetterOne,
    EAlt::BigMembers,
    EAlt::Opposite,
];

pub const E_SMALL: &[EAlt] = &[
    EAlt::Natural,
    EAlt::Zero,
    EAlt::Neg,
    EAlt::TieNegRef,
    EAlt::Worse,
    EAlt::SlightWorse,
    EAlt::Half,
    EAlt::AtTol,
    EAlt::NanFirst,
    EAlt::InaccNatural,
    EAlt::InaccZero,
    EAlt::InaccWorse,
    EAlt::Unusable,
    EAlt::AboveTol,
];

/// no fault, only finite values
pub const E_VALUES: &[EAlt] = &[
    EAlt::Natural,
    EAlt::Neg,
    EAlt::TieNegRef,
    EAlt::Worse,
    EAlt::SlightWorse,
    EAlt::SlightBetter,
    EAlt::Half,
    EAlt::NineTenthsRef,
    EAlt::WorseOne,
    EAlt::BetterOne,
    EAlt::InaccNatural,
    EAlt::AboveTol,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum JAlt {
    Natural,
    Neg,
    Identity,
    Double,
    SwapRows,
    Zero,
    Rank1,
    ZeroCol,
    Nan,
    Inf,
    Tiny,
    Big,
    BothMembers,
    Inacc,
    Unus,
    Teeny,
    RowScale,
    ColScale,
    Anti,
}

pub const J_FULL: &[JAlt] = &[
    JAlt::Natural,
    JAlt::Neg,
    JAlt::Identity,
    JAlt::Double,
    JAlt::SwapRows,
    JAlt::Zero,
    JAlt::Rank1,
    JAlt::ZeroCol,
    JAlt::Nan,
    JAlt::Inf,
    JAlt::Tiny,
    JAlt::Big,
    JAlt::BothMembers,
    JAlt::Inacc,
    JAlt::Unus,
    JAlt::Teeny,
    JAlt::RowScale,
    JAlt::ColScale,
    JAlt::Anti,
];
pub const J_SMALL: &[JAlt] = &[
    JAlt::Natural,
    JAlt::Neg,
    JAlt::Zero,
    JAlt::Nan,
    JAlt::Inacc,
    JAlt::Unus,
];
pub const J_VALUES: &[JAlt] = &[
    JAlt::Natural,
    JAlt::Neg,
    JAlt::Identity,
    JAlt::Double,
    JAlt::SwapRows,
    JAlt::BothMembers,
    JAlt::Teeny,
    JAlt::RowScale,
    JAlt::ColScale,
    JAlt::Anti,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Alphabet {
    pub name: &'static str,
    pub e: &'static [EAlt],
    pub j: &'static [JAlt],
}
/// the equation that matters is the last one, or one in the middle
pub const E_POS: &[EAlt] = &[
    EAlt::Natural,
    EAlt::AboveTol,
    EAlt::NanLast,
    EAlt::LastBad,
    EAlt::MidBad,
    EAlt::NanMid,
    EAlt::WorseOne,
    EAlt::WorseMid,
    EAlt::FirstBad,
    EAlt::BetterOne,
    EAlt::InaccNatural,
    EAlt::Unusable,
];
pub const J_POS: &[JAlt] = &[JAlt::Natural, JAlt::ZeroCol, JAlt::Double, JAlt::Unus];
pub const POS: Alphabet = Alphabet { name: "pos", e: E_POS, j: J_POS };
/// the answers that make sense without any equation
pub const EMPTY: Alphabet = Alphabet {
    name: "empty",
    e: &[EAlt::Natural, EAlt::InaccNatural, EAlt::Unusable],
    j: &[JAlt::Natural, JAlt::Inacc, JAlt::Unus],
};
pub const FULL: Alphabet = Alphabet { name: "full", e: E_FULL, j: J_FULL };
pub const SMALL: Alphabet = Alphabet { name: "small", e: E_SMALL, j: J_SMALL };
pub const VALUES: Alphabet = Alphabet { name: "values", e: E_VALUES, j: J_VALUES };

// other usual answers: every evaluation is inaccurate, never improves, always gets worse, slowly improves
macro_rules! mood {
    ($first:ident) => {
        &[
            EAlt::$first,
            EAlt::Natural,
            EAlt::Zero,
            EAlt::TieNegRef,
            EAlt::Worse,
            EAlt::SlightWorse,
            EAlt::Half,
            EAlt::AtTol,
            EAlt::AboveTol,
            EAlt::NanFirst,
            EAlt::InaccZero,
            EAlt::InaccWorse,
            EAlt::Unusable,
        ]
    };
}
pub const ALWAYS_INACC: Alphabet = Alphabet { name: "always-inaccurate", e: mood!(InaccNatural), j: J_SMALL };
pub const ALWAYS_TIE: Alphabet = Alphabet { name: "always-equal", e: mood!(TieRef), j: J_SMALL };
pub const ALWAYS_NEG: Alphabet = Alphabet { name: "always-opposite", e: mood!(TieNegRef), j: J_SMALL };
pub const ALWAYS_WORSE: Alphabet = Alphabet { name: "always-worse", e: mood!(SlightWorse), j: J_SMALL };
pub const ALWAYS_BETTER: Alphabet = Alphabet { name: "always-better", e: mood!(SlightBetter), j: J_SMALL };
pub const ALWAYS_HALF: Alphabet = Alphabet { name: "always-half", e: mood!(Half), j: J_SMALL };
pub const ALWAYS_NAN: Alphabet = Alphabet { name: "always-nan", e: mood!(NanFirst), j: J_SMALL };
pub const ALWAYS_INF: Alphabet = Alphabet { name: "always-infinite", e: mood!(InfFirst), j: J_SMALL };
pub const MOODS: &[Alphabet] =
    &[ALWAYS_INF, ALWAYS_INACC, ALWAYS_TIE, ALWAYS_NEG, ALWAYS_WORSE, ALWAYS_BETTER, ALWAYS_HALF, ALWAYS_NAN];

pub fn alphabet(name: &str) -> Alphabet {
    if let Some(m) = MOODS.iter().find(|m| m.name == name) {
        return *m;
    }
    match name {
        "full" => FULL,
        "small" => SMALL,
        "pos" => POS,
        "empty" => EMPTY,
        "values" => VALUES,
        _ => panic!("unknown alphabet {}", name),
    }
}

// ---------------------------------------------------------------- errors of the model

#[derive(Debug)]
pub struct EInacc(pub usize);
#[derive(Debug)]
pub struct EUnus(pub usize);
impl fmt::Display for EInacc {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "inaccurate<{}>", self.0)
    }
}
impl fmt::Display for EUnus {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "unusable<{}>", self.0)
    }
}
impl std::error::Error for EInacc {}
impl std::error::Error for EUnus {}

pub const RUNAWAY: &str = "mc-runaway-resolution";
pub const CRASH: &str = "mc-crash-of-the-model";

pub fn ovec<D: Dim>(d: D, v: &[f64]) -> OVector<f64, D>
where
    DefaultAllocator: Allocator<D>,
{
    OVector::<f64, D>::from_iterator_generic(d, U1, v.iter().cloned())
}
pub fn omat<D: Dim>(d: D, m: &Mx) -> OMatrix<f64, D, D>
where
    DefaultAllocator: Allocator<D, D>,
{
    OMatrix::<f64, D, D>::from_fn_generic(d, d, |i, j| m[i][j])
}

/// The same problem in other units: unknown k is multiplied by su[k], both members of equation k by me[k],
/// and exchanged when swap[k]. All the factors are powers of two, up to their sign.
#[derive(Clone, Debug)]
pub struct Frame {
    pub su: V,
    pub me: V,
    pub swap: Vec<bool>,
}

impl Frame {
    fn members(&self, l: &V, r: &V) -> (V, V) {
        let (mut a, mut b) = (l.clone(), r.clone());
        for k in 0..a.len() {
            a[k] *= self.me[k];
            b[k] *= self.me[k];
            if self.swap[k] {
                std::mem::swap(&mut a[k], &mut b[k]);
            }
        }
        (a, b)
    }
    fn derivatives(&self, mut l: Mx, mut r: Mx) -> (Mx, Mx) {
        for e in 0..l.len() {
            for u in 0..l.len() {
                l[e][u] *= self.me[e] / self.su[u];
                r[e][u] *= self.me[e] / self.su[u];
            }
            if self.swap[e] {
                std::mem::swap(&mut l[e], &mut r[e]);
            }
        }
        (l, r)
    }
}

pub type Script = Vec<(usize, u8)>;
pub type Hook = Rc<dyn Fn(Call, usize)>;

pub struct Env<D: Dim>
where
    DefaultAllocator: Allocator<D>,
{
    pub d: D,
    pub prob: &'static Problem,
    pub analytic: bool,
    pub tol: f64,
    pub alpha: Alphabet,
    pub script: Script,
    /// answers given along a stretch of calls
    pub pattern: Vec<Seg>,
    /// every deviation made
    pub chosen: Script,
    pub max_calls: usize,
    /// the answers depend on the memory (history of the evaluations)
    pub hist: bool,
    pub hook: Option<Hook>,
    /// numbering of the unknowns and of the equations seen by the solver: component k of the solver is
    /// component perm.0[k] (unknowns) or perm.1[k] (equations) of the problem
    pub perm: Option<Rc<(Vec<usize>, Vec<usize>)>>,
    /// units, orientations and sides in which the solver sees the problem
    pub frame: Option<Rc<Frame>>,

    x: OVector<f64, D>,
    l: V,
    r: V,
    mem: V,
    eval_x: V,
    eval_mem: V,
    evaluated: bool,
    calls: usize,
    /// index in `events` of the last evaluation that is not a finite-difference column
    ref_eval: Option<usize>,
    /// for the protocol: iterates set, result of the last evaluation, memory given
    is_set: bool,
    last_res: Res,
    given: RefCell<Option<V>>,
    /// first use of the model that its trait does not allow
    pub misuse: RefCell<Option<String>>,
    pub ncb: Cell<usize>,
    pub events: RefCell<Vec<Ev>>,
    pub points: Vec<Pt>,
}

impl<D: Dim> Env<D>
where
    DefaultAllocator: Allocator<D>,
{
    pub fn new(
        d: D,
        prob: &'static Problem,
        analytic: bool,
        tol: f64,
        alpha: Alphabet,
        script: Script,
        max_calls: usize,
    ) -> Self {
        let n = prob.n;
        Env {
            d,
            prob,
            analytic,
            tol,
            alpha,
            script,
            pattern: vec![],
            chosen: vec![],
            max_calls,
            hist: false,
            hook: None,
            perm: None,
            frame: None,
            x: ovec(d, &vec![0.0; n]),
            l: vec![f64::NAN; n],
            r: vec![0.0; n],
            mem: vec![-1.0, 0.0],
            eval_x: vec![],
            eval_mem: vec![],
            evaluated: false,
            calls: 0,
            ref_eval: None,
            is_set: false,
            last_res: Res::Ok,
            given: RefCell::new(None),
            misuse: RefCell::new(None),
            ncb: Cell::new(0),
            events: RefCell::new(Vec::with_capacity(64)),
            points: Vec::with_capacity(32),
        }
    }

    fn cb(&self, c: Call) -> crate::alloc::Outside {
        let o = crate::alloc::outside();
        let k = self.ncb.get();
        self.ncb.set(k + 1);
        if let Some(h) = &self.hook {
            h(c, k)
        }
        o
    }

    pub fn xs(&self) -> V {
        self.x.iter().cloned().collect()
    }
    pub fn values(&self) -> (V, V) {
        (self.l.clone(), self.r.clone())
    }
    /// has the model been changed since its last evaluation
    pub fn dirty(&self) -> bool {
        !self.evaluated || !same_v(&self.xs(), &self.eval_x) || !same_v(&self.mem, &self.eval_mem)
    }

    fn misused(&self, m: String) {
        let mut w = self.misuse.borrow_mut();
        if w.is_none() {
            *w = Some(format!("{} (call {} to the model)", m, self.ncb.get()));
        }
    }
    /// are the values of the model those of its iterates
    fn readable(&self, what: &str) {
        if !self.evaluated {
            self.misused(format!("{} before any evaluation", what));
        } else if !same_v(&self.xs(), &self.eval_x) {
            self.misused(format!("{} at {:?}, the model being evaluated at {:?}", what, self.xs(), self.eval_x));
        } else if self.last_res == Res::Unus {
            self.misused(format!("{} after an unusable evaluation", what));
        }
    }

    fn choice(&mut self, p: Pt) -> u8 {
        let idx = self.points.len();
        self.points.push(p);
        self.calls += 1;
        if self.calls > self.max_calls {
            std::panic::panic_any(RUNAWAY.to_string());
        }
        let a = match self.script.iter().find(|(i, _)| *i == idx) {
            Some((_, a)) => *a,
            None => self.pattern.iter().find(|s| s.at(idx, p)).map(|s| s.alt).unwrap_or(0),
        };
        if a != 0 {
            self.chosen.push((idx, a))
        }
        a
    }

    fn answer(&self, alt: EAlt) -> (V, V, Res) {
        let n = self.prob.n;
        let xs = self.xs();
        let (mut l, mut r) = (self.prob.f)(&xs);
        if self.hist {
            let w = 0.03 * self.mem.get(1).copied().unwrap_or(0.0).min(20.0);
            for (i, v) in l.iter_mut().enumerate() {
                *v += w * (1.0 + 0.5 * i as f64);
            }
        }
        let (rl, rr) = match self.ref_eval {
            Some(k) => match &self.events.borrow()[k] {
                Ev::Eval { l, r, .. } => (l.clone(), r.clone()),
                _ => unreachable!(),
            },
            None => (l.clone(), r.clone()),
        };
        let refmax = max_err(&rl.iter().zip(&rr).map(|(a, b)| a - b).collect::<V>());
        let tol = self.tol;
        let scaled = |k: f64, l: &V, r: &V| -> (V, V) {
            (
                l.iter().zip(r).map(|(a, b)| b + k * (a - b)).collect(),
                r.clone(),
            )
        };
        let alt_sign = |v: f64| -> (V, V) {
            (
                (0..n).map(|i| if i % 2 == 0 { v } else { -v }).collect(),
                vec![0.0; n],
            )
        };
        let (zl, zr) = (vec![1.0; n], vec![1.0; n]);
        let mut res = Res::Ok;
        match alt {
            EAlt::Natural => {}
            EAlt::Neg => std::mem::swap(&mut l, &mut r),
            EAlt::TieNegRef => {
                l = rr;
                r = rl
            }
            EAlt::TieRef => {
                l = rl;
                r = rr
            }
            EAlt::Worse => (l, r) = scaled(50.0, &l, &r),
            EAlt::SlightWorse => (l, r) = scaled(1.001, &rl, &rr),
            EAlt::SlightBetter => (l, r) = scaled(0.999, &rl, &rr),
            EAlt::Half => (l, r) = scaled(0.5, &rl, &rr),
            EAlt::AtTol => (l, r) = (vec![tol; n], vec![0.0; n]),
            EAlt::AboveTol => {
                (l, r) = (vec![0.0; n], vec![0.0; n]);
                l[n - 1] = next_up(tol)
            }
            EAlt::NineTenthsTol => (l, r) = alt_sign(0.9 * tol),
            EAlt::NineTenthsRef => (l, r) = alt_sign(0.9 * refmax),
            EAlt::Zero => (l, r) = (zl, zr),
            EAlt::ZeroBoth => (l, r) = (vec![0.0; n], vec![0.0; n]),
            EAlt::NanFirst => {
                (l, r) = (zl, zr);
                l[0] = f64::NAN
            }
            EAlt::NanLast => l[n - 1] = f64::NAN,
            EAlt::NanAll => (l, r) = (vec![f64::NAN; n], vec![f64::NAN; n]),
            EAlt::InfFirst => l[0] = f64::INFINITY,
            EAlt::MinusInfAll => l = vec![f64::NEG_INFINITY; n],
            EAlt::InaccNatural => res = Res::Inacc,
            EAlt::InaccZero => {
                (l, r) = (zl, zr);
                res = Res::Inacc
            }
            EAlt::InaccWorse => {
                (l, r) = scaled(50.0, &l, &r);
                res = Res::Inacc
            }
            EAlt::InaccNan => {
                l[0] = f64::NAN;
                res = Res::Inacc
            }
            EAlt::InaccAtTol => {
                (l, r) = (vec![0.0; n], vec![tol; n]);
                res = Res::Inacc
            }
            EAlt::Unusable => res = Res::Unus,
            EAlt::UnusableZero => {
                (l, r) = (zl, zr);
                res = Res::Unus
            }
            EAlt::FirstBad => {
                (l, r) = (zl, zr);
                l[0] = 1.0 - 5.0 * tol.max(1e-6)
            }
            EAlt::LastBad => {
                (l, r) = (zl, zr);
                l[n - 1] = 1.0 + 5.0 * tol.max(1e-6)
            }
            EAlt::Huge => {
                (l, r) = (vec![0.0; n], vec![0.0; n]);
                l[0] = -1e300;
                r[n - 1] = 1e290
            }
            EAlt::WorseOne => {
                (l, r) = (zl, zr);
                l[n - 1] = 1.0 - 1.5 * refmax
            }
            EAlt::BetterOne => {
                (l, r) = (zl, zr);
                l[0] = 1.0 - 0.5 * refmax
            }
            EAlt::MidBad => {
                (l, r) = (zl, zr);
                l[n / 2] = 1.0 + 5.0 * tol.max(1e-6)
            }
            EAlt::NanMid => {
                (l, r) = (zl, zr);
                r[n / 2] = f64::NAN
            }
            EAlt::WorseMid => {
                (l, r) = (zl, zr);
                l[n / 2] = 1.0 - 1.5 * refmax
            }
            // members of the last equation exactly opposite
            EAlt::Opposite => {
                l[n - 1] = 0.75;
                r[n - 1] = -0.75
            }
            EAlt::BigMembers => {
                for i in 0..n {
                    l[i] += 100.0;
                    r[i] += 100.0;
                }
            }
        }
        (l, r, res)
    }
}

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    if x > 0.0 {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    }
}

impl<D: Dim> Model<D> for Env<D>
where
    DefaultAllocator: Allocator<D>,
    DefaultAllocator: Allocator<D, D>,
{
    type InaccurateValuesError = EInacc;
    type UnusableValuesError = EUnus;

    fn len_problem(&self) -> usize {
        self.prob.n
    }

    fn set_iteratives(&mut self, iteratives: &OVector<f64, D>) {
        let _o = self.cb(Call::SetIter);
        if iteratives.len() != self.prob.n {
            self.misused(format!("{} iterates are set for {} unknowns", iteratives.len(), self.prob.n));
        }
        self.is_set = true;
        self.x = iteratives.clone();
        if let Some(p) = &self.perm {
            for (k, u) in p.0.iter().enumerate() {
                self.x[*u] = iteratives[k]
            }
        }
        if let Some(f) = &self.frame {
            for (v, s) in self.x.iter_mut().zip(&f.su) {
                *v /= s
            }
        }
        let v = self.xs();
        self.events.borrow_mut().push(Ev::Set(v));
    }

    fn get_iteratives(&self) -> OVector<f64, D> {
        let _o = self.cb(Call::GetIter);
        if let Some(f) = &self.frame {
            return ovec(self.d, &self.x.iter().zip(&f.su).map(|(v, s)| v * s).collect::<V>());
        }
        match &self.perm {
            None => self.x.clone(),
            Some(p) => ovec(self.d, &p.0.iter().map(|u| self.x[*u]).collect::<V>()),
        }
    }

    fn evaluate(&mut self) -> Result<(), ModelError<Self, D>> {
        let _o = self.cb(Call::Evaluate);
        if !self.is_set {
            self.misused("an evaluation before any iterate is set".into());
        }
        let a = self.choice(Pt::Eval);
        let alt = self.alpha.e[a as usize];
        let (l, r, res) = self.answer(alt);
        let id = self.events.borrow().len();
        let mem = self.mem.clone();
        self.l = l.clone();
        self.r = r.clone();
        self.mem = vec![id as f64, mem.get(1).copied().unwrap_or(0.0) + 1.0];
        self.eval_x = self.xs();
        self.eval_mem = self.mem.clone();
        self.evaluated = true;
        self.last_res = res;
        self.events.borrow_mut().push(Ev::Eval {
            id,
            x: self.eval_x.clone(),
            mem,
            l,
            r,
            res,
        });
        // until the memory is given back, this evaluation is not known to be a column
        self.ref_eval = Some(id);
        match res {
            Res::Ok => Ok(()),
            Res::Inacc => Err(ModelError::InaccurateValuesError(EInacc(id))),
            Res::Unus => Err(ModelError::UnusableValuesError(EUnus(id))),
        }
    }

    fn get_residuals(&self) -> ResidualsValues<D> {
        let _o = self.cb(Call::GetRes);
        self.readable("the residuals are read");
        if let Some(f) = &self.frame {
            let (l, r) = f.members(&self.l, &self.r);
            return ResidualsValues::new(ovec(self.d, &l), ovec(self.d, &r));
        }
        if let Some(p) = &self.perm {
            let m = |v: &V| -> V { p.1.iter().map(|e| v[*e]).collect() };
            return ResidualsValues::new(ovec(self.d, &m(&self.l)), ovec(self.d, &m(&self.r)));
        }
        ResidualsValues::new(ovec(self.d, &self.l), ovec(self.d, &self.r))
    }

    fn jacobian_provided(&self) -> bool {
        self.analytic
    }

    fn get_jacobian(&mut self) -> Result<JacobianValues<D>, ModelError<Self, D>> {
        let _o = self.cb(Call::GetJac);
        if !self.analytic {
            self.misused("the jacobian is requested from a model that has none".into());
        }
        self.readable("the jacobian is requested");
        let a = self.choice(Pt::Jac);
        let alt = self.alpha.j[a as usize];
        let n = self.prob.n;
        let xs = self.xs();
        let (mut jl, mut jr) = (self.prob.j)(&xs);
        let mut res = Res::Ok;
        let zero = vec![vec![0.0; n]; n];
        let scale = |m: &Mx, k: f64| -> Mx {
            m.iter()
                .map(|r| r.iter().map(|v| v * k).collect())
                .collect()
        };
        match alt {
            JAlt::Natural => {}
            JAlt::Neg => std::mem::swap(&mut jl, &mut jr),
            JAlt::Identity => {
                jl = (0..n)
                    .map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect())
                    .collect();
                jr = zero;
            }
            JAlt::Double => {
                jl = scale(&jl, 2.0);
                jr = scale(&jr, 2.0)
            }
            JAlt::SwapRows => {
                jl.reverse();
                jr.reverse()
            }
            JAlt::Zero => {
                jl = zero.clone();
                jr = zero
            }
            JAlt::Rank1 => {
                jl = (0..n)
                    .map(|i| (0..n).map(|_| if n == 1 { 0.0 } else { 1.0 + (i as f64) }).collect())
                    .collect();
                jr = zero
            }
            JAlt::ZeroCol => {
                for i in 0..n {
                    jl[i][n - 1] = 0.0;
                    jr[i][n - 1] = 0.0;
                }
            }
            JAlt::Nan => jl[n - 1][0] = f64::NAN,
            JAlt::Inf => jl[0][n - 1] = f64::INFINITY,
            JAlt::Tiny => {
                jl = scale(&jl, 1e-5);
                jr = scale(&jr, 1e-5)
            }
            JAlt::Big => {
                jl = scale(&jl, 1e3);
                jr = scale(&jr, 1e3)
            }
            JAlt::BothMembers => {
                for i in 0..n {
                    for j in 0..n {
                        jl[i][j] += 1.0 + i as f64;
                        jr[i][j] += 1.0 + i as f64 - 0.25 * j as f64;
                    }
                }
            }
            JAlt::Inacc => res = Res::Inacc,
            JAlt::Unus => res = Res::Unus,
            // well-posed systems whose determinant is far below the rounding of 1
            JAlt::Teeny => {
                jl = scale(&jl, 1e-40);
                jr = scale(&jr, 1e-40)
            }
            JAlt::RowScale | JAlt::ColScale => {
                for i in 0..n {
                    for j in 0..n {
                        let k = if alt == JAlt::RowScale { i } else { j };
                        let w = if k % 2 == 0 { 1e-3 } else { 1e4 };
                        jl[i][j] *= w;
                        jr[i][j] *= w;
                    }
                }
            }
            // null diagonal: no elimination without exchanging the rows
            JAlt::Anti => {
                jl = (0..n)
                    .map(|i| (0..n).map(|j| if j == (i + 1) % n { 2.0 + i as f64 } else { 0.0 }).collect())
                    .collect();
                jr = zero
            }
        }
        let id = self.events.borrow().len();
        let dirty = self.dirty();
        self.events.borrow_mut().push(Ev::Jac {
            id,
            x: xs,
            mem: self.mem.clone(),
            dirty,
            jl: jl.clone(),
            jr: jr.clone(),
            res,
        });
        if let Some(p) = &self.perm {
            let m = |a: &Mx| -> Mx { p.1.iter().map(|e| p.0.iter().map(|u| a[*e][*u]).collect()).collect() };
            jl = m(&jl);
            jr = m(&jr);
        }
        if let Some(f) = &self.frame {
            (jl, jr) = f.derivatives(jl, jr);
        }
        match res {
            Res::Ok => Ok(JacobianValues::new(omat(self.d, &jl), omat(self.d, &jr))),
            Res::Inacc => Err(ModelError::InaccurateValuesError(EInacc(id))),
            Res::Unus => Err(ModelError::UnusableValuesError(EUnus(id))),
        }
    }

    fn get_memory(&self) -> nalgebra::DVector<f64> {
        let _o = self.cb(Call::GetMem);
        if self.analytic {
            self.misused("the memory is read without finite differences".into());
        }
        self.readable("the memory is read");
        *self.given.borrow_mut() = Some(self.mem.clone());
        self.events.borrow_mut().push(Ev::GetMem);
        nalgebra::DVector::from_vec(self.mem.clone())
    }

    fn set_memory(&mut self, memory: &nalgebra::DVector<f64>) {
        let _o = self.cb(Call::SetMem);
        let m: V = memory.iter().cloned().collect();
        if self.analytic {
            self.misused("the memory is set without finite differences".into());
        }
        match &*self.given.borrow() {
            Some(g) if same_v(g, &m) => {}
            g => self.misused(format!("the memory {:?} is given to the model, the last one read being {:?}", m, g)),
        }
        self.mem = memory.iter().cloned().collect();
        self.events.borrow_mut().push(Ev::SetMem(self.mem.clone()));
        // the evaluation just made was a column: it is not a reference for the answers
        if !self.mem.is_empty() && self.mem[0] >= 0.0 {
            let id = self.mem[0] as usize;
            if matches!(self.events.borrow().get(id), Some(Ev::Eval { .. })) {
                self.ref_eval = Some(id);
            }
        }
    }
}

// ---------------------------------------------------------------- base problems

fn mx(n: usize, f: impl Fn(usize, usize) -> f64) -> Mx {
    (0..n).map(|i| (0..n).map(|j| f(i, j)).collect()).collect()
}

const A2: [[f64; 2]; 2] = [[3.0, 1.0], [-1.0, 2.0]];
const B2: [[f64; 2]; 2] = [[0.5, -1.0], [1.0, 0.25]];
const A3: [[f64; 3]; 3] = [[4.0, 1.0, -1.0], [1.0, -3.0, 0.5], [0.5, 2.0, 5.0]];
const B3: [[f64; 3]; 3] = [[1.0, 0.0, 0.5], [0.0, 1.0, 0.25], [-0.5, 0.0, 1.0]];

const MIC: f64 = 1.0 / (1u64 << 40) as f64;
const MIC_F: f64 = 1.0 / (1u64 << 30) as f64;
const MEG: f64 = (1u64 << 33) as f64;
const MEG_F: f64 = (1u64 << 36) as f64;
fn scaled_f(x: &[f64], u: f64, e: f64) -> (V, V) {
    let (a, b) = (x[0] / u, x[1] / u);
    (vec![e * (a * a + b), e * (a * b + 3.0 * b)], vec![e * 3.5, e * (0.5 * a + 1.0)])
}
fn scaled_j(x: &[f64], u: f64, e: f64) -> (Mx, Mx) {
    let (a, b, k) = (x[0] / u, x[1] / u, e / u);
    (
        vec![vec![k * 2.0 * a, k], vec![k * b, k * (a + 3.0)]],
        vec![vec![0.0, 0.0], vec![k * 0.5, 0.0]],
    )
}

fn big_f(x: &[f64]) -> (V, V) {
    let n = x.len();
    (
        (0..n)
            .map(|i| (3.0 + 0.5 * i as f64) * x[i] + 0.3 * x[(i + 1) % n] * x[i] + 0.2 * x[(i + 2) % n])
            .collect(),
        (0..n)
            .map(|i| 0.25 * x[(i + n - 1) % n] + 1.0 + 0.2 * i as f64)
            .collect(),
    )
}
fn big_j(x: &[f64]) -> (Mx, Mx) {
    let n = x.len();
    let mut l = vec![vec![0.0; n]; n];
    let mut r = vec![vec![0.0; n]; n];
    for i in 0..n {
        l[i][i] += 3.0 + 0.5 * i as f64 + 0.3 * x[(i + 1) % n];
        l[i][(i + 1) % n] += 0.3 * x[i];
        l[i][(i + 2) % n] += 0.2;
        r[i][(i + n - 1) % n] += 0.25;
    }
    (l, r)
}

/// no unknown, no equation
pub static NOTHING: Problem = Problem { name: "nothing", n: 0, x0: &[], f: |_| (vec![], vec![]), j: |_| (vec![], vec![]), affine: true };

pub static PROBLEMS: &[Problem] = &[
    // 0: one unknown, both members vary
    Problem {
        name: "sq1",
        n: 1,
        x0: &[1.25],
        f: |x| (vec![x[0] * x[0] + 1.0], vec![3.0 + 0.25 * x[0]]),
        j: |x| (vec![vec![2.0 * x[0]]], vec![vec![0.25]]),
        affine: false,
    },
    // 1: one unknown, overshooting: natural damping
    Problem {
        name: "atan1",
        n: 1,
        x0: &[2.25],
        f: |x| (vec![2.0 + 4.0 * x[0].atan()], vec![2.0]),
        j: |x| (vec![vec![4.0 / (1.0 + x[0] * x[0])]], vec![vec![0.0]]),
        affine: false,
    },
    // 2: two unknowns, coupled
    Problem {
        name: "cpl2",
        n: 2,
        x0: &[1.5, 0.75],
        f: |x| {
            (
                vec![x[0] * x[0] + x[1], x[0] * x[1] + 3.0 * x[1]],
                vec![3.5, 0.5 * x[0] + 1.0],
            )
        },
        j: |x| {
            (
                vec![vec![2.0 * x[0], 1.0], vec![x[1], x[0] + 3.0]],
                vec![vec![0.0, 0.0], vec![0.5, 0.0]],
            )
        },
        affine: false,
    },
    // 3: two unknowns, overshooting
    Problem {
        name: "atan2",
        n: 2,
        x0: &[1.875, -2.5],
        f: |x| {
            (
                vec![3.0 * x[0].atan() + 0.2 * x[1], 2.0 * x[1].atan() - 1.0],
                vec![0.1 * x[0], -0.3 * x[0] - 1.0],
            )
        },
        j: |x| {
            (
                vec![
                    vec![3.0 / (1.0 + x[0] * x[0]), 0.2],
                    vec![0.0, 2.0 / (1.0 + x[1] * x[1])],
                ],
                vec![vec![0.1, 0.0], vec![-0.3, 0.0]],
            )
        },
        affine: false,
    },
    // 4: two unknowns, affine, both members vary
    Problem {
        name: "aff2",
        n: 2,
        x0: &[2.5, -1.75],
        f: |x| {
            (
                (0..2).map(|i| A2[i][0] * x[0] + A2[i][1] * x[1] + 1.0).collect(),
                (0..2).map(|i| B2[i][0] * x[0] + B2[i][1] * x[1] - 2.0).collect(),
            )
        },
        j: |_| (mx(2, |i, j| A2[i][j]), mx(2, |i, j| B2[i][j])),
        affine: true,
    },
    // 5: three unknowns, coupled
    Problem {
        name: "cpl3",
        n: 3,
        x0: &[1.25, -0.75, 2.0],
        f: |x| {
            (
                vec![
                    2.0 * x[0] * x[0] + x[1],
                    x[1] * x[2] - 3.0 * x[1] + 0.5 * x[0],
                    x[2] * x[2] + x[0] * x[1],
                ],
                vec![2.5, x[0] - 0.5, 0.25 * x[2] + 2.0],
            )
        },
        j: |x| {
            (
                vec![
                    vec![4.0 * x[0], 1.0, 0.0],
                    vec![0.5, x[2] - 3.0, x[1]],
                    vec![x[1], x[0], 2.0 * x[2]],
                ],
                vec![
                    vec![0.0, 0.0, 0.0],
                    vec![1.0, 0.0, 0.0],
                    vec![0.0, 0.0, 0.25],
                ],
            )
        },
        affine: false,
    },
    // 6: three unknowns, affine
    Problem {
        name: "aff3",
        n: 3,
        x0: &[-2.5, 1.25, 0.625],
        f: |x| {
            (
                (0..3)
                    .map(|i| (0..3).map(|j| A3[i][j] * x[j]).sum::<f64>() + 2.0)
                    .collect(),
                (0..3)
                    .map(|i| (0..3).map(|j| B3[i][j] * x[j]).sum::<f64>() - 1.0 - i as f64)
                    .collect(),
            )
        },
        j: |_| (mx(3, |i, j| A3[i][j]), mx(3, |i, j| B3[i][j])),
        affine: true,
    },
    // 7: one unknown, slow convergence (double root like), negative values
    Problem {
        name: "cub1",
        n: 1,
        x0: &[-1.5],
        f: |x| (vec![x[0] * x[0] * x[0] - 1.0], vec![0.5 * x[0]]),
        j: |x| (vec![vec![3.0 * x[0] * x[0]]], vec![vec![0.5]]),
        affine: false,
    },
    // 8..: the same coupled equations with more unknowns
    Problem {
        name: "big4",
        n: 4,
        x0: &[0.75, -1.25, 2.0, 0.5],
        f: big_f,
        j: big_j,
        affine: false,
    },
    Problem {
        name: "big5",
        n: 5,
        x0: &[0.75, -1.25, 2.0, 0.5, -0.625],
        f: big_f,
        j: big_j,
        affine: false,
    },
    Problem {
        name: "big7",
        n: 7,
        x0: &[0.75, -1.25, 2.0, 0.5, -0.625, 1.5, -2.0],
        f: big_f,
        j: big_j,
        affine: false,
    },
    Problem {
        name: "big10",
        n: 10,
        x0: &[0.75, -1.25, 2.0, 0.5, -0.625, 1.5, -2.0, 0.375, -0.875, 1.125],
        f: big_f,
        j: big_j,
        affine: false,
    },
    Problem {
        name: "big12",
        n: 12,
        x0: &[0.75, -1.25, 2.0, 0.5, -0.625, 1.5, -2.0, 0.375, -0.875, 1.125, 0.25, -0.375],
        f: big_f,
        j: big_j,
        affine: false,
    },
    Problem {
        name: "big17",
        n: 17,
        x0: &[
            0.75, -1.25, 2.0, 0.5, -0.625, 1.5, -2.0, 0.375, -0.875, 1.125, 0.25, -0.375, 1.75, 0.625, -1.5, 0.875, -0.25,
        ],
        f: big_f,
        j: big_j,
        affine: false,
    },
    // three unknowns and equations of very different magnitudes
    Problem {
        name: "scl3",
        n: 3,
        x0: &[1.5e-5, -2.5, 3.5e5],
        f: |x| {
            (
                vec![4e4 * x[0] + 0.3 * x[1] + 0.25, 1e-4 * x[1] * x[1] - 2e-9 * x[2], 2e-3 * x[2] + 5e6 * x[0] * x[0]],
                vec![1e-7 * x[2], 3.0 * x[0] - 1e-4, 500.0 - x[1]],
            )
        },
        j: |x| {
            (
                vec![vec![4e4, 0.3, 0.0], vec![0.0, 2e-4 * x[1], -2e-9], vec![1e7 * x[0], 0.0, 2e-3]],
                vec![vec![0.0, 0.0, 1e-7], vec![3.0, 0.0, 0.0], vec![0.0, -1.0, 0.0]],
            )
        },
        affine: false,
    },
    // the same two coupled equations, other units: exact powers of two
    Problem {
        name: "mic2",
        n: 2,
        x0: &[1.5 * MIC, 0.75 * MIC],
        f: |x| scaled_f(x, MIC, MIC_F),
        j: |x| scaled_j(x, MIC, MIC_F),
        affine: false,
    },
    Problem {
        name: "meg2",
        n: 2,
        x0: &[1.5 * MEG, 0.75 * MEG],
        f: |x| scaled_f(x, MEG, MEG_F),
        j: |x| scaled_j(x, MEG, MEG_F),
        affine: false,
    },
    // no root: the budget is always used
    Problem {
        name: "noroot1",
        n: 1,
        x0: &[1.375],
        f: |x| (vec![x[0] * x[0] + 2.0], vec![0.5]),
        j: |x| (vec![vec![2.0 * x[0]]], vec![vec![0.0]]),
        affine: false,
    },
    Problem {
        name: "noroot2",
        n: 2,
        x0: &[1.375, 0.5],
        f: |x| (vec![x[0] * x[0] + 2.0, x[1] + 0.25 * x[0]], vec![0.5 * x[1], 0.125]),
        j: |x| {
            (
                vec![vec![2.0 * x[0], 0.0], vec![0.25, 1.0]],
                vec![vec![0.0, 0.5], vec![0.0, 0.0]],
            )
        },
        affine: false,
    },
];

const MANY: [f64; 40] = [
    0.75, -1.25, 2.0, 0.5, -0.625, 1.5, -2.0, 0.375, -0.875, 1.125, 0.25, -0.375, 1.75, 0.625, -1.5, 0.875, -0.25, 1.375,
    0.9375, -1.75, 0.5625, -0.6875, 1.0625, 1.875, -0.8125, 0.4375, -1.0625, 1.25, -0.3125, 0.6875, -1.625, 0.8125, 1.4375,
    -0.5, 0.3125, -0.9375, 1.5625, 0.71875, -1.125, 0.46875,
];
/// the same values over and over, in other orders
const MORE: [f64; 130] = {
    let mut m = [0.0; 130];
    let mut i = 0;
    while i < 130 {
        m[i] = MANY[(i * (1 + 2 * (i / 40))) % 40];
        i += 1;
    }
    m
};
macro_rules! dims {
    ($($name:literal $n:literal),*) => {
        &[$(Problem { name: $name, n: $n, x0: MORE.split_at($n).0, f: big_f, j: big_j, affine: false }),*]
    };
}
/// every number of unknowns
pub static DIMS: &[Problem] = dims!(
    "dim3" 3, "dim6" 6, "dim8" 8, "dim9" 9, "dim11" 11, "dim13" 13, "dim14" 14, "dim15" 15, "dim16" 16, "dim18" 18, "dim19" 19,
    "dim20" 20, "dim21" 21, "dim22" 22, "dim23" 23, "dim24" 24, "dim25" 25, "dim26" 26, "dim27" 27, "dim28" 28, "dim29" 29,
    "dim30" 30, "dim31" 31, "dim32" 32, "dim33" 33, "dim34" 34, "dim36" 36, "dim40" 40,
    "dim49" 49, "dim51" 51, "dim64" 64, "dim65" 65, "dim100" 100, "dim101" 101, "dim129" 129
);
/// those of at most 40 unknowns and the bigger ones
pub fn dims(big: bool) -> Vec<&'static str> {
    DIMS.iter().filter(|p| (p.n > 40) == big).map(|p| p.name).collect()
}

pub fn problem(name: &str) -> usize {
    PROBLEMS.iter().chain(DIMS).chain([&NOTHING]).position(|p| p.name == name).unwrap()
}
pub fn prob(k: usize) -> &'static Problem {
    if k < PROBLEMS.len() {
        &PROBLEMS[k]
    } else if k == PROBLEMS.len() + DIMS.len() {
        &NOTHING
    } else {
        &DIMS[k - PROBLEMS.len()]
    }
}
