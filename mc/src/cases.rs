//! The configurations explored.

use crate::base::*;
use crate::env::*;
use crate::run::*;

#[derive(Clone)]
pub struct Case {
    pub cfg: Cfg,
    pub depth: usize,
    /// 0: at most `depth` deviations; 1, 2: the same deviation along a stretch of calls
    pub pat: u8,
}

pub fn norms(which: &str, n: usize) -> (Vec<Nm>, Vec<Nm>) {
    use Nm::*;
    let cyc = |a: &[Nm]| -> Vec<Nm> { (0..n).map(|i| a[i % a.len()]).collect() };
    match which {
        "abs" => (vec![Abs; n], vec![Abs; n]),
        "mixA" => (cyc(&[Adapt, Rel, Abs]), cyc(&[Rel, Adapt, Adapt])),
        "mixB" => (cyc(&[Rel, Abs, Adapt]), cyc(&[Abs, Rel, Rel])),
        "mixC" => (cyc(&[Abs, Adapt, Rel]), cyc(&[Adapt, Abs, Abs])),
        "rel" => (vec![Rel; n], vec![Rel; n]),
        "adapt" => (vec![Adapt; n], vec![Adapt; n]),
        _ => panic!("norms {}", which),
    }
}

pub fn lims(which: &str, x0: &[f64]) -> Vec<Lim> {
    let base = [
        Lim::free(0.125, 0.01, false),
        Lim::free(0.05, 0.04, true),
        Lim::free(0.01, 0.06, false),
    ];
    let inf = f64::INFINITY;
    (0..x0.len())
        .map(|k| {
            let i = k;
            let mut l = base[i % 3];
            l.dx_abs *= 1.0 + 0.5 * (i / 3) as f64;
            let i = if i > 2 { i % 3 } else { i };
            match which {
                "free" => {}
                "steps" => match i {
                    0 => l.abs = 0.3,
                    1 => l.rel = 0.45,
                    _ => {
                        l.abs = 0.2;
                        l.rel = 0.5
                    }
                },
                "steps2" => match i {
                    0 => l.rel = 0.2,
                    1 => l.abs = 0.15,
                    _ => l.rel = 0.3,
                },
                "bounds" => match i {
                    0 => {
                        l.min = x0[k] - 0.17;
                        l.max = x0[k] + 0.21
                    }
                    1 => {
                        l.min = x0[k] - 0.4;
                        l.max = x0[k] + 0.13
                    }
                    _ => {
                        l.min = -inf;
                        l.max = x0[k] + 0.05
                    }
                },
                "mixed" => match i {
                    0 => {
                        l.abs = 0.4;
                        l.min = x0[k] - 0.3
                    }
                    1 => {
                        l.rel = 0.35;
                        l.max = x0[k] + 0.6
                    }
                    _ => {}
                },
                "outside" => match i {
                    0 => {
                        l.min = x0[k] + 0.25;
                        l.abs = 0.1
                    }
                    1 => l.max = x0[k] - 0.35,
                    _ => {
                        l.min = x0[k] - 2.0;
                        l.max = x0[k] + 0.1
                    }
                },
                "one" => {
                    // a single unknown is limited
                    if k == x0.len() - 1 {
                        l.abs = 0.11
                    }
                }
                // other perturbations
                "pert" => match i {
                    0 => {
                        l.dx_abs = 1e-5;
                        l.dx_rel = 0.3
                    }
                    1 => {
                        l.dx_abs = 0.4;
                        l.dx_rel = 1e-6;
                        l.sum = false
                    }
                    _ => {
                        l.dx_abs = 0.02;
                        l.dx_rel = 0.03;
                        l.sum = true
                    }
                },
                // the default configuration
                "dflt" => {
                    l.dx_abs = 5e-8;
                    l.dx_rel = 5e-8;
                    l.sum = false
                }
                // other units
                "mic" | "micL" => {
                    l.dx_abs *= 2f64.powi(-40);
                    if which == "micL" {
                        l.abs = 0.2 * 2f64.powi(-40);
                        l.max = x0[k] + 0.3 * 2f64.powi(-40);
                    }
                }
                "meg" | "megL" => {
                    l.dx_abs *= 2f64.powi(33);
                    if which == "megL" {
                        l.abs = 0.2 * 2f64.powi(33);
                        l.min = x0[k] - 0.3 * 2f64.powi(33);
                    }
                }
                // parameters implemented by the user
                "user" => match i {
                    0 => {
                        l.relax = 1.25;
                        l.back = true
                    }
                    1 => {
                        l.relax = 0.6;
                        l.abs = 0.4;
                        l.min = x0[k] - 0.5
                    }
                    _ => l.relax = 0.75,
                },
                "userL" => match i {
                    0 => {
                        l.relax = 0.7;
                        l.rel = 0.3;
                        l.max = x0[k] + 0.2
                    }
                    1 => l.back = true,
                    _ => {
                        l.relax = 0.0;
                        l.back = true
                    }
                },
                "tight" => {
                    l.abs = 0.02 + 0.03 * k as f64;
                    l.rel = 0.05;
                    l.min = x0[k] - 0.09;
                    l.max = x0[k] + 0.07
                }
                _ => panic!("lims {}", which),
            }
            l
        })
        .collect()
}

#[derive(Clone)]
pub struct Var {
    pub name: &'static str,
    pub norms: &'static str,
    pub lims: &'static str,
    pub tol: f64,
    pub max_iter: usize,
    pub stat: bool,
    pub hist: bool,
}

pub const fn var(
    name: &'static str,
    norms: &'static str,
    lims: &'static str,
    tol: f64,
    max_iter: usize,
    stat: bool,
    hist: bool,
) -> Var {
    Var {
        name,
        norms,
        lims,
        tol,
        max_iter,
        stat,
        hist,
    }
}

pub const V_BASE: Var = var("base", "abs", "free", 1e-3, 3, false, false);
pub const V_LONG: Var = var("long", "abs", "free", 1e-9, 6, true, true);
pub const V_MIXA: Var = var("mixA", "mixA", "free", 1e-3, 3, true, false);
pub const V_MIXB: Var = var("mixB", "mixB", "steps", 1e-3, 3, false, true);
pub const V_MIXC: Var = var("mixC", "mixC", "mixed", 1e-2, 4, true, false);
pub const V_STEPS: Var = var("steps", "abs", "steps", 1e-3, 4, false, false);
pub const V_STEPS2: Var = var("steps2", "abs", "steps2", 1e-3, 4, true, true);
pub const V_BOUNDS: Var = var("bounds", "abs", "bounds", 1e-3, 4, false, false);
pub const V_MIXED: Var = var("mixed", "adapt", "mixed", 1e-3, 4, true, false);
pub const V_OUT: Var = var("outside", "abs", "outside", 1e-3, 3, false, false);
pub const V_ONE: Var = var("one", "rel", "one", 1e-3, 4, false, false);
pub const V_B0: Var = var("budget0", "abs", "free", 1e-3, 0, false, false);
pub const V_B1: Var = var("budget1", "abs", "steps", 1e-2, 1, true, false);
pub const V_B2: Var = var("budget2", "mixC", "free", 1e-2, 2, false, true);
pub const V_TOL0: Var = var("tol0", "abs", "free", 0.0, 3, false, false);
pub const V_LOOSE: Var = var("loose", "abs", "free", 0.5, 4, true, false);
pub const V_REL: Var = var("rel", "rel", "free", 1e-3, 4, false, true);
pub const V_ADAPT: Var = var("adapt", "adapt", "free", 1e-3, 4, true, false);

pub fn mk(prob: &str, v: &Var, meth: usize, damping: bool, fd: bool, alpha: Alphabet) -> Cfg {
    let p = problem(prob);
    let n = crate::env::prob(p).n;
    let x0: V = crate::env::prob(p).x0.to_vec();
    let (stop, upd) = norms(v.norms, n);
    let fd_params = (meth + damping as usize) % 2 == 1;
    Cfg {
        id: format!(
            "{}/{}/{}/{}/{}/{}",
            prob,
            v.name,
            METH_NAMES[meth],
            if damping { "damped" } else { "plain" },
            if fd { "fd" } else { "analytic" },
            alpha.name
        ),
        prob: p,
        stat: v.stat,
        meth,
        damping,
        fd,
        fd_params,
        stop,
        upd,
        lims: lims(v.lims, &x0),
        tol: v.tol,
        max_iter: v.max_iter,
        x0,
        alpha,
        hist: v.hist,
    }
}

pub const V_PERT: Var = var("pert", "abs", "pert", 1e-3, 3, false, true);
pub const V_TIGHT: Var = var("tight", "mixB", "tight", 1e-3, 4, true, false);
pub const V_VLONG: Var = var("verylong", "abs", "free", 0.0, 60, true, false);
pub const V_VLONGM: Var = var("verylongM", "mixC", "steps", 0.0, 60, false, false);

pub const V_VLONGT: Var = var("verylongT", "mixB", "tight", 1e-3, 60, false, false);
pub const V_VLONGS: Var = var("verylongS", "abs", "steps", 1e-4, 60, true, true);
pub const V_STEP12: Var = var("steps12", "mixA", "steps2", 1e-4, 12, true, false);
pub const V_MIC: Var = var("mic", "abs", "mic", 1e-15, 6, false, false);
pub const V_MEG: Var = var("meg", "abs", "meg", 10.0, 6, true, false);
pub const V_MICL: Var = var("micL", "mixA", "micL", 1e-15, 6, true, false);
pub const V_MEGL: Var = var("megL", "mixC", "megL", 10.0, 6, false, false);
pub const V_CENT: Var = var("centuries", "abs", "free", 0.0, 300, true, false);
pub const V_MILL: Var = var("millennia", "mixA", "free", 0.0, 5000, true, false);
pub const V_AGES: Var = var("ages", "abs", "free", 0.0, 66_000, true, false);

pub const V_USER: Var = var("user", "mixA", "user", 1e-3, 4, false, false);
pub const V_USERL: Var = var("userL", "mixC", "userL", 1e-3, 4, true, true);

pub const V_POS: Var = var("pos", "mixA", "free", 1e-3, 2, false, false);
pub const V_POSL: Var = var("posL", "mixC", "tight", 1e-3, 2, true, false);
pub const V_DFLT: Var = var("default", "abs", "dflt", 1e-6, 50, false, false);
pub const V_DFLTS: Var = var("default-static", "abs", "dflt", 1e-6, 50, true, false);

/// every budget with every tolerance
pub fn lattice(norms: &'static str, lims: &'static str, iters: &[usize], tols: &[f64]) -> Vec<Var> {
    let mut v = vec![];
    for i in iters {
        for t in tols {
            let name: &'static str = Box::leak(format!("p{}-{:e}-{}-{}", i, t, norms, lims).into_boxed_str());
            v.push(var(name, norms, lims, *t, *i, i % 2 == 0, false));
        }
    }
    v
}
pub const TOLS: &[f64] = &[0.0, 5e-324, 1e-12, 0.02, 0.75, 3.0, 1e9, f64::MAX, f64::INFINITY, -1.0, f64::NAN];

/// other initial guesses
pub fn from(kind: &'static str, mut v: Vec<Case>, lims_of: &[Var]) -> Vec<Case> {
    for c in v.iter_mut() {
        let name = c.cfg.id.split('/').nth(1).unwrap().to_string();
        let var = lims_of.iter().find(|w| w.name == name).unwrap();
        let x0: V = c
            .cfg
            .x0
            .iter()
            .enumerate()
            .map(|(i, x)| match kind {
                "zero" => 0.0,
                "mzero" => if i % 2 == 0 { -0.0 } else { *x },
                "neg" => -x,
                "tiny" => x * 1e-7,
                "large" => x * 1e4,
                "huge" => x * 1e150,
                "nan" => if i == 0 { f64::NAN } else { *x },
                "inf" => if i == 0 { *x } else { f64::INFINITY },
                _ => panic!("from {}", kind),
            })
            .collect();
        c.cfg.lims = lims(
            if x0.iter().all(|v| v.is_finite()) { var.lims } else { "free" },
            &x0,
        );
        c.cfg.x0 = x0;
        c.cfg.id = format!("{}/from-{}", c.cfg.id, kind);
    }
    v
}

/// the same cases, explored along stretches of calls
pub fn stretched(mut v: Vec<Case>, pat: u8) -> Vec<Case> {
    for c in v.iter_mut() {
        c.pat = pat;
        c.depth = 0;
        c.cfg.id = format!("{}/stretch{}", c.cfg.id, pat);
    }
    v
}

/// product of the choices
pub fn product(
    probs: &[&str],
    vars: &[Var],
    meths: &[usize],
    dampings: &[bool],
    fds: &[bool],
    alpha: Alphabet,
    depth: usize,
) -> Vec<Case> {
    let mut out = vec![];
    for p in probs {
        for v in vars {
            for m in meths {
                for d in dampings {
                    for f in fds {
                        out.push(Case {
                            cfg: mk(p, v, *m, *d, *f, alpha),
                            depth,
                            pat: 0,
                        });
                    }
                }
            }
        }
    }
    out
}

pub const ALL_M: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
pub const QN_M: &[usize] = &[2, 3, 4, 5, 6, 7, 8, 9];
pub const BOTH: &[bool] = &[false, true];


/// no unknown at all: the budget and the tolerance only
pub fn nothing(meths: &[usize], dampings: &[bool], fds: &[bool], depth: usize) -> Vec<Case> {
    let mut v = product(&["nothing"], &lattice("abs", "free", &[0, 1, 2, 5], &[-1.0, 0.0, 1e-3, f64::NAN]), meths, dampings, fds, EMPTY, depth);
    v.extend(product(&["nothing"], &[V_MIXB, V_TIGHT, V_B1], meths, dampings, fds, EMPTY, depth));
    v
}
