//! C22: the default and convenience constructors mean the documented configuration.

use crate::cases::*;
use crate::env::*;
use crate::explore::*;
use crate::run::*;
use newton_rootfinder as nrf;
use nrf::iteratives::{Iterative, IterativeParams, IterativeParamsFD, PerturbationMethod};
use nrf::residuals::{NormalizationMethod, ResidualConfig, ResidualsConfig};
use std::sync::atomic::Ordering;

const NMS: [NormalizationMethod; 3] = [NormalizationMethod::Abs, NormalizationMethod::Rel, NormalizationMethod::Adapt];

/// the values exposed by the constructors, every size up to a bound
fn exposed(top: usize, rep: &mut Report) {
    let inf = f64::INFINITY;
    let free = |a: f64, r: f64, lo: f64, hi: f64| a == inf && r == inf && lo == -inf && hi == inf;
    for n in 0..=top {
        rep.cases += 1;
        let v = nrf::iteratives::default_vec_iteratives(n);
        let f = nrf::iteratives::default_vec_iteratives_fd(n);
        let r = nrf::residuals::default_vec_residuals(n);
        rep.check("defaults", "length", v.len() == n && f.len() == n && r.len() == n, || {
            format!("{} {} {} elements instead of {}", v.len(), f.len(), r.len(), n)
        });
        for (i, p) in v.iter().enumerate() {
            rep.check(
                "defaults",
                "limits",
                free(p.get_max_step_abs(), p.get_max_step_rel(), p.get_min_value(), p.get_max_value())
                    && *p == IterativeParams::new(inf, inf, -inf, inf)
                    && *p == IterativeParams::default(),
                || format!("unknown {} of {}: {:?}", i, n, p),
            );
        }
        for (i, p) in f.iter().enumerate() {
            rep.check(
                "defaults",
                "limits and perturbations",
                free(p.get_max_step_abs(), p.get_max_step_rel(), p.get_min_value(), p.get_max_value())
                    && p.get_dx_abs() == 5e-8
                    && p.get_dx_rel() == 5e-8
                    && p.get_perturbation_method() == PerturbationMethod::Max
                    && *p == IterativeParamsFD::new(inf, inf, -inf, inf, 5e-8, 5e-8, PerturbationMethod::Max)
                    && *p == IterativeParamsFD::default(),
                || format!("unknown {} of {}: {:?}", i, n, p),
            );
            for x in [0.0, 1.0, -1.0, 1e-9, 3.5, -1e6, 1e12, -1e-300] {
                let want = 5e-8 * f64::max(1.0, f64::abs(x));
                let got = p.compute_perturbation(x);
                rep.check("defaults", "perturbation", (got - want).abs() <= 1e-14 * want, || {
                    format!("unknown {} of {}: perturbed by {} at {} instead of {}", i, n, got, x, want)
                });
            }
        }
        for (i, p) in r.iter().enumerate() {
            rep.check(
                "defaults",
                "residuals",
                p.get_stopping_criteria() == NormalizationMethod::Abs
                    && p.get_update_method() == NormalizationMethod::Abs
                    && *p == ResidualConfig::default(),
                || format!("equation {} of {}: {:?}", i, n, p),
            );
        }
        let (s, u) = ResidualsConfig::convert_into_vecs(r);
        rep.check("defaults", "vectors", s == vec![NormalizationMethod::Abs; n] && u == s, || {
            format!("{} equations: {:?} {:?}", n, s, u)
        });
    }
    rep.bounds.push(format!("every number of unknowns and equations up to {}", top));
}

/// every list of residual configurations up to a length goes through `convert_into_vecs` unchanged
fn conversions(top: usize, rep: &mut Report) {
    for n in 0..=top {
        for code in 0..9usize.pow(n as u32) {
            rep.cases += 1;
            let (mut k, mut s, mut u) = (code, vec![], vec![]);
            for _ in 0..n {
                s.push(NMS[k % 3]);
                u.push(NMS[k / 3 % 3]);
                k /= 9;
            }
            let list: Vec<ResidualConfig> = s.iter().zip(&u).map(|(a, b)| ResidualConfig::new(*a, *b)).collect();
            let (s2, u2) = ResidualsConfig::convert_into_vecs(list);
            rep.check("defaults", "convert_into_vecs", s2 == s && u2 == u, || {
                format!("{:?} {:?} becomes {:?} {:?}", s, u, s2, u2)
            });
            rep.distinct.insert(case_hash(&format!("{} {}", n, code)));
        }
    }
    rep.bounds.push(format!("convert_into_vecs: every list of at most {} pairs of normalizations", top));
}

fn cases(thorough: bool) -> Vec<Case> {
    let t = thorough;
    let v = [V_DFLT, V_DFLTS];
    let mut c = vec![];
    c.extend(product(&["sq1", "atan1", "cpl2", "cub1"], &v, ALL_M, BOTH, BOTH, FULL, 1));
    c.extend(product(&["atan2", "cpl3", "aff2", "aff3", "scl3"], &v, ALL_M, BOTH, BOTH, SMALL, 1));
    c.extend(product(&["noroot1", "noroot2"], &v, ALL_M, BOTH, BOTH, SMALL, if t { 1 } else { 0 }));
    c.extend(product(&["noroot1"], &[V_DFLT], &[0, 1, 2], BOTH, BOTH, SMALL, 1));
    c.extend(product(&["big4", "big7"], &[V_DFLT], ALL_M, BOTH, BOTH, SMALL, if t { 1 } else { 0 }));
    c.extend(product(&["mic2", "meg2"], &[V_DFLT], ALL_M, BOTH, BOTH, SMALL, 1));
    let dims = dims(false);
    c.extend(product(&dims, &[V_DFLT], ALL_M, BOTH, BOTH, SMALL, 0));
    c.extend(product(&crate::env::dims(true), &[V_DFLT], ALL_M, BOTH, BOTH, SMALL, 0));
    // used to the last iteration, or converging slowly, whatever the size
    for mood in [ALWAYS_TIE, ALWAYS_HALF, ALWAYS_BETTER] {
        c.extend(product(&dims, &[V_DFLT], if t { ALL_M } else { &[0, 1, 4] }, BOTH, if t { BOTH } else { &[false] }, mood, 0));
    }
    for mood in MOODS {
        c.extend(product(&["cpl2", "atan1", "noroot2"], &[V_DFLT], ALL_M, BOTH, BOTH, *mood, 0));
    }
    for kind in ["zero", "neg", "large", "huge"] {
        c.extend(from(kind, product(&["cpl2", "atan1", "atan2"], &[V_DFLT], ALL_M, BOTH, BOTH, SMALL, if t { 1 } else { 0 }), &[V_DFLT]));
    }
    c.extend(stretched(product(&["cpl2", "sq1"], &[V_DFLT], ALL_M, BOTH, &[false], SMALL, 0), 1));
    if t {
        c.extend(product(&["sq1", "cpl2"], &[V_DFLT], ALL_M, BOTH, BOTH, SMALL, 2));
    }
    c.sort_by(|a, b| a.cfg.id.cmp(&b.cfg.id).then(b.depth.cmp(&a.depth)));
    c.dedup_by(|a, b| a.cfg.id == b.cfg.id);
    c.sort_by_key(|k| std::cmp::Reverse((k.depth, k.pat, k.cfg.n())));
    c
}

pub fn c22(thorough: bool) -> Report {
    let mut rep = Report::default();
    exposed(if thorough { 2000 } else { 300 }, &mut rep);
    conversions(if thorough { 6 } else { 4 }, &mut rep);
    let list = cases(thorough);
    rep.merge(parallel(&list, |case, rep, stop| {
        let cfg = &case.cfg;
        let ch = case_hash(&cfg.id);
        explore_case(case, stop, &mut |script, r| {
            let v = crate::monitor::monitor(cfg, r);
            rep.transitions += new_points(script, r);
            for s in &v.states {
                rep.state(s ^ ch);
            }
            rep.feat(r.outcome.feat());
            // each constructor alone, then all of them
            let sets: &[(bool, bool, bool)] = if script.is_empty() || thorough {
                &[(true, true, true), (true, false, false), (false, true, false), (false, false, true)]
            } else {
                &[(true, true, true)]
            };
            for d in sets {
                let b = run(cfg, script, &Opts { default: *d, ..Default::default() });
                rep.runs += 1;
                if let Some(m) = diff_run(r, &b) {
                    rep.viol("defaults", &cfg.id, script, format!(
                        "default (limits, residuals, solver) {:?}: {} | answers {} | {}", d, m, describe_script(cfg, script, r), cfg.describe()
                    ));
                    if rep.nviol as usize >= MAX_VIOL {
                        stop.store(true, Ordering::Relaxed);
                    }
                    return;
                }
            }
            if script.is_empty() {
                rep.sample(format!("{} -> {:?} after {} calls", cfg.id, r.outcome, r.points.len()));
            }
        });
    }));
    rep.bounds.push(format!(
        "{} configurations (1 to 40 unknowns, every method, with and without damping, jacobian given or not), each explicit resolution repeated with a solver built by the default constructors",
        list.len()
    ));
    rep
}

