//! Exhaustive exploration of the answers of the model, every execution being judged by the monitor.

use crate::cases::*;
use crate::env::*;
use crate::explore::*;
use crate::monitor;
use std::sync::atomic::Ordering;

pub fn trace_cases(prop: &str, thorough: bool) -> Vec<Case> {
    let mut c: Vec<Case> = vec![];
    let mut add = |v: Vec<Case>| c.extend(v);
    let t = thorough;
    // long resolutions and bigger problems: every property is observed on them
    let damp: &[bool] = if prop == "C12" { &[true] } else { BOTH };
    let fds: &[bool] = if prop == "C09" { &[true] } else { BOTH };
    let meths = if prop == "C10" { QN_M } else { ALL_M };
    add(product(
        &["noroot1", "noroot2", "big4"],
        &[V_VLONG, V_VLONGM],
        meths,
        damp,
        fds,
        SMALL,
        if t { 1 } else { 0 },
    ));
    add(product(&["noroot1"], &[V_VLONG], meths, damp, fds, if t { FULL } else { SMALL }, 1));
    add(product(&["big4", "big5", "big7", "big10"], &[V_LONG, V_MIXB, V_TIGHT], meths, damp, fds, SMALL, if t { 1 } else { 0 }));
    add(product(&["big5", "big7"], &[V_BASE, V_MIXA], meths, damp, fds, SMALL, 1));
    // every other usual behaviour of the model
    for mood in MOODS {
        add(product(&["cpl2", "atan1"], &[V_LONG, V_MIXB, V_LOOSE], meths, damp, fds, *mood, 1));
        add(product(&["big4", "atan1", "noroot2"], &[V_VLONGS], meths, damp, fds, *mood, 0));
        if t {
            add(product(&["cpl2", "atan1"], &[V_LONG, V_MIXB], meths, damp, fds, *mood, 2));
            add(product(&["atan1", "noroot2"], &[V_VLONGS], meths, damp, fds, *mood, 1));
        }
    }
    // stopped by the limits, diverging
    add(product(&["noroot1", "atan2", "big4"], &[V_VLONGT, V_VLONGS], meths, damp, fds, SMALL, if t { 1 } else { 0 }));
    add(product(&["atan1", "sq1", "cub1"], &[V_VLONG, V_VLONGS], meths, damp, fds, SMALL, if t { 1 } else { 0 }));
    add(product(&["noroot1"], &[V_VLONGS], meths, damp, fds, SMALL, 1));
    // parameters implemented by the user
    add(product(&["cpl2", "atan1", "cpl3"], &[V_USER, V_USERL], meths, damp, fds, SMALL, if t { 2 } else { 1 }));
    // other units
    add(product(&["mic2"], &[V_MIC, V_MICL], meths, damp, fds, FULL, 1));
    add(product(&["meg2"], &[V_MEG, V_MEGL], meths, damp, fds, FULL, 1));
    add(product(&["noroot1", "noroot2", "cub1"], &[V_CENT], meths, damp, fds, SMALL, 0));
    if matches!(prop, "C05" | "C11" | "C03") {
        add(product(&["noroot1"], &[V_AGES], &[0, 1, 2], damp, fds, SMALL, 0));
    }
    add(product(&["big12", "big17"], &[V_LONG, V_MIXB, V_TIGHT], meths, damp, fds, SMALL, if t { 1 } else { 0 }));
    add(product(&["scl3"], &[V_BASE, V_MIXA, V_STEPS, V_LONG], meths, damp, fds, FULL, 1));
    // budgets and tolerances
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C11" | "C12") || t {
        add(product(&["atan1"], &lattice("abs", "free", &[0, 1, 2, 3, 5, 8], TOLS), meths, damp, fds, SMALL, 1));
        add(product(&["cpl2"], &lattice("mixC", "steps", &[0, 1, 4], TOLS), meths, damp, fds, SMALL, 1));
    }
    add(nothing(meths, damp, fds, if t { 5 } else { 3 }));
    // every number of unknowns
    let dims = dims(false);
    add(product(&dims, &[V_MIXB, V_LONG], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], damp, fds, SMALL, 0));
    add(product(&crate::env::dims(true), &[V_LONG, V_MIXB], meths, damp, fds, SMALL, 0));
    let few: Vec<&str> = DIMS.iter().filter(|p| p.n <= 40 && (t || p.n % 2 == 1 || p.n == 40)).map(|p| p.name).collect();
    add(product(&few, &[V_POS, V_POSL], if prop == "C10" { &[2, 9] } else { &[0, 1, 2, 9] }, damp, fds, POS, 1));
    // the same answer along stretches of calls
    let st = [V_LONG, V_MIXB, V_STEPS2];
    add(stretched(product(&["cpl2", "atan1"], &st, meths, damp, fds, FULL, 0), 1));
    add(stretched(product(&["noroot2", "atan1"], &[V_STEP12], meths, damp, &[false], SMALL, 0), if t { 2 } else { 1 }));
    if t {
        add(stretched(product(&["cpl2", "atan1", "noroot2"], &st, meths, damp, fds, FULL, 0), 2));
    }
    let starts = [V_BASE, V_STEPS, V_TIGHT, V_MIXA];
    for kind in ["zero", "mzero", "neg", "tiny", "large"] {
        add(from(kind, product(&["cpl2", "atan2"], &starts, meths, damp, fds, SMALL, if t { 2 } else { 1 }), &starts));
    }
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C23") {
        for kind in ["nan", "inf", "huge"] {
            add(from(kind, product(&["cpl2", "atan1", "cpl3"], &[V_BASE, V_MIXA], ALL_M, BOTH, BOTH, SMALL, if t { 2 } else { 1 }), &starts));
        }
    }
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C23" => {
            add(product(&["cpl2"], &[V_BASE], ALL_M, BOTH, BOTH, FULL, 2));
            add(product(&["atan1"], &[V_BASE], ALL_M, BOTH, BOTH, FULL, if t { 3 } else { 2 }));
            add(product(&["atan2"], &[V_MIXB], &[4, 5, 6, 7, 8, 9], &[true], BOTH, SMALL, 2));
            add(product(
                &["sq1", "cpl2", "cpl3"],
                &[V_B0, V_B1, V_B2, V_TOL0, V_LOOSE, V_MIXA, V_MIXC, V_OUT, V_LONG],
                ALL_M,
                BOTH,
                BOTH,
                FULL,
                1,
            ));
            add(product(&["atan1", "sq1"], &[V_BASE, V_MIXA, V_B2], ALL_M, BOTH, BOTH, SMALL, if t { 3 } else { 2 }));
            if t {
                add(product(&["cpl2"], &[V_BASE, V_MIXB], ALL_M, BOTH, BOTH, SMALL, 3));
                add(product(&["cpl2", "atan2"], &[V_MIXA, V_MIXC, V_BOUNDS, V_LONG], ALL_M, BOTH, BOTH, FULL, 2));
                add(product(&["cpl3"], &[V_BASE, V_MIXB], ALL_M, BOTH, BOTH, FULL, 2));
                add(product(&["atan1"], &[V_B2], ALL_M, BOTH, BOTH, SMALL, 4));
            }
        }
        "C07" => {
            add(product(&["cpl2", "atan2"], &[V_STEPS, V_BOUNDS, V_MIXED, V_STEPS2], ALL_M, BOTH, BOTH, VALUES, 2));
            add(product(
                &["atan1", "cpl3"],
                &[V_STEPS, V_STEPS2, V_BOUNDS, V_MIXED, V_OUT, V_ONE, V_MIXB, V_MIXC],
                ALL_M,
                BOTH,
                BOTH,
                FULL,
                1,
            ));
            if t {
                add(product(
                    &["cpl2", "atan2", "atan1"],
                    &[V_STEPS, V_STEPS2, V_BOUNDS, V_MIXED, V_OUT, V_ONE, V_MIXB],
                    ALL_M,
                    BOTH,
                    BOTH,
                    FULL,
                    2,
                ));
                add(product(&["atan1", "cub1", "atan2"], &[V_STEPS, V_BOUNDS], ALL_M, BOTH, BOTH, VALUES, 3));
                add(product(&["cpl3"], &[V_STEPS, V_MIXED], ALL_M, BOTH, BOTH, VALUES, 2));
            }
        }
        "C08" => {
            add(product(&["cpl2"], &[V_BASE, V_MIXA], &[0, 1, 2, 5], BOTH, BOTH, VALUES, 2));
            add(product(&["cpl2", "atan2"], &[V_LONG, V_ADAPT], &[0, 1], BOTH, BOTH, FULL, 2));
            add(product(&["cpl3", "sq1", "atan2"], &[V_BASE, V_MIXA, V_MIXB, V_REL, V_ADAPT, V_LONG], ALL_M, BOTH, BOTH, FULL, 1));
            if t {
                add(product(&["cpl2", "atan2", "cpl3"], &[V_BASE, V_MIXA, V_MIXB, V_LONG, V_ADAPT], ALL_M, BOTH, BOTH, VALUES, 2));
                add(product(&["atan1", "cub1", "cpl2"], &[V_LONG, V_ADAPT], ALL_M, BOTH, BOTH, VALUES, 3));
            }
        }
        "C09" => {
            add(product(&["cpl2"], &[V_BASE, V_MIXB, V_PERT], ALL_M, BOTH, &[true], FULL, 2));
            add(product(&["cpl3", "atan2", "cub1"], &[V_BASE, V_MIXA, V_STEPS2, V_BOUNDS, V_LONG, V_REL, V_PERT], ALL_M, BOTH, &[true], FULL, 1));
            if t {
                add(product(&["cpl2", "atan2", "cpl3"], &[V_BASE, V_MIXA, V_STEPS2, V_LONG, V_PERT], ALL_M, BOTH, &[true], FULL, 2));
                add(product(&["cpl2"], &[V_BASE, V_PERT], ALL_M, BOTH, &[true], SMALL, 3));
            }
        }
        "C10" => {
            add(product(&["cpl2", "atan2"], &[V_LONG, V_STEPS], QN_M, BOTH, BOTH, VALUES, 2));
            add(product(&["atan1", "cpl2", "cpl3"], &[V_LONG, V_MIXA, V_STEPS, V_MIXC, V_REL, V_ADAPT], QN_M, BOTH, BOTH, FULL, 1));
            if t {
                add(product(&["cpl2", "atan2", "cpl3"], &[V_LONG, V_MIXA, V_STEPS2, V_ADAPT], QN_M, BOTH, BOTH, VALUES, 2));
                add(product(&["atan1", "cub1", "cpl2"], &[V_LONG, V_STEPS], QN_M, BOTH, BOTH, VALUES, 3));
            }
        }
        "C11" | "C12" => {
            add(product(&["cpl2", "atan1"], &[V_LONG], ALL_M, damp, BOTH, VALUES, 2));
            add(product(&["atan2"], &[V_STEPS2], ALL_M, &[true], BOTH, VALUES, 2));
            add(product(
                &["atan1", "atan2", "cpl3"],
                &[V_BASE, V_LONG, V_MIXA, V_MIXB, V_MIXC, V_BOUNDS],
                ALL_M,
                BOTH,
                BOTH,
                FULL,
                1,
            ));
            if t {
                add(product(&["cpl2", "atan2", "cpl3"], &[V_LONG, V_MIXA, V_MIXB, V_BOUNDS], ALL_M, BOTH, BOTH, VALUES, 2));
                add(product(&["atan1", "cub1", "cpl2"], &[V_LONG, V_STEPS], ALL_M, BOTH, BOTH, VALUES, 3));
            }
        }
        "C13" => {
            add(product(&["cpl2", "cpl3", "atan2"], &[V_MIXA, V_MIXB, V_MIXC, V_REL, V_ADAPT], ALL_M, BOTH, BOTH, FULL, 1));
            add(product(&["cpl2"], &[V_MIXA, V_MIXB, V_MIXC, V_REL, V_ADAPT], &[0, 1, 3], BOTH, BOTH, FULL, 2));
            if t {
                add(product(&["cpl2", "cpl3"], &[V_MIXA, V_MIXB, V_MIXC, V_ADAPT], ALL_M, BOTH, BOTH, FULL, 2));
            }
        }
        _ => {}
    }
    // the same configuration asked twice keeps its biggest depth
    c.sort_by(|a, b| a.cfg.id.cmp(&b.cfg.id).then(b.depth.cmp(&a.depth)));
    c.dedup_by(|a, b| a.cfg.id == b.cfg.id);
    // the longest explorations first
    c.sort_by_key(|k| {
        let pts = k.cfg.max_calls().min(40) as u64;
        let mut w = 1u64;
        for _ in 0..k.depth {
            w *= pts * k.cfg.alpha.e.len() as u64
        }
        if k.pat > 0 {
            w = pts * pts * (k.cfg.alpha.e.len() as u64).pow(k.pat as u32)
        }
        std::cmp::Reverse(w)
    });
    c
}

pub fn suite(prop: &str, thorough: bool) -> Report {
    let cases = trace_cases(prop, thorough);
    let show = std::env::var("MC_OTHER").ok();
    let mut rep = parallel(&cases, |case, rep, stop| {
        let ch = case_hash(&case.cfg.id);
        let mut k = 0u64;
        explore_case(case, stop, &mut |script, r| {
            let v = monitor::monitor(&case.cfg, r);
            k += 1;
            rep.runs += 1;
            rep.transitions += new_points(script, r);
            for s in &v.states {
                rep.state(s ^ ch);
            }
            if !v.complete {
                rep.incomplete += 1;
            }
            rep.feat(r.outcome.feat());
            for f in &v.feats {
                rep.feat(f);
            }
            for (p, m) in &v.viol {
                if *p == prop {
                    rep.viol("trace", &case.cfg.id, script, format!("{} | answers {} | {}", m, describe_script(&case.cfg, script, r), case.cfg.describe()));
                    if rep.nviol as usize >= MAX_VIOL {
                        stop.store(true, Ordering::Relaxed);
                    }
                } else {
                    if show.as_deref() == Some(*p) {
                        rep.errors.push(format!("OTHER {} {:?} {} {}", case.cfg.id, script, m, describe_script(&case.cfg, script, r)));
                    }
                    *rep.other.entry(p.to_string()).or_insert(0) += 1;
                }
            }
            if k == 1 || k == 37 {
                rep.sample(format!("{} {} -> {:?}", case.cfg.id, describe_script(&case.cfg, script, r), r.outcome));
            }
        });
    });
    let mut per: std::collections::BTreeMap<usize, usize> = Default::default();
    for c in cases.iter().filter(|c| c.pat == 0) {
        *per.entry(c.depth).or_insert(0) += 1
    }
    let stretch = |k: u8| cases.iter().filter(|c| c.pat == k).count();
    rep.bounds.push(format!(
        "answers of the model: every script of at most d deviations from the natural answers, (d: number of configurations) {:?}",
        per
    ));
    rep.bounds.push(format!(
        "stretches: the same answer given to every call of every stretch of calls ({} configurations); also to one call out of two or three, and one answer until some call then another one, for every pair of answers and every call ({} configurations)",
        stretch(1), stretch(2)
    ));
    rep
}

/// replay one execution and print what the monitor says
pub fn replay(case: &str, script: &Script) -> Option<Vec<(String, String)>> {
    for prop in ["C01", "C07", "C08", "C09", "C10", "C11", "C12", "C13"] {
        for t in [false, true] {
            if let Some(c) = trace_cases(prop, t).into_iter().find(|c| c.cfg.id == case) {
                let r = crate::run::run(&c.cfg, script, &Default::default());
                println!("{}", c.cfg.describe());
                println!("answers: {}", describe_script(&c.cfg, script, &r));
                for (i, e) in r.events.iter().enumerate() {
                    println!("{:4} {:?}", i, e);
                }
                println!("outcome: {:?} {}", r.outcome, r.display);
                let v = monitor::monitor(&c.cfg, &r);
                return Some(v.viol.iter().map(|(p, m)| (p.to_string(), m.clone())).collect());
            }
        }
    }
    None
}
