//! Command line: `mc check <ID> <tier>`, `mc replay <file>`.

use crate::explore::*;
use crate::s_funcs as f;
use std::fmt::Write as _;
use std::time::Instant;

pub struct Suite {
    pub name: &'static str,
    pub run: fn(&'static str, bool) -> Report,
}

fn suites(prop: &str) -> Vec<Suite> {
    let trace = || Suite { name: "trace", run: |p, t| crate::s_trace::suite(p, t) };
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C11" | "C12" => vec![trace()],
        "C06" => vec![Suite { name: "history", run: |_, t| crate::s_history::suite(t) }],
        "C07" => vec![trace(), Suite { name: "grid-limits", run: |_, t| f::c07(t) }],
        "C08" => vec![trace(), Suite { name: "affine", run: |_, t| f::c08_affine(t) }],
        "C09" => vec![
            trace(),
            Suite { name: "grid-perturbations", run: |_, _| f::c09_perturbations() },
            Suite { name: "fd-jacobian", run: |_, t| f::c09_jacobian(t) },
        ],
        "C10" => vec![trace(), Suite { name: "formulas", run: |_, t| f::c10(t) }],
        "C13" => vec![trace(), Suite { name: "grid-residuals", run: |_, t| f::c13_grids(t) }],
        "C14" => vec![Suite { name: "xml", run: |_, t| crate::s_xml::c14(t) }],
        "C15" => vec![Suite { name: "constructors", run: |_, t| f::c15(t) }],
        "C16" => vec![Suite { name: "log", run: |_, t| crate::s_log::c16(t) }],
        "C17" => vec![Suite { name: "crash", run: |_, t| crate::s_log::c17(t) }],
        "C19" => vec![Suite { name: "formulations", run: |_, t| crate::s_equiv::c19(t) }],
        "C20" => vec![Suite { name: "renumbering", run: |_, t| crate::s_equiv::c20(t) }],
        "C21" => vec![Suite { name: "one-dimensional", run: |_, t| crate::s_equiv::c21(t) }],
        "C18" => vec![Suite { name: "schedules", run: |_, t| crate::s_sched::c18(t) }],
        "C23" => vec![trace(), Suite { name: "logged", run: |_, t| crate::s_log::c23(t) }],
        "C22" => vec![Suite { name: "defaults", run: |_, t| crate::s_default::c22(t) }],
        "C24" => vec![Suite { name: "described", run: |_, t| crate::s_api::c24_described(t) }],
        "C25" => vec![Suite { name: "jacobian-object", run: |_, t| crate::s_api::c25(t) }],
        "C27" => vec![Suite { name: "frames", run: |_, t| crate::s_frame::c27(t) }],
        "C28" => vec![Suite { name: "settings", run: |_, t| crate::s_frame::c28(t) }],
        "C26" => vec![Suite { name: "published", run: |_, t| crate::s_api::c26(t) }],
        _ => vec![],
    }
}

pub fn level(prop: &str) -> &'static str {
    match prop {
        "C17" => "fault_enumeration",
        "C15" | "C26" => "exploration",
        _ => "model_checking",
    }
}

fn rule(prop: &str) -> &'static str {
    const STATES: &str = "one case = one execution of the real solver under one script of answers of the model; distinct cases are the distinct states of the reference machine reached on these executions: (current point, residuals, validity, matrix, phase, iteration)";
    match prop {
        "C06" => "one case = one history of resolutions with one solver object, followed by each script of the judged resolution; states: distinct (configuration, history)",
        "C14" => "one case = one XML document given to one of the two parsers; states: distinct (text, parser); a document is trivial when it is a repeated text",
        "C15" => "one case = one combination of arguments of one constructor; distinct: distinct combinations",
        "C16" => "one case = one execution with the log compared with the same one without it; states: distinct prefixes of the calls of these executions",
        "C17" => "one fault = one crash (panic of the model or end of the process) at one call of one execution; distinct: distinct files left by the crash",
        "C18" => "one case = one schedule of two or three real threads, or one nesting; states: distinct (group, calls made so far by each thread), or switch positions inside the library",
        "C19" => "one case = one resolution written in several ways, or one sequence of operations on an adapter; states: distinct prefixes of the calls, states of the reference machine, states of the adapters",
        "C20" => "one case = one resolution compared with its renumberings; states: distinct states of the reference machine on the executions",
        "C21" => "one case = one resolution by a minimal solver compared with the n-dimensional one; distinct: distinct (equation, point, step) visited",
        "C22" => "one case = one resolution of a solver built explicitly repeated with the one built by default (states of the reference machine on it), or one size of a default configuration",
        "C24" => "one case = one description of an error, a setting or a result read back; states: distinct descriptions",
        "C25" => "one case = one sequence of operations on a JacobianMatrix; states: distinct (matrix, inverse, flags) of the reference object",
        "C27" => "one case = one resolution compared with the same one seen in another frame (units, signs, sides); states: distinct states of the reference machine on the executions",
        "C28" => "one case = one resolution compared with the same one under other settings that must not matter, or only cut it; states: distinct prefixes of the evaluations of these executions",
        "C26" => "one case = one published problem at one point; distinct: distinct points",
        "C07" | "C08" | "C09" | "C10" | "C13" => "one case = one execution of the real solver under one script of answers of the model, or one point of a complete grid of a building block; distinct: distinct states of the reference machine reached on these executions, and distinct points of the grids",
        _ => STATES,
    }
}

const ASSUME: &[&str] = &[
    "the reference (monitor, formulas) written in /verif/mc states the property correctly",
    "values whose rounding decides are accepted either way (three-valued comparisons); ill-conditioned matrices are not judged",
    "answers of the model are limited to the alphabet and to the number of deviations listed in bounds",
];

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

fn map(m: &std::collections::BTreeMap<String, u64>) -> String {
    format!(
        "{{{}}}",
        m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
    )
}

/// lines `known: property=<id> <suite> <case> <script>` of the known findings
fn known(prop: &str, root: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS", root)) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={} ", prop)) {
                if let Some((k, what)) = r.split_once(" :: ") {
                    v.push((k.trim().to_string(), what.trim().to_string()));
                }
            }
        }
    }
    v
}

fn check(prop: &'static str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let root = std::env::var("MC_ROOT").unwrap_or("/verif".into());
    let thorough = tier == "thorough";
    let list = suites(prop);
    if list.is_empty() {
        eprintln!("no suite for {}", prop);
        return 2;
    }
    let mut rep = Report::default();
    let mut per = vec![];
    for s in list {
        let t = Instant::now();
        let r = (s.run)(prop, thorough);
        per.push(format!(
            "{{\"suite\": {}, \"configurations\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"evaluations\": {}, \"wall_s\": {:.2}}}",
            js(s.name), r.cases, r.runs, r.states.len(), r.transitions, r.evals, t.elapsed().as_secs_f64()
        ));
        rep.merge(r);
    }
    let kn = known(prop, &root);
    let mut viols = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for v in &rep.viols {
        let key = format!("{} {} {:?}", v.suite, v.case, v.script);
        if let Some((_, what)) = kn.iter().find(|(k, _)| *k == key) {
            if seen.insert(key) {
                println!("KNOWN-FINDING: property={} {}", prop, what);
            }
        } else {
            viols.push(v.clone());
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut extra = if rep.evals > 0 || level(prop) != "model_checking" {
        format!(
            "\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},",
            if rep.evals > 0 { rep.evals } else { rep.runs },
            if rep.distinct.is_empty() { rep.states.len() } else { rep.distinct.len() }
        )
    } else {
        String::new()
    };
    if level(prop) == "model_checking" {
        extra += &format!(
            "\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},",
            rep.states.len(), rep.transitions, rep.runs
        );
    }
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{{}\n  \"configurations\": {},\n  \"rule\": {},\n  \"samples\": {},\n  \"exhaustive\": {},\n  \"bounds\": {},\n  \"per_suite\": [{}],\n  \"reached\": {},\n  \"reports_under_other_properties\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(prop), js(tier), seed, js(level(prop)),
        extra, rep.cases,
        js(rule(prop)), arr(&rep.samples), viols.is_empty() && rep.errors.is_empty(), arr(&rep.bounds), per.join(", "),
        map(&rep.feats), map(&rep.other),
        arr(&ASSUME.iter().map(|s| s.to_string()).collect::<Vec<_>>()), wall, viols.len()
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root, prop), ev) {
        eprintln!("evidence: {}", e);
        return 2;
    }
    println!(
        "{} {}: {} configurations, {} executions, {} states, {} transitions, {} evaluations, {:.1}s",
        prop, tier, rep.cases, rep.runs, rep.states.len(), rep.transitions, rep.evals, wall
    );
    if std::env::var("MC_VERBOSE").is_ok() {
        println!("reached {:?}\nother {:?}\nbounds {:?}", rep.feats, rep.other, rep.bounds);
    }
    for e in rep.errors.iter().take(20) {
        println!("note: {}", e);
    }
    if !viols.is_empty() {
        let _ = std::fs::create_dir_all(format!("{}/replays", root));
        for (k, v) in viols.iter().take(4).enumerate() {
            let path = format!("{}/replays/{}-{}.txt", root, prop, k);
            let sc: Vec<String> = v.script.iter().map(|(i, a)| format!("{}:{}", i, a)).collect();
            let _ = std::fs::write(
                &path,
                format!("property={}\nsuite={}\ncase={}\nscript={}\nmessage={}\n", prop, v.suite, v.case, sc.join(","), v.msg),
            );
            println!("VIOLATION property={} replay={}", prop, path);
            println!("  {} {}: {}", v.suite, v.case, v.msg);
        }
        return 1;
    }
    if rep.runs + rep.evals == 0 {
        eprintln!("nothing was explored");
        return 2;
    }
    0
}

fn replay(path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| {
        s.lines()
            .find_map(|l| l.strip_prefix(&format!("{}=", k)))
            .unwrap_or("")
            .to_string()
    };
    let script = get("script")
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (a, b) = x.split_once(':').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .collect();
    let prop: &'static str = Box::leak(get("property").into_boxed_str());
    if get("suite") == "trace" {
        match crate::s_trace::replay(&get("case"), &script) {
            Some(v) => {
                for (p, m) in &v {
                    println!("{}: {}", p, m);
                }
                return if v.iter().any(|(p, _)| p == prop) { 1 } else { 0 };
            }
            None => println!("unknown case"),
        }
        return 2;
    }
    // the other explorations are short: run again, show what is said about this case
    println!("recorded: {}", get("message"));
    for sname in suites(prop) {
        if sname.name == get("suite") {
            let r = (sname.run)(prop, false);
            let mut n = 0;
            for v in r.viols.iter().filter(|v| v.case == get("case")) {
                println!("{} {}: {}", v.suite, v.case, v.msg);
                n += 1;
            }
            println!("{} violations now, {} of this case", r.nviol, n);
            return if r.nviol > 0 { 1 } else { 0 };
        }
    }
    2
}

pub fn main() -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop: &'static str = Box::leak(args[2].clone().into_boxed_str());
            let tier = args.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            check(prop, &tier)
        }
        Some("crash-child") => crate::s_log::crash_child(&args[2], args[3].parse().unwrap(), &args[4]),
        Some("sched-child") => crate::s_sched::child(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap()),
        Some("replay") => replay(&args[2]),
        _ => {
            eprintln!("mc check <ID> quick|thorough | mc replay <file>");
            2
        }
    }
}
