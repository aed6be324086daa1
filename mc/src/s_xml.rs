//! C14: every document reached from a valid one by at most two mutations, every pattern of present and
//! absent attributes, every method: the parsers against an independent reading of the document.

use crate::base::*;
use crate::explore::*;
use crate::run::*;
use crate::s_log::Scratch;
use newton_rootfinder as nrf;
use nrf::iteratives::{IterativeParams, IterativeParamsFD, PerturbationMethod};
use nrf::residuals::NormalizationMethod;
use nrf::solver::SolverParameters;
use nrf::xml_parser::{from_xml_finite_diff, from_xml_jacobian};
use std::panic::catch_unwind;
use std::sync::atomic::{AtomicU64, Ordering};

static COUNT: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug, PartialEq)]
pub struct El {
    name: String,
    attrs: Vec<(String, String)>,
    kids: Vec<El>,
}

fn el(name: &str, attrs: &[(&str, String)], kids: Vec<El>) -> El {
    El {
        name: name.into(),
        attrs: attrs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(),
        kids,
    }
}

impl El {
    fn get(&self, a: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == a).map(|(_, v)| v.as_str())
    }
    fn write(&self, out: &mut String, depth: usize, style: usize) {
        let nl = |out: &mut String, d: usize| {
            if style != 1 {
                out.push('\n');
                for _ in 0..d {
                    out.push_str("  ")
                }
            }
        };
        nl(out, depth);
        out.push('<');
        out.push_str(&self.name);
        let q = if style == 2 { '\'' } else { '"' };
        let mut put = |(k, v): &(String, String)| {
            out.push(' ');
            out.push_str(k);
            out.push('=');
            out.push(q);
            if style == 4 {
                // written with character references
                for (i, c) in v.chars().enumerate() {
                    match i % 3 {
                        0 => out.push_str(&format!("&#{};", c as u32)),
                        1 => out.push_str(&format!("&#x{:x};", c as u32)),
                        _ => out.push(c),
                    }
                }
            } else {
                out.push_str(v);
            }
            out.push(q);
        };
        if style == 2 {
            self.attrs.iter().rev().for_each(&mut put)
        } else {
            self.attrs.iter().for_each(&mut put)
        }
        if self.kids.is_empty() && style != 2 {
            out.push_str("/>");
        } else {
            out.push('>');
            for k in &self.kids {
                if style == 3 {
                    out.push_str("<!-- an <iterative id=\"7\"/> note -->")
                }
                if style == 4 {
                    out.push_str(" a note\r\n\t<![CDATA[<iterative id=\"9\"/>]]> and another &lt;residual/&gt; ")
                }
                k.write(out, depth + 1, style)
            }
            nl(out, depth);
            out.push_str("</");
            out.push_str(&self.name);
            out.push('>');
        }
    }
    fn text(&self, style: usize) -> String {
        let mut s = String::new();
        if style != 1 {
            s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>");
        }
        self.write(&mut s, 0, style);
        if style != 1 {
            s.push('\n')
        }
        s
    }
}

// ------------------------------------------------------------------------------- the meaning of a document

#[derive(Clone, Debug, PartialEq)]
struct ItM {
    min: f64,
    max: f64,
    abs: f64,
    rel: f64,
    dx: Option<(f64, f64, bool)>,
}

#[derive(Clone, Debug, PartialEq)]
struct Meaning {
    n: usize,
    max_iter: usize,
    tol: f64,
    meth: usize,
    damping: bool,
    its: Vec<ItM>,
    res: Vec<(Nm, Nm)>,
}

enum Ref {
    Means(Meaning),
    Rejected(String),
    /// it may be refused or not (something more in it than what is read), but it can mean nothing else
    Open(Meaning),
}

type R<T> = Result<T, String>;

fn int(e: &El, a: &str) -> R<usize> {
    let v = e.get(a).ok_or(format!("{} without {}", e.name, a))?;
    v.parse::<usize>().map_err(|_| format!("{}={:?} is not an integer", a, v))
}
fn flt(e: &El, a: &str, parent: Option<f64>) -> R<f64> {
    match e.get(a) {
        Some(v) => v.parse::<f64>().map_err(|_| format!("{}={:?} is not a number", a, v)),
        None => parent.ok_or(format!("{} without {}", e.name, a)),
    }
}
fn nm(e: &El, a: &str, parent: Option<Nm>) -> R<Nm> {
    match e.get(a) {
        Some("Abs") => Ok(Nm::Abs),
        Some("Rel") => Ok(Nm::Rel),
        Some("Adapt") => Ok(Nm::Adapt),
        Some(v) => Err(format!("{}={:?}", a, v)),
        None => parent.ok_or(format!("{} without {}", e.name, a)),
    }
}
fn sum(e: &El, parent: Option<bool>) -> R<bool> {
    match e.get("perturbation_method") {
        Some("Max") => Ok(false),
        Some("Sum") => Ok(true),
        Some(v) => Err(format!("perturbation_method={:?}", v)),
        None => parent.ok_or(format!("{} without perturbation_method", e.name)),
    }
}

fn it_node(e: &El, fd: bool, p: Option<&ItM>) -> R<ItM> {
    let m = ItM {
        min: flt(e, "min_value", p.map(|p| p.min))?,
        max: flt(e, "max_value", p.map(|p| p.max))?,
        abs: flt(e, "max_step_abs", p.map(|p| p.abs))?,
        rel: flt(e, "max_step_rel", p.map(|p| p.rel))?,
        dx: if fd {
            Some((
                flt(e, "dx_abs", p.map(|p| p.dx.unwrap().0))?,
                flt(e, "dx_rel", p.map(|p| p.dx.unwrap().1))?,
                sum(e, p.map(|p| p.dx.unwrap().2))?,
            ))
        } else {
            None
        },
    };
    let ok = m.abs > 0.0 && m.rel > 0.0 && m.min < m.max && m.dx.map(|d| d.0 > 0.0 && d.1 > 0.0).unwrap_or(true);
    if ok {
        Ok(m)
    } else {
        Err(format!("invalid limits {:?}", m))
    }
}

const SOLVER_A: &[&str] = &["problem_size", "max_iter", "tolerance", "damping", "resolution_method"];
const IT_A: &[&str] = &["id", "min_value", "max_value", "max_step_abs", "max_step_rel", "dx_abs", "dx_rel", "perturbation_method"];
const RES_A: &[&str] = &["id", "stopping_criteria", "update_method"];

fn meaning(root: &El, fd: bool) -> Ref {
    let mut open = false;
    let r = meaning_inner(root, fd, &mut open);
    match r {
        // open only matters for documents which are otherwise valid
        Ok(m) if open => Ref::Open(m),
        Ok(m) => Ref::Means(m),
        Err(m) => Ref::Rejected(m),
    }
}

fn meaning_inner(root: &El, fd: bool, open: &mut bool) -> R<Meaning> {
    let mut known = |e: &El, list: &[&str]| {
        if e.attrs.iter().any(|(k, _)| !list.contains(&k.as_str())) {
            *open = true
        }
    };
    if root.name != "nrf" {
        return Err("root".into());
    }
    for (k, want) in ["solver", "iteratives", "residuals"].iter().enumerate() {
        match root.kids.get(k) {
            Some(e) if e.name == *want => {}
            Some(e) => return Err(format!("{} where {} is expected", e.name, want)),
            None => return Err(format!("no {}", want)),
        }
    }
    let (s, is, rs) = (&root.kids[0], &root.kids[1], &root.kids[2]);
    known(s, SOLVER_A);
    known(is, &IT_A[1..]);
    known(rs, &RES_A[1..]);
    let n = int(s, "problem_size")?;
    let max_iter = int(s, "max_iter")?;
    let tol = flt(s, "tolerance", None)?;
    let name = s.get("resolution_method").ok_or("solver without resolution_method")?;
    let meth = METH_NAMES.iter().position(|m| *m == name).ok_or(format!("resolution_method={:?}", name))?;
    let damping = match s.get("damping") {
        None | Some("false") => false,
        Some("true") => true,
        Some(v) => return Err(format!("damping={:?}", v)),
    };
    let parent = it_node(is, fd, None)?;
    let mut its = vec![];
    for (k, e) in is.kids.iter().enumerate() {
        if e.name != "iterative" {
            return Err(format!("{} in iteratives", e.name));
        }
        known(e, IT_A);
        if int(e, "id")? != k {
            return Err(format!("id {:?} at position {}", e.get("id"), k));
        }
        its.push(it_node(e, fd, Some(&parent))?);
    }
    let ps = nm(rs, "stopping_criteria", None)?;
    let pu = nm(rs, "update_method", None)?;
    let mut res = vec![];
    for (k, e) in rs.kids.iter().enumerate() {
        if e.name != "residual" {
            return Err(format!("{} in residuals", e.name));
        }
        known(e, RES_A);
        if int(e, "id")? != k {
            return Err(format!("id {:?} at position {}", e.get("id"), k));
        }
        res.push((nm(e, "stopping_criteria", Some(ps))?, nm(e, "update_method", Some(pu))?));
    }
    if its.len() != n || res.len() != n {
        return Err(format!("problem_size {} with {} unknowns and {} equations", n, its.len(), res.len()));
    }
    if root.kids.len() > 3 || n == 0 || !s.kids.is_empty() || is.kids.iter().chain(&rs.kids).any(|k| !k.kids.is_empty()) {
        *open = true
    }
    Ok(Meaning { n, max_iter, tol, meth, damping, its, res })
}

// ------------------------------------------------------------------------------- the parsers

type Common = (SolverParameters, Vec<NormalizationMethod>, Vec<NormalizationMethod>);

fn cmp_common(m: &Meaning, c: &Common) -> Option<String> {
    let (p, s, u) = c;
    if p.get_problem_size() != m.n
        || p.get_max_iter() != m.max_iter
        || !same(p.get_tolerance(), m.tol)
        || p.get_damping() != m.damping
        || p.get_resolution_method() != lib_meth(METHS[m.meth])
    {
        return Some(format!("solver parameters {:?}", p));
    }
    let ws: Vec<_> = m.res.iter().map(|r| lib_nm(r.0)).collect();
    let wu: Vec<_> = m.res.iter().map(|r| lib_nm(r.1)).collect();
    if *s != ws {
        return Some(format!("stopping criteria {:?} instead of {:?}", s, ws));
    }
    if *u != wu {
        return Some(format!("update methods {:?} instead of {:?}", u, wu));
    }
    None
}

fn run_parser(path: &str, fd: bool) -> Option<(Common, Vec<ItM>)> {
    if fd {
        catch_unwind(|| from_xml_finite_diff(path)).ok().map(|(p, i, s, u)| {
            let its = i
                .iter()
                .map(|k: &IterativeParamsFD| {
                    let q = k.get_iterative_params();
                    ItM {
                        min: q.get_min_value(),
                        max: q.get_max_value(),
                        abs: q.get_max_step_abs(),
                        rel: q.get_max_step_rel(),
                        dx: Some((k.get_dx_abs(), k.get_dx_rel(), k.get_perturbation_method() == PerturbationMethod::Sum)),
                    }
                })
                .collect();
            ((p, s, u), its)
        })
    } else {
        catch_unwind(|| from_xml_jacobian(path)).ok().map(|(p, i, s, u)| {
            let its = i
                .iter()
                .map(|q: &IterativeParams| ItM {
                    min: q.get_min_value(),
                    max: q.get_max_value(),
                    abs: q.get_max_step_abs(),
                    rel: q.get_max_step_rel(),
                    dx: None,
                })
                .collect();
            ((p, s, u), its)
        })
    }
}

fn check_doc(doc: &El, style: usize, fd: bool, path: &str, rep: &mut Report) -> Result<(), String> {
    let text = doc.text(style);
    rep.transitions += 1;
    rep.state(case_hash(&text) ^ fd as u64);
    let want = meaning(doc, fd);
    std::fs::write(path, &text).map_err(|e| format!("scratch file: {}", e))?;
    let got = run_parser(path, fd);
    rep.runs += 1;
    match (want, got) {
        (Ref::Rejected(why), Some((p, its))) => Err(format!("accepted as {:?} {:?} instead of being rejected ({})", p.0, its, why)),
        (Ref::Rejected(_), None) => {
            rep.feat("rejected");
            Ok(())
        }
        (Ref::Means(m), None) => Err(format!("rejected while it means {:?}", m)),
        (Ref::Open(_), None) => {
            rep.feat("left-open: rejected");
            Ok(())
        }
        (Ref::Means(m) | Ref::Open(m), Some((p, its))) => {
            rep.feat("accepted");
            if let Some(e) = cmp_common(&m, &p) {
                return Err(e);
            }
            if its != m.its {
                return Err(format!("unknowns {:?} instead of {:?}", its, m.its));
            }
            Ok(())
        }
    }
}

// ------------------------------------------------------------------------------- documents

fn solver_el(n: usize, meth: usize) -> El {
    el(
        "solver",
        &[
            ("problem_size", n.to_string()),
            ("max_iter", "37".into()),
            ("tolerance", "2.5e-6".into()),
            ("damping", "true".into()),
            ("resolution_method", METH_NAMES[meth].into()),
        ],
        vec![],
    )
}

/// distinguishable values for each attribute of each node (k = 0: the parent)
fn it_attrs(k: usize, fd: bool) -> Vec<(&'static str, String)> {
    let f = k as f64;
    let mut v = vec![
        ("min_value", format!("{}", -10.0 - f)),
        ("max_value", format!("{}", 20.0 + 2.0 * f)),
        ("max_step_abs", format!("{}", 3.0 + 0.25 * f)),
        ("max_step_rel", format!("{}", 0.5 + 0.125 * f)),
    ];
    if fd {
        v.push(("dx_abs", format!("{}", 0.001 * (1.0 + f))));
        v.push(("dx_rel", format!("{}", 0.0005 * (1.0 + f))));
        v.push(("perturbation_method", if k % 2 == 0 { "Max".into() } else { "Sum".into() }));
    }
    v
}

fn its_el(n: usize, fd: bool, present: &[usize]) -> El {
    let kids = (0..n)
        .map(|i| {
            let mut a = vec![("id", i.to_string())];
            a.extend(it_attrs(i + 1, fd).into_iter().enumerate().filter(|(q, _)| present[i] >> q & 1 == 1).map(|(_, x)| x));
            el("iterative", &a, vec![])
        })
        .collect();
    el("iteratives", &it_attrs(0, fd), kids)
}

const NMN: [&str; 3] = ["Abs", "Rel", "Adapt"];

fn res_el(parent: (usize, usize), kids: &[(Option<usize>, Option<usize>)]) -> El {
    let k = kids
        .iter()
        .enumerate()
        .map(|(i, (s, u))| {
            let mut a = vec![("id", i.to_string())];
            if let Some(s) = s {
                a.push(("stopping_criteria", NMN[*s].to_string()))
            }
            if let Some(u) = u {
                a.push(("update_method", NMN[*u].to_string()))
            }
            el("residual", &a, vec![])
        })
        .collect();
    el("residuals", &[("stopping_criteria", NMN[parent.0].into()), ("update_method", NMN[parent.1].into())], k)
}

fn base(n: usize, fd: bool, meth: usize) -> El {
    // attributes given, inherited, mixed
    let present: Vec<usize> = (0..n).map(|i| [0b1010101, 0b0000000, 0b1111111, 0b0110011][i % 4]).collect();
    let kids: Vec<_> = (0..n).map(|i| [(Some(1), None), (None, Some(2)), (Some(0), Some(1)), (None, None)][i % 4]).collect();
    el("nrf", &[], vec![solver_el(n, meth), its_el(n, fd, &present), res_el((2, 0), &kids)])
}

// ------------------------------------------------------------------------------- mutations

#[derive(Clone, Debug)]
enum Mu {
    Remove(usize),
    Set(usize, String),
    Rename(usize, String),
    Add(String, String),
    DelNode,
    DupNode,
    SwapNode,
    RenameNode(String),
    AddKid(String),
}

fn at<'a>(e: &'a mut El, path: &[usize]) -> Option<&'a mut El> {
    match path.split_first() {
        None => Some(e),
        Some((k, r)) => e.kids.get_mut(*k).and_then(|c| at(c, r)),
    }
}

fn apply(root: &El, path: &[usize], m: &Mu) -> Option<El> {
    let mut d = root.clone();
    match m {
        Mu::DelNode | Mu::DupNode | Mu::SwapNode => {
            let (k, p) = path.split_last()?;
            let parent = at(&mut d, p)?;
            if *k >= parent.kids.len() {
                return None;
            }
            match m {
                Mu::DelNode => {
                    parent.kids.remove(*k);
                }
                Mu::DupNode => {
                    let c = parent.kids[*k].clone();
                    parent.kids.insert(*k, c);
                }
                _ => {
                    if k + 1 >= parent.kids.len() {
                        return None;
                    }
                    parent.kids.swap(*k, k + 1)
                }
            }
        }
        _ => {
            let e = at(&mut d, path)?;
            match m {
                Mu::Remove(k) => {
                    if *k >= e.attrs.len() {
                        return None;
                    }
                    e.attrs.remove(*k);
                }
                Mu::Set(k, v) => {
                    let a = e.attrs.get_mut(*k)?;
                    if a.1 == *v {
                        return None;
                    }
                    a.1 = v.clone()
                }
                Mu::Rename(k, v) => {
                    if e.attrs.iter().any(|(q, _)| q == v) {
                        return None;
                    }
                    e.attrs.get_mut(*k)?.0 = v.clone()
                }
                Mu::Add(k, v) => {
                    if e.attrs.iter().any(|(q, _)| q == k) {
                        return None;
                    }
                    e.attrs.push((k.clone(), v.clone()))
                }
                Mu::RenameNode(v) => e.name = v.clone(),
                Mu::AddKid(v) => e.kids.push(el(v, &[("id", e.kids.len().to_string())], vec![])),
                _ => unreachable!(),
            }
        }
    }
    Some(d)
}

fn paths(e: &El) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for (k, c) in e.kids.iter().enumerate() {
        for mut p in paths(c) {
            p.insert(0, k);
            out.push(p)
        }
    }
    out
}

const INTS: &[&str] = &["0", "1", "2", "3", "4", "-1", "2.0", "x", "", " 2", "2e0", "+2", "18446744073709551616"];
const FLTS: &[&str] = &["1e-3", "0", "-0.0", "-2", "100", "inf", "-inf", "NaN", "x", "", "1,5", " 1", "1e400", "1e-400", "+7", ".5", "infinity"];
const METHV: &[&str] = &[
    "NR", "SN", "BROY1", "BROY1_INV", "BROY2", "BROY2_INV", "GRST1", "GRST1_INV", "GRST2", "GRST2_INV", "nr", "BROY", "BROY3", "GRST1_INV ", "",
];
const BOOLS: &[&str] = &["true", "false", "True", "1", "", "yes"];
const NMV: &[&str] = &["Abs", "Rel", "Adapt", "abs", "adapt", "", "Absolute"];
const PERTV: &[&str] = &["Max", "Sum", "max", "", "Both"];

fn mutations(doc: &El, few: bool) -> Vec<(Vec<usize>, Mu)> {
    let mut out = vec![];
    for p in paths(doc) {
        let mut d = doc.clone();
        let e = at(&mut d, &p).unwrap().clone();
        for (k, (name, val)) in e.attrs.iter().enumerate() {
            out.push((p.clone(), Mu::Remove(k)));
            let vals: &[&str] = match name.as_str() {
                "problem_size" | "max_iter" | "id" => INTS,
                "resolution_method" => METHV,
                "damping" => BOOLS,
                "stopping_criteria" | "update_method" => NMV,
                "perturbation_method" => PERTV,
                _ => FLTS,
            };
            for (q, v) in vals.iter().enumerate() {
                if few && q >= 8 {
                    continue;
                }
                out.push((p.clone(), Mu::Set(k, v.to_string())));
            }
            // numbers congruent to the right one
            if let ("id", Ok(id)) = (name.as_str(), val.parse::<u128>()) {
                for sh in [3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 31, 32, 63, 64] {
                    out.push((p.clone(), Mu::Set(k, (id + (1u128 << sh)).to_string())));
                }
                for sh in [10u128, 100, 1000, 10_000, 100_000, 1_000_000, 1_000_000_000] {
                    out.push((p.clone(), Mu::Set(k, (id + sh).to_string())));
                }
                for t in [format!("0{}", id), format!("{}.0", id), format!("-{}", id), format!("{} ", id)] {
                    out.push((p.clone(), Mu::Set(k, t)));
                }
            }
            out.push((p.clone(), Mu::Rename(k, name.to_uppercase())));
        }
        for (k, v) in [("damping", "false"), ("dx_abs", "0.7"), ("perturbation_method", "Sum"), ("min_value", "-1"), ("update_method", "Rel"), ("stopping_criteria", "Rel")] {
            out.push((p.clone(), Mu::Add(k.into(), v.into())));
        }
        out.push((p.clone(), Mu::DelNode));
        out.push((p.clone(), Mu::DupNode));
        out.push((p.clone(), Mu::SwapNode));
        for n in ["nrf", "solver", "iteratives", "iterative", "residuals", "residual", "Iterative", "other"] {
            if e.name != n {
                out.push((p.clone(), Mu::RenameNode(n.into())));
            }
        }
        for n in ["iterative", "residual", "other"] {
            out.push((p.clone(), Mu::AddKid(n.into())));
        }
    }
    out
}

enum Work {
    /// all mutations, then a second one when `two`; a slice of the first ones
    Mutate { doc: El, fd: bool, parse_fd: bool, two: bool, few: bool, part: (usize, usize) },
    Docs { docs: Vec<El>, fd: bool },
}

fn do_work(w: &Work, path: &str, rep: &mut Report, stop: &std::sync::atomic::AtomicBool) {
    let mut one = |doc: &El, style: usize, fd: bool, rep: &mut Report, what: &str| {
        if stop.load(Ordering::Relaxed) {
            return;
        }
        if let Err(m) = check_doc(doc, style, fd, path, rep) {
            let kind = if fd { "from_xml_finite_diff" } else { "from_xml_jacobian" };
            rep.viol("xml", &format!("{} {}", kind, what), &vec![], format!("{}: {} | {}", kind, m, doc.text(1)));
        }
    };
    match w {
        Work::Docs { docs, fd } => {
            for d in docs {
                for style in 0..5 {
                    one(d, style, *fd, rep, &format!("{:x}", case_hash(&d.text(1))));
                }
            }
            rep.sample(docs[docs.len() / 2].text(1));
        }
        Work::Mutate { doc, fd, parse_fd, two, few, part } => {
            let _ = fd;
            let ms = mutations(doc, *few);
            for (i, (p, m)) in ms.iter().enumerate() {
                if i % part.1 != part.0 {
                    continue;
                }
                let d = match apply(doc, p, m) {
                    Some(d) => d,
                    None => continue,
                };
                one(&d, 0, *parse_fd, rep, &format!("{:?} {:?}", p, m));
                if *two {
                    for (p2, m2) in &ms[i + 1..] {
                        if let Some(e) = apply(&d, p2, m2) {
                            one(&e, 1, *parse_fd, rep, &format!("{:?} {:?} {:?} {:?}", p, m, p2, m2));
                        }
                    }
                }
            }
            if part.0 == 0 {
                let (p, m) = &ms[ms.len() / 3];
                if let Some(d) = apply(doc, p, m) {
                    rep.sample(format!("{:?} at {:?}: {}", m, p, d.text(1)));
                }
            }
        }
    }
}

pub fn c14(thorough: bool) -> Report {
    let mut works = vec![];
    // every pattern of present attributes
    let all = |n: usize, fd: bool| -> Vec<El> {
        let b = if fd { 7 } else { 4 };
        let mut out = vec![];
        for x in 0..1usize << b {
            for y in 0..1usize << b {
                if n == 1 && y > 0 {
                    break;
                }
                // the third unknown has the complement
                let pr = [x, y, !x & ((1 << b) - 1)];
                out.push(el(
                    "nrf",
                    &[],
                    vec![solver_el(n, (x + y) % 10), its_el(n, fd, &pr[..n]), res_el((x % 3, y % 3), &vec![(None, None); n])],
                ));
            }
        }
        out
    };
    for fd in [true, false] {
        for n in if thorough { vec![1, 2, 3] } else { vec![1, 2] } {
            let docs = all(n, fd);
            for c in docs.chunks(600) {
                works.push(Work::Docs { docs: c.to_vec(), fd });
                if fd {
                    // the other parser ignores the perturbations
                    if thorough {
                        works.push(Work::Docs { docs: c.to_vec(), fd: false });
                    }
                }
            }
        }
        // every choice of the normalizations
        let opt = [None, Some(0), Some(1), Some(2)];
        let mut docs = vec![];
        for a in 0..3 {
            for b in 0..3 {
                for s0 in opt {
                    for u0 in opt {
                        for s1 in opt {
                            for u1 in opt {
                                docs.push(el("nrf", &[], vec![solver_el(2, a + b), its_el(2, fd, &[5, 2]), res_el((a, b), &[(s0, u0), (s1, u1)])]));
                            }
                        }
                    }
                }
            }
        }
        for c in docs.chunks(600) {
            works.push(Work::Docs { docs: c.to_vec(), fd });
        }
        // the solver node
        let mut docs = vec![];
        for n in 1..5 {
            for m in 0..10 {
                for d in [None, Some("true"), Some("false")] {
                    for it in ["0", "1", "60", "100000"] {
                        for t in ["1e-6", "0", "1", "0.000123", "inf", "-1e-3"] {
                            let mut s = solver_el(n, m);
                            s.attrs[1].1 = it.into();
                            s.attrs[2].1 = t.into();
                            match d {
                                None => {
                                    s.attrs.remove(3);
                                }
                                Some(v) => s.attrs[3].1 = v.into(),
                            }
                            let mut doc = base(n, fd, m);
                            doc.kids[0] = s;
                            docs.push(doc);
                        }
                    }
                }
            }
        }
        for c in docs.chunks(600) {
            works.push(Work::Docs { docs: c.to_vec(), fd });
        }
        // long lists of unknowns and equations, in order and not
        let mut docs = vec![];
        for n in (6..41).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 258, 300]) {
            let doc = base(n, fd, n % 10);
            docs.push(doc.clone());
            for list in [1usize, 2] {
                for k in [0, 1, 9, 10, 63, 64, 99, 100, 127, 128, 254, 255, 256, 257, n - 2, n - 1] {
                    if k >= n {
                        continue;
                    }
                    for m in [Mu::DelNode, Mu::DupNode, Mu::SwapNode] {
                        docs.extend(apply(&doc, &[list, k], &m));
                    }
                    for other in [0, k / 2, k % 10, k % 100, k % 128, k % 256, k + 1, k + 10, k + 100, k + 128, k + 256, k + 1000, k + 1024, k + 4096, k + 65536, n - 1, n] {
                        docs.extend(apply(&doc, &[list, k], &Mu::Set(0, other.to_string())));
                    }
                }
            }
            for size in [0, 1, n - 1, n + 1, n % 10, n % 128, n % 256, n + 256] {
                docs.extend(apply(&doc, &[0], &Mu::Set(0, size.to_string())));
            }
        }
        for c in docs.chunks(200) {
            works.push(Work::Docs { docs: c.to_vec(), fd });
        }
        // mutations
        for n in [1usize, 2, 3, 4, 5, 12] {
            let doc = base(n, fd, (3 * n + fd as usize) % 10);
            let two = n <= if thorough { 3 } else { 1 } || (n == 2 && fd);
            let parts = if two { 32 } else { 2 };
            for part in 0..parts {
                works.push(Work::Mutate { doc: doc.clone(), fd, parse_fd: fd, two, few: !thorough || n > 1, part: (part, parts) });
            }
            works.push(Work::Mutate { doc: doc.clone(), fd, parse_fd: fd, two: false, few: false, part: (0, 1) });
            works.push(Work::Mutate { doc: doc.clone(), fd, parse_fd: !fd, two: false, few: false, part: (0, 1) });
        }
    }
    let dir = Scratch::new();
    let mut rep = parallel(&works, |w, rep, stop| {
        let path = dir.file(&format!("conf-{}.xml", COUNT.fetch_add(1, Ordering::Relaxed)));
        do_work(w, &path, rep, stop);
        if rep.nviol as usize >= MAX_VIOL {
            stop.store(true, Ordering::Relaxed)
        }
        let _ = std::fs::remove_file(&path);
    });
    rep.bounds.push(format!(
        "documents of 1 to 12 unknowns, and up to 300 (lists in order, one node removed, repeated, exchanged or renumbered); every pattern of present attributes for {} unknowns, every normalization given or inherited for 2 equations, every solver node of a grid, every mutation of a document and every pair of mutations for up to {} unknowns",
        if thorough { "1 to 3" } else { "1 and 2" }, if thorough { 3 } else { 2 }
    ));
    rep
}
