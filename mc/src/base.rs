//! Reference mathematics, written independently of the library under check.

pub type V = Vec<f64>;
pub type Mx = Vec<Vec<f64>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Nm {
    Abs,
    Rel,
    Adapt,
}

pub const NMS: [Nm; 3] = [Nm::Abs, Nm::Rel, Nm::Adapt];

/// signed residual
pub fn norm(k: Nm, l: f64, r: f64) -> f64 {
    match k {
        Nm::Abs => l - r,
        Nm::Rel => {
            if l == r && l.is_finite() {
                0.0
            } else {
                2.0 * (l - r) / (l + r).abs()
            }
        }
        Nm::Adapt => (l - r) / (1.0 + 0.5 * (l + r).abs()),
    }
}

/// derivative of the signed residual; None where the normalization is not differentiable
pub fn dnorm(k: Nm, l: f64, r: f64, dl: f64, dr: f64) -> Option<f64> {
    let s = l + r;
    match k {
        Nm::Abs => Some(dl - dr),
        Nm::Rel => {
            if s == 0.0 {
                None
            } else {
                Some(2.0 * (dl - dr) / s.abs() - 2.0 * (l - r) * s.signum() * (dl + dr) / (s * s))
            }
        }
        Nm::Adapt => {
            if s == 0.0 {
                None
            } else {
                let a = 1.0 + 0.5 * s.abs();
                Some((dl - dr) / a - (l - r) * 0.5 * s.signum() * (dl + dr) / (a * a))
            }
        }
    }
}

/// magnitude of the terms of the derivative (before cancellation)
pub fn dnorm_terms(k: Nm, l: f64, r: f64, dl: f64, dr: f64) -> f64 {
    let s = l + r;
    let d = dl.abs() + dr.abs();
    let e = l.abs() + r.abs();
    match k {
        Nm::Abs => d,
        Nm::Rel => 2.0 * d / s.abs() + 2.0 * e * d / (s * s),
        Nm::Adapt => {
            let a = 1.0 + 0.5 * s.abs();
            d / a + 0.5 * e * d / (a * a)
        }
    }
}

pub fn max_err(e: &[f64]) -> f64 {
    let mut m: f64 = 0.0;
    for v in e {
        if v.is_nan() {
            return f64::NAN;
        }
        if v.abs() > m {
            m = v.abs();
        }
    }
    m
}

pub fn inf_norm(v: &[f64]) -> f64 {
    max_err(v)
}

pub fn mat_norm(m: &Mx) -> f64 {
    let mut best: f64 = 0.0;
    for r in m {
        let s: f64 = r.iter().map(|x| x.abs()).sum();
        if s.is_nan() {
            return f64::NAN;
        }
        best = best.max(s);
    }
    best
}

pub fn mat_vec(m: &Mx, v: &[f64]) -> V {
    m.iter()
        .map(|r| r.iter().zip(v).map(|(a, b)| a * b).sum())
        .collect()
}

pub fn mat_mul(a: &Mx, b: &Mx) -> Mx {
    let n = a.len();
    (0..n)
        .map(|i| {
            (0..n)
                .map(|j| (0..n).map(|k| a[i][k] * b[k][j]).sum())
                .collect()
        })
        .collect()
}

pub fn transpose(m: &Mx) -> Mx {
    let n = m.len();
    (0..n).map(|i| (0..n).map(|j| m[j][i]).collect()).collect()
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

pub fn norm2(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}

pub fn all_finite(m: &Mx) -> bool {
    m.iter().all(|r| r.iter().all(|x| x.is_finite()))
}

/// Gauss-Jordan with full pivoting; None if a pivot vanishes
pub fn inverse(m: &Mx) -> Option<Mx> {
    let n = m.len();
    let mut a: Vec<V> = m.clone();
    let mut b: Vec<V> = (0..n)
        .map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect())
        .collect();
    let mut colperm: Vec<usize> = (0..n).collect();
    for k in 0..n {
        let (mut pi, mut pj, mut best) = (k, k, 0.0);
        for i in k..n {
            for j in k..n {
                if a[i][j].abs() > best {
                    best = a[i][j].abs();
                    pi = i;
                    pj = j;
                }
            }
        }
        if !(best > 0.0) || !best.is_finite() {
            return None;
        }
        a.swap(k, pi);
        b.swap(k, pi);
        for row in a.iter_mut() {
            row.swap(k, pj);
        }
        colperm.swap(k, pj);
        let p = a[k][k];
        for j in 0..n {
            a[k][j] /= p;
            b[k][j] /= p;
        }
        for i in 0..n {
            if i != k {
                let f = a[i][k];
                if f != 0.0 {
                    for j in 0..n {
                        a[i][j] -= f * a[k][j];
                        b[i][j] -= f * b[k][j];
                    }
                }
            }
        }
    }
    let mut out = vec![vec![0.0; n]; n];
    for k in 0..n {
        out[colperm[k]] = b[k].clone();
    }
    Some(out)
}

/// Exactly singular in any floating point elimination: a null row or a null column,
/// or (2x2, entries small integers) an exactly null determinant.
pub fn surely_singular(m: &Mx) -> bool {
    let n = m.len();
    if !all_finite(m) {
        return false;
    }
    for i in 0..n {
        if (0..n).all(|j| m[i][j] == 0.0) || (0..n).all(|j| m[j][i] == 0.0) {
            return true;
        }
    }
    let small_int = m
        .iter()
        .all(|r| r.iter().all(|x| x.fract() == 0.0 && x.abs() <= 64.0));
    if small_int && n == 2 {
        // power-of-two friendly: the elimination factor must be exact
        let det = m[0][0] * m[1][1] - m[0][1] * m[1][0];
        if det == 0.0 {
            let (p, q) = if m[0][0].abs() >= m[1][0].abs() {
                (m[0][0], m[1][0])
            } else {
                (m[1][0], m[0][0])
            };
            let f = q / p;
            return f * p == q && (f * 8.0).fract() == 0.0;
        }
    }
    false
}

/// (inverse, condition number) when the matrix is finite and well enough conditioned
pub fn good_inverse(m: &Mx, max_cond: f64) -> Option<(Mx, f64)> {
    if !all_finite(m) {
        return None;
    }
    let inv = inverse(m)?;
    if !all_finite(&inv) {
        return None;
    }
    let k = mat_norm(m) * mat_norm(&inv);
    if k.is_finite() && k <= max_cond {
        Some((inv, k))
    } else {
        None
    }
}

pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

pub fn same_v(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y))
}

#[derive(Clone, Copy)]
pub struct Hasher64(pub u64);
impl Hasher64 {
    pub fn new() -> Self {
        Hasher64(0xcbf29ce484222325)
    }
    pub fn u(&mut self, v: u64) {
        let mut x = self.0 ^ v.wrapping_mul(0x9E3779B97F4A7C15);
        x ^= x >> 29;
        x = x.wrapping_mul(0xBF58476D1CE4E5B9);
        x ^= x >> 32;
        self.0 = x;
    }
    pub fn f(&mut self, v: f64) {
        self.u(if v.is_nan() { 0x7ff8_0000_0000_0001 } else { v.to_bits() })
    }
    pub fn fs(&mut self, v: &[f64]) {
        for x in v {
            self.f(*x)
        }
    }
}

/// limit of one unknown, reference semantic
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Lim {
    pub abs: f64,
    pub rel: f64,
    pub min: f64,
    pub max: f64,
    pub dx_abs: f64,
    pub dx_rel: f64,
    pub sum: bool,
    /// the part of the limited step that is taken: other than 1.0 with an `Iterative` of the user
    pub relax: f64,
    /// perturbed downwards: an `Iterative` of the user
    pub back: bool,
}

impl Lim {
    /// not one of the `Iterative` of the library
    pub fn custom(&self) -> bool {
        self.relax != 1.0 || self.back
    }
    pub fn free(dx_abs: f64, dx_rel: f64, sum: bool) -> Lim {
        Lim {
            abs: f64::INFINITY,
            rel: f64::INFINITY,
            min: f64::NEG_INFINITY,
            max: f64::INFINITY,
            dx_abs,
            dx_rel,
            sum,
            relax: 1.0,
            back: false,
        }
    }
    pub fn max_step(&self, cur: f64) -> f64 {
        // a relative limit does not bound anything when it is infinite
        let r = if self.rel.is_infinite() {
            if cur == 0.0 {
                f64::NAN
            } else {
                f64::INFINITY
            }
        } else {
            self.rel * cur.abs()
        };
        if r.is_nan() {
            self.abs
        } else {
            self.abs.min(r)
        }
    }
    pub fn apply(&self, cur: f64, raw: f64) -> f64 {
        if raw.is_nan() || cur.is_nan() {
            return f64::NAN;
        }
        let m = self.max_step(cur);
        let s = if raw.abs() > m {
            if raw > 0.0 {
                m
            } else {
                -m
            }
        } else {
            raw
        };
        let v = cur + s;
        let v = if v < self.min {
            self.min
        } else if v > self.max {
            self.max
        } else {
            v
        };
        if self.relax == 1.0 {
            v
        } else {
            cur + self.relax * (v - cur)
        }
    }
    pub fn pert(&self, x: f64) -> f64 {
        let r = self.dx_rel * x.abs();
        let p = if self.sum {
            self.dx_abs + r
        } else if r > self.dx_abs {
            r
        } else {
            self.dx_abs
        };
        if self.back {
            -p
        } else {
            p
        }
    }
}
