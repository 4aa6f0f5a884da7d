//! Generators: matrices of many structures, element kinds, scales and memory layouts.
use crate::engine::{Expand, Source};
use crate::oracle::M;
use crate::scalar::Sc;
use ndarray::{s, Array2, ArrayBase, Axis, Ix2, ShapeBuilder};

/// A matrix dimension >= 1; mostly small, with a tail beyond the usual blocking thresholds.
pub fn size(s: &mut Source) -> usize {
    match s.weighted(&[4000, 3000, 2000, 800, 170, 28, 2]) {
        0 => s.range(1, 4),
        1 => s.range(5, 10),
        2 => s.range(11, 20),
        3 => s.range(21, 40),
        4 => s.range(41, 72),
        5 => s.range(100, 140),
        _ => s.range(141, 280),
    }
}
/// Smaller sizes, for checks whose oracle is expensive.
pub fn size_s(s: &mut Source) -> usize {
    match s.weighted(&[4000, 3300, 2000, 600, 98, 2]) {
        0 => s.range(1, 4),
        1 => s.range(5, 10),
        2 => s.range(11, 20),
        3 => s.range(21, 36),
        4 => s.range(37, 68),
        _ => s.range(69, 132),
    }
}
pub fn dims(s: &mut Source) -> (usize, usize) {
    match s.weighted(&[300, 300, 300, 200, 1]) {
        0 => (size(s), size(s)),
        1 => {
            let n = size(s);
            (n, n)
        }
        2 => {
            let n = size(s);
            (n + s.range(0, 6), n)
        }
        3 => {
            let n = size(s);
            (n, n + s.range(0, 6))
        }
        _ => {
            // far from square
            let (a, b) = (s.range(100, 600), s.range(1, 6));
            if s.chance(1, 2) {
                (a, b)
            } else {
                (b, a)
            }
        }
    }
}
pub fn dims_thin(s: &mut Source) -> (usize, usize) {
    let (a, b) = dims(s);
    (a.max(b), a.min(b))
}

/// Element source: individually drawn (and shrinkable) for small matrices, expanded from one word
/// for large ones.
pub struct Draw<'x, 'a> {
    s: &'x mut Source<'a>,
    e: Option<Expand>,
}
impl<'x, 'a> Draw<'x, 'a> {
    pub fn new(s: &'x mut Source<'a>, count: usize) -> Self {
        let e = if count > 64 { Some(Expand::new(s.below(0))) } else { None };
        Draw { s, e }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        match &mut self.e {
            Some(e) => e.below(n),
            None => self.s.below(n),
        }
    }
    fn signed(&mut self, n: u64) -> f64 {
        let u = self.below(2 * n + 1);
        let m = ((u + 1) / 2) as f64;
        if u % 2 == 1 {
            m
        } else {
            -m
        }
    }
    /// uniform in [-1, 1] on a 2^32 grid; small words are small magnitudes
    fn unit(&mut self) -> f64 {
        let u = self.below(1 << 33);
        let m = (u >> 1) as f64 / 4294967296.0;
        if u & 1 == 1 {
            -m
        } else {
            m
        }
    }
    pub fn elem(&mut self, kind: usize) -> f64 {
        match kind {
            0 => self.signed(3) + 0.0,
            1 => self.signed(100) + 0.0,
            2 => self.unit() * 100.0,
            3 => self.unit(),
            4 => {
                if self.below(10) < 6 {
                    0.0
                } else {
                    self.signed(4) + 0.0
                }
            }
            5 => {
                if self.below(10) < 7 {
                    0.0
                } else {
                    self.unit() * 10.0
                }
            }
            6 => {
                // wide exponent range
                let e = self.below(60) as i32 - 30;
                self.unit() * (e as f64).exp2()
            }
            7 => {
                const SP: [f64; 14] = [
                    0.0, 1.0, -1.0, 0.0, 2.0, 0.5, -0.0, 1e-3, -1e-3, 1.0000001, 1e-8, -1e-8, 3.0, 1e-16,
                ];
                SP[self.below(14) as usize]
            }
            _ => {
                // sums of uniforms: bell-shaped
                (self.unit() + self.unit() + self.unit()) * 2.0
            }
        }
    }
}
pub const ELEM_KINDS: usize = 9;
pub const ELEM_W: [u32; ELEM_KINDS] = [3, 1, 3, 2, 2, 2, 1, 2, 2];

pub fn fill(s: &mut Source, r: usize, c: usize, kind: usize) -> M {
    let mut d = Draw::new(s, r * c);
    let v = (0..r * c).map(|_| d.elem(kind)).collect();
    M { r, c, d: v }
}
pub fn plain(s: &mut Source, r: usize, c: usize) -> M {
    let k = s.weighted(&ELEM_W);
    fill(s, r, c, k)
}
/// Generic full-rank-ish dense content with no special structure.
pub fn dense(s: &mut Source, r: usize, c: usize) -> M {
    let k = s.pick(&[3usize, 2, 8]);
    fill(s, r, c, k)
}

/// A well-orthogonal n x n matrix (product of a few Householder reflections), in f64.
pub fn orthogonal(s: &mut Source, n: usize) -> M {
    let mut q = M::eye(n);
    let k = match s.weighted(&[1, 3, 2]) {
        0 => 0,
        1 => 2.min(n),
        _ => 4.min(n),
    };
    for _ in 0..k {
        let mut v = fill(s, n, 1, 3);
        let nn: f64 = v.d.iter().map(|x| x * x).sum::<f64>();
        if nn == 0.0 {
            continue;
        }
        let nn = nn.sqrt();
        v.d.iter_mut().for_each(|x| *x /= nn);
        // q = q - 2 v (v^T q)
        for j in 0..n {
            let dot: f64 = (0..n).map(|i| v.d[i] * q.get(i, j)).sum();
            for i in 0..n {
                let x = q.get(i, j) - 2.0 * v.d[i] * dot;
                q.set(i, j, x);
            }
        }
    }
    q
}

/// A spectrum of `n` values with the given flavour; signed unless `nonneg`.
pub fn spectrum(s: &mut Source, n: usize, nonneg: bool) -> Vec<f64> {
    let kind = s.weighted(&[3, 3, 2, 2, 2, 2, 1]);
    let mut v: Vec<f64> = match kind {
        0 => (0..n).map(|i| (i + 1) as f64).collect(),
        1 => {
            // few distinct values: high multiplicities
            let vals = [0.0, 1.0, 2.0, 3.0, 1.0];
            let mut d = Draw::new(s, n);
            (0..n).map(|_| vals[d.below(5) as usize]).collect()
        }
        2 => {
            // zeros with some non-zeros
            let k = s.range(0, n);
            (0..n).map(|i| if i < k { (k - i) as f64 } else { 0.0 }).collect()
        }
        3 => {
            // geometric grading
            let base = s.pick(&[0.5, 0.1, 0.01, 1e-4]);
            (0..n).map(|i| f64::powi(base, i as i32)).collect()
        }
        4 => {
            // tight clusters
            let gap = s.pick(&[1e-3, 1e-8, 1e-14]);
            (0..n).map(|i| 1.0 + (i / 3) as f64 + gap * (i % 3) as f64).collect()
        }
        5 => {
            let mut d = Draw::new(s, n);
            (0..n).map(|_| d.unit().abs() * 10.0).collect()
        }
        _ => (0..n).map(|_| 1.0).collect(),
    };
    if !nonneg {
        match s.weighted(&[2, 2, 2, 1]) {
            0 => {}
            1 => {
                let mut d = Draw::new(s, n);
                v.iter_mut().for_each(|x| {
                    if d.below(2) == 1 {
                        *x = -*x
                    }
                })
            }
            2 => {
                // +- pairs
                let w = v.clone();
                for i in 0..n {
                    v[i] = if i % 2 == 0 { w[i / 2] } else { -w[i / 2] };
                }
            }
            _ => v.iter_mut().for_each(|x| *x = -*x),
        }
    }
    v
}

pub fn with_singular_values(s: &mut Source, r: usize, c: usize, sv: &[f64]) -> M {
    let u = orthogonal(s, r);
    let v = orthogonal(s, c);
    let mut us = M::zeros(r, c);
    for i in 0..r {
        for j in 0..r.min(c) {
            us.set(i, j, u.get(i, j) * sv[j]);
        }
    }
    us.mul(&v.t())
}

/// General r x c matrix. Returns the matrix and its structure label.
pub fn general(s: &mut Source, r: usize, c: usize) -> (M, &'static str) {
    let k = r.min(c);
    match s.weighted(&[6, 4, 2, 4, 2, 5, 4, 2, 2, 2, 2, 2]) {
        0 => (plain(s, r, c), "plain"),
        1 => {
            // exactly low rank: product of small-integer factors
            let rk = s.range(0, k.saturating_sub(1));
            let (a, b) = (fill(s, r, rk, 0), fill(s, rk, c, 0));
            (a.mul(&b), "low-rank")
        }
        2 => {
            let e = s.weighted(&ELEM_W);
            let d = fill(s, k, 1, e);
            let mut m = M::zeros(r, c);
            for i in 0..k {
                m.set(i, i, d.d[i]);
            }
            (m, "diagonal")
        }
        3 => {
            // plain with some zeroed / duplicated / proportional columns and rows
            let mut m = plain(s, r, c);
            for _ in 0..s.range(1, 3) {
                match s.u(5) {
                    0 => {
                        let j = s.u(c);
                        (0..r).for_each(|i| m.set(i, j, 0.0))
                    }
                    1 => {
                        let i = s.u(r);
                        (0..c).for_each(|j| m.set(i, j, 0.0))
                    }
                    2 => {
                        let (a, b) = (s.u(c), s.u(c));
                        (0..r).for_each(|i| {
                            let x = m.get(i, a);
                            m.set(i, b, x)
                        })
                    }
                    3 => {
                        let (a, b) = (s.u(c), s.u(c));
                        (0..r).for_each(|i| {
                            let x = m.get(i, a);
                            m.set(i, b, -2.0 * x)
                        })
                    }
                    _ => {
                        let (a, b) = (s.u(r), s.u(r));
                        (0..c).for_each(|j| {
                            let x = m.get(a, j);
                            m.set(b, j, x)
                        })
                    }
                }
            }
            (m, "dup/zero-lines")
        }
        4 => {
            let up = s.chance(1, 2);
            let strict = s.chance(1, 3);
            let mut m = plain(s, r, c);
            for i in 0..r {
                for j in 0..c {
                    if (up && i > j) || (!up && i < j) || (strict && i == j) {
                        m.set(i, j, 0.0);
                    }
                }
            }
            (m, "triangular")
        }
        5 => {
            let sv = spectrum(s, k, true);
            (with_singular_values(s, r, c, &sv), "given-spectrum")
        }
        6 => (special(s, r, c), "special"),
        7 => {
            // bidiagonal with zeros
            let e = s.pick(&[0usize, 3, 4, 7]);
            let d = fill(s, 2, k.max(1), e);
            let up = s.chance(1, 2);
            let mut m = M::zeros(r, c);
            for i in 0..k {
                m.set(i, i, d.get(0, i));
                if up && i + 1 < c {
                    m.set(i, i + 1, d.get(1, i));
                } else if !up && i + 1 < r {
                    m.set(i + 1, i, d.get(1, i));
                }
            }
            (m, "bidiagonal")
        }
        8 => {
            // graded rows/columns
            let mut m = plain(s, r, c);
            let (p, q) = (s.pick(&[0.0, -1.0, -3.0, 1.0, -8.0]), s.pick(&[0.0, -1.0, -3.0, 1.0, -8.0]));
            for i in 0..r {
                for j in 0..c {
                    let sc = (p * i.min(12) as f64 + q * j.min(12) as f64).max(-100.0).min(24.0).exp2();
                    let x = m.get(i, j) * sc;
                    m.set(i, j, x);
                }
            }
            (m, "graded")
        }
        9 => {
            // off-diagonal elements at a chosen level
            let mut m = plain(s, r, c);
            let f = (-(s.range(1, 60) as f64)).exp2();
            for i in 0..r {
                for j in 0..c {
                    let x = m.get(i, j);
                    m.set(i, j, if i == j { x } else { x * f });
                }
            }
            (m, "nearly-diagonal")
        }
        10 => (perturbed(s, r, c), "perturbed"),
        _ => {
            // two diagonal blocks
            let (r1, c1) = (s.range(0, r), s.range(0, c));
            let (a, b) = (plain(s, r1, c1), plain(s, r - r1, c - c1));
            let mut m = M::zeros(r, c);
            for i in 0..r {
                for j in 0..c {
                    if i < r1 && j < c1 {
                        m.set(i, j, a.get(i, j));
                    } else if i >= r1 && j >= c1 {
                        m.set(i, j, b.get(i - r1, j - c1));
                    }
                }
            }
            (m, "block")
        }
    }
}

/// A degenerate matrix plus a small general one.
fn perturbed(s: &mut Source, r: usize, c: usize) -> M {
    let base = match s.u(3) {
        0 => special(s, r, c),
        1 => {
            let rk = s.range(0, r.min(c).saturating_sub(1));
            let (a, b) = (fill(s, r, rk, 0), fill(s, rk, c, 0));
            a.mul(&b)
        }
        _ => {
            // few distinct columns
            let m = fill(s, r, c, 0);
            let k = s.range(1, c);
            let mut b = m.clone();
            for i in 0..r {
                for j in 0..c {
                    b.set(i, j, m.get(i, j % k));
                }
            }
            b
        }
    };
    let f = (-(s.range(1, 56) as f64)).exp2();
    base.add(&plain(s, r, c).map(|x| x * f))
}

fn special(s: &mut Source, r: usize, c: usize) -> M {
    let mut m = M::zeros(r, c);
    let k = s.u(11);
    let (pi, pj) = if k == 4 { (s.u(r), s.u(c)) } else { (0, 0) };
    let p = if k == 5 { s.perm(c) } else { vec![] };
    let val = if k == 4 { s.pick(&[1.0, -1.0, 1e-10, -7.5]) } else { 0.0 };
    for i in 0..r {
        for j in 0..c {
            let x = match k {
                0 => 0.0,
                1 => (i == j) as u8 as f64,
                2 => 1.0,
                3 => 1.0 / (i + j + 1) as f64,
                4 => {
                    if (i, j) == (pi, pj) {
                        val
                    } else {
                        0.0
                    }
                }
                5 => (p[j] == i) as u8 as f64 * if j % 2 == 0 { 1.0 } else { -1.0 },
                6 => (j == i + 1) as u8 as f64,         // nilpotent shift
                7 => (i + j + 1 == r) as u8 as f64,     // exchange
                8 => {
                    // Kahan
                    let (sn, cs) = (0.9f64, (1.0 - 0.81f64).sqrt());
                    let sc = f64::powi(sn, i as i32);
                    if i == j {
                        sc
                    } else if j > i {
                        -cs * sc
                    } else {
                        0.0
                    }
                }
                9 => f64::powi((i + 1) as f64 / r as f64, j.min(20) as i32), // Vandermonde
                _ => {
                    // Toeplitz second difference
                    if i == j {
                        2.0
                    } else if i + 1 == j || j + 1 == i {
                        -1.0
                    } else {
                        0.0
                    }
                }
            };
            m.set(i, j, x);
        }
    }
    m
}

/// Symmetric n x n matrix and its structure label.
pub fn symmetric(s: &mut Source, n: usize) -> (M, &'static str) {
    let (mut m, l) = match s.weighted(&[6, 6, 3, 3, 4, 3, 2, 2, 2, 2, 2]) {
        0 => (plain(s, n, n), "plain"),
        1 => {
            let w = spectrum(s, n, false);
            let q = orthogonal(s, n);
            let mut qd = q.clone();
            for i in 0..n {
                for j in 0..n {
                    let x = q.get(i, j) * w[j];
                    qd.set(i, j, x);
                }
            }
            (qd.mul(&q.t()), "given-spectrum")
        }
        2 => {
            // exactly low rank
            let rk = s.range(0, n.saturating_sub(1));
            let a = fill(s, n, rk, 0);
            let sg = fill(s, 1, rk.max(1), 0);
            let mut ad = a.clone();
            for i in 0..n {
                for j in 0..rk {
                    let x = a.get(i, j) * if sg.d[j] < 0.0 { -1.0 } else { 1.0 };
                    ad.set(i, j, x);
                }
            }
            (ad.mul(&a.t()), "low-rank")
        }
        3 => {
            let e = s.weighted(&ELEM_W);
            let d = fill(s, n, 1, e);
            let mut m = M::zeros(n, n);
            for i in 0..n {
                m.set(i, i, d.d[i]);
            }
            (m, "diagonal")
        }
        4 => {
            // tridiagonal families
            let mut m = M::zeros(n, n);
            let k = s.u(6);
            let d = match k {
                0 => fill(s, 2, n, 0),
                1 => fill(s, 2, n, 3),
                5 => fill(s, 2, n, 7),
                _ => M::zeros(2, n),
            };
            for i in 0..n {
                let (a, b) = match k {
                    0 | 1 | 5 => (d.get(0, i), d.get(1, i)),
                    2 => (((n as f64 - 1.0) / 2.0 - i as f64).abs(), 1.0), // Wilkinson
                    3 => (2.0, -1.0),
                    _ => (0.0, 1.0),
                };
                m.set(i, i, a);
                if i + 1 < n {
                    m.set(i, i + 1, b);
                }
            }
            (m, "tridiagonal")
        }
        5 => {
            // graph adjacency / Laplacian
            let mut m = M::zeros(n, n);
            let k = s.u(5);
            let rnd = if k == 4 { Some(fill(s, n, n, 4)) } else { None };
            for i in 0..n {
                for j in i + 1..n {
                    let e = match k {
                        0 => j == i + 1 || (i == 0 && j + 1 == n),
                        1 => true,
                        2 => i == 0,
                        3 => (i + j) % 2 == 1,
                        _ => rnd.as_ref().unwrap().get(i, j) != 0.0,
                    };
                    if e {
                        m.set(i, j, 1.0);
                    }
                }
            }
            if s.chance(1, 2) {
                for i in 0..n {
                    let deg: f64 = (0..n).map(|j| if i < j { m.get(i, j) } else { m.get(j, i) }).sum();
                    for j in i + 1..n {
                        let x = -m.get(i, j);
                        m.set(i, j, x);
                    }
                    let _ = deg;
                    let dg: f64 = (0..n)
                        .filter(|&j| j != i)
                        .map(|j| if i < j { m.get(i, j) } else { m.get(j, i) })
                        .map(f64::abs)
                        .sum();
                    m.set(i, i, dg);
                }
            }
            (m, "graph")
        }
        6 => (special(s, n, n), "special"),
        7 => {
            // graded D*S*D
            let mut m = plain(s, n, n);
            let p = s.pick(&[-1.0, -3.0, 2.0, -10.0]);
            for i in 0..n {
                for j in 0..n {
                    let x = m.get(i, j) * (p * ((i.min(10) + j.min(10)) as f64)).exp2();
                    m.set(i, j, x);
                }
            }
            (m, "graded")
        }
        8 => {
            // off-diagonal elements at a chosen level
            let mut m = plain(s, n, n);
            let f = (-(s.range(1, 60) as f64)).exp2();
            let equal = s.chance(1, 3);
            let d = m.get(0, 0);
            for i in 0..n {
                for j in 0..n {
                    let x = m.get(i, j);
                    m.set(i, j, if i != j { x * f } else if equal { d } else { x });
                }
            }
            (m, "nearly-diagonal")
        }
        9 => (perturbed(s, n, n), "perturbed"),
        _ => {
            // direct sum of two (often equal) blocks
            let n1 = s.range(0, n);
            let a = plain(s, n1, n1);
            let same = s.chance(1, 2) && 2 * n1 == n;
            let b = if same { a.clone() } else { plain(s, n - n1, n - n1) };
            let mut m = M::zeros(n, n);
            for i in 0..n1 {
                for j in 0..n1 {
                    m.set(i, j, a.get(i, j));
                }
            }
            for i in n1..n {
                for j in n1..n {
                    m.set(i, j, b.get(i - n1, j - n1));
                }
            }
            (m, "block")
        }
    };
    for i in 0..n {
        for j in 0..i {
            let x = m.get(j, i);
            m.set(i, j, x);
        }
    }
    (m, l)
}

/// Symmetric positive definite with a moderate condition number.
pub fn spd(s: &mut Source, n: usize) -> (M, &'static str) {
    let (mut m, l) = match s.weighted(&[4, 3, 3, 2, 2]) {
        0 => {
            let g = plain(s, n, n);
            let mut m = g.mul(&g.t());
            let sc = m.max_abs().max(1.0);
            let c = s.pick(&[1.0, 0.1, 0.01]);
            for i in 0..n {
                let x = m.get(i, i) + c * sc;
                m.set(i, i, x);
            }
            (m, "gram+shift")
        }
        1 => {
            let kappa: f64 = s.pick(&[1.0, 10.0, 100.0, 1000.0]);
            let q = orthogonal(s, n);
            let mut qd = q.clone();
            let flavour = s.u(3);
            for j in 0..n {
                let w = match flavour {
                    0 => 1.0 + (kappa - 1.0) * j as f64 / n.max(2) as f64,
                    1 => {
                        if j % 2 == 0 {
                            1.0
                        } else {
                            kappa
                        }
                    }
                    _ => kappa.powf(j as f64 / n as f64),
                };
                for i in 0..n {
                    let x = q.get(i, j) * w;
                    qd.set(i, j, x);
                }
            }
            (qd.mul(&q.t()), "given-spectrum")
        }
        2 => {
            // diagonally dominant with small integers
            let e = s.pick(&[0usize, 4]);
            let mut m = fill(s, n, n, e);
            for i in 0..n {
                for j in 0..i {
                    let x = m.get(j, i);
                    m.set(i, j, x);
                }
            }
            for i in 0..n {
                let d: f64 = (0..n).filter(|&j| j != i).map(|j| m.get(i, j).abs()).sum();
                m.set(i, i, d + 1.0);
            }
            (m, "dominant")
        }
        3 => {
            // integer L * L^T with unit-ish diagonal
            let mut l = fill(s, n, n, 0);
            for i in 0..n {
                for j in i + 1..n {
                    l.set(i, j, 0.0);
                }
                for j in 0..i {
                    let x = l.get(i, j).signum() * (l.get(i, j).abs() > 1.0) as u8 as f64 * if (i - j) > 3 { 0.0 } else { 1.0 };
                    l.set(i, j, x);
                }
                let x = l.get(i, i).abs() + 1.0;
                l.set(i, i, x);
            }
            (l.mul(&l.t()), "integer-LLt")
        }
        _ => {
            let d = fill(s, n, 1, 0);
            let mut m = M::zeros(n, n);
            for i in 0..n {
                m.set(i, i, d.d[i].abs() + 0.5);
            }
            (m, "diagonal")
        }
    };
    for i in 0..n {
        for j in 0..i {
            let x = m.get(j, i);
            m.set(i, j, x);
        }
    }
    (m, l)
}

/// Power-of-two exponent for scaling: mostly 0, sometimes up to +-lim.
pub fn scale_exp(s: &mut Source, lim: i32) -> i32 {
    match s.weighted(&[6, 2, 2]) {
        0 => 0,
        1 => s.range(0, 40.min(2 * lim as usize)) as i32 - 20.min(lim),
        _ => s.range(0, 2 * lim as usize) as i32 - lim,
    }
}
/// Exponent limit such that squares (and sums of squares) of moderately spread entries stay normal.
pub fn safe_exp<T: Sc>() -> i32 {
    if T::IS32 {
        30
    } else {
        400
    }
}

/// Number of storage layouts.
pub const LAYOUTS: usize = 9;
pub fn layout_name(k: usize) -> &'static str {
    ["C", "F", "C/rev-rows", "F/rev-cols", "C/rev-both", "window-strided", "window-F-strided", "window-neg-steps", "window-unit"][k]
}
/// Array with the contents of `m` (already representable in T) in storage layout `k`.
/// Window layouts live inside a larger NaN-filled allocation.
pub fn lay<T: Sc>(m: &M, k: usize) -> Array2<T> {
    let (r, c) = (m.r, m.c);
    let mut a: Array2<T> = match k {
        0 => Array2::zeros((r, c)),
        1 => Array2::zeros((r, c).f()),
        2 => {
            let mut a = Array2::zeros((r, c));
            a.invert_axis(Axis(0));
            a
        }
        3 => {
            let mut a = Array2::zeros((r, c).f());
            a.invert_axis(Axis(1));
            a
        }
        4 => {
            let mut a = Array2::zeros((r, c));
            a.invert_axis(Axis(0));
            a.invert_axis(Axis(1));
            a
        }
        5 => {
            let a = Array2::from_elem((2 * r + 1, 3 * c + 2), T::nan());
            a.slice_move(s![1..1 + 2 * r;2, 2..2 + 3 * c;3])
        }
        6 => {
            let a = Array2::from_elem((3 * r + 1, 2 * c + 1).f(), T::nan());
            a.slice_move(s![1..1 + 3 * r;3, 0..2 * c;2])
        }
        7 => {
            let a = Array2::from_elem((2 * r + 2, 2 * c + 1), T::nan());
            a.slice_move(s![1..1 + 2 * r;-2, 0..2 * c;-2])
        }
        _ => {
            let a = Array2::from_elem((r + 3, c + 2), T::nan());
            a.slice_move(s![2..2 + r, 1..1 + c])
        }
    };
    assert_eq!(a.dim(), (r, c));
    for i in 0..r {
        for j in 0..c {
            a[(i, j)] = T::of(m.get(i, j));
        }
    }
    a
}
pub fn any_layout(s: &mut Source) -> usize {
    s.weighted(&[6, 2, 1, 1, 1, 1, 1, 1, 1])
}
pub fn arr<T: Sc>(s: &mut Source, m: &M) -> Array2<T> {
    let k = any_layout(s);
    lay(m, k)
}

pub fn to_m<T: Sc, S: ndarray::Data<Elem = T>>(a: &ArrayBase<S, Ix2>) -> M {
    let (r, c) = a.dim();
    let mut m = M::zeros(r, c);
    for i in 0..r {
        for j in 0..c {
            m.set(i, j, a[(i, j)].f());
        }
    }
    m
}
