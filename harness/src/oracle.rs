//! Independent reference arithmetic in f64: plain matrices, Jacobi eigenvalue and singular value
//! algorithms, and error measures.
use crate::scalar::Sc;
use std::fmt;

#[derive(Clone, PartialEq)]
pub struct M {
    pub r: usize,
    pub c: usize,
    pub d: Vec<f64>,
}
impl fmt::Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}x{}[", self.r, self.c)?;
        for i in 0..self.r.min(10) {
            if i > 0 {
                write!(f, "; ")?;
            }
            for j in 0..self.c.min(10) {
                if j > 0 {
                    write!(f, ", ")?;
                }
                write!(f, "{:?}", self.get(i, j))?;
            }
            if self.c > 10 {
                write!(f, ", ..")?;
            }
        }
        if self.r > 10 {
            write!(f, "; ..")?;
        }
        write!(f, "]")
    }
}
impl M {
    pub fn zeros(r: usize, c: usize) -> M {
        M { r, c, d: vec![0.0; r * c] }
    }
    pub fn eye(n: usize) -> M {
        let mut m = M::zeros(n, n);
        for i in 0..n {
            m.set(i, i, 1.0);
        }
        m
    }
    pub fn diag(v: &[f64]) -> M {
        let mut m = M::zeros(v.len(), v.len());
        for i in 0..v.len() {
            m.set(i, i, v[i]);
        }
        m
    }
    #[inline]
    pub fn get(&self, i: usize, j: usize) -> f64 {
        self.d[i * self.c + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, x: f64) {
        self.d[i * self.c + j] = x
    }
    pub fn t(&self) -> M {
        let mut m = M::zeros(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.set(j, i, self.get(i, j));
            }
        }
        m
    }
    pub fn mul(&self, o: &M) -> M {
        assert_eq!(self.c, o.r);
        let mut m = M::zeros(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let a = self.get(i, k);
                if a == 0.0 {
                    continue;
                }
                for j in 0..o.c {
                    m.d[i * o.c + j] += a * o.d[k * o.c + j];
                }
            }
        }
        m
    }
    pub fn sub(&self, o: &M) -> M {
        assert_eq!((self.r, self.c), (o.r, o.c));
        M { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| a - b).collect() }
    }
    pub fn add(&self, o: &M) -> M {
        assert_eq!((self.r, self.c), (o.r, o.c));
        M { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| a + b).collect() }
    }
    pub fn map(&self, f: impl Fn(f64) -> f64) -> M {
        M { r: self.r, c: self.c, d: self.d.iter().map(|&x| f(x)).collect() }
    }
    /// Multiply by 2^k exactly (in two steps, so that |k| may exceed the exponent range).
    pub fn ldexp(&self, k: i32) -> M {
        let (a, b) = (k / 2, k - k / 2);
        let (fa, fb) = ((a as f64).exp2(), (b as f64).exp2());
        self.map(|x| x * fa * fb)
    }
    /// Round every entry to T.
    pub fn round<T: Sc>(&self) -> M {
        self.map(|x| T::of(x).f())
    }
    pub fn max_abs(&self) -> f64 {
        self.d.iter().fold(0.0, |m: f64, x| if x.is_nan() { f64::NAN } else { m.max(x.abs()) })
    }
    pub fn frob(&self) -> f64 {
        let m = self.max_abs();
        if m == 0.0 || !m.is_finite() {
            return m;
        }
        m * self.d.iter().map(|x| (x / m) * (x / m)).sum::<f64>().sqrt()
    }
    pub fn finite(&self) -> bool {
        self.d.iter().all(|x| x.is_finite())
    }
    pub fn dim(&self) -> (usize, usize) {
        (self.r, self.c)
    }
    pub fn col(&self, j: usize) -> Vec<f64> {
        (0..self.r).map(|i| self.get(i, j)).collect()
    }
    pub fn cols(&self, lo: usize, hi: usize) -> M {
        let mut m = M::zeros(self.r, hi - lo);
        for i in 0..self.r {
            for j in lo..hi {
                m.set(i, j - lo, self.get(i, j));
            }
        }
        m
    }
    pub fn same_bits(&self, o: &M) -> bool {
        self.dim() == o.dim() && self.d.iter().zip(&o.d).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()))
    }
}

/// k with 2^k about 1/max|A| (0 for a zero matrix).
pub fn norm_exp(m: &M) -> i32 {
    let x = m.max_abs();
    if x == 0.0 || !x.is_finite() {
        0
    } else {
        -(ilog2(x))
    }
}
pub fn ilog2(x: f64) -> i32 {
    // exact for subnormals too
    let x = x.abs();
    if x >= f64::MIN_POSITIVE {
        ((x.to_bits() >> 52) & 0x7ff) as i32 - 1023
    } else {
        (((x * 2f64.powi(200)).to_bits() >> 52) & 0x7ff) as i32 - 1023 - 200
    }
}

/// max |Q^T Q - I|
pub fn orth_err(q: &M) -> f64 {
    if !q.finite() {
        return f64::INFINITY;
    }
    let g = q.t().mul(q);
    g.sub(&M::eye(q.c)).max_abs()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// Cyclic Jacobi for symmetric matrices; eigenvalues ascending with eigenvectors in columns.
pub fn jacobi_eig(a: &M) -> (Vec<f64>, M) {
    let n = a.r;
    let k = norm_exp(a);
    let mut a = a.ldexp(k);
    let mut v = M::eye(n);
    for _ in 0..60 {
        let mut off = 0.0f64;
        for p in 0..n {
            for q in p + 1..n {
                let apq = a.get(p, q);
                if apq == 0.0 {
                    continue;
                }
                let (app, aqq) = (a.get(p, p), a.get(q, q));
                if apq.abs() <= 1e-18 * (app.abs() * aqq.abs()).sqrt() || apq.abs() < 1e-40 {
                    continue;
                }
                off = off.max(apq.abs());
                let theta = (aqq - app) / (2.0 * apq);
                let t = if theta.abs() > 1e150 { 0.5 / theta } else { theta.signum() / (theta.abs() + (theta * theta + 1.0).sqrt()) };
                let t = if theta == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for i in 0..n {
                    let (x, y) = (a.get(i, p), a.get(i, q));
                    a.set(i, p, c * x - s * y);
                    a.set(i, q, s * x + c * y);
                }
                for i in 0..n {
                    let (x, y) = (a.get(p, i), a.get(q, i));
                    a.set(p, i, c * x - s * y);
                    a.set(q, i, s * x + c * y);
                }
                a.set(p, q, 0.0);
                a.set(q, p, 0.0);
                for i in 0..n {
                    let (x, y) = (v.get(i, p), v.get(i, q));
                    v.set(i, p, c * x - s * y);
                    v.set(i, q, s * x + c * y);
                }
            }
        }
        if off < 1e-17 {
            break;
        }
    }
    let mut idx: Vec<usize> = (0..n).collect();
    idx.sort_by(|&i, &j| a.get(i, i).partial_cmp(&a.get(j, j)).unwrap());
    let w = M { r: 1, c: n, d: idx.iter().map(|&i| a.get(i, i)).collect() }.ldexp(-k).d;
    let mut vs = M::zeros(n, n);
    for (jj, &j) in idx.iter().enumerate() {
        for i in 0..n {
            vs.set(i, jj, v.get(i, j));
        }
    }
    (w, vs)
}

/// One-sided Jacobi (Hestenes) singular values, descending.
pub fn jacobi_sv(a: &M) -> Vec<f64> {
    let k = norm_exp(a);
    let a = a.ldexp(k);
    // work on the orientation with fewer columns, stored column-wise
    let a = if a.r >= a.c { a.t() } else { a };
    let (n, m) = (a.r, a.c); // n columns of length m, each a row of `a`
    let mut u: Vec<Vec<f64>> = (0..n).map(|i| (0..m).map(|j| a.get(i, j)).collect()).collect();
    for _ in 0..60 {
        let mut rotated = false;
        for p in 0..n {
            for q in p + 1..n {
                let (al, be, ga) = (dot(&u[p], &u[p]), dot(&u[q], &u[q]), dot(&u[p], &u[q]));
                if ga == 0.0 || ga.abs() <= 1e-16 * (al * be).sqrt() || ga.abs() < 1e-60 {
                    continue;
                }
                rotated = true;
                let z = (be - al) / (2.0 * ga);
                let t = if z == 0.0 {
                    1.0
                } else if z.abs() > 1e150 {
                    0.5 / z
                } else {
                    z.signum() / (z.abs() + (1.0 + z * z).sqrt())
                };
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = c * t;
                for i in 0..m {
                    let (x, y) = (u[p][i], u[q][i]);
                    u[p][i] = c * x - s * y;
                    u[q][i] = s * x + c * y;
                }
            }
        }
        if !rotated {
            break;
        }
    }
    let mut w: Vec<f64> = u.iter().map(|x| dot(x, x).sqrt()).collect();
    w.sort_by(|a, b| b.partial_cmp(a).unwrap());
    M { r: 1, c: n, d: w }.ldexp(-k).d
}

/// Gaussian elimination with complete pivoting: solves A X = B (square, non-singular) in f64.
pub fn solve_full(a: &M, b: &M) -> Option<M> {
    let n = a.r;
    let (mut a, mut b) = (a.clone(), b.clone());
    let mut colp: Vec<usize> = (0..n).collect();
    for k in 0..n {
        let (mut pi, mut pj, mut best) = (k, k, 0.0);
        for i in k..n {
            for j in k..n {
                if a.get(i, j).abs() > best {
                    best = a.get(i, j).abs();
                    pi = i;
                    pj = j;
                }
            }
        }
        if best == 0.0 {
            return None;
        }
        for j in 0..n {
            let (x, y) = (a.get(k, j), a.get(pi, j));
            a.set(k, j, y);
            a.set(pi, j, x);
        }
        for j in 0..b.c {
            let (x, y) = (b.get(k, j), b.get(pi, j));
            b.set(k, j, y);
            b.set(pi, j, x);
        }
        for i in 0..n {
            let (x, y) = (a.get(i, k), a.get(i, pj));
            a.set(i, k, y);
            a.set(i, pj, x);
        }
        colp.swap(k, pj);
        for i in k + 1..n {
            let f = a.get(i, k) / a.get(k, k);
            if f == 0.0 {
                continue;
            }
            for j in k..n {
                let x = a.get(i, j) - f * a.get(k, j);
                a.set(i, j, x);
            }
            for j in 0..b.c {
                let x = b.get(i, j) - f * b.get(k, j);
                b.set(i, j, x);
            }
        }
    }
    let mut x = M::zeros(n, b.c);
    for j in 0..b.c {
        for i in (0..n).rev() {
            let mut sum = b.get(i, j);
            for k in i + 1..n {
                sum -= a.get(i, k) * x.get(k, j);
            }
            x.set(i, j, sum / a.get(i, i));
        }
    }
    let mut out = M::zeros(n, b.c);
    for i in 0..n {
        for j in 0..b.c {
            out.set(colp[i], j, x.get(i, j));
        }
    }
    Some(out)
}
pub fn sorted(mut v: Vec<f64>) -> Vec<f64> {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    v
}

/// Orthonormal basis of the column space of a full-column-rank matrix (modified Gram-Schmidt, twice).
pub fn orth_basis(a: &M) -> M {
    let (m, n) = a.dim();
    let mut q: Vec<Vec<f64>> = Vec::new();
    for j in 0..n {
        let mut v = a.col(j);
        let nn = dot(&v, &v).sqrt();
        if nn == 0.0 {
            continue;
        }
        v.iter_mut().for_each(|x| *x /= nn);
        for _ in 0..3 {
            for w in &q {
                let d = dot(w, &v);
                v.iter_mut().zip(w).for_each(|(x, y)| *x -= d * y);
            }
            let nn = dot(&v, &v).sqrt();
            if nn > 0.0 {
                v.iter_mut().for_each(|x| *x /= nn);
            }
        }
        q.push(v);
    }
    let mut o = M::zeros(m, q.len());
    for (j, v) in q.iter().enumerate() {
        for i in 0..m {
            o.set(i, j, v[i]);
        }
    }
    o
}
