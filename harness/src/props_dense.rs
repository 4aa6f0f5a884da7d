//! P01-P06, P08-P13: factorisations, solvers and spectra of dense matrices.
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::scalar::Sc;
use crate::{by_type, ensure};
use linfa_linalg::{
    bidiagonal::*, cholesky::*, eigh::*, qr::*, svd::*, triangular::*, tridiagonal::*, LinalgError,
};
use ndarray::{Array1, Array2, ArrayBase, Data, Ix1};

pub fn vecf<T: Sc, S: Data<Elem = T>>(a: &ArrayBase<S, Ix1>) -> Vec<f64> {
    a.iter().map(|x| x.f()).collect()
}
/// Scaled unit roundoff of an m x n computation.
pub fn u<T: Sc>(m: usize, n: usize) -> f64 {
    T::EPS * (10 + m + n) as f64
}
pub fn ok<R>(r: linfa_linalg::Result<R>, what: &'static str) -> Result<R, Fail> {
    r.map_err(|e| Fail { kind: format!("{}: unexpected error", what), msg: format!("{}: unexpected error {:?}", what, e) })
}
pub fn check_orth<T: Sc>(cx: &mut Cx, what: &'static str, q: &M) -> Res {
    ensure!(q.finite(), what, "{}: non-finite entries", what);
    cx.within(what, orth_err(q), 8.0 * u::<T>(q.r, q.c), || format!("{}x{} factor", q.r, q.c))
}
/// exponents usable for scaling an ordinary matrix without overflow of results
pub fn wide_exp<T: Sc>(s: &mut Source) -> i32 {
    let (lo, hi) = if T::IS32 { (-126, 60) } else { (-1000, 900) };
    match s.weighted(&[6, 2, 1, 1]) {
        0 => 0,
        1 => s.range(0, 40) as i32 - 20,
        2 => -(s.range(0, -lo as usize) as i32),
        _ => s.range(0, hi as usize) as i32,
    }
}
pub fn col_norms(a: &M) -> Vec<f64> {
    (0..a.c).map(|j| M { r: a.r, c: 1, d: a.col(j) }.frob()).collect()
}
pub fn class(cx: &mut Cx, l: &'static str, r: usize, c: usize, e: i32) {
    cx.label(match r.max(c) {
        0..=4 => "size/1-4",
        5..=10 => "size/5-10",
        11..=20 => "size/11-20",
        21..=40 => "size/21-40",
        _ => "size/41+",
    });
    cx.label(match r.cmp(&c) {
        std::cmp::Ordering::Less => "shape/wide",
        std::cmp::Ordering::Equal => "shape/square",
        _ => "shape/tall",
    });
    cx.label(match l {
        "plain" => "content/plain",
        "low-rank" => "content/low-rank",
        "diagonal" => "content/diagonal",
        "dup/zero-lines" => "content/dup-or-zero-lines",
        "triangular" => "content/triangular",
        "given-spectrum" => "content/given-spectrum",
        "special" => "content/special",
        "bidiagonal" => "content/bidiagonal",
        "tridiagonal" => "content/tridiagonal",
        "graph" => "content/graph",
        "graded" => "content/graded",
        _ => "content/other",
    });
    cx.label_if(e.abs() > 60, "scale/beyond-2^60");
}

/// A random general matrix in T with its scale applied and rounded.
pub fn gen_general<T: Sc>(s: &mut Source, cx: &mut Cx, r: usize, c: usize) -> M {
    let e = wide_exp::<T>(s);
    let (m, l) = general(s, r, c);
    class(cx, l, r, c, e);
    let m = fit::<T>(m.ldexp(e)).round::<T>();
    debug_assert!(m.finite());
    cx.note(|| format!("{} {} 2^{} {:?}", T::NAME, l, e, m));
    m
}
pub fn gen_sym<T: Sc>(s: &mut Source, cx: &mut Cx, n: usize) -> M {
    let e = wide_exp::<T>(s);
    let (m, l) = symmetric(s, n);
    class(cx, l, n, n, e);
    let m = fit::<T>(m.ldexp(e)).round::<T>();
    cx.note(|| format!("{} {} 2^{} {:?}", T::NAME, l, e, m));
    m
}

// ---------------------------------------------------------------- P01

/// The smallest positive number times 2^e, or that of the oracle's own arithmetic if it is larger.
pub fn quantum<T: Sc>(e: i32) -> f64 {
    (T::QUANTUM * (e as f64).exp2()).max(5e-324)
}
/// Columnwise |Q R - A| against the columns of A.
pub fn check_qr<T: Sc>(cx: &mut Cx, a: &M, q: &M, r: &M) -> Res {
    let (m, n) = a.dim();
    ensure!(q.dim() == (m, n), "q-shape", "Q is {:?} for A {:?}", q.dim(), a.dim());
    ensure!(r.dim() == (n, n), "r-shape", "R is {:?} for A {:?}", r.dim(), a.dim());
    for i in 0..n {
        for j in 0..i {
            ensure!(r.get(i, j) == 0.0, "r-not-triangular", "R[{},{}] = {:e}", i, j, r.get(i, j));
        }
        ensure!(r.get(i, i) >= 0.0, "r-diagonal-negative", "R[{},{}] = {:e}", i, i, r.get(i, i));
    }
    check_orth::<T>(cx, "Q orthonormal", q)?;
    ensure!(r.finite(), "r-not-finite", "R {:?}", r);
    let e = norm_exp(a);
    let (an, rn) = (a.ldexp(e), r.ldexp(e));
    let d = q.mul(&rn).sub(&an);
    let floor = quantum::<T>(e) * (m + n) as f64;
    let (dn, nn) = (col_norms(&d), col_norms(&an));
    for j in 0..n {
        cx.within("Q*R = A (columnwise)", dn[j], 6.0 * u::<T>(m, n) * nn[j] + 8.0 * floor, || format!("column {} of {:?}", j, a.dim()))?;
    }
    Ok(())
}

fn p01(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p01_t)
}
fn p01_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let form = s.u(3);
    let (m, n) = if s.chance(1, 60) { (s.range(0, 5), 0) } else { dims_thin(s) };
    let a = if n == 0 { M::zeros(m, 0) } else { gen_general::<T>(s, cx, m, n) };
    let arr: Array2<T> = arr(s, &a);
    let (q, r) = match form {
        0 => {
            let d = ok(arr.qr(), "qr")?;
            let q = d.generate_q();
            (q, d.into_r())
        }
        1 => {
            let d = ok(arr.qr_into(), "qr_into")?;
            let q = d.generate_q();
            (q, d.into_r())
        }
        _ => ok(arr.qr_into(), "qr_into")?.into_decomp(),
    };
    if n >= 1 && a.max_abs() > 0.0 {
        cx.interesting();
    }
    check_qr::<T>(cx, &a, &to_m(&q), &to_m(&r))
}

// ---------------------------------------------------------------- P02

/// A full-rank matrix with known condition number bound.
pub fn full_rank(s: &mut Source, r: usize, c: usize) -> (M, f64, &'static str) {
    let k = r.min(c);
    match s.weighted(&[4, 3, 2]) {
        0 => {
            let kappa: f64 = s.pick(&[1.0, 10.0, 100.0, 1000.0]);
            let sv: Vec<f64> = (0..k).map(|i| kappa.powf(1.0 - i as f64 / (k.max(2) - 1) as f64)).collect();
            (with_singular_values(s, r, c, &sv), kappa, "given-spectrum")
        }
        1 => {
            // diagonally dominant (on the leading block)
            let e = s.pick(&[0usize, 4, 3]);
            let mut m = fill(s, r, c, e);
            for i in 0..k {
                let row: f64 = (0..c).map(|j| m.get(i, j).abs()).sum();
                let col: f64 = (0..r).map(|j| m.get(j, i).abs()).sum();
                let sg = if m.get(i, i) < 0.0 { -1.0 } else { 1.0 };
                m.set(i, i, sg * (row.max(col) + 1.0));
            }
            if s.chance(1, 2) {
                let p = s.perm(r);
                let mut o = M::zeros(r, c);
                for i in 0..r {
                    for j in 0..c {
                        o.set(p[i], j, m.get(i, j));
                    }
                }
                m = o;
            }
            (m, 1e3 * k as f64, "dominant")
        }
        _ => {
            // diagonal/permutation-like with identity block
            let mut m = M::zeros(r, c);
            let p = s.perm(k);
            let d = fill(s, k, 1, 0);
            for i in 0..k {
                m.set(i, p[i], if d.d[i] == 0.0 { 1.0 } else { d.d[i] });
            }
            (m, 10.0, "permuted-diagonal")
        }
    }
}
pub fn rhs(s: &mut Source, r: usize) -> M {
    let k = match s.weighted(&[1, 3, 3, 1]) {
        0 => 0,
        1 => 1,
        2 => s.range(2, 4),
        _ => s.range(5, 9),
    };
    match s.weighted(&[4, 1, 1]) {
        0 => plain(s, r, k),
        1 => M::zeros(r, k),
        _ => {
            let mut m = M::zeros(r, k);
            for j in 0..k {
                let i = s.u(r.max(1));
                if r > 0 {
                    m.set(i, j, 1.0);
                }
            }
            m
        }
    }
}
pub fn is_noninv<R>(r: &linfa_linalg::Result<R>) -> bool {
    matches!(r, Err(LinalgError::NonInvertible))
}

fn p02(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p02_t)
}
/// Smallest exponent with 2^e representable.
pub fn low_exp<T: Sc>() -> i32 {
    ilog2(T::QUANTUM)
}
/// A monomial matrix whose entries all lie next to one power of two, which may be anywhere in
/// the range of the type down to the subnormal numbers: perfectly conditioned.
fn p02_edge<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let n = s.range(1, 6);
    let lo = low_exp::<T>() + 10;
    let hi = T::MAXEXP - 8;
    let e = match s.weighted(&[3, 1, 2]) {
        0 => lo + s.u(70) as i32,
        1 => hi - s.u(20) as i32,
        _ => lo + s.u((hi - lo) as usize) as i32,
    };
    let p = s.perm(n);
    let mut a = M::zeros(n, n);
    for i in 0..n {
        a.set(i, p[i], s.pick(&[1.0, -1.0, 2.0, -2.0, 4.0]));
    }
    let k = s.range(1, 3);
    let mut x0 = M::zeros(n, k);
    for i in 0..n {
        for j in 0..k {
            x0.set(i, j, s.pick(&[1.0, -1.0, 2.0, 0.0, 3.0]));
        }
    }
    let b = a.mul(&x0).ldexp(e).round::<T>();
    let a = a.ldexp(e).round::<T>();
    cx.note(|| format!("{} monomial 2^{} A={:?} B={:?}", T::NAME, e, a, b));
    cx.label(if e < ilog2(T::TINY) { "monomial/subnormal" } else { "monomial" });
    cx.interesting();
    let tol = 64.0 * (n + 3) as f64 * (T::EPS + ((low_exp::<T>() - e) as f64).exp2());
    let aa: Array2<T> = arr(s, &a);
    let ba: Array2<T> = arr(s, &b);
    let d = ok(aa.clone().qr_into(), "qr_into")?;
    ensure!(d.is_invertible(), "invertible-refused", "is_invertible is false for a monomial matrix with entries near 2^{}", e);
    let (x, what) = match s.u(4) {
        0 => (d.solve(&ba), "solve"),
        1 => (aa.least_squares(&ba), "least_squares"),
        2 => (aa.least_squares_into(ba).map(|x| x.to_owned()), "least_squares_into"),
        _ => {
            let bt = a.ldexp(-e).t().mul(&x0).ldexp(e).round::<T>();
            let bt: Array2<T> = arr(s, &bt);
            (d.solve_tr(&bt), "solve_tr")
        }
    };
    let x = to_m(&ok(x, what)?);
    ensure!(x.dim() == (n, k), "solution-shape", "{}: {:?}", what, x.dim());
    for (g, w) in x.d.iter().zip(&x0.d) {
        cx.within("monomial solution", (g - w).abs(), tol * 4.0, || format!("{}: {:e} instead of {:e}", what, g, w))?;
    }
    if e > 10 - T::MAXEXP {
        let inv = to_m(&ok(d.inverse(), "inverse")?);
        // inv(A)*A with both factors scaled to the neighbourhood of one
        let q = inv.ldexp(e).mul(&a.ldexp(-e)).sub(&M::eye(n)).max_abs();
        cx.within("monomial inverse", q, tol * 16.0 + if -e < low_exp::<T>() + 60 { ((low_exp::<T>() + e) as f64).exp2() * 64.0 } else { 0.0 }, || format!("inverse: {:?}", inv))?;
    }
    Ok(())
}
fn p02_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    if s.chance(1, 16) {
        return p02_edge::<T>(s, cx);
    }
    let singular = s.chance(1, 6);
    let (r, c) = dims(s);
    let e = wide_exp::<T>(s);
    let eb = s.pick(&[0, 0, 0, 7, -9]);
    if singular {
        // a zero column (tall/square) or zero row (wide): every entry point must refuse
        let (mut a, _) = general(s, r, c);
        let z = s.u(r.min(c));
        if r >= c {
            (0..r).for_each(|i| a.set(i, z, 0.0));
        } else {
            (0..c).for_each(|j| a.set(z, j, 0.0));
        }
        let a = fit::<T>(a.ldexp(e)).round::<T>();
        let b = rhs(s, r).round::<T>();
        cx.note(|| format!("{} singular {:?} rhs {:?}", T::NAME, a, b.dim()));
        cx.label("singular/zero-line");
        cx.interesting();
        let la = any_layout(s);
        let aa: Array2<T> = lay(&a, la);
        let ba: Array2<T> = arr(s, &b);
        ensure!(is_noninv(&aa.clone().least_squares(&ba)), "zero-line-accepted", "least_squares accepted a matrix with a zero line");
        ensure!(is_noninv(&aa.clone().least_squares_into(ba.clone())), "zero-line-accepted", "least_squares_into accepted a matrix with a zero line");
        let (thin, bt): (Array2<T>, M) = if r >= c { (aa.clone(), rhs(s, c)) } else { (aa.clone().reversed_axes(), rhs(s, c)) };
        let d = ok(thin.qr(), "qr")?;
        ensure!(!d.is_invertible(), "zero-line-accepted", "is_invertible is true for a matrix with a zero line");
        let bt: Array2<T> = if r >= c { lay(&bt.round::<T>(), 0) } else { ba.clone() };
        let bs: Array2<T> = if r >= c { ba.clone() } else { Array2::zeros((c, 2)) };
        ensure!(is_noninv(&d.solve(&bs)), "zero-line-accepted", "solve accepted a matrix with a zero line");
        ensure!(is_noninv(&d.solve_into(bs)), "zero-line-accepted", "solve_into accepted a matrix with a zero line");
        ensure!(is_noninv(&d.solve_tr(&bt)), "zero-line-accepted", "solve_tr accepted a matrix with a zero line");
        ensure!(is_noninv(&d.solve_tr_into(bt)), "zero-line-accepted", "solve_tr_into accepted a matrix with a zero line");
        if r == c {
            ensure!(is_noninv(&d.inverse()), "zero-line-accepted", "inverse accepted a matrix with a zero line");
        }
        return Ok(());
    }
    let (a, kappa, l) = if s.chance(1, 5) {
        let (a, _) = (plain(s, r, c), 0);
        (a, f64::NAN, "plain") // unknown conditioning: only the backward-error conditions apply
    } else {
        full_rank(s, r, c)
    };
    class(cx, l, r, c, e);
    let a = fit::<T>(a.ldexp(e)).round::<T>();
    if a.max_abs() < T::TINY / T::EPS * (r + c) as f64 {
        // rounding to subnormal numbers is not relative to such a matrix
        cx.label("lost to underflow");
        return Ok(());
    }
    let b0 = if s.chance(1, 2) && kappa.is_finite() {
        // consistent right-hand side
        let x = rhs(s, c);
        a.ldexp(-e).mul(&x)
    } else {
        rhs(s, r)
    };
    let b = b0.ldexp(if e.abs() > 60 { e } else { eb }).round::<T>();
    cx.note(|| format!("{} {} 2^{} A={:?} B={:?}", T::NAME, l, e, a, b));
    let aa: Array2<T> = arr(s, &a);
    let ba: Array2<T> = arr(s, &b);
    let form = s.u(4);
    let mut from_wide = false;
    // X solving (least squares / minimum norm) A X = B
    let (x, what): (Result<Array2<T>, LinalgError>, &'static str) = if r >= c {
        match form {
            0 => (aa.qr().and_then(|d| d.solve(&ba)), "solve"),
            1 => (aa.qr_into().and_then(|d| d.solve_into(ba)).map(|x| x.to_owned()), "solve_into"),
            2 => (aa.least_squares(&ba), "least_squares"),
            _ => (aa.least_squares_into(ba), "least_squares_into"),
        }
    } else {
        from_wide = true;
        match form {
            0 => (aa.t().to_owned().qr().and_then(|d| d.solve_tr(&ba)), "solve_tr"),
            1 => (aa.reversed_axes().qr_into().and_then(|d| d.solve_tr_into(ba)), "solve_tr_into"),
            2 => (aa.least_squares(&ba), "least_squares"),
            _ => (aa.least_squares_into(ba), "least_squares_into"),
        }
    };
    // square matrices: also the transposed solve and the inverse
    let x = match x {
        Ok(x) => to_m(&x),
        Err(LinalgError::NonInvertible) if !kappa.is_finite() => {
            cx.label("plain matrix refused");
            return Ok(());
        }
        Err(err) => return fail("solve: unexpected error", format!("{}: {:?}", what, err)),
    };
    ensure!(x.dim() == (c, b.c), "solution-shape", "{}: solution {:?} for A {:?} and B {:?}", what, x.dim(), a.dim(), b.dim());
    if b.c > 0 {
        cx.interesting();
    }
    check_solution::<T>(cx, &a, &b, &x, kappa)?;
    let _ = from_wide;
    if r == c {
        let aa: Array2<T> = arr(s, &a);
        let which = s.u(2);
        let d = ok(aa.qr_into(), "qr_into")?;
        ensure!(d.is_invertible() || !kappa.is_finite(), "invertible-refused", "is_invertible is false for kappa {}", kappa);
        if which == 0 {
            if let Some(inv) = maybe(d.inverse(), kappa, "inverse")? {
                let inv = to_m(&inv);
                ensure!(inv.dim() == (r, r), "inverse-shape", "{:?}", inv.dim());
                check_solution::<T>(cx, &a, &M::eye(r), &inv, f64::NAN)?;
                if kappa.is_finite() && inv.finite() {
                    let (ea, ei) = (norm_exp(&a), norm_exp(&inv));
                    let (an, inn) = (a.ldexp(ea), inv.ldexp(ei));
                    let p = inn.mul(&an).ldexp(-ea - ei).sub(&M::eye(r)).max_abs();
                    let kap = an.frob() * inn.frob() * ((-ea - ei) as f64).exp2();
                    cx.within("inv(A)*A = I", p, 20.0 * u::<T>(r, r) * kap * (1.0 + kappa.min(kap)), || format!("{:?}", a.dim()))?;
                }
                cx.label("inverse checked");
            }
        } else {
            let bt = rhs(s, c).ldexp(if e.abs() > 60 { e } else { 0 }).round::<T>();
            let bta: Array2<T> = arr(s, &bt);
            let xt = if s.chance(1, 2) { d.solve_tr(&bta) } else { d.solve_tr_into(bta) };
            if let Some(xt) = maybe(xt, kappa, "solve_tr")? {
                check_solution::<T>(cx, &a.t(), &bt, &to_m(&xt), f64::NAN)?;
                cx.label("square solve_tr checked");
            }
        }
    } else if r > c && s.chance(1, 2) {
        // transposed solve on a thin decomposition: minimum-norm solution of A^T X = B
        let aa: Array2<T> = arr(s, &a);
        let bt = rhs(s, c).ldexp(if e.abs() > 60 { e } else { 0 }).round::<T>();
        let bta: Array2<T> = arr(s, &bt);
        if let Some(xt) = maybe(ok(aa.qr(), "qr")?.solve_tr(&bta), kappa, "solve_tr")? {
            check_solution::<T>(cx, &a.t(), &bt, &to_m(&xt), kappa)?;
            cx.label("thin solve_tr checked");
        }
    }
    Ok(())
}
pub fn maybe<R>(r: linfa_linalg::Result<R>, kappa: f64, what: &'static str) -> Result<Option<R>, Fail> {
    match r {
        Ok(x) => Ok(Some(x)),
        Err(LinalgError::NonInvertible) if !kappa.is_finite() => Ok(None),
        Err(e) => fail(format!("{}: unexpected error", what), format!("{}: unexpected error {:?}", what, e)),
    }
}

/// Conditions a least-squares / exact / minimum-norm solution of A X = B must meet, columnwise.
pub fn check_solution<T: Sc>(cx: &mut Cx, a: &M, b: &M, x: &M, kappa: f64) -> Res {
    let (r, c) = a.dim();
    if !x.finite() {
        // only acceptable when the exact solution leaves the range of T
        ensure!(!kappa.is_finite(), "solution-not-finite", "X = {:?}", x);
        cx.label("solution overflowed");
        return Ok(());
    }
    let ea = norm_exp(a);
    let an = a.ldexp(ea);
    let fa = an.frob();
    let basis = if r < c && kappa.is_finite() { Some(orth_basis(&an.t())) } else { None };
    for j in 0..b.c {
        let (bj, xj) = (b.cols(j, j + 1), x.cols(j, j + 1));
        // scale b and x so that everything is near one: (2^ea A)(2^k x) = 2^(ea+k) b
        let k = if bj.max_abs() > 0.0 { norm_exp(&bj) - ea } else { norm_exp(&xj) };
        let (bn, xn) = (bj.ldexp(ea + k), xj.ldexp(k));
        if !xn.finite() || !bn.finite() || xn.max_abs() > 1e100 {
            cx.label("column skipped (range)");
            continue;
        }
        let floor = quantum::<T>(ea + k) * (r + c) as f64 + quantum::<T>(k) * (r + c) as f64;
        if !(floor < 1e-3 * T::EPS) {
            cx.label("column skipped (subnormal)");
            continue;
        }
        let res = an.mul(&xn).sub(&bn);
        let (fb, fx, fr) = (bn.frob(), xn.frob(), res.frob());
        if r <= c {
            cx.within("|A x - b| small", fr, 8.0 * u::<T>(r, c) * (fa * fx + fb) + floor, || format!("column {}", j))?;
        } else {
            let g = an.t().mul(&res).frob();
            cx.within("A^T(A x - b) small", g, 8.0 * u::<T>(r, c) * (fa * fr + fa * fa * fx + fa * fb) + floor, || format!("column {}", j))?;
        }
        if let Some(q) = &basis {
            let p = q.mul(&q.t().mul(&xn));
            let out = xn.sub(&p).frob();
            cx.within("x in range(A^T)", out, 8.0 * u::<T>(r, c) * kappa * fx + floor, || format!("column {}", j))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P03 / P04 / P05

pub fn tri_is_clean(l: &M) -> bool {
    (0..l.r).all(|i| (i + 1..l.c).all(|j| l.get(i, j) == 0.0))
}
/// L L^T = A componentwise relative to sqrt(a_ii a_jj); only the lower triangles are read.
pub fn check_llt<T: Sc>(cx: &mut Cx, a: &M, l: &M) -> Res {
    let n = a.r;
    ensure!(l.dim() == (n, n), "l-shape", "{:?}", l.dim());
    for i in 0..n {
        ensure!(l.get(i, i) > 0.0, "l-diagonal", "L[{},{}] = {:e}", i, i, l.get(i, i));
        for j in 0..=i {
            ensure!(l.get(i, j).is_finite(), "l-not-finite", "L[{},{}] = {:e}", i, j, l.get(i, j));
        }
    }
    for i in 0..n {
        for j in 0..=i {
            let (si, sj) = (a.get(i, i).sqrt(), a.get(j, j).sqrt());
            let v: f64 = (0..=j).map(|k| (l.get(i, k) / si) * (l.get(j, k) / sj)).sum();
            let w = (a.get(i, j) / si) / sj;
            let floor = T::QUANTUM / si / sj * n as f64 * 4.0;
            cx.within("L*L^T = A (componentwise)", (v - w).abs(), 3.0 * T::EPS * (n + 3) as f64 + floor, || format!("entry {},{} of n={}", i, j, n))?;
        }
    }
    Ok(())
}
/// lower triangle of `m` plus arbitrary contents in the strict upper triangle
pub fn with_upper(s: &mut Source, m: &M) -> (M, &'static str) {
    let mut o = m.clone();
    let k = s.weighted(&[4, 2, 2, 1]);
    let g = s.pick(&[1.0, -3.5, 1e6]);
    for i in 0..m.r {
        for j in i + 1..m.c {
            match k {
                0 => {}
                1 => o.set(i, j, f64::NAN),
                2 => o.set(i, j, g * (i as f64 + 1.0) - j as f64),
                _ => o.set(i, j, if (i + j) % 2 == 0 { f64::INFINITY } else { 0.0 }),
            }
        }
    }
    (o, ["upper/symmetric", "upper/NaN", "upper/other", "upper/inf"][k])
}
pub fn sized_n(s: &mut Source) -> usize {
    if s.chance(1, 80) {
        0
    } else {
        size(s)
    }
}
pub fn spd_scale<T: Sc>(s: &mut Source) -> i32 {
    let lim = if T::IS32 { 60 } else { 800 };
    match s.weighted(&[5, 2, 1]) {
        0 => 0,
        1 => s.range(0, 40) as i32 - 20,
        _ => s.range(0, 2 * lim) as i32 - lim as i32,
    }
}
/// D*A*D with D a diagonal of powers of two: SPD for SPD A, exactly.
pub fn grade(s: &mut Source, m: &M) -> M {
    if !s.chance(1, 4) {
        return m.clone();
    }
    let step = s.pick(&[1, -1, 3, -2]);
    let mut o = m.clone();
    for i in 0..m.r {
        for j in 0..m.c {
            let x = m.get(i, j) * ((step * (i.min(9) + j.min(9)) as i32) as f64).exp2();
            o.set(i, j, x);
        }
    }
    o
}
/// Shift the exponent of `m` down so that its entries and small multiples of them fit T.
pub fn fit<T: Sc>(m: M) -> M {
    let x = m.max_abs();
    if x == 0.0 || !x.is_finite() {
        return m;
    }
    let over = ilog2(x) - (T::MAXEXP - 12);
    if over > 0 {
        m.ldexp(-over)
    } else {
        m
    }
}
pub fn gen_spd<T: Sc>(s: &mut Source, cx: &mut Cx, n: usize) -> M {
    let e = spd_scale::<T>(s);
    let (a, l) = spd(s, n);
    class(cx, l, n, n, e);
    let a = fit::<T>(grade(s, &a).ldexp(e)).round::<T>();
    cx.note(|| format!("{} {} 2^{} {:?}", T::NAME, l, e, a));
    a
}

fn p03(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p03_t)
}
/// L*L^T for a lower triangular L of small integers times 2^h, with h anywhere between the
/// smallest and the largest value for which the product is representable: every entry of the
/// product, and every intermediate value of the factorisation, is an integer times 4^h.
fn spd_edge<T: Sc>(s: &mut Source, cx: &mut Cx) -> (M, M, i32) {
    let n = s.range(1, 6);
    let (lo, hi) = ((low_exp::<T>() + 1) / 2, (T::MAXEXP - 12) / 2);
    let h = match s.weighted(&[3, 1, 2]) {
        0 => lo + s.u(40) as i32,
        1 => hi - s.u(10) as i32,
        _ => lo + s.u((hi - lo) as usize) as i32,
    };
    let mut l = M::zeros(n, n);
    for i in 0..n {
        for j in 0..i {
            l.set(i, j, s.pick(&[0.0, 1.0, -1.0, 2.0, -2.0]));
        }
        l.set(i, i, if h < ilog2(T::TINY) / 2 + 20 { s.pick(&[8.0, 6.0, 7.0, 9.0]) } else { s.pick(&[1.0, 2.0, 4.0, 3.0, 7.0]) });
    }
    let a = l.mul(&l.t()).ldexp(2 * h).round::<T>();
    cx.note(|| format!("{} L={:?} times 2^{}", T::NAME, l, h));
    cx.label(if a.max_abs() < T::TINY { "exact/subnormal" } else { "exact" });
    cx.interesting();
    (a, l, h)
}
fn check_edge<T: Sc>(cx: &mut Cx, what: &'static str, got: linfa_linalg::Result<M>, l: &M, h: i32) -> Res {
    let n = l.r;
    let got = match got {
        Ok(x) => x,
        Err(e) => return fail("pd-refused", format!("{} of L*L^T with L={:?} times 2^{}: {:?}", what, l, h, e)),
    };
    // absolute error of a few rounding units of 4^h (none in the reference implementation) plus
    // relative rounding amplified by the conditioning of integer matrices with small entries
    let amp = jacobi_eig(&l.mul(&l.t())).0;
    let kappa = amp[n - 1] / amp[0].max(1e-9);
    let unit = ((low_exp::<T>() - 2 * h) as f64).exp2();
    for i in 0..n {
        for j in 0..=i {
            let d = (got.ldexp(-h).get(i, j) - l.get(i, j)).abs();
            cx.within("exact factor", d, 16.0 * (n + 3) as f64 * (T::EPS * kappa + unit) * l.frob(), || format!("{}: L[{},{}] = {:e}*2^{} instead of {:e}", what, i, j, got.ldexp(-h).get(i, j), h, l.get(i, j)))?;
        }
    }
    Ok(())
}
fn p03_edge<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let (a, l, h) = spd_edge::<T>(s, cx);
    let mut aa: Array2<T> = arr(s, &a);
    let (r, what) = match s.u(4) {
        0 => (aa.cholesky().map(|x| to_m(&x)), "cholesky"),
        1 => (aa.cholesky_into().map(|x| to_m(&x)), "cholesky_into"),
        2 => (aa.cholesky_dirty().map(|x| to_m(&x)), "cholesky_dirty"),
        _ => (aa.cholesky_inplace().map(|x| to_m(x)), "cholesky_inplace"),
    };
    check_edge::<T>(cx, what, r, &l, h)
}
fn p04_edge<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let (mut a, l, h) = spd_edge::<T>(s, cx);
    let n = a.r;
    if s.chance(1, 2) {
        let mut aa: Array2<T> = arr(s, &a);
        let mut b = Array2::<T>::zeros((n, 1));
        let (r, what) = match s.u(4) {
            0 => (aa.cholesky_into_dirty().map(|x| to_m(&x)), "cholesky_into_dirty"),
            1 => (aa.cholesky_inplace_dirty().map(|x| to_m(x)), "cholesky_inplace_dirty"),
            2 => {
                let r = aa.solvec_inplace(&mut b).map(|_| ());
                (r.map(|_| to_m(&aa)), "solvec_inplace")
            }
            _ => (aa.cholesky().map(|x| to_m(&x)), "cholesky"),
        };
        return check_edge::<T>(cx, what, r, &l, h);
    }
    // Make one pivot exactly zero or negative: the leading block stays exactly L*L^T, so the
    // value of the pivot is an exact integer times 4^h.
    let p = s.u(n);
    let drop = l.get(p, p) * l.get(p, p) + s.pick(&[0.0, 0.0, 1.0, 5.0]);
    let d = M { r: 1, c: 1, d: vec![a.ldexp(-2 * h).get(p, p) - drop] }.ldexp(2 * h).get(0, 0);
    a.set(p, p, d);
    cx.label("exact non-positive pivot");
    let margin = drop - l.get(p, p) * l.get(p, p);
    let mut aa: Array2<T> = arr(s, &a.round::<T>());
    let (r, what) = match s.u(4) {
        0 => (aa.cholesky().map(|x| to_m(&x)), "cholesky"),
        1 => (aa.invc().map(|x| to_m(&x)), "invc"),
        2 => (aa.solvec(&Array2::<T>::eye(n)).map(|x| to_m(&x)), "solvec"),
        _ => (aa.cholesky_into().map(|x| to_m(&x)), "cholesky_into"),
    };
    match r {
        Err(LinalgError::NotPositiveDefinite) => Ok(()),
        Err(e) => fail("wrong-error", format!("{}: {:?}", what, e)),
        // a pivot of exactly zero may be missed by an implementation with other rounding, except
        // where it is a diagonal entry of the matrix itself
        Ok(_) if margin == 0.0 && p > 0 && a.get(p, p) > 0.0 => Ok(()),
        Ok(x) => fail("not-pd-accepted", format!("{} accepted a matrix with pivot {} of {:e}*4^{}: {:?}", what, p, -margin, h, x)),
    }
}
fn p03_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    if s.chance(1, 16) {
        return p03_edge::<T>(s, cx);
    }
    let form = s.u(6);
    let n = sized_n(s);
    let a = gen_spd::<T>(s, cx, n);
    let (full, ul) = with_upper(s, &a);
    cx.label(ul);
    let aa: Array2<T> = arr(s, &full);
    if n >= 2 {
        cx.interesting();
    }
    let before = to_m(&aa);
    let dirty = form >= 3;
    let l: M = match form {
        0 => to_m(&ok(aa.cholesky(), "cholesky")?),
        1 => to_m(&ok(aa.cholesky_into(), "cholesky_into")?),
        2 => {
            let mut aa = aa;
            ok(aa.cholesky_inplace(), "cholesky_inplace")?;
            to_m(&aa)
        }
        3 => to_m(&ok(aa.cholesky_dirty(), "cholesky_dirty")?),
        4 => to_m(&ok(aa.cholesky_into_dirty(), "cholesky_into_dirty")?),
        _ => {
            let mut aa = aa;
            let r = to_m(ok(aa.cholesky_inplace_dirty(), "cholesky_inplace_dirty")?);
            ensure!(r.same_bits(&to_m(&aa)), "inplace-return", "returned reference differs from the array");
            r
        }
    };
    check_llt::<T>(cx, &a, &l)?;
    if dirty {
        for i in 0..n {
            for j in i + 1..n {
                let (x, y) = (l.get(i, j), before.get(i, j));
                ensure!(
                    x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
                    "dirty-upper-changed",
                    "upper entry {},{} changed from {:e} to {:e}",
                    i,
                    j,
                    y,
                    x
                );
            }
        }
    } else {
        ensure!(tri_is_clean(&l), "clean-upper-nonzero", "strict upper triangle of the clean factor is not zero: {:?}", l);
    }
    Ok(())
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Pd {
    Yes,
    No,
    Unclear,
}
/// Positive definiteness by margin: smallest eigenvalue of the unit-diagonal scaling.
pub fn pd_class<T: Sc>(a: &M) -> Pd {
    let n = a.r;
    for i in 0..n {
        if !(a.get(i, i) > 0.0) {
            return Pd::No;
        }
    }
    if n == 0 {
        return Pd::Yes;
    }
    let mut h = M::zeros(n, n);
    for i in 0..n {
        for j in 0..n {
            let (p, q) = (i.max(j), i.min(j));
            let x = (a.get(p, q) / a.get(i, i).sqrt()) / a.get(j, j).sqrt();
            if x.abs() > 1e3 {
                return Pd::No; // |a_ij| >> sqrt(a_ii a_jj)
            }
            h.set(i, j, if i == j { 1.0 } else { x });
        }
    }
    let w = jacobi_eig(&h).0[0];
    let margin = 12.0 * T::EPS * (n + 3) as f64 * (n as f64).sqrt();
    if w > margin {
        Pd::Yes
    } else if w < -margin {
        Pd::No
    } else {
        Pd::Unclear
    }
}
fn p04(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p04_t)
}
fn p04_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    if s.chance(1, 12) {
        return p04_edge::<T>(s, cx);
    }
    let form = s.u(7);
    let mode = s.weighted(&[3, 4, 3, 1, 1]);
    let n = size_s(s);
    let e = spd_scale::<T>(s);
    let mut nan = false;
    let a = match mode {
        0 => {
            let m = spd(s, n).0;
            grade(s, &m)
        }
        1 => {
            // L D L^T with unit lower L and one (or more) non-positive pivots at a chosen place
            let kind = s_kind(s);
            let mut l = fill(s, n, n, kind);
            let mut d: Vec<f64> = vec![1.0; n];
            let dd = fill(s, n, 1, 0);
            for i in 0..n {
                d[i] = dd.d[i].abs() + 1.0;
                for j in 0..n {
                    if j > i {
                        l.set(i, j, 0.0);
                    } else if j == i {
                        l.set(i, i, 1.0);
                    } else if i - j > 4 {
                        l.set(i, j, 0.0);
                    } else {
                        let x = l.get(i, j);
                        l.set(i, j, if x.abs() > 2.0 { 0.0 } else { x });
                    }
                }
            }
            let p = s.u(n);
            d[p] = s.pick(&[-1.0, -1e-2, -1e-4, -1e3, 1e-3, 0.5]);
            if s.chance(1, 4) {
                let p = s.u(n);
                d[p] = -2.0;
            }
            let ld = l.mul(&M::diag(&d));
            grade(s, &ld.mul(&l.t()))
        }
        2 => symmetric(s, n).0,
        3 => {
            // SPD with one diagonal entry exactly zero or negative
            let mut a = spd(s, n).0;
            let p = s.u(n);
            a.set(p, p, s.pick(&[0.0, -0.0, -1.0, -1e-9]));
            a
        }
        _ => {
            let mut a = spd(s, n).0;
            let i = s.u(n);
            let j = s.u(i + 1);
            a.set(i, j, f64::NAN);
            nan = true;
            a
        }
    };
    let a = if nan { a } else { fit::<T>(a.ldexp(e)).round::<T>() };
    cx.note(|| format!("{} mode {} 2^{} {:?}", T::NAME, mode, e, a));
    let verdict = if nan { Pd::No } else { pd_class::<T>(&a) };
    let (full, _) = if nan || !a.finite() { (a.clone(), "") } else { with_upper(s, &a) };
    cx.label(match (nan, verdict) {
        (true, _) => "NaN in lower triangle",
        (_, Pd::Yes) => "positive definite",
        (_, Pd::No) => "not positive definite",
        _ => "undecided (within rounding)",
    });
    if verdict != Pd::Unclear {
        cx.interesting();
    }
    let aa: Array2<T> = arr(s, &full);
    let lower = |m: &M| {
        let mut m = m.clone();
        for i in 0..n {
            for j in i + 1..n {
                m.set(i, j, 0.0);
            }
        }
        m
    };
    let mut eye: Array2<T> = Array2::eye(n);
    let (res, what): (linfa_linalg::Result<Option<M>>, &'static str) = match form {
        0 => (aa.cholesky().map(|x| Some(to_m(&x))), "cholesky"),
        1 => (aa.cholesky_dirty().map(|x| Some(lower(&to_m(&x)))), "cholesky_dirty"),
        2 => (aa.cholesky_into().map(|x| Some(to_m(&x))), "cholesky_into"),
        3 => {
            let mut aa = aa;
            (aa.cholesky_inplace_dirty().map(|x| Some(lower(&to_m(x)))), "cholesky_inplace_dirty")
        }
        4 => {
            let mut aa = aa;
            let r = aa.solvec_inplace(&mut eye).map(|_| ());
            (r.map(|_| Some(lower(&to_m(&aa)))), "solvec_inplace")
        }
        5 => {
            let mut aa = aa;
            let r = aa.solvec(&eye).map(|_| ());
            (r.map(|_| Some(lower(&to_m(&aa)))), "solvec")
        }
        _ => (aa.invc().map(|_| None), "invc"),
    };
    match res {
        Ok(l) => {
            ensure!(verdict != Pd::No, "not-pd-accepted", "{} accepted a matrix that is not positive definite", what);
            if let Some(l) = l {
                check_llt::<T>(cx, &a, &l)?;
            }
        }
        Err(LinalgError::NotPositiveDefinite) => {
            ensure!(verdict != Pd::Yes, "pd-refused", "{} refused a positive definite matrix", what)
        }
        Err(e) => return fail("wrong-error", format!("{}: {:?}", what, e)),
    }
    Ok(())
}
fn s_kind(s: &mut Source) -> usize {
    s.pick(&[0usize, 0, 3, 4])
}
fn p04_pin_nan(_cx: &mut Cx) -> Res {
    for n in 1..4 {
        for i in 0..n {
            for j in 0..=i {
                let mut a = Array2::<f64>::eye(n);
                a[(i, j)] = f64::NAN;
                ensure!(
                    matches!(a.cholesky(), Err(LinalgError::NotPositiveDefinite)),
                    "nan-accepted",
                    "{}x{} identity with NaN at {},{} was accepted",
                    n,
                    n,
                    i,
                    j
                );
            }
        }
    }
    Ok(())
}
fn p04_pin_overflow(_cx: &mut Cx) -> Res {
    // finite entries, intermediate values overflow: indefinite
    let a = ndarray::array![[1e-300f64, 1e10, 1e10], [1e10, 1.0, 0.0], [1e10, 0.0, 1.0]];
    ensure!(matches!(a.cholesky(), Err(LinalgError::NotPositiveDefinite)), "overflow-accepted", "{:?}", a.cholesky());
    let a = ndarray::array![[1e-200f64, 1e300], [1e300, 1.0]];
    ensure!(matches!(a.cholesky(), Err(LinalgError::NotPositiveDefinite)), "overflow-accepted", "{:?}", a.cholesky());
    Ok(())
}

/// Componentwise residual of an SPD solve.
pub fn check_spd_solution<T: Sc>(cx: &mut Cx, a: &M, b: &M, x: &M) -> Res {
    let n = a.r;
    ensure!(x.dim() == b.dim(), "solution-shape", "{:?} for B {:?}", x.dim(), b.dim());
    ensure!(x.finite(), "solution-not-finite", "X = {:?}", x);
    for j in 0..b.c {
        let sx: f64 = (0..n).map(|k| a.get(k, k).sqrt() * x.get(k, j).abs()).sum();
        for i in 0..n {
            let si = a.get(i, i).sqrt();
            let ax: f64 = (0..n).map(|k| (a.get(i.max(k), i.min(k)) / si) * x.get(k, j)).sum();
            let floor = T::QUANTUM * (n as f64) * 64.0 / si + T::TINY * sx * 4.0;
            cx.within("A*X = B (componentwise)", (ax - b.get(i, j) / si).abs(), 6.0 * T::EPS * (n + 3) as f64 * sx + floor, || {
                format!("row {} column {} of n={}", i, j, n)
            })?;
        }
    }
    Ok(())
}
fn p05(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p05_t)
}
fn p05_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let form = s.u(6);
    let n = sized_n(s);
    let e = if T::IS32 { s.pick(&[0, 0, 5, -8, 20, -20]) } else { s.pick(&[0, 0, 7, -11, 100, -100, 300, -300]) };
    let (a, l) = spd(s, n);
    class(cx, l, n, n, e);
    let a = fit::<T>(grade(s, &a).ldexp(e)).round::<T>();
    let b = rhs(s, n).round::<T>();
    cx.note(|| format!("{} {} A={:?} B={:?}", T::NAME, l, a, b));
    if n >= 1 && (b.c > 0 || form >= 4) {
        cx.interesting();
    }
    let (full, ul) = with_upper(s, &a);
    cx.label(ul);
    let mut aa: Array2<T> = arr(s, &full);
    let ba: Array2<T> = arr(s, &b);
    let bb = to_m(&ba);
    let mut factored = true;
    let (x, b): (M, M) = match form {
        0 | 3 => {
            let x = to_m(&ok(aa.solvec(&ba), "solvec")?);
            ensure!(to_m(&ba).same_bits(&bb), "rhs-changed", "solvec changed its right-hand side");
            (x, b)
        }
        1 => (to_m(&ok(aa.solvec_into(ba), "solvec_into")?), b),
        2 => {
            let mut ba = ba;
            let r = to_m(ok(aa.solvec_inplace(&mut ba), "solvec_inplace")?);
            ensure!(r.same_bits(&to_m(&ba)), "inplace-return", "returned reference differs from the array");
            (r, b)
        }
        4 => (to_m(&ok(aa.invc_inplace(), "invc_inplace")?), M::eye(n)),
        _ => {
            factored = false;
            let before = to_m(&aa);
            let r = to_m(&ok(aa.invc(), "invc")?);
            ensure!(to_m(&aa).same_bits(&before), "input-changed", "invc changed its input");
            (r, M::eye(n))
        }
    };
    check_spd_solution::<T>(cx, &a, &b, &x)?;
    if factored {
        check_llt::<T>(cx, &a, &to_m(&aa))?;
    }
    // condition number of the symmetrically scaled matrix bounds the scaled forward error
    let mut h = M::zeros(n, n);
    for i in 0..n {
        for j in 0..n {
            h.set(i, j, (a.get(i, j) / a.get(i, i).sqrt()) / a.get(j, j).sqrt());
        }
    }
    if n > 0 && n <= 24 && form >= 4 {
        let w = jacobi_eig(&h).0;
        let kap = w[n - 1] / w[0].max(1e-300);
        for i in 0..n {
            for j in 0..i {
                let sc = a.get(i, i).sqrt() * a.get(j, j).sqrt();
                let (p, q) = (x.get(i, j) * sc, x.get(j, i) * sc);
                cx.within("inv(A) symmetric", (p - q).abs(), 10.0 * T::EPS * (n + 3) as f64 * kap / w[0].max(1e-300), || format!("{},{}", i, j))?;
            }
        }
        // inv(A)*A = I, in the scaled basis
        let mut xs = x.clone();
        for i in 0..n {
            for j in 0..n {
                let v = x.get(i, j) * a.get(i, i).sqrt() * a.get(j, j).sqrt();
                xs.set(i, j, v);
            }
        }
        let d = xs.mul(&h).sub(&M::eye(n)).max_abs();
        cx.within("inv(A)*A = I", d, 10.0 * T::EPS * (n + 3) as f64 * kap * (1.0 + kap), || format!("n={}", n))?;
    }
    if n > 0 && n <= 24 && form < 4 && b.c > 0 && e.abs() <= 20 {
        // agreement with the QR solver
        let (w, _) = jacobi_eig(&a);
        let kap = w[n - 1] / w[0].max(1e-300);
        if kap > 0.0 && kap * T::EPS * (n as f64) < 1e-2 {
            let aq: Array2<T> = lay(&a, 0);
            let xq = to_m(&ok(ok(aq.qr_into(), "qr_into")?.solve_into(lay::<T>(&b, 0)), "qr solve")?);
            let e = norm_exp(&x).clamp(-900, 900);
            let d = x.ldexp(e).sub(&xq.ldexp(e));
            for j in 0..b.c {
                let (dn, xn) = (M { r: n, c: 1, d: d.col(j) }.frob(), M { r: n, c: 1, d: x.ldexp(e).col(j) }.frob());
                cx.within("agrees with QR solve", dn, 20.0 * u::<T>(n, n) * kap * xn + T::TINY * 4.0, || format!("column {}", j))?;
            }
            cx.label("compared with QR");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P06

fn p06(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p06_t)
}
fn p06_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let form = s.u(3);
    let upper = s.chance(1, 2);
    let n = sized_n(s);
    let mut t = plain(s, n, n);
    let dmode = s.u(3);
    for i in 0..n {
        let x = t.get(i, i);
        match dmode {
            0 => t.set(i, i, if x < 0.0 { x - n as f64 } else { x + n as f64 }),
            1 => t.set(i, i, if x == 0.0 { 1.0 } else { x }),
            _ => t.set(i, i, if i % 2 == 0 { 2.0 } else { -4.0 }),
        }
    }
    if dmode == 1 {
        // avoid explosive growth: damp the off-diagonal part
        for i in 0..n {
            for j in 0..n {
                if i != j && n > 12 {
                    let x = t.get(i, j) / 16.0;
                    t.set(i, j, x);
                }
            }
        }
    }
    // extreme: both sides of the system at an end of the exponent range, the solution is moderate
    let extreme = s.chance(1, 6);
    let e = match (extreme, T::IS32) {
        (false, _) => s.pick(&[0, 0, 0, 5, -7, 30, -30]),
        (_, false) => s.pick(&[-1070i32, -1060, -1040, -1024, -1000, -600, 400]),
        (_, true) => s.pick(&[-146i32, -140, -130, -126, -110, -70, 50]),
    };
    let t = t.ldexp(e).round::<T>();
    let t = M { r: n, c: n, d: t.d.iter().map(|&x| if x.abs() < T::TINY && !extreme { 0.0 } else { x }).collect() };
    let mut full = t.clone();
    for i in 0..n {
        if full.get(i, i) == 0.0 {
            full.set(i, i, if extreme { (e as f64).exp2() } else { 1.0 });
        }
    }
    let t = full.clone();
    let garbage = s.weighted(&[3, 3, 2, 2]);
    for i in 0..n {
        for j in 0..n {
            if (upper && i > j) || (!upper && i < j) {
                match garbage {
                    0 => full.set(i, j, 0.0),
                    1 => full.set(i, j, f64::NAN),
                    2 => full.set(i, j, if (i * 7 + j) % 3 == 0 { f64::INFINITY } else { -1e30 }),
                    _ => {} // unrelated finite numbers
                }
            }
        }
    }
    let eb = if extreme { e + s.pick(&[0, 0, 3, -3]) } else { s.pick(&[0, 0, 10, -20]) };
    let b = rhs(s, n).ldexp(eb).round::<T>();
    if extreme {
        cx.label("extreme exponent");
    }
    cx.label(["unread/zero", "unread/NaN", "unread/inf", "unread/finite"][garbage]);
    cx.label(if upper { "upper" } else { "lower" });
    cx.note(|| format!("{} upper={} T={:?} B={:?}", T::NAME, upper, full, b));
    if n >= 2 && b.c > 0 {
        cx.interesting();
    }
    let uplo = if upper { UPLO::Upper } else { UPLO::Lower };
    let ta: Array2<T> = arr(s, &full);
    let ba: Array2<T> = arr(s, &b);
    let x = match form {
        0 => {
            let x = to_m(&ok(ta.solve_triangular(&ba, uplo), "solve_triangular")?);
            ensure!(to_m(&ba).same_bits(&b), "rhs-changed", "solve_triangular changed its right-hand side");
            x
        }
        1 => to_m(&ok(ta.solve_triangular_into(ba, uplo), "solve_triangular_into")?),
        _ => {
            let mut ba = ba;
            let r = to_m(ok(ta.solve_triangular_inplace(&mut ba, uplo), "solve_triangular_inplace")?);
            ensure!(r.same_bits(&to_m(&ba)), "inplace-return", "returned reference differs from the array");
            r
        }
    };
    ensure!(x.dim() == b.dim(), "solution-shape", "{:?}", x.dim());
    for k in 0..b.c {
        let xk = x.col(k);
        if xk.iter().any(|v| !v.is_finite() || v.abs() > if T::IS32 { 1e28 } else { 1e280 }) {
            // only acceptable when substitution may really grow that much: the comparison matrix,
            // in f64, bounds every intermediate value
            let mut y = vec![0.0f64; n];
            let mut big = 0.0f64;
            for ii in 0..n {
                let i = if upper { n - 1 - ii } else { ii };
                let others: f64 = (0..n).filter(|&j| if upper { j > i } else { j < i }).map(|j| t.get(i, j).abs() * y[j]).sum();
                let num = b.get(i, k).abs() + others;
                y[i] = num / t.get(i, i).abs();
                big = big.max(y[i]).max(num);
            }
            ensure!(big > if T::IS32 { 1e27 } else { 1e279 }, "solution-not-finite", "column {} of X: {:?}", k, xk);
            cx.label("solution overflowed");
            continue;
        }
        for i in 0..n {
            let (lo, hi) = if upper { (i, n) } else { (0, i + 1) };
            let (mut r, mut sc) = (-b.get(i, k), 0.0);
            for j in lo..hi {
                r += t.get(i, j) * xk[j];
                sc += (t.get(i, j) * xk[j]).abs();
            }
            let rowmax = (lo..hi).map(|j| t.get(i, j).abs()).fold(0.0, f64::max);
            let floor = T::QUANTUM * (n + 2) as f64 * (1.0 + rowmax) * 2.0;
            cx.within("T*X = B (componentwise)", r.abs(), 2.0 * T::EPS * (n + 3) as f64 * sc + floor, || format!("row {} column {} of n={}", i, k, n))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P08 / P09

pub fn recon_tol<T: Sc>(a: &M) -> (i32, f64) {
    let e = norm_exp(a);
    let floor = T::QUANTUM * (e as f64).exp2() * (a.r + a.c) as f64;
    (e, 6.0 * u::<T>(a.r, a.c) * a.ldexp(e).frob() + 8.0 * floor)
}

fn p08(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p08_t)
}
fn p08_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let (r, c) = dims(s);
    let a = gen_general::<T>(s, cx, r, c);
    let aa: Array2<T> = arr(s, &a);
    let k = r.min(c);
    if a.max_abs() > 0.0 {
        cx.interesting();
    }
    let d = ok(aa.bidiagonal(), "bidiagonal")?;
    let upper = d.is_upper_diag();
    ensure!(upper == (r >= c), "is-upper", "is_upper_diag = {} for {}x{}", upper, r, c);
    let (uu, vt, b) = match s.u(2) {
        0 => (to_m(&d.generate_u()), to_m(&d.generate_vt()), to_m(&d.clone().into_b())),
        _ => {
            let b = to_m(&d.clone().into_b());
            let vt = to_m(&d.generate_vt());
            (to_m(&d.generate_u()), vt, b)
        }
    };
    let (dg, od) = d.into_diagonals();
    let (dg, od) = (vecf(&dg), vecf(&od));
    ensure!(uu.dim() == (r, k) && vt.dim() == (k, c) && b.dim() == (k, k), "shapes", "U {:?} B {:?} Vt {:?}", uu.dim(), b.dim(), vt.dim());
    ensure!(dg.len() == k && od.len() == k - 1, "diagonal-lengths", "{} and {}", dg.len(), od.len());
    ensure!(b.finite(), "b-not-finite", "{:?}", b);
    for i in 0..k {
        for j in 0..k {
            let x = b.get(i, j);
            let want = if i == j {
                Some(dg[i])
            } else if upper && j == i + 1 {
                Some(od[i])
            } else if !upper && i == j + 1 {
                Some(od[j])
            } else {
                None
            };
            match want {
                Some(w) => ensure!(x == w && x >= 0.0, "b-entry", "B[{},{}] = {:e}, diagonal vector says {:e}", i, j, x, w),
                None => ensure!(x == 0.0, "b-not-bidiagonal", "B[{},{}] = {:e}", i, j, x),
            }
        }
    }
    check_orth::<T>(cx, "U orthonormal", &uu)?;
    check_orth::<T>(cx, "Vt orthonormal", &vt.t())?;
    let (e, tol) = recon_tol::<T>(&a);
    let err = uu.mul(&b.ldexp(e)).mul(&vt).sub(&a.ldexp(e)).frob();
    cx.within("U*B*Vt = A", err, tol, || format!("{:?}", a.dim()))
}

fn p09(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p09_t)
}
fn p09_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let n = size(s);
    let a = gen_sym::<T>(s, cx, n);
    let aa: Array2<T> = arr(s, &a);
    if n >= 2 && a.max_abs() > 0.0 {
        cx.interesting();
    }
    let d = ok(aa.sym_tridiagonal(), "sym_tridiagonal")?;
    let (q, t, (dg, od)) = match s.u(3) {
        0 => (d.generate_q(), d.clone().into_tridiag_matrix(), d.into_diagonals()),
        1 => {
            let di = d.clone().into_diagonals();
            let t = d.clone().into_tridiag_matrix();
            (d.generate_q(), t, di)
        }
        _ => {
            let c2 = d.clone();
            let q = c2.generate_q();
            let di = c2.into_diagonals();
            (q, d.into_tridiag_matrix(), di)
        }
    };
    let (q, t, dg, od) = (to_m(&q), to_m(&t), vecf(&dg), vecf(&od));
    ensure!(q.dim() == (n, n) && t.dim() == (n, n), "shapes", "Q {:?} T {:?}", q.dim(), t.dim());
    ensure!(dg.len() == n && od.len() == n - 1, "diagonal-lengths", "{} and {}", dg.len(), od.len());
    ensure!(t.finite(), "t-not-finite", "{:?}", t);
    for i in 0..n {
        for j in 0..n {
            let x = t.get(i, j);
            if i == j {
                ensure!(x == dg[i], "t-entry", "T[{},{}] = {:e}, diagonal vector says {:e}", i, j, x, dg[i]);
            } else if i + 1 == j || j + 1 == i {
                let w = od[i.min(j)];
                ensure!(x == w && x >= 0.0, "t-entry", "T[{},{}] = {:e}, off-diagonal vector says {:e}", i, j, x, w);
            } else {
                ensure!(x == 0.0, "t-not-tridiagonal", "T[{},{}] = {:e}", i, j, x);
            }
        }
    }
    check_orth::<T>(cx, "Q orthogonal", &q)?;
    let (e, tol) = recon_tol::<T>(&a);
    let err = q.mul(&t.ldexp(e)).mul(&q.t()).sub(&a.ldexp(e)).frob();
    cx.within("Q*T*Q^T = A", err, tol, || format!("n={}", n))
}

// ---------------------------------------------------------------- P10 / P12

pub fn check_eig<T: Sc>(cx: &mut Cx, a: &M, w: &[f64], v: &M) -> Res {
    let n = a.r;
    ensure!(w.len() == n && v.dim() == (n, n), "eig-shapes", "{} values, vectors {:?} for n={}", w.len(), v.dim(), n);
    ensure!(w.iter().all(|x| x.is_finite()), "eig-not-finite", "{:?}", w);
    check_orth::<T>(cx, "V orthogonal", v)?;
    let e = norm_exp(a);
    let an = a.ldexp(e);
    let wn = M { r: 1, c: n, d: w.to_vec() }.ldexp(e).d;
    let av = an.mul(v);
    let mut vw = v.clone();
    for i in 0..n {
        for j in 0..n {
            let x = v.get(i, j) * wn[j];
            vw.set(i, j, x);
        }
    }
    let floor = T::QUANTUM * (e as f64).exp2() * (n * n) as f64;
    let d = col_norms(&av.sub(&vw));
    for j in 0..n {
        cx.within("A*v = w*v", d[j], 6.0 * u::<T>(n, n) * an.frob().max(1.0) + 8.0 * floor, || format!("pair {} of {}", j, n))?;
    }
    Ok(())
}
fn p10(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p10_t)
}
fn p10_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let n = if s.chance(1, 200) { 0 } else { size(s) };
    let a = if n == 0 { M::zeros(0, 0) } else { gen_sym::<T>(s, cx, n) };
    let aa: Array2<T> = arr(s, &a);
    if n >= 2 && a.max_abs() > 0.0 {
        cx.interesting();
    }
    let (w, v) = match s.u(2) {
        0 => {
            let before = to_m(&aa);
            let r = ok(aa.eigh(), "eigh")?;
            ensure!(before.same_bits(&to_m(&aa)), "input-changed", "eigh changed its input");
            r
        }
        _ => ok(aa.eigh_into(), "eigh_into")?,
    };
    check_eig::<T>(cx, &a, &vecf(&w), &to_m(&v))
}

pub fn cmp_spectra<T: Sc>(cx: &mut Cx, what: &'static str, got: &[f64], want: &[f64], scale: f64, n: usize, floor: f64) -> Res {
    ensure!(got.len() == want.len(), what, "{}: {} values instead of {}", what, got.len(), want.len());
    ensure!(got.iter().all(|x| x.is_finite()), what, "{}: not finite: {:?}", what, got);
    let (g, w) = (sorted(got.to_vec()), sorted(want.to_vec()));
    for i in 0..g.len() {
        cx.within(what, (g[i] - w[i]).abs(), 6.0 * u::<T>(n, n) * scale + floor, || format!("value {}: {:e} against {:e}", i, g[i], w[i]))?;
    }
    Ok(())
}
pub fn eigvals<T: Sc>(s: &mut Source, a: &M) -> Result<Vec<f64>, Fail> {
    let aa: Array2<T> = arr(s, a);
    Ok(match s.u(4) {
        0 => vecf(&ok(aa.eigvalsh(), "eigvalsh")?),
        1 => vecf(&ok(aa.eigvalsh_into(), "eigvalsh_into")?),
        2 => vecf(&ok(aa.eigh(), "eigh")?.0),
        _ => vecf(&ok(aa.eigh_into(), "eigh_into")?.0),
    })
}
fn p12(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p12_t)
}
fn p12_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let n = if s.chance(1, 200) { 0 } else { size_s(s) };
    if n == 0 {
        let e: Array2<T> = Array2::zeros((0, 0));
        ensure!(ok(e.eigvalsh(), "eigvalsh")?.is_empty(), "empty", "eigenvalues of an empty matrix");
        return Ok(());
    }
    let a = gen_sym::<T>(s, cx, n);
    if n >= 2 && a.max_abs() > 0.0 {
        cx.interesting();
    }
    let e = norm_exp(&a);
    let an = a.ldexp(e);
    let scale = an.frob().max(1.0);
    let floor = T::QUANTUM * (e as f64).exp2() * (8 * n * n) as f64;
    let down = |w: Vec<f64>| M { r: 1, c: w.len(), d: w }.ldexp(e).d;
    let w = down(eigvals::<T>(s, &a)?);
    let (want, _) = jacobi_eig(&an);
    cmp_spectra::<T>(cx, "eigenvalues against Jacobi", &w, &want, scale, n, floor)?;
    let w2 = down(eigvals::<T>(s, &a)?);
    cmp_spectra::<T>(cx, "values-only form agrees", &w2, &w, scale, n, floor)?;
    let tr: f64 = (0..n).map(|i| an.get(i, i)).sum();
    cx.within("sum = trace", (w.iter().sum::<f64>() - tr).abs(), 10.0 * u::<T>(n, n) * scale * (n as f64).sqrt() + floor * n as f64, || format!("n={}", n))?;
    let f2 = dot(&an.d, &an.d);
    cx.within("sum of squares = |A|_F^2", (dot(&w, &w) - f2).abs(), 10.0 * u::<T>(n, n) * scale * scale + floor * scale * n as f64, || format!("n={}", n))?;
    match s.u(5) {
        0 => {
            let w2 = down(eigvals::<T>(s, &a.map(|x| -x))?);
            let neg: Vec<f64> = w.iter().map(|x| -x).collect();
            cmp_spectra::<T>(cx, "negation negates", &w2, &neg, scale, n, floor)?;
        }
        1 => {
            // shift by a representable multiple of the scale (the shifted matrix is rounded to T)
            let c = s.pick(&[1.0, -2.0, 0.5, -0.25, 16.0]);
            let mut b = an.clone();
            for i in 0..n {
                let x = an.get(i, i) + c;
                b.set(i, i, x);
            }
            let b = b.round::<T>();
            let w2 = eigvals::<T>(s, &b)?;
            let sh: Vec<f64> = w.iter().map(|x| x + c).collect();
            cmp_spectra::<T>(cx, "shift shifts", &w2, &sh, scale + 16.0, n, floor)?;
        }
        2 => {
            let k = s.pick(&[1, -1, 4, 10]);
            let w2 = eigvals::<T>(s, &an.ldexp(k).round::<T>())?;
            let sc: Vec<f64> = M { r: 1, c: n, d: w2 }.ldexp(-k).d;
            cmp_spectra::<T>(cx, "scaling scales", &sc, &w, scale, n, floor + T::QUANTUM * 1e4 * n as f64)?;
        }
        3 => {
            let p = s.perm(n);
            let mut b = a.clone();
            for i in 0..n {
                for j in 0..n {
                    b.set(i, j, a.get(p[i], p[j]));
                }
            }
            let w2 = down(eigvals::<T>(s, &b)?);
            cmp_spectra::<T>(cx, "symmetric permutation keeps", &w2, &w, scale, n, floor)?;
        }
        _ => {
            // direct sum with a second matrix: the union of the spectra
            let (b, _) = symmetric(s, n.min(6));
            let b = b.ldexp(norm_exp(&b)).round::<T>();
            let an2 = an.round::<T>();
            let m = b.r;
            let mut d = M::zeros(n + m, n + m);
            for i in 0..n {
                for j in 0..n {
                    d.set(i, j, an2.get(i, j));
                }
            }
            for i in 0..m {
                for j in 0..m {
                    d.set(n + i, n + j, b.get(i, j));
                }
            }
            let wd = eigvals::<T>(s, &d)?;
            let mut un = w.clone();
            un.extend(eigvals::<T>(s, &b)?);
            cmp_spectra::<T>(cx, "direct sum unites", &wd, &un, scale + b.frob(), n + m, floor + T::QUANTUM * 1e4)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P11 / P13

pub fn check_svd<T: Sc>(cx: &mut Cx, a: &M, uu: Option<&M>, sv: &[f64], vt: Option<&M>) -> Res {
    let (r, c) = a.dim();
    let k = r.min(c);
    ensure!(sv.len() == k, "sv-count", "{} singular values for {}x{}", sv.len(), r, c);
    ensure!(sv.iter().all(|x| x.is_finite() && *x >= 0.0), "sv-negative-or-not-finite", "{:?}", sv);
    if let Some(uu) = uu {
        ensure!(uu.dim() == (r, k), "u-shape", "{:?}", uu.dim());
        check_orth::<T>(cx, "U orthonormal", uu)?;
    }
    if let Some(vt) = vt {
        ensure!(vt.dim() == (k, c), "vt-shape", "{:?}", vt.dim());
        check_orth::<T>(cx, "Vt orthonormal", &vt.t())?;
    }
    let e = norm_exp(a);
    let an = a.ldexp(e);
    let sn = M { r: 1, c: k, d: sv.to_vec() }.ldexp(e).d;
    let floor = T::QUANTUM * (e as f64).exp2() * (r * c) as f64 * 8.0;
    let tol = 8.0 * u::<T>(r, c) * an.frob().max(1.0) + floor;
    match (uu, vt) {
        (Some(uu), Some(vt)) => {
            let mut us = uu.clone();
            for i in 0..r {
                for j in 0..k {
                    let x = uu.get(i, j) * sn[j];
                    us.set(i, j, x);
                }
            }
            cx.within("U*S*Vt = A", us.mul(vt).sub(&an).frob(), tol, || format!("{}x{}", r, c))?;
        }
        (Some(uu), None) => {
            // U^T A has rows of length s_i that are mutually orthogonal
            let b = uu.t().mul(&an);
            let g = b.mul(&b.t());
            let mut d = 0.0f64;
            for i in 0..k {
                for j in 0..k {
                    d = d.max((g.get(i, j) - if i == j { sn[i] * sn[i] } else { 0.0 }).abs());
                }
            }
            cx.within("U alone diagonalises A*A^T", d, tol * an.frob().max(1.0) * 2.0, || format!("{}x{}", r, c))?;
        }
        (None, Some(vt)) => {
            let b = an.mul(&vt.t());
            let g = b.t().mul(&b);
            let mut d = 0.0f64;
            for i in 0..k {
                for j in 0..k {
                    d = d.max((g.get(i, j) - if i == j { sn[i] * sn[i] } else { 0.0 }).abs());
                }
            }
            cx.within("Vt alone diagonalises A^T*A", d, tol * an.frob().max(1.0) * 2.0, || format!("{}x{}", r, c))?;
        }
        _ => {
            let f = dot(&an.d, &an.d);
            cx.within("sum of squares = |A|_F^2", (dot(&sn, &sn) - f).abs(), tol * an.frob().max(1.0) * 2.0, || format!("{}x{}", r, c))?;
        }
    }
    Ok(())
}
pub type Svd3 = (Option<M>, Vec<f64>, Option<M>);
pub fn run_svd<T: Sc>(s: &mut Source, a: &M, cu: bool, cv: bool) -> Result<Svd3, Fail> {
    let aa: Array2<T> = arr(s, a);
    let (uu, sv, vt): (Option<Array2<T>>, Array1<T>, Option<Array2<T>>) = match s.u(2) {
        0 => {
            let r = ok(aa.svd(cu, cv), "svd")?;
            ensure!(to_m(&aa).same_bits(a), "input-changed", "svd changed its input");
            r
        }
        _ => ok(aa.svd_into(cu, cv), "svd_into")?,
    };
    ensure!(uu.is_some() == cu && vt.is_some() == cv, "requested-factors", "asked for ({}, {}), got ({}, {})", cu, cv, uu.is_some(), vt.is_some());
    Ok((uu.map(|x| to_m(&x)), vecf(&sv), vt.map(|x| to_m(&x))))
}
fn p11(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p11_t)
}
fn p11_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let want = s.weighted(&[5, 1, 1, 1]);
    let (r, c) = dims(s);
    let a = gen_general::<T>(s, cx, r, c);
    if a.max_abs() > 0.0 {
        cx.interesting();
    }
    let (cu, cv) = [(true, true), (true, false), (false, true), (false, false)][want];
    cx.label(["want/u+vt", "want/u", "want/vt", "want/none"][want]);
    let (uu, sv, vt) = run_svd::<T>(s, &a, cu, cv)?;
    cx.label_if(sv.iter().filter(|x| **x <= sv.iter().cloned().fold(0.0, f64::max) * T::EPS).count() > 0, "has a zero singular value");
    check_svd::<T>(cx, &a, uu.as_ref(), &sv, vt.as_ref())
}
fn p11_pin_sign(cx: &mut Cx) -> Res {
    // rank-deficient inputs on which a computed diagonal entry is -0.0 or negative
    let ms = [
        ndarray::array![[1.0f64, 1.0], [1.0, 1.0]],
        ndarray::array![[0.0, 1.0], [0.0, 1.0]],
        ndarray::array![[1.0, 2.0], [2.0, 4.0]],
        ndarray::array![[-1.0, -1.0], [-1.0, -1.0]],
        ndarray::array![[0.0, 0.0], [0.0, -3.0]],
    ];
    for m in ms.iter() {
        let (uu, sv, vt) = ok(m.svd(true, true), "svd")?;
        check_svd::<f64>(cx, &to_m(m), Some(&to_m(&uu.unwrap())), &vecf(&sv), Some(&to_m(&vt.unwrap())))?;
    }
    for r in 2..7usize {
        for c in 2..7usize {
            let m = M { r, c, d: (0..r * c).map(|k| (((k / c) * 2 + 1) as f64) * ((k % c) as f64 - 1.0)).collect() };
            let (uu, sv, vt) = ok(lay::<f64>(&m, 0).svd(true, true), "svd")?;
            check_svd::<f64>(cx, &m, Some(&to_m(&uu.unwrap())), &vecf(&sv), Some(&to_m(&vt.unwrap())))?;
        }
    }
    Ok(())
}
fn p13(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p13_t)
}
fn p13_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let (r, c) = (size_s(s), s.weighted(&[3, 3, 2]));
    let (r, c) = match c {
        0 => (r, r),
        1 => (r, size_s(s)),
        _ => (r + s.range(0, 5), r),
    };
    let a = gen_general::<T>(s, cx, r, c);
    if a.max_abs() > 0.0 {
        cx.interesting();
    }
    let e = norm_exp(&a);
    let an = a.ldexp(e);
    let n = r.max(c);
    let scale = an.frob().max(1.0);
    let floor = T::QUANTUM * (e as f64).exp2() * (8 * r * c) as f64;
    let down = |w: Vec<f64>| M { r: 1, c: w.len(), d: w }.ldexp(e).d;
    let flags = [(false, false), (true, true), (true, false), (false, true)];
    let (f1, f2) = (s.u(4), s.u(4));
    let w = down(run_svd::<T>(s, &a, flags[f1].0, flags[f1].1)?.1);
    ensure!(w.iter().all(|x| *x >= 0.0 && x.is_finite()), "sv-negative-or-not-finite", "{:?}", w);
    let want = jacobi_sv(&an);
    cmp_spectra::<T>(cx, "singular values against Jacobi", &w, &want, scale, n, floor)?;
    let (uu, w2, vt) = run_svd::<T>(s, &a, flags[f2].0, flags[f2].1)?;
    cmp_spectra::<T>(cx, "other request, same values", &down(w2.clone()), &w, scale, n, floor)?;
    check_svd::<T>(cx, &a, uu.as_ref(), &w2, vt.as_ref())?;
    let f = flags[s.u(4)];
    match s.u(5) {
        0 => {
            let w2 = down(run_svd::<T>(s, &a.t(), f.0, f.1)?.1);
            cmp_spectra::<T>(cx, "transposition keeps", &w2, &w, scale, n, floor)?;
        }
        1 => {
            let (p, q) = (s.perm(r), s.perm(c));
            let sg = s.chance(1, 2);
            let mut b = a.clone();
            for i in 0..r {
                for j in 0..c {
                    let x = a.get(p[i], q[j]);
                    b.set(i, j, if sg { -x } else { x });
                }
            }
            let w2 = down(run_svd::<T>(s, &b, f.0, f.1)?.1);
            cmp_spectra::<T>(cx, "permutation/negation keeps", &w2, &w, scale, n, floor)?;
        }
        2 => {
            let k = s.pick(&[1, -1, 6, -6]);
            let w2 = run_svd::<T>(s, &an.ldexp(k).round::<T>(), f.0, f.1)?.1;
            cmp_spectra::<T>(cx, "scaling scales", &M { r: 1, c: w2.len(), d: w2 }.ldexp(-k).d, &w, scale, n, floor + T::QUANTUM * 1e4 * n as f64)?;
        }
        3 => {
            // zero padding
            let (pr, pc) = (s.range(0, 4), s.range(0, 4));
            let mut b = M::zeros(r + pr, c + pc);
            let (i0, j0) = (s.range(0, pr), s.range(0, pc));
            for i in 0..r {
                for j in 0..c {
                    b.set(i0 + i, j0 + j, a.get(i, j));
                }
            }
            let w2 = down(run_svd::<T>(s, &b, f.0, f.1)?.1);
            let mut ex = w.clone();
            ex.resize((r + pr).min(c + pc), 0.0);
            cmp_spectra::<T>(cx, "zero padding adds zeros", &w2, &ex, scale, n + 4, floor)?;
        }
        _ => {
            let f2 = dot(&an.d, &an.d);
            cx.within("sum of squares = |A|_F^2", (dot(&w, &w) - f2).abs(), 10.0 * u::<T>(n, n) * scale * scale + floor * scale * n as f64, || format!("n={}", n))?;
        }
    }
    Ok(())
}

const A_ORACLE: &str = "oracle arithmetic (f64 products, Jacobi rotations) is accurate to a few ulps; tolerances are multiples of the type's epsilon and the size";
const A_SIZE: &str = "sizes up to 146; entries finite; larger matrices are not generated";

pub fn props() -> Vec<Prop> {
    let b = Prop { id: "", run: p01, quick: 0, thorough: 0, rule: "", pinned: &[], assumptions: &[A_ORACLE, A_SIZE] };
    vec![
        Prop { id: "P01", run: p01, quick: 1_200_000, thorough: 24_000_000, rule: "random m x n, m >= n (11 content families, 9 layouts, f64/f32, power-of-two scale over the whole range), by-value/by-ref/combined form; non-trivial: at least one column and not the zero matrix", ..b },
        Prop { id: "P02", run: p02, quick: 1_000_000, thorough: 20_000_000, rule: "random shape, full-rank A of known conditioning or arbitrary A or A with a zero line, random right-hand sides, every solving entry point; non-trivial: at least one right-hand-side column or a singular case", ..b },
        Prop { id: "P03", run: p03, quick: 2_400_000, thorough: 32_000_000, rule: "random SPD matrix (5 families, graded, scaled) with arbitrary strict upper triangle, each of the 6 forms; non-trivial: n >= 2", ..b },
        Prop { id: "P04", run: p04, quick: 1_600_000, thorough: 32_000_000, rule: "random symmetric matrix classified by the smallest eigenvalue of its unit-diagonal scaling (Jacobi), or with a NaN; non-trivial: the verdict is decided beyond rounding", pinned: &[("nan-identity", p04_pin_nan), ("overflowing-pivot", p04_pin_overflow)], ..b },
        Prop { id: "P05", run: p05, quick: 1_000_000, thorough: 20_000_000, rule: "random SPD matrix and right-hand sides, each solve/inverse form; non-trivial: n >= 1 and at least one column", ..b },
        Prop { id: "P06", run: p06, quick: 4_000_000, thorough: 40_000_000, rule: "random triangular system with garbage (zero, NaN, inf, finite) in the unread triangle, each form; non-trivial: n >= 2 and at least one column", ..b },
        Prop { id: "P08", run: p08, quick: 600_000, thorough: 12_000_000, rule: "random r x c matrix (all shapes and families); non-trivial: not the zero matrix", ..b },
        Prop { id: "P09", run: p09, quick: 700_000, thorough: 14_000_000, rule: "random symmetric matrix (9 families); non-trivial: n >= 2 and not zero", ..b },
        Prop { id: "P10", run: p10, quick: 400_000, thorough: 8_000_000, rule: "random symmetric matrix (9 families incl. repeated/clustered/zero/opposite spectra); non-trivial: n >= 2 and not zero", ..b },
        Prop { id: "P11", run: p11, quick: 500_000, thorough: 10_000_000, rule: "random r x c matrix (11 families incl. rank-deficient, repeated, zero), each choice of factors; non-trivial: not the zero matrix", pinned: &[("sign-of-zero-singular-value", p11_pin_sign)], ..b },
        Prop { id: "P12", run: p12, quick: 400_000, thorough: 8_000_000, rule: "random symmetric matrix against cyclic Jacobi plus one random metamorphic transformation; non-trivial: n >= 2 and not zero", ..b },
        Prop { id: "P13", run: p13, quick: 500_000, thorough: 10_000_000, rule: "random matrix against one-sided Jacobi, two choices of requested factors and one random metamorphic transformation; non-trivial: not the zero matrix", ..b },
    ]
}
