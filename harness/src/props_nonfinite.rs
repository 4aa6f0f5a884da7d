//! P29: matrices and right-hand sides with NaNs or infinities.
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::scalar::{self, Sc, C32, C64};
use crate::ensure;
use linfa_linalg::{bidiagonal::*, cholesky::*, eigh::*, norm::*, qr::*, reflection::*, svd::*, triangular::*, tridiagonal::*, LinalgError};
use ndarray::{Array1, Array2, ArrayBase, Data, Dimension};

const FUEL_K: f64 = 400.0;

fn all_finite<T: Sc, S: Data<Elem = T>, D: Dimension>(a: &ArrayBase<S, D>) -> bool {
    a.iter().all(|x| x.f().is_finite())
}
/// An error a routine may answer a non-finite matrix with: any but a complaint about the shape.
fn refused(e: LinalgError) -> Res {
    match e {
        LinalgError::NonInvertible | LinalgError::NotPositiveDefinite | LinalgError::NotConverged => Ok(()),
        e => fail("unexpected error", format!("{:?}", e)),
    }
}
/// Put one to a few NaNs or infinities into the matrix.
fn spoil<T: Sc>(s: &mut Source, cx: &mut Cx, m: &mut M, sym: bool, nan_only: bool) -> bool {
    let kind = if nan_only { 0 } else { s.weighted(&[3, 2, 1]) };
    cx.label(["bad/NaN", "bad/infinity", "bad/both"][kind]);
    let (r, c) = (m.r, m.c);
    let how = s.weighted(&[5, 2, 1, 1, 1]);
    let mut cells = vec![];
    match how {
        0 => cells.push((s.u(r), s.u(c))),
        1 => {
            for _ in 0..s.range(2, 4) {
                cells.push((s.u(r), s.u(c)))
            }
        }
        2 => {
            let i = s.u(r);
            cells.extend((0..c).map(|j| (i, j)))
        }
        3 => {
            let j = s.u(c);
            cells.extend((0..r).map(|i| (i, j)))
        }
        _ => cells.extend((0..r).flat_map(|i| (0..c).map(move |j| (i, j)))),
    }
    let mut any_nan = false;
    for (i, j) in cells {
        let x = match kind {
            0 => f64::NAN,
            1 => s.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
            _ => s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
        };
        m.set(i, j, x);
        if sym {
            m.set(j, i, x);
        }
    }
    for x in &m.d {
        any_nan |= x.is_nan();
    }
    any_nan
}

fn p29(s: &mut Source, cx: &mut Cx) -> Res {
    match s.u(4) {
        0 => p29_t::<C64>(s, cx),
        1 => p29_t::<C32>(s, cx),
        2 => p29_t::<f64>(s, cx),
        _ => p29_t::<f32>(s, cx),
    }
}
fn p29_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    if s.chance(1, 3) {
        column::<T>(s, cx)
    } else {
        matrix::<T>(s, cx)
    }
}

/// The matrix itself is not finite.
fn matrix<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let op = s.u(13);
    let square = matches!(op, 2 | 3 | 4 | 6 | 8..=11);
    let n0 = size_s(s);
    let (r, c) = if square {
        (n0, n0)
    } else {
        let b = size_s(s);
        if matches!(op, 0 | 7) {
            (n0.max(b), n0.min(b))
        } else {
            (n0, b)
        }
    };
    let sym = matches!(op, 2 | 3 | 4 | 6 | 8 | 10) || (square && s.chance(1, 3));
    let spd = matches!(op, 6 | 8 | 10);
    let m = if spd {
        crate::gen::spd(s, r).0
    } else if sym {
        symmetric(s, r).0
    } else {
        general(s, r, c).0
    };
    let lim = safe_exp::<T>();
    let k = scale_exp(s, lim);
    let mut m = M { r, c, d: (0..r * c).map(|k| m.get(k / c, k % c)).collect() }.ldexp(k).round::<T>();
    let any_nan = spoil::<T>(s, cx, &mut m, sym, false);
    cx.note(|| format!("{} op {} {:?}", T::NAME, op, m));
    if r.max(c) >= 2 {
        cx.interesting();
    }
    let mut a: Array2<T> = arr(s, &m);
    let limit = FUEL_K * ((r.max(c) + 5) as f64).powi(3);
    scalar::set_fuel(if T::COUNTING { limit as u64 * 4 } else { u64::MAX });
    // a finite answer to an unanswerable question
    let bogus = |what: &'static str, finite: bool| -> Res {
        if finite {
            fail(format!("{}: finite answer", what), format!("{} of a matrix with non-finite entries is finite throughout", what))
        } else {
            Ok(())
        }
    };
    match op {
        0 => {
            cx.label("op/qr");
            match a.qr_into() {
                Ok(d) => {
                    let q = d.generate_q();
                    bogus("QR", all_finite(&q) & all_finite(&d.into_r()))?
                }
                Err(e) => refused(e)?,
            }
        }
        1 => {
            cx.label("op/bidiagonal");
            match a.bidiagonal() {
                Ok(d) => {
                    let f = all_finite(&d.generate_u()) & all_finite(&d.generate_vt());
                    bogus("bidiagonal decomposition", f & all_finite(&d.into_b()))?
                }
                Err(e) => refused(e)?,
            }
        }
        2 => {
            cx.label("op/tridiagonal");
            match a.sym_tridiagonal() {
                Ok(d) => {
                    let f = all_finite(&d.generate_q());
                    bogus("tridiagonal decomposition", f & all_finite(&d.into_tridiag_matrix()))?
                }
                Err(e) => refused(e)?,
            }
        }
        3 => {
            cx.label("op/eigh");
            match a.eigh_into() {
                Ok((w, v)) => bogus("eigendecomposition", all_finite(&w) & all_finite(&v))?,
                Err(e) => refused(e)?,
            }
        }
        4 => {
            cx.label("op/eigvalsh");
            match a.eigvalsh_into() {
                Ok(w) => bogus("eigenvalues", all_finite(&w))?,
                Err(e) => refused(e)?,
            }
        }
        5 => {
            cx.label("op/svd");
            let (cu, cv) = (s.chance(1, 2), s.chance(1, 2));
            match a.svd_into(cu, cv) {
                Ok((u, sv, vt)) => {
                    ensure!(u.is_some() == cu && vt.is_some() == cv, "requested factors", "asked {} {}, got {} {}", cu, cv, u.is_some(), vt.is_some());
                    let f = all_finite(&sv) & u.map_or(true, |u| all_finite(&u)) & vt.map_or(true, |v| all_finite(&v));
                    bogus("SVD", f)?
                }
                Err(e) => refused(e)?,
            }
        }
        6 => {
            cx.label("op/cholesky");
            let l = if s.chance(1, 2) { a.cholesky() } else { a.clone().cholesky_into() };
            match l {
                Ok(l) => {
                    ensure!(!any_nan, "cholesky of NaN", "NaN matrix accepted as positive definite");
                    bogus("Cholesky factor", all_finite(&l))?
                }
                Err(e) => refused(e)?,
            }
        }
        7 => {
            cx.label("op/least squares");
             
            let b: Array2<T> = lay(&dense(s, r, 2).round::<T>(), 0);
            // x/inf is a legitimate 0, so only NaNs must show up
            match a.qr_into() {
                Ok(q) => match q.solve_into(b) {
                    Ok(x) => bogus("least-squares solution", any_nan && all_finite(&x))?,
                    Err(e) => refused(e)?,
                },
                Err(e) => refused(e)?,
            }
        }
        8 => {
            cx.label("op/SPD solve");
            let b: Array2<T> = lay(&dense(s, r, 2).round::<T>(), 0);
            match a.solvec_into(b) {
                Ok(x) => {
                    ensure!(!any_nan, "solvec of NaN", "NaN matrix accepted as positive definite");
                    let _ = x;
                }
                Err(e) => refused(e)?,
            }
        }
        9 => {
            cx.label("op/inverse");
            match a.qr_into().and_then(|d| d.inverse()) {
                Ok(x) => bogus("inverse", any_nan && all_finite(&x))?,
                Err(e) => refused(e)?,
            }
        }
        10 => {
            cx.label("op/SPD inverse");
            match a.invc() {
                Ok(x) => {
                    let lower_nan = (0..r).any(|i| (0..=i).any(|j| m.get(i, j).is_nan()));
                    ensure!(!lower_nan, "invc of NaN", "NaN matrix accepted as positive definite");
                    let _ = x;
                }
                Err(e) => refused(e)?,
            }
        }
        11 => {
            cx.label("op/triangular solve");
            let uplo = if s.chance(1, 2) { UPLO::Upper } else { UPLO::Lower };
            let upper = matches!(uplo, UPLO::Upper);
            // only what the routine is to read decides
            // (an infinite pivot may make a coefficient 0, whose column need not be touched)
            let read_nan = !m.d.iter().any(|x| x.is_infinite()) && (0..r).any(|i| (0..r).any(|j| (i == j || (j > i) == upper) && m.get(i, j).is_nan()));
            let b: Array2<T> = lay(&dense(s, r, 2).round::<T>(), 0);
            match a.solve_triangular_into(b, uplo) {
                Ok(x) => bogus("triangular solution", read_nan && all_finite(&x))?,
                Err(e) => refused(e)?,
            }
        }
        _ => {
            cx.label("op/norms");
            let (l1, l2, lm) = (a.norm_l1().f(), a.norm_l2().f(), a.norm_max().f());
            ensure!(!l1.is_finite() && !l2.is_finite(), "norm: finite answer", "norms {} {} of a non-finite array", l1, l2);
            // the maximum may or may not see NaNs
            ensure!(any_nan || !lm.is_finite(), "norm: finite answer", "maximum norm {} of an array with infinities", lm);
        }
    }
    if T::COUNTING {
        let used = scalar::fuel_used() as f64;
        cx.within("operations", used, limit, || format!("{} operations for {}x{}", used, r, c))?;
    }
    Ok(())
}

/// One right-hand side or column is not finite: the others must not notice.
fn column<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let op = s.u(7);
    let n = s.weighted(&[3, 2, 1]);
    let n = [s.range(1, 4), s.range(5, 12), s.range(13, 40)][n];
    let r = if op == 1 { n + s.range(0, 5) } else { n };
    let k = s.range(1, 5);
    let bad = s.u(k);
    // a well-conditioned matrix: a dominant diagonal
    let mut a = fill(s, r, n, 3).map(|x| x * 4.0 / (n as f64 + 1.0));
    for i in 0..n {
        let x = a.get(i, i);
        a.set(i, i, x + 6.0 * if s.chance(1, 3) && !matches!(op, 3 | 4) { -1.0 } else { 1.0 });
    }
    if matches!(op, 3 | 4) {
        a = a.add(&a.t());
    }
    let upper = s.chance(1, 2);
    let uplo = if upper { UPLO::Upper } else { UPLO::Lower };
    if op == 5 {
        for i in 0..n {
            for j in 0..n {
                if (upper && j < i) || (!upper && j > i) {
                    a.set(i, j, 0.0);
                }
            }
        }
    }
    let a = a.round::<T>();
    let clean = dense(s, r, k).round::<T>();
    let mut b = clean.clone();
    let mut col = b.cols(bad, bad + 1);
    spoil::<T>(s, cx, &mut col, false, false);
    for i in 0..r {
        b.set(i, bad, col.get(i, 0));
    }
    cx.label_if(k > 1, "clean columns beside");
    if k > 1 {
        cx.interesting();
    }
    cx.note(|| format!("{} column op {} A {:?} B {:?}", T::NAME, op, a, b));
    let (la, lb) = (any_layout(s), any_layout(s));
    let aa = || lay::<T>(&a, la);
    let axis: Vec<f64> = {
        let v: Vec<f64> = (0..r).map(|i| clean.get(i, 0) + if i == 0 { 3.0 } else { 0.0 }).collect();
        let nrm = v.iter().map(|x| x * x).sum::<f64>().sqrt();
        v.iter().map(|x| T::of(x / nrm).f()).collect()
    };
    let run = |b: &M| -> linfa_linalg::Result<Array2<T>> {
        let b: Array2<T> = lay(b, lb);
        match op {
            0 => aa().qr_into()?.solve_into(b),
            1 => aa().least_squares_into(b),
            2 => aa().qr_into()?.solve_tr_into(b),
            3 => aa().solvec_into(b),
            4 => {
                // two-step: factor once, then two triangular solves
                let l = aa().cholesky_into()?;
                let y = l.solve_triangular_into(b, UPLO::Lower)?;
                l.t().solve_triangular_into(y, UPLO::Upper)
            }
            5 => aa().solve_triangular_into(b, uplo),
            _ => {
                let mut b = b;
                let ax = Array1::from_iter(axis.iter().map(|&x| T::of(x)));
                Reflection::new(ax, T::of(0.25)).reflect_cols(&mut b);
                Ok(b)
            }
        }
    };
    cx.label(["column/qr solve", "column/least squares", "column/qr solve_tr", "column/solvec", "column/two steps", "column/triangular", "column/reflection"][op]);
    let (x, y) = match (run(&b), run(&clean)) {
        (Ok(x), Ok(y)) => (to_m(&x), to_m(&y)),
        (x, y) => return fail("column: error", format!("{:?} / {:?}", x.err(), y.err())),
    };
    ensure!(x.dim() == y.dim(), "column: shape", "{:?} {:?}", x.dim(), y.dim());
    for j in 0..k {
        if j == bad {
            ensure!(x.col(j).iter().any(|v| !v.is_finite()), "column: finite answer", "column {} has non-finite right-hand side {:?} and finite answer {:?}", j, b.col(j), x.col(j));
            continue;
        }
        let scale = y.cols(j, j + 1).max_abs().max(1.0);
        for i in 0..x.r {
            let (p, q) = (x.get(i, j), y.get(i, j));
            ensure!(p.is_finite(), "column: spread", "column {} is {:?}, only column {} is bad", j, x.col(j), bad);
            cx.within("column", (p - q).abs(), 1e4 * T::EPS * scale, || format!("entry ({}, {}) is {:e}, {:e} without the bad column {}", i, j, p, q, bad))?;
        }
    }
    let _ = (aa().norm_max(), dot(&axis, &axis));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P29",
        run: p29,
        quick: 2_400_000,
        thorough: 24_000_000,
        rule: "random matrices of every generator class with one to many NaNs or infinities, given to a random dense routine over operation-counting and plain floats; or blocks of right-hand sides one of which is not finite; non-trivial: size >= 2, respectively at least one clean column beside the bad one",
        pinned: &[],
        assumptions: &["work is bounded by FUEL_K * (max dimension + 5)^3 counted floating-point operations", "any documented error but a shape error is accepted for a non-finite matrix"],
    }]
}
