//! P31: shared and copy-on-write storage.
//!
//! `ArcArray` shares its data with its clones until one of them is written to, and `CowArray` borrows until it is
//! written to. A routine that takes such an array by value or by unique reference may only ever change its own copy.
//! bin/check.sh runs this with the checked and with the unchecked build of the library.
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::props_dense::*;
use crate::scalar::*;
use crate::{by_type, ensure};
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::norm::Norm;
use linfa_linalg::qr::*;
use linfa_linalg::reflection::Reflection;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::*;
use ndarray::prelude::*;
use ndarray::{CowArray, Data, DataMut, RawDataClone};

/// What a routine returned: matrices, or the text of its error.
type Outcome = Result<Vec<M>, String>;

const MODES: usize = 6;
/// The part of `p` that holds an r x c content in arrangement `mode` (see `parent`).
fn carve<S: Data>(p: ArrayBase<S, Ix2>, mode: usize, r: usize, c: usize) -> ArrayBase<S, Ix2> {
    let (r, c) = (r as isize, c as isize);
    match mode {
        0 => p,
        1 => p.reversed_axes(),
        2 => p.slice_move(s![1..1 + r, 2..2 + c]),
        3 => p.slice_move(s![..;-1, ..]),
        4 => p.slice_move(s![..;2, 1..;2]),
        _ => p.reversed_axes().slice_move(s![1..1 + r, ..;-1]),
    }
}
fn parent<T: Sc>(m: &M, mode: usize) -> Array2<T> {
    let (r, c) = m.dim();
    let (pr, pc) = match mode {
        0 | 3 => (r, c),
        1 => (c, r),
        2 => (r + 2, c + 3),
        4 => (2 * r, 2 * c + 1),
        _ => (c, r + 2),
    };
    let mut p = Array2::from_shape_fn((pr, pc), |(i, j)| T::of(-1000.0 - (i * pc + j) as f64));
    let mut w = carve(p.view_mut(), mode, r, c);
    // a stride of two may leave one more line than wanted at the end
    for i in 0..r {
        for j in 0..c {
            w[(i, j)] = T::of(m.get(i, j));
        }
    }
    p
}

const KINDS: usize = 7;
const KIND_NAMES: [&str; KINDS] = [
    "owned",
    "ArcArray, sole owner",
    "ArcArray, whole parent kept by another owner",
    "ArcArray, the same window kept by another owner",
    "CowArray, borrowed",
    "CowArray, owned",
    "ArcArray, two other owners, one of them already detached",
];

/// Calls `$f(array)` on the content in storage `$kind`, and checks that nobody else's data changed.
struct Cell<T> {
    p: Array2<T>,
    mode: usize,
    dim: (usize, usize),
    kind: usize,
}
impl<T: Sc> Cell<T> {
    fn new(m: &M, mode: usize, kind: usize) -> Self {
        Cell { p: parent(m, mode), mode, dim: m.dim(), kind }
    }
}
/// Continuation over any storage.
trait With<T: Sc, V> {
    fn go<S: DataMut<Elem = T> + RawDataClone>(self, a: ArrayBase<S, Ix2>) -> V;
}
fn same_bits<T: Sc, S: Data<Elem = T>, R: Data<Elem = T>>(a: &ArrayBase<S, Ix2>, b: &ArrayBase<R, Ix2>) -> bool {
    a.dim() == b.dim() && a.iter().zip(b.iter()).all(|(x, y)| x.f().to_bits() == y.f().to_bits())
}
fn with<T: Sc, V>(cell: &Cell<T>, what: &str, w: impl With<T, V>) -> Result<V, Fail> {
    let (mode, (r, c)) = (cell.mode, cell.dim);
    let cut = |p: ndarray::ArcArray2<T>| carve(p, mode, r, c);
    let bad = |who: &str| fail("another owner's data changed", format!("{}: {}: {}", what, KIND_NAMES[cell.kind], who));
    Ok(match cell.kind {
        0 => w.go(carve(cell.p.clone(), mode, r, c)),
        1 => w.go(cut(cell.p.clone().into_shared())),
        2 => {
            let p = cell.p.clone().into_shared();
            let v = w.go(cut(p.clone()));
            if !same_bits(&p, &cell.p) {
                return bad("the parent");
            }
            v
        }
        3 => {
            let a = cut(cell.p.clone().into_shared());
            let v = w.go(a.clone());
            if !same_bits(&a, &carve(cell.p.view(), mode, r, c)) {
                return bad("the clone");
            }
            v
        }
        4 => {
            let p = cell.p.clone();
            let v = w.go(CowArray::from(carve(p.view(), mode, r, c)));
            if !same_bits(&p, &cell.p) {
                return bad("the borrowed array");
            }
            v
        }
        5 => w.go(CowArray::from(carve(cell.p.clone(), mode, r, c))),
        _ => {
            let p = cell.p.clone().into_shared();
            let a = cut(p.clone());
            let mut other = p.clone();
            other.iter_mut().for_each(|x| *x = T::of(7.0));
            let v = w.go(a.clone());
            if !same_bits(&a, &carve(cell.p.view(), mode, r, c)) || !same_bits(&p, &cell.p) {
                return bad("a clone");
            }
            if other.iter().any(|x| x.f() != 7.0) {
                return bad("a detached clone");
            }
            v
        }
    })
}

const OPS: usize = 27;
const OP_NAMES: [&str; OPS] = [
    "cholesky_inplace",
    "cholesky_inplace_dirty",
    "cholesky_into",
    "cholesky_into_dirty",
    "cholesky",
    "solvec_inplace",
    "solvec_into",
    "solvec",
    "invc_inplace",
    "invc",
    "triangular_inplace",
    "into_triangular",
    "solve_triangular_inplace",
    "solve_triangular_into",
    "solve_triangular",
    "qr",
    "qr solve_into",
    "qr solve_tr_into",
    "qr solve / solve_tr / inverse",
    "least_squares_into",
    "least_squares",
    "bidiagonal",
    "tridiagonal",
    "eigh",
    "svd",
    "reflect",
    "norms and is_triangular",
];
/// Does the routine take a second matrix?
fn binary(op: usize) -> bool {
    matches!(op, 5 | 6 | 7 | 12 | 13 | 14 | 16 | 17 | 18 | 19 | 20)
}
fn low(m: M) -> M {
    let mut m = m;
    for i in 0..m.r {
        for j in i + 1..m.c {
            m.set(i, j, 0.0);
        }
    }
    m
}
fn e2s<V>(r: linfa_linalg::Result<V>) -> Result<V, String> {
    r.map_err(|e| format!("{:?}", e))
}
fn n0(n: usize) -> usize {
    n.max(1) - 1
}
/// Equal up to rounding.
fn near<T: Sc, S: Data<Elem = T>, R: Data<Elem = T>>(a: &ArrayBase<S, Ix2>, b: &ArrayBase<R, Ix2>) -> bool {
    let (a, b) = (to_m(a), to_m(b));
    a.dim() == b.dim() && b.sub(&a).max_abs() <= 100.0 * u::<T>(a.r, a.c) * (1.0 + a.max_abs())
}

struct Unary {
    op: usize,
    flag: bool,
    axis: Vec<f64>,
}
impl<T: Sc> With<T, Result<Outcome, Fail>> for &Unary {
    fn go<S: DataMut<Elem = T> + RawDataClone>(self, mut a: ArrayBase<S, Ix2>) -> Result<Outcome, Fail> {
        let uplo = || if self.flag { UPLO::Upper } else { UPLO::Lower };
        let (r, c) = a.dim();
        // a routine that works by reference must leave the array itself alone as well
        let before = a.to_owned();
        macro_rules! untouched {
            ($a:expr) => {
                if !same_bits(&$a, &before) {
                    return fail("by-reference input changed", OP_NAMES[self.op]);
                }
            };
        }
        let run = || -> Result<Result<Vec<M>, String>, Fail> {
            macro_rules! t {
                ($e:expr) => {
                    match e2s($e) {
                        Ok(v) => v,
                        Err(e) => return Ok(Err(e)),
                    }
                };
            }
            Ok(Ok(match self.op {
                0 => vec![to_m(t!(a.cholesky_inplace()))],
                1 => vec![low(to_m(t!(a.cholesky_inplace_dirty())))],
                2 => vec![to_m(&t!(a.cholesky_into()))],
                3 => vec![low(to_m(&t!(a.cholesky_into_dirty())))],
                4 => {
                    let v = vec![to_m(&t!(a.cholesky())), low(to_m(&t!(a.cholesky_dirty())))];
                    untouched!(a);
                    v
                }
                8 => vec![to_m(&t!(a.invc_inplace()))],
                9 => {
                    let v = vec![to_m(&t!(a.invc()))];
                    untouched!(a);
                    v
                }
                10 => vec![to_m(t!(a.triangular_inplace(uplo())))],
                11 => vec![to_m(&t!(a.into_triangular(uplo())))],
                15 if self.flag => {
                    let (q, rr) = t!(a.qr()).into_decomp();
                    untouched!(a);
                    vec![to_m(&q), to_m(&rr)]
                }
                15 => {
                    // the decomposition shares its storage with its clones
                    let d = t!(a.qr_into());
                    let (d2, d3) = (d.clone(), d.clone());
                    let (q, rr) = d.into_decomp();
                    let r2 = d2.into_r();
                    let (q3, r3) = (d3.generate_q(), d3.into_r());
                    if !near(&rr, &r2) || !near(&rr, &r3) || !near(&q, &q3) {
                        return fail("clones of a decomposition disagree", "qr");
                    }
                    vec![to_m(&q), to_m(&rr)]
                }
                21 => {
                    let d = t!(a.bidiagonal());
                    let (d2, d3) = (d.clone(), d.clone());
                    let (u, vt, b) = (d.generate_u(), d.generate_vt(), d.into_b());
                    let dd = d2.into_diagonals().0;
                    let (u3, vt3, b3) = (d3.generate_u(), d3.generate_vt(), d3.into_b());
                    let bd = b.diag().to_owned();
                    if !near(&u, &u3) || !near(&vt, &vt3) || !near(&b, &b3) || !near(&bd.mapv(|x| x.abs()).insert_axis(Axis(0)), &dd.mapv(|x| x.abs()).insert_axis(Axis(0))) {
                        return fail("clones of a decomposition disagree", "bidiagonal");
                    }
                    vec![to_m(&u).mul(&to_m(&b)).mul(&to_m(&vt))]
                }
                22 => {
                    let d = t!(a.sym_tridiagonal());
                    let (d2, d3) = (d.clone(), d.clone());
                    let (q, tm) = (d.generate_q(), d.into_tridiag_matrix());
                    let (dd, of) = d2.into_diagonals();
                    let (q3, t3) = (d3.generate_q(), d3.into_tridiag_matrix());
                    let (mut td, mut to) = (tm.diag().to_owned(), Array1::zeros(n0(r)));
                    td.iter_mut().for_each(|x| *x = x.abs());
                    (1..r).for_each(|i| to[i - 1] = tm[(i, i - 1)].abs());
                    let row = |x: Array1<T>| x.mapv(|v| v.abs()).insert_axis(Axis(0));
                    if !near(&q, &q3) || !near(&tm, &t3) || !near(&row(td), &row(dd)) || !near(&row(to), &row(of)) {
                        return fail("clones of a decomposition disagree", "tridiagonal");
                    }
                    vec![to_m(&q).mul(&to_m(&tm)).mul(&to_m(&q).t())]
                }
                23 if self.flag => {
                    let w0 = t!(a.eigvalsh());
                    let (w, v) = t!(a.eigh());
                    untouched!(a);
                    vec![M { r: w.len(), c: 1, d: sorted(vecf(&w)) }, rebuild(&v, &w), M { r: w0.len(), c: 1, d: sorted(vecf(&w0)) }]
                }
                23 => {
                    let w0 = t!(a.clone().eigvalsh_into());
                    let (w, v) = t!(a.eigh_into());
                    vec![M { r: w.len(), c: 1, d: sorted(vecf(&w)) }, rebuild(&v, &w), M { r: w0.len(), c: 1, d: sorted(vecf(&w0)) }]
                }
                24 => {
                    let (u, sv, vt) = if self.flag {
                        let x = t!(a.svd(true, true));
                        untouched!(a);
                        x
                    } else {
                        t!(a.svd_into(true, true))
                    };
                    let (u, vt) = (to_m(&u.unwrap()), to_m(&vt.unwrap()));
                    let s = vecf(&sv);
                    vec![M { r: s.len(), c: 1, d: sorted(s.clone()) }, u.mul(&M::diag(&s)).mul(&vt)]
                }
                25 => {
                    let ax = Array1::from(self.axis.iter().map(|x| T::of(*x)).collect::<Vec<_>>());
                    let k = if self.flag { r } else { c };
                    // the axis may be stored in a shared array, too
                    let kept = ax.into_shared();
                    let refl = Reflection::new(kept.slice(s![..k]), T::of(0.5));
                    if self.flag {
                        refl.reflect_cols(&mut a);
                    } else {
                        refl.reflect_rows(&mut a);
                    }
                    vec![to_m(&a)]
                }
                _ => {
                    let v = vec![a.norm_l1().f(), a.norm_l2().f(), a.norm_max().f(), a.is_triangular(uplo()) as u8 as f64];
                    untouched!(a);
                    vec![M { r: 4, c: 1, d: v }]
                }
            }))
        };
        run()
    }
}
fn rebuild<T: Sc>(v: &Array2<T>, w: &Array1<T>) -> M {
    let v = to_m(v);
    v.mul(&M::diag(&vecf(w))).mul(&v.t())
}

/// The second argument's storage is chosen inside the first's continuation.
struct Binary<'a, T> {
    op: usize,
    flag: bool,
    b: &'a Cell<T>,
    /// the right-hand side is another owner of the matrix's own data
    alias: bool,
}
struct BinaryIn<'a, T, S: DataMut<Elem = T> + RawDataClone> {
    op: usize,
    flag: bool,
    a: &'a mut Option<ArrayBase<S, Ix2>>,
}
impl<T: Sc> With<T, Result<Outcome, Fail>> for &Binary<'_, T> {
    fn go<S: DataMut<Elem = T> + RawDataClone>(self, a: ArrayBase<S, Ix2>) -> Result<Outcome, Fail> {
        if self.alias {
            // for owned storage the clone is a plain copy
            let b = a.clone();
            let mut a = Some(a);
            return BinaryIn { op: self.op, flag: self.flag, a: &mut a }.go(b);
        }
        let mut a = Some(a);
        with(self.b, OP_NAMES[self.op], BinaryIn { op: self.op, flag: self.flag, a: &mut a })?
    }
}
impl<T: Sc, Q: DataMut<Elem = T> + RawDataClone> With<T, Result<Outcome, Fail>> for BinaryIn<'_, T, Q> {
    fn go<S: DataMut<Elem = T> + RawDataClone>(self, mut b: ArrayBase<S, Ix2>) -> Result<Outcome, Fail> {
        let uplo = || if self.flag { UPLO::Upper } else { UPLO::Lower };
        let mut a = self.a.take().unwrap();
        let (a0, b0) = (a.to_owned(), b.to_owned());
        let name = OP_NAMES[self.op];
        macro_rules! t {
            ($e:expr) => {
                match e2s($e) {
                    Ok(v) => v,
                    Err(e) => return Ok(Err(e)),
                }
            };
        }
        macro_rules! untouched {
            ($x:expr, $x0:expr, $which:expr) => {
                if !same_bits(&$x, &$x0) {
                    return fail("by-reference input changed", format!("{}: {}", name, $which));
                }
            };
        }
        Ok(Ok(match self.op {
            5 => vec![to_m(t!(a.solvec_inplace(&mut b)))],
            6 => vec![to_m(&t!(a.solvec_into(b)))],
            7 => {
                let v = vec![to_m(&t!(a.solvec(&b)))];
                untouched!(b, b0, "right-hand side");
                v
            }
            12 => {
                let v = vec![to_m(t!(a.solve_triangular_inplace(&mut b, uplo())))];
                untouched!(a, a0, "matrix");
                v
            }
            13 => {
                let v = vec![to_m(&t!(a.solve_triangular_into(b, uplo())))];
                untouched!(a, a0, "matrix");
                v
            }
            14 => {
                let v = vec![to_m(&t!(a.solve_triangular(&b, uplo())))];
                untouched!(a, a0, "matrix");
                untouched!(b, b0, "right-hand side");
                v
            }
            16 => vec![to_m(&t!(t!(a.qr_into()).solve_into(b)))],
            17 => vec![to_m(&t!(t!(a.qr_into()).solve_tr_into(b)))],
            18 => {
                let d = t!(a.qr_into());
                let mut v = vec![to_m(&t!(d.solve(&b)))];
                untouched!(b, b0, "right-hand side");
                if a0.is_square() {
                    v.push(to_m(&t!(d.solve_tr(&b))));
                    v.push(to_m(&t!(d.inverse())));
                    untouched!(b, b0, "right-hand side");
                    // the queries must not have used up the decomposition
                    v.push(to_m(&t!(d.solve(&b))));
                }
                v
            }
            19 => vec![to_m(&t!(a.least_squares_into(b)))],
            _ => {
                let v = vec![to_m(&t!(a.least_squares(&b)))];
                untouched!(b, b0, "right-hand side");
                v
            }
        }))
    }
}

fn p31(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p31_t)
}
fn p31_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let op = s.u(OPS);
    let n = s.weighted(&[1, 3, 4, 4, 3, 2, 1]).max(1) + if s.chance(1, 20) { 12 } else { 0 };
    let kb = s.range(1, 4);
    let flag = s.chance(1, 2);
    let (ka, kk) = (s.u(KINDS), s.u(KINDS));
    let (ma, mb) = (s.u(MODES), s.u(MODES));
    // dominant diagonal: condition number of order one whatever the routine
    let (r, c) = match op {
        10 | 11 | 15 | 16 | 18 | 24 | 21 | 25 | 19 | 20 if s.chance(1, 2) => {
            let x = n + s.range(1, 4);
            if matches!(op, 21 | 24 | 25 | 19 | 20) && s.chance(1, 2) {
                (n, x)
            } else if op == 10 || op == 11 {
                (n, n)
            } else {
                (x, n)
            }
        }
        _ => (n, n),
    };
    let mut a = plain(s, r, c);
    let symmetric = matches!(op, 0..=9 | 22 | 23);
    if symmetric {
        for i in 0..n {
            for j in 0..i {
                let x = a.get(i, j);
                a.set(j, i, x);
            }
        }
    }
    let big = (0..r.max(c)).map(|i| (0..r.max(c)).map(|j| if i < r && j < c { a.get(i, j).abs() } else { 0.0 } + if i < c && j < r { a.get(j, i).abs() } else { 0.0 }).sum::<f64>()).fold(1.0, f64::max);
    for i in 0..r.min(c) {
        // distinct diagonal entries keep the eigenvalues and singular values apart
        a.set(i, i, big * (2.0 + i as f64 / r.min(c) as f64));
    }
    let spoiled = s.chance(1, 8);
    if spoiled && matches!(op, 0..=9) {
        // not positive definite, found out late: the routine must still not have touched the other owners
        a.set(n - 1, n - 1, -big);
    }
    let a = a.round::<T>();
    let rows = if matches!(op, 17) { c } else { r };
    let mut b = plain(s, if spoiled && binary(op) { rows + 1 } else { rows }, kb).round::<T>();
    let alias = binary(op) && r == c && !spoiled && s.chance(1, 6);
    if alias {
        b = a.clone();
    }
    let axis = unit(s, r.max(c), if flag { r } else { c });
    cx.label(OP_NAMES[op]);
    cx.label(KIND_NAMES[ka]);
    cx.label_if(binary(op) && !alias, "second operand in chosen storage");
    cx.label_if(alias, "operands share their data");
    let detail = format!("{} {}{}: A {:?} in mode {} as {}", T::NAME, OP_NAMES[op], if flag { " (variant)" } else { "" }, a, ma, KIND_NAMES[ka]);
    cx.note(|| detail.clone());
    if binary(op) {
        cx.note(|| format!("B {:?} in mode {} as {}{}", b, mb, KIND_NAMES[kk], if alias { ", sharing A's data" } else { "" }));
    }
    if !matches!(ka, 0 | 1 | 5) || (binary(op) && !matches!(kk, 0 | 1 | 5)) {
        cx.interesting();
    }
    let run = |ka: usize, ma: usize, kb: usize, mb: usize| -> Result<Outcome, Fail> {
        let ca = Cell::<T>::new(&a, ma, ka);
        if binary(op) {
            let cb = Cell::<T>::new(&b, mb, kb);
            with(&ca, OP_NAMES[op], &Binary { op, flag, b: &cb, alias })?
        } else {
            with(&ca, OP_NAMES[op], &Unary { op, flag, axis: axis.clone() })?
        }
    };
    let want = run(0, 0, 0, 0)?;
    let got = run(ka, ma, kk, mb)?;
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            cx.label("succeeded");
            ensure!(w.len() == g.len(), "storage: results", "{} and {}", w.len(), g.len());
            for (k, (x, y)) in w.iter().zip(g).enumerate() {
                ensure!(x.dim() == y.dim(), "storage: shape", "{} result {}: {:?}, in owned storage {:?}", OP_NAMES[op], k, y.dim(), x.dim());
                cx.within("storage: same result", y.sub(x).max_abs(), 100.0 * u::<T>(r, c) * (1.0 + x.max_abs()), || format!("{} result {} with {}: {:?}, in owned storage {:?}", OP_NAMES[op], k, KIND_NAMES[ka], y, x))?;
            }
        }
        (Err(x), Err(y)) => {
            cx.label("refused");
            ensure!(x == y, "storage: error", "{}: {} with {}, {} in owned storage", OP_NAMES[op], y, KIND_NAMES[ka], x);
        }
        _ => return fail("storage: outcome", format!("{}: {:?} with {}, {:?} in owned storage", OP_NAMES[op], got, KIND_NAMES[ka], want)),
    }
    Ok(())
}
/// A vector whose first k entries have length one.
fn unit(s: &mut Source, n: usize, k: usize) -> Vec<f64> {
    let mut v: Vec<f64> = (0..n).map(|_| s.range(0, 8) as f64 - 3.5).collect();
    let l = v[..k].iter().map(|x| x * x).sum::<f64>().sqrt();
    v.iter_mut().for_each(|x| *x /= l);
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P31",
        run: p31,
        quick: 3_000_000,
        thorough: 60_000_000,
        rule: "random routine (27 groups) on well-conditioned or refused arguments, each argument in one of 7 ownership kinds x 6 arrangements, run by the checked and by the unchecked build; non-trivial: some argument's data belongs to or is shared with somebody else",
        pinned: &[],
        assumptions: &["results in different arrangements may differ by rounding"],
    }]
}
