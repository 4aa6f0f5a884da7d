//! P07, P14-P19, P26, P28: triangles, termination, sorting, shapes, layouts, reflections, norms,
//! histories, rescaling.
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::props_dense::*;
use crate::scalar::{self, Sc, C32, C64};
use crate::{by_type, ensure};
use linfa_linalg::{
    bidiagonal::*, cholesky::*, eigh::*, norm::Norm, qr::*, reflection::Reflection, svd::*, triangular::*,
    tridiagonal::*, LinalgError, Order,
};
use ndarray::{
    s, Array1, Array2, ArrayBase, ArrayD, ArrayView2, ArrayViewMut2, Axis, Data, Dimension, Ix2, IxDyn, OwnedRepr, ShapeBuilder, Slice,
};
use num_traits::Zero;
use std::fmt::Debug;

// ---------------------------------------------------------------- windows of a larger array

pub const WINDOWS: usize = 6;
pub fn parent_shape(kind: usize, r: usize, c: usize) -> ((usize, usize), bool) {
    match kind {
        0 => ((r + 3, c + 2), false),
        1 => ((2 * r + 2, 3 * c + 2), false),
        2 => ((2 * r + 2, 2 * c + 2), false),
        3 => ((r + 2, c + 3), true),
        4 => ((c + 2, r + 3), false),
        _ => ((2 * c + 2, r + 3), false),
    }
}
/// r x c mutable window of `p` (made with `parent_shape`).
pub fn window<X>(p: &mut Array2<X>, kind: usize, r: usize, c: usize) -> ArrayViewMut2<'_, X> {
    match kind {
        0 => p.slice_mut(s![2..2 + r, 1..1 + c]),
        1 => p.slice_mut(s![1..1 + 2 * r;2, 1..1 + 3 * c;3]),
        2 => p.slice_mut(s![1..1 + 2 * r;-2, 1..1 + 2 * c;-2]),
        3 => p.slice_mut(s![1..1 + r, 2..2 + c]),
        4 => p.slice_mut(s![1..1 + c, 2..2 + r]).reversed_axes(),
        _ => p.slice_mut(s![1..1 + 2 * c;-2, 2..2 + r]).reversed_axes(),
    }
}
/// A larger array with recognisable contents, in which one window is worked on.
pub struct Frame<X> {
    pub p: Array2<X>,
    before: Array2<X>,
    mask: Array2<bool>,
    kind: usize,
    r: usize,
    c: usize,
}
impl<X: Clone> Frame<X> {
    pub fn new(kind: usize, r: usize, c: usize, canary: impl Fn(usize) -> X, content: impl Fn(usize, usize) -> X) -> Self {
        let (d, f) = parent_shape(kind, r, c);
        let mut p: Array2<X> = Array2::from_shape_fn(d.set_f(f), |(i, j)| canary(i * d.1 + j));
        let mut mask = Array2::from_elem(d.set_f(f), false);
        window(&mut mask, kind, r, c).fill(true);
        {
            let mut w = window(&mut p, kind, r, c);
            assert_eq!(w.dim(), (r, c));
            for i in 0..r {
                for j in 0..c {
                    w[(i, j)] = content(i, j);
                }
            }
        }
        let before = p.clone();
        Frame { p, before, mask, kind, r, c }
    }
    pub fn view(&mut self) -> ArrayViewMut2<'_, X> {
        window(&mut self.p, self.kind, self.r, self.c)
    }
    /// First element outside the window that differs from what it was.
    pub fn touched(&self, same: impl Fn(&X, &X) -> bool) -> Option<(usize, usize)> {
        for (i, ((a, b), m)) in self.p.iter().zip(self.before.iter()).zip(self.mask.iter()).enumerate() {
            if !*m && !same(a, b) {
                return Some((i / self.p.ncols(), i % self.p.ncols()));
            }
        }
        None
    }
    pub fn changed_inside(&self, same: impl Fn(&X, &X) -> bool) -> bool {
        self.p.iter().zip(self.before.iter()).zip(self.mask.iter()).any(|((a, b), m)| *m && !same(a, b))
    }
}
pub fn frame<T: Sc>(s: &mut Source, m: &M) -> Frame<T> {
    let kind = s.u(WINDOWS);
    Frame::new(kind, m.r, m.c, |k| T::of(1e4 + k as f64), |i, j| T::of(m.get(i, j)))
}
fn same<T: Sc>(a: &T, b: &T) -> bool {
    a.bits() == b.bits()
}
fn outside<T: Sc>(f: &Frame<T>, what: &'static str) -> Res {
    if let Some(p) = f.touched(same) {
        return fail("outside-the-view", format!("{}: element {:?} outside the view changed", what, p));
    }
    Ok(())
}

// ---------------------------------------------------------------- P07

trait El: Zero + Clone + Copy + PartialEq + Debug + 'static {
    const NAME: &'static str;
    fn nonzero(s: &mut Source) -> Self;
    fn zeroish(s: &mut Source) -> Self;
    fn word(self) -> u64;
}
macro_rules! el_int {
    ($t:ident) => {
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            fn nonzero(s: &mut Source) -> Self {
                let v = s.pick(&[1, 2, 3, $t::MAX, $t::MIN, 7]);
                if v == 0 {
                    5
                } else {
                    v
                }
            }
            fn zeroish(_: &mut Source) -> Self {
                0
            }
            fn word(self) -> u64 {
                self as u64
            }
        }
    };
}
el_int!(i32);
el_int!(u8);
el_int!(u64);
macro_rules! el_float {
    ($t:ident) => {
        impl El for $t {
            const NAME: &'static str = stringify!($t);
            fn nonzero(s: &mut Source) -> Self {
                s.pick(&[1.0, -2.5, $t::NAN, $t::INFINITY, $t::NEG_INFINITY, $t::MIN_POSITIVE, $t::from_bits(1), -$t::from_bits(1), $t::MAX, 1e-30])
            }
            fn zeroish(s: &mut Source) -> Self {
                s.pick(&[0.0, -0.0])
            }
            fn word(self) -> u64 {
                self.to_bits() as u64
            }
        }
    };
}
el_float!(f64);
el_float!(f32);

fn p07(s: &mut Source, cx: &mut Cx) -> Res {
    match s.u(5) {
        0 => p07_t::<f64>(s, cx),
        1 => p07_t::<i32>(s, cx),
        2 => p07_t::<f32>(s, cx),
        3 => p07_t::<u8>(s, cx),
        _ => p07_t::<u64>(s, cx),
    }
}
fn p07_t<E: El>(s: &mut Source, cx: &mut Cx) -> Res {
    let upper = s.chance(1, 2);
    let uplo = if upper { UPLO::Upper } else { UPLO::Lower };
    let other = if upper { UPLO::Lower } else { UPLO::Upper };
    let square = s.chance(4, 5);
    let r = match s.weighted(&[6, 4, 1]) {
        0 => s.range(0, 5),
        1 => s.range(6, 16),
        _ => s.range(17, 70),
    };
    let c = if square { r } else { s.range(0, 9) };
    let kept = |i: usize, j: usize| if upper { i <= j } else { i >= j };
    // fill: mostly non-zero, or clean with at most one offending element
    let mode = s.u(3);
    let mut vals: Vec<E> = Vec::with_capacity(r * c);
    let big = r * c > 100;
    let (za, nz) = (E::zeroish(s), E::nonzero(s));
    for i in 0..r {
        for j in 0..c {
            let v = match mode {
                0 => {
                    if big {
                        if (i * 31 + j * 17) % 5 == 0 {
                            za
                        } else {
                            nz
                        }
                    } else if s.chance(1, 5) {
                        E::zeroish(s)
                    } else {
                        E::nonzero(s)
                    }
                }
                _ => {
                    if !kept(i, j) {
                        if big {
                            za
                        } else {
                            E::zeroish(s)
                        }
                    } else if (i + 2 * j) % 3 == 0 {
                        za
                    } else {
                        nz
                    }
                }
            };
            vals.push(v);
        }
    }
    if mode == 2 && r * c > 0 {
        let (i, j) = (s.u(r), s.u(c));
        vals[i * c + j] = E::nonzero(s);
        cx.label("one element placed");
    }
    let kind = s.u(WINDOWS + 1);
    cx.note(|| format!("{} {}x{} {:?} window {} {:?}", E::NAME, r, c, uplo, kind, vals.iter().take(20).collect::<Vec<_>>()));
    cx.label(if r == c { "square" } else { "not square" });
    if r >= 2 && c >= 2 {
        cx.interesting();
    }
    let want = r == c && (0..r).all(|i| (0..c).all(|j| kept(i, j) || vals[i * c + j] == E::zero()));
    cx.label(if want { "triangular" } else { "not triangular" });
    let eqw = |a: &E, b: &E| a.word() == b.word();
    let mut fr: Frame<E> = Frame::new(kind % WINDOWS, r, c, |k| if k % 2 == 0 { nz } else { E::zero() }, |i, j| vals[i * c + j]);
    // query on a view and on an owned copy
    let got = if kind == WINDOWS { fr.view().to_owned().is_triangular(uplo) } else { fr.view().is_triangular(uplo) };
    ensure!(got == want, "is-triangular", "is_triangular({:?}) = {} for {}x{}, expected {}", uplo, got, r, c, want);
    ensure!(!fr.changed_inside(eqw), "query-changed-input", "is_triangular changed its input");
    let by_value = s.chance(1, 2);
    let owned: Array2<E> = fr.view().to_owned();
    let out: Result<Array2<E>, LinalgError> = if by_value {
        if s.chance(1, 2) {
            owned.clone().into_triangular(uplo)
        } else {
            fr.view().into_triangular(uplo).map(|v| v.to_owned())
        }
    } else {
        let mut v = fr.view();
        v.triangular_inplace(uplo).map(|v| v.to_owned())
    };
    if let Some(p) = fr.touched(eqw) {
        return fail("outside-the-view", format!("element {:?} outside the view changed", p));
    }
    let out = match out {
        Ok(o) => {
            ensure!(r == c, "not-square-accepted", "{}x{}", r, c);
            o
        }
        Err(LinalgError::NotSquare { rows, cols }) => {
            ensure!(r != c && rows == r && cols == c, "wrong-error", "NotSquare {{ {}, {} }} for {}x{}", rows, cols, r, c);
            return Ok(());
        }
        Err(e) => return fail("wrong-error", format!("{:?} for {}x{}", e, r, c)),
    };
    for i in 0..r {
        for j in 0..c {
            let (o, v) = (out[(i, j)], vals[i * c + j]);
            if kept(i, j) {
                ensure!(o.word() == v.word(), "kept-element-changed", "({}, {}): {:?} became {:?}", i, j, v, o);
            } else {
                ensure!(o.word() == E::zero().word(), "not-zeroed", "({}, {}) is {:?} after masking {:?}", i, j, o, uplo);
            }
        }
    }
    if !by_value {
        let w = fr.view();
        ensure!((0..r).all(|i| (0..c).all(|j| eqw(&w[(i, j)], &out[(i, j)]))), "inplace-return", "returned reference differs from the array");
    }
    ensure!(out.is_triangular(uplo), "masked-not-triangular", "is_triangular is false after masking");
    let again = ok(out.clone().into_triangular(uplo), "into_triangular")?;
    ensure!(again.iter().zip(out.iter()).all(|(a, b)| eqw(a, b)), "not-idempotent", "masking twice differs");
    let diag = ok(again.into_triangular(other), "into_triangular")?;
    for i in 0..r {
        for j in 0..c {
            let w = if i == j { vals[i * c + j] } else { E::zero() };
            ensure!(eqw(&diag[(i, j)], &w), "not-diagonal", "({}, {}) is {:?} after masking both ways", i, j, diag[(i, j)]);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P14

/// Arbitrary finite entries over the whole exponent range of T, with many special placements.
fn wild<T: Sc>(s: &mut Source, cx: &mut Cx, r: usize, c: usize, sym: bool) -> M {
    let n = r.max(c);
    let mode = s.weighted(&[4, 3, 3, 3, 2]);
    let lo = T::MINEXP - if T::IS32 { 23 } else { 52 };
    let hi = T::MAXEXP;
    let mut m = match mode {
        0 => {
            // exponents from a few random bands
            let k = s.range(1, 3);
            let bands: Vec<i32> = (0..k).map(|_| lo + s.u((hi - lo) as usize) as i32).collect();
            let spread = s.pick(&[1usize, 4, 20, 80]);
            let mut d = Draw::new(s, r * c);
            let v = (0..r * c)
                .map(|_| {
                    let b = bands[d.below(k as u64) as usize] + d.below(spread as u64) as i32;
                    let x = d.elem(3);
                    // two steps, so that the exponent may be below the normal range
                    x * ((b / 2) as f64).exp2() * ((b - b / 2) as f64).exp2()
                })
                .collect();
            cx.label("wild/bands");
            M { r, c, d: v }
        }
        1 => {
            // ordinary matrix at an extreme scale
            let a = if sym { symmetric(s, n).0 } else { general(s, r, c).0 };
            let a = M { r, c, d: (0..r * c).map(|k| a.get(k / c, k % c)).collect() };
            let e = norm_exp(&a);
            let t = lo + s.u((hi - lo) as usize) as i32;
            cx.label("wild/scaled");
            a.ldexp(e).ldexp(t)
        }
        2 => {
            cx.label("wild/ordinary");
            let a = if sym { symmetric(s, n).0 } else { general(s, r, c).0 };
            M { r, c, d: (0..r * c).map(|k| a.get(k / c, k % c)).collect() }
        }
        3 => {
            // ordinary matrix with a few entries, rows or columns multiplied by extreme factors
            let a = if sym { symmetric(s, n).0 } else { general(s, r, c).0 };
            let mut a = M { r, c, d: (0..r * c).map(|k| a.get(k / c, k % c)).collect() };
            for _ in 0..s.range(1, 4) {
                let t = lo + s.u((hi - lo - 20) as usize) as i32;
                let f = |x: f64| {
                    let y = x * ((t / 2) as f64).exp2() * ((t - t / 2) as f64).exp2();
                    if y.is_finite() {
                        y
                    } else {
                        1.0
                    }
                };
                match s.u(3) {
                    0 => {
                        let (i, j) = (s.u(r), s.u(c));
                        let x = a.get(i, j);
                        a.set(i, j, f(x));
                    }
                    1 => {
                        let i = s.u(r);
                        for j in 0..c {
                            let x = a.get(i, j);
                            a.set(i, j, f(x));
                        }
                    }
                    _ => {
                        let j = s.u(c);
                        for i in 0..r {
                            let x = a.get(i, j);
                            a.set(i, j, f(x));
                        }
                    }
                }
            }
            cx.label("wild/mixed");
            a
        }
        _ => {
            // a handful of special values only
            let q = T::QUANTUM;
            let vals = [0.0, 1.0, -1.0, q, -q, T::TINY, T::TINY * 0.5, T::EPS, 1.0 + T::EPS, 1.0 - T::EPS, (T::MAXEXP as f64 / 2.0).exp2(), (T::MINEXP as f64 / 2.0).exp2(), -0.0, q * 3.0];
            let mut d = Draw::new(s, r * c);
            let v = (0..r * c).map(|_| vals[d.below(vals.len() as u64) as usize]).collect();
            cx.label("wild/special-values");
            M { r, c, d: v }
        }
    };
    if s.chance(1, 3) {
        // keep a few diagonals only, sometimes with a zero main diagonal
        let (below, above, zero) = (s.u(2), s.u(3), s.chance(1, 3));
        for i in 0..r {
            for j in 0..c {
                if j + below < i || i + above < j || (zero && i == j) {
                    m.set(i, j, 0.0);
                }
            }
        }
        cx.label("wild/banded");
    }
    if sym {
        for i in 0..r {
            for j in 0..i {
                let x = m.get(j, i);
                m.set(i, j, x);
            }
        }
    }
    // stay away from overflow of exact results (norms, eigenvalues): cap the largest magnitude
    let cap = ((T::MAXEXP - 2) as f64 - ((4 * n.max(1)) as f64).log2()).exp2();
    m.d.iter_mut().filter(|x| !x.is_finite()).for_each(|x| *x = 1.0);
    let big = m.max_abs();
    if big > cap {
        let k = ilog2(big) - ilog2(cap) + 1;
        m = m.ldexp(-k);
    }
    let m = m.round::<T>();
    debug_assert!(m.finite());
    m
}
const FUEL_K: f64 = 400.0;

fn p14(s: &mut Source, cx: &mut Cx) -> Res {
    match s.weighted(&[3, 3, 1, 1]) {
        0 => p14_t::<C64>(s, cx),
        1 => p14_t::<C32>(s, cx),
        2 => p14_t::<f64>(s, cx),
        _ => p14_t::<f32>(s, cx),
    }
}
fn finite<T: Sc, S: Data<Elem = T>, D: Dimension>(what: &'static str, a: &ArrayBase<S, D>) -> Res {
    if let Some(x) = a.iter().find(|x| !x.f().is_finite()) {
        return fail(format!("{}: not finite", what), format!("{} contains {:?}", what, x));
    }
    Ok(())
}
fn p14_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let op = s.u(8);
    let square = matches!(op, 2 | 3 | 4 | 6);
    let (r, c) = if square {
        let n = size_s(s);
        (n, n)
    } else {
        let (a, b) = (size_s(s), size_s(s));
        if op == 0 || op == 7 {
            (a.max(b), a.min(b))
        } else {
            (a, b)
        }
    };
    let sym = square && s.chance(2, 3);
    if square {
        cx.label(if sym { "symmetric" } else { "not symmetric" });
    }
    let m = wild::<T>(s, cx, r, c, sym);
    cx.note(|| format!("{} op {} {:?}", T::NAME, op, m));
    if r.max(c) >= 2 && m.max_abs() > 0.0 {
        cx.interesting();
    }
    let a: Array2<T> = arr(s, &m);
    let limit = FUEL_K * ((r.max(c) + 5) as f64).powi(3);
    scalar::set_fuel(if T::COUNTING { limit as u64 * 4 } else { u64::MAX });
    match op {
        0 => {
            cx.label("op/qr");
            let d = ok(a.qr_into(), "qr_into")?;
            finite("Q", &d.generate_q())?;
            finite("R", &d.into_r())?;
        }
        1 => {
            cx.label("op/bidiagonal");
            let d = ok(a.bidiagonal(), "bidiagonal")?;
            finite("U", &d.generate_u())?;
            finite("Vt", &d.generate_vt())?;
            finite("B", &d.into_b())?;
        }
        2 => {
            cx.label("op/tridiagonal");
            let d = ok(a.sym_tridiagonal(), "sym_tridiagonal")?;
            finite("Q", &d.generate_q())?;
            finite("T", &d.into_tridiag_matrix())?;
        }
        3 => {
            cx.label("op/eigh");
            let (w, v) = ok(a.eigh_into(), "eigh_into")?;
            finite("eigenvalues", &w)?;
            finite("eigenvectors", &v)?;
            let (w2, v2) = (w, v).sort_eig_asc();
            finite("eigenvalues", &w2)?;
            finite("eigenvectors", &v2)?;
        }
        4 => {
            cx.label("op/eigvalsh");
            finite("eigenvalues", &ok(a.eigvalsh_into(), "eigvalsh_into")?)?;
        }
        5 => {
            cx.label("op/svd");
            let (cu, cv) = (s.chance(1, 2), s.chance(1, 2));
            let (u, sv, vt) = ok(a.svd_into(cu, cv), "svd_into")?;
            finite("singular values", &sv)?;
            if let Some(u) = u {
                finite("U", &u)?;
            }
            if let Some(vt) = vt {
                finite("Vt", &vt)?;
            }
        }
        6 => {
            cx.label("op/cholesky");
            match a.cholesky_into() {
                Ok(l) => finite("L", &l)?,
                Err(LinalgError::NotPositiveDefinite) => {}
                Err(e) => return fail("cholesky: unexpected error", format!("{:?}", e)),
            }
        }
        _ => {
            // solving may overflow legitimately; it must return without panicking
            cx.label("op/solve");
            let b: Array2<T> = lay(&M::eye(r), 0);
            match ok(a.qr_into(), "qr_into")?.solve_into(b) {
                Ok(_) | Err(LinalgError::NonInvertible) => {}
                Err(e) => return fail("solve: unexpected error", format!("{:?}", e)),
            }
        }
    }
    if T::COUNTING {
        let used = scalar::fuel_used() as f64;
        cx.within("operations", used, limit, || format!("{} operations for {}x{}", used, r, c))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P15

fn sort_values<T: Sc>(s: &mut Source, n: usize) -> Vec<T> {
    const SP: [f64; 12] = [0.0, -0.0, 1.0, -1.0, 2.0, 1.0, f64::INFINITY, f64::NEG_INFINITY, 1e-45, -1e-45, 3e38, 0.5];
    let mode = s.u(4);
    let mut d = Draw::new(s, n);
    (0..n)
        .map(|i| {
            T::of(match mode {
                0 => d.below(4) as f64,
                1 => SP[d.below(SP.len() as u64) as usize],
                2 => d.elem(3),
                _ => (n - i) as f64,
            })
        })
        .collect()
}
/// Any bit pattern, each element distinct, including NaN payloads, infinities and signed zeros.
fn tagged<T: Sc>(i: usize, j: usize, special: bool) -> T {
    let k = i * 1000 + j;
    if special {
        match k % 7 {
            0 => T::of(f64::NAN),
            1 => T::of(-0.0),
            2 => T::infinity(),
            _ => T::of(k as f64 + 0.5),
        }
    } else {
        T::of(k as f64 + 1.0)
    }
}
fn lay_fn<T: Sc>(k: usize, r: usize, c: usize, f: impl Fn(usize, usize) -> T) -> Array2<T> {
    let mut a: Array2<T> = lay(&M::zeros(r, c), k);
    for i in 0..r {
        for j in 0..c {
            a[(i, j)] = f(i, j);
        }
    }
    a
}
fn p15(s: &mut Source, cx: &mut Cx) -> Res {
    if s.chance(1, 3) {
        by_type!(s, cx, p15_real)
    } else {
        by_type!(s, cx, p15_t)
    }
}
/// Sorting what the decompositions return, whatever the layout of the matrix decomposed.
fn p15_real<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let order = if s.chance(1, 2) { Order::Largest } else { Order::Smallest };
    let (r, c) = dims(s);
    let form = s.u(6);
    let n = if form < 4 { r } else { r.min(c) };
    let m = if form < 4 { symmetric(s, r).0 } else { general(s, r, c).0 }.round::<T>();
    let l = any_layout(s);
    let mut fr: Frame<T> = frame(s, &m);
    let a: Array2<T> = lay(&m, l);
    cx.label(["of eigvalsh", "of eigvalsh_into a view", "of eigh", "of eigh_into a view", "of svd", "of svd_into a view"][form]);
    cx.note(|| format!("{} form {} {:?} A={:?} ({})", T::NAME, form, order, m, layout_name(l)));
    if n >= 2 {
        cx.interesting();
    }
    let col = |v: &Array2<T>, j: usize| v.column(j).iter().map(|x| x.bits()).collect::<Vec<_>>();
    let row = |v: &Array2<T>, j: usize| v.row(j).iter().map(|x| x.bits()).collect::<Vec<_>>();
    type Keys = Vec<(u64, Vec<u64>, Vec<u64>)>;
    let (values, mut before, mut after): (Vec<T>, Keys, Keys) = match form {
        0 | 1 => {
            let w = ok(if form == 0 { a.eigvalsh() } else { fr.view().eigvalsh_into() }, "eigvalsh")?;
            let o = w.clone().sort_eig(order);
            let k = |w: &Array1<T>| w.iter().map(|x| (x.bits(), vec![], vec![])).collect::<Keys>();
            (o.to_vec(), k(&w), k(&o))
        }
        2 | 3 => {
            let (w, v) = ok(if form == 2 { a.eigh() } else { fr.view().eigh_into() }, "eigh")?;
            let (o, p) = (w.clone(), v.clone()).sort_eig(order);
            let k = |w: &Array1<T>, v: &Array2<T>| (0..w.len()).map(|j| (w[j].bits(), col(v, j), vec![])).collect::<Keys>();
            (o.to_vec(), k(&w, &v), k(&o, &p))
        }
        _ => {
            let (hu, hv) = (s.chance(1, 2), s.chance(1, 2));
            let d = ok(if form == 4 { a.svd(hu, hv) } else { fr.view().svd_into(hu, hv) }, "svd")?;
            let e = d.clone().sort_svd(order);
            let k = |d: &(Option<Array2<T>>, Array1<T>, Option<Array2<T>>)| {
                (0..d.1.len()).map(|j| (d.1[j].bits(), d.0.as_ref().map_or(vec![], |u| col(u, j)), d.2.as_ref().map_or(vec![], |v| row(v, j)))).collect::<Keys>()
            };
            ensure!(e.0.is_some() == hu && e.2.is_some() == hv, "factors-appeared-or-vanished", "{} {}", e.0.is_some(), e.2.is_some());
            (e.1.to_vec(), k(&d), k(&e))
        }
    };
    ensure!(values.len() == n, "shape-changed", "{} values", values.len());
    ensure!(order_ok(&values, order), "not-sorted", "{:?}", values);
    before.sort();
    after.sort();
    ensure!(before == after, "pairs-changed", "the sorted decomposition is not a permutation of the decomposition: {:?}", values);
    Ok(())
}
fn order_ok<T: Sc>(v: &[T], order: Order) -> bool {
    v.windows(2).all(|w| match order {
        Order::Smallest => w[0] <= w[1],
        Order::Largest => w[0] >= w[1],
    })
}
fn p15_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let order = if s.chance(1, 2) { Order::Largest } else { Order::Smallest };
    let form = s.u(4);
    let n = match s.weighted(&[1, 6, 6, 2]) {
        0 => 0,
        1 => s.range(1, 5),
        2 => s.range(6, 20),
        _ => s.range(21, 90),
    };
    let vals: Vec<T> = sort_values(s, n);
    let special = s.chance(1, 3);
    // "explicit" calls the order-taking method, otherwise the asc/desc shorthands
    let explicit = s.chance(1, 2);
    let (lu, lv) = (any_layout(s), any_layout(s));
    let extra = s.pick(&[0usize, 0, 1, 3]);
    if n >= 2 {
        cx.interesting();
    }
    let ties = (0..n).any(|i| (0..i).any(|j| vals[i] == vals[j]));
    cx.label_if(ties, "ties");
    cx.note(|| format!("{} form {} {:?} values {:?}", T::NAME, form, order, vals.iter().take(24).collect::<Vec<_>>()));
    let inp = Array1::from(vals.clone());
    // a key is (value bits, tag identifying the vector)
    let multiset = |mut v: Vec<(u64, Vec<u64>)>| {
        v.sort();
        v
    };
    let bits = |x: T| if x.f().is_nan() { u64::MAX } else { x.bits() };
    match form {
        0 => {
            cx.label("values only");
            let out = match (explicit, order) {
                (true, _) => inp.sort_eig(order),
                (_, Order::Largest) => inp.sort_eig_desc(),
                _ => inp.sort_eig_asc(),
            };
            let o: Vec<T> = out.to_vec();
            ensure!(order_ok(&o, order), "not-sorted", "{:?}", o);
            let (a, b) = (multiset(o.iter().map(|x| (x.bits(), vec![])).collect()), multiset(vals.iter().map(|x| (x.bits(), vec![])).collect()));
            ensure!(a == b, "values-changed", "{:?} from {:?}", o, vals);
            let again = out.clone().sort_eig(order);
            ensure!(again.iter().zip(out.iter()).all(|(x, y)| x.bits() == y.bits()), "not-idempotent", "sorting twice differs");
        }
        1 => {
            cx.label("eigenpairs");
            let rows = n + extra; // decompositions are square; truncated ones have more rows than columns
            let v = lay_fn::<T>(lu, rows, n, |i, j| tagged(i, j, special));
            let keys = |w: &Array1<T>, v: &Array2<T>| (0..n).map(|j| (w[j].bits(), (0..rows).map(|i| bits(v[(i, j)])).collect())).collect::<Vec<(u64, Vec<u64>)>>();
            let before = keys(&inp, &v);
            let (w, v2) = match (explicit, order) {
                (true, _) => (inp, v).sort_eig(order),
                (_, Order::Largest) => (inp, v).sort_eig_desc(),
                _ => (inp, v).sort_eig_asc(),
            };
            ensure!(v2.dim() == (rows, n) && w.len() == n, "shape-changed", "{:?}", v2.dim());
            ensure!(order_ok(&w.to_vec(), order), "not-sorted", "{:?}", w);
            let after = keys(&w, &v2);
            ensure!(multiset(before) == multiset(after.clone()), "pairs-changed", "values and vectors are not a permutation of the pairs given: {:?}", w);
            let (w3, v3) = (w, v2).sort_eig(order);
            ensure!(keys(&w3, &v3) == after, "not-idempotent", "sorting twice differs");
        }
        _ => {
            let (hu, hv) = [(true, true), (true, false), (false, true), (false, false)][s.u(4)];
            cx.label(["svd u+vt", "svd u", "svd vt", "svd values"][(!hu) as usize * 2 + (!hv) as usize]);
            let (r, c) = if s.chance(1, 2) { (n + extra, n) } else { (n, n + extra) };
            let u = hu.then(|| lay_fn::<T>(lu, r, n, |i, j| tagged(i, j, special)));
            let vt = hv.then(|| lay_fn::<T>(lv, n, c, |i, j| tagged(j, i + 100, special)));
            let keys = |u: &Option<Array2<T>>, w: &Array1<T>, vt: &Option<Array2<T>>| {
                (0..n)
                    .map(|j| {
                        let mut k: Vec<u64> = vec![];
                        if let Some(u) = u {
                            k.extend((0..r).map(|i| bits(u[(i, j)])));
                        }
                        if let Some(vt) = vt {
                            k.extend((0..c).map(|i| bits(vt[(j, i)])));
                        }
                        (w[j].bits(), k)
                    })
                    .collect::<Vec<_>>()
            };
            let before = keys(&u, &inp, &vt);
            let (u2, w, vt2) = match (explicit, order) {
                (true, _) => (u, inp, vt).sort_svd(order),
                (_, Order::Largest) => (u, inp, vt).sort_svd_desc(),
                _ => (u, inp, vt).sort_svd_asc(),
            };
            ensure!(u2.is_some() == hu && vt2.is_some() == hv, "factors-appeared-or-vanished", "{} {}", u2.is_some(), vt2.is_some());
            ensure!(u2.as_ref().map_or(true, |u| u.dim() == (r, n)) && vt2.as_ref().map_or(true, |v| v.dim() == (n, c)) && w.len() == n, "shape-changed", "sort_svd");
            ensure!(order_ok(&w.to_vec(), order), "not-sorted", "{:?}", w);
            let after = keys(&u2, &w, &vt2);
            ensure!(multiset(before) == multiset(after.clone()), "triplets-changed", "values and vectors are not a permutation of the triplets given: {:?}", w);
            let (u3, w3, vt3) = (u2, w, vt2).sort_svd(order);
            ensure!(keys(&u3, &w3, &vt3) == after, "not-idempotent", "sorting twice differs");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P16

#[derive(Debug, PartialEq, Clone)]
enum Exp {
    Dims(Vec<(usize, usize)>),
    NotSquare(usize, usize),
    NotThin(usize, usize),
    Empty,
    WrongRows(usize, usize),
    Other(String),
}
/// The numbers in the text of an error.
fn numbers(e: &LinalgError) -> Vec<usize> {
    e.to_string().split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
}
fn exp_of(r: linfa_linalg::Result<Vec<(usize, usize)>>) -> Exp {
    // the text names the dimensions in the order of the fields
    if let Err(e) = &r {
        let want = match *e {
            LinalgError::NotSquare { rows, cols } | LinalgError::NotThin { rows, cols } => vec![rows, cols],
            LinalgError::WrongRows { expected, actual } => vec![expected, actual],
            _ => vec![],
        };
        if numbers(e) != want {
            return Exp::Other(format!("{:?} reads: {}", e, e));
        }
    }
    match r {
        Ok(d) => Exp::Dims(d),
        Err(LinalgError::NotSquare { rows, cols }) => Exp::NotSquare(rows, cols),
        Err(LinalgError::NotThin { rows, cols }) => Exp::NotThin(rows, cols),
        Err(LinalgError::EmptyMatrix) => Exp::Empty,
        Err(LinalgError::WrongRows { expected, actual }) => Exp::WrongRows(expected, actual),
        Err(e) => Exp::Other(format!("{:?}", e)),
    }
}
fn small_dim(s: &mut Source) -> usize {
    s.weighted(&[3, 3, 3, 2, 2, 1, 1])
}
fn p16(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p16_t)
}
pub const SHAPE_OPS: usize = 33;
fn p16_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let op = s.u(SHAPE_OPS);
    let (mut r, mut c) = (small_dim(s), small_dim(s));
    match s.u(4) {
        0 => {}
        1 | 2 => c = r,
        _ => std::mem::swap(&mut r, &mut c),
    }
    let rr = if s.chance(2, 3) { r } else { small_dim(s) };
    let rr = if s.chance(1, 4) { c } else { rr };
    let k = small_dim(s);
    // admissible contents: identity-like, so that only shapes decide
    let mut m = M::zeros(r, c);
    for i in 0..r.min(c) {
        m.set(i, i, 1.0 + i as f64);
    }
    let b = M { r: rr, c: k, d: (0..rr * k).map(|x| 1.0 + x as f64).collect() };
    let mut a: Array2<T> = arr(s, &m);
    let mut fb: Frame<T> = frame(s, &b);
    let uplo = if s.chance(1, 2) { UPLO::Upper } else { UPLO::Lower };
    cx.note(|| format!("{} op {} A {}x{} B {}x{}", T::NAME, op, r, c, rr, k));
    let sq = r == c;
    let kk = r.min(c);
    use Exp::*;
    let ns = NotSquare(r, c);
    // rejected-because-of-B forms that must leave B alone
    let mut b_in_place = false;
    let solve_model = |sqr: bool, need: usize, out: (usize, usize)| -> Vec<Exp> {
        let mut v = vec![];
        if !sqr {
            v.push(ns.clone());
        }
        if rr != need {
            v.push(WrongRows(need, rr));
        }
        if v.is_empty() {
            v.push(Dims(vec![out]));
        }
        v
    };
    let sq_model = |d: Vec<(usize, usize)>| if sq { vec![Dims(d)] } else { vec![ns.clone()] };
    let (name, got, want): (&'static str, linfa_linalg::Result<Vec<(usize, usize)>>, Vec<Exp>) = match op {
        0 => ("cholesky", a.cholesky().map(|x| vec![x.dim()]), sq_model(vec![(r, r)])),
        1 => ("cholesky_dirty", a.cholesky_dirty().map(|x| vec![x.dim()]), sq_model(vec![(r, r)])),
        2 => ("cholesky_into", a.cholesky_into().map(|x| vec![x.dim()]), sq_model(vec![(r, r)])),
        3 => ("cholesky_into_dirty", a.cholesky_into_dirty().map(|x| vec![x.dim()]), sq_model(vec![(r, r)])),
        4 => ("cholesky_inplace", a.cholesky_inplace().map(|x| vec![x.dim()]), sq_model(vec![(r, r)])),
        5 => ("cholesky_inplace_dirty", a.cholesky_inplace_dirty().map(|x| vec![x.dim()]), sq_model(vec![(r, r)])),
        6 => ("invc", a.invc().map(|x| vec![x.dim()]), sq_model(vec![(r, r)])),
        7 => ("invc_inplace", a.invc_inplace().map(|x| vec![x.dim()]), sq_model(vec![(r, r)])),
        8 => ("solvec", a.solvec(&fb.view()).map(|x| vec![x.dim()]), solve_model(sq, r, (r, k))),
        9 => {
            b_in_place = true;
            ("solvec_inplace", a.solvec_inplace(&mut fb.view()).map(|x| vec![x.dim()]), solve_model(sq, r, (r, k)))
        }
        10 => {
            b_in_place = true;
            ("solvec_into", a.solvec_into(fb.view()).map(|x| vec![x.dim()]), solve_model(sq, r, (r, k)))
        }
        11 => ("solve_triangular", a.solve_triangular(&fb.view(), uplo).map(|x| vec![x.dim()]), solve_model(sq, r, (r, k))),
        12 => {
            b_in_place = true;
            ("solve_triangular_inplace", a.solve_triangular_inplace(&mut fb.view(), uplo).map(|x| vec![x.dim()]), solve_model(sq, r, (r, k)))
        }
        13 => {
            b_in_place = true;
            ("solve_triangular_into", a.solve_triangular_into(fb.view(), uplo).map(|x| vec![x.dim()]), solve_model(sq, r, (r, k)))
        }
        14 => ("into_triangular", a.into_triangular(uplo).map(|x| vec![x.dim()]), sq_model(vec![(r, r)])),
        15 => ("triangular_inplace", a.triangular_inplace(uplo).map(|x| vec![x.dim()]), sq_model(vec![(r, r)])),
        16 => ("eigh", a.eigh().map(|(w, v)| vec![(w.len(), 1), v.dim()]), sq_model(vec![(r, 1), (r, r)])),
        17 => ("eigh_into", a.eigh_into().map(|(w, v)| vec![(w.len(), 1), v.dim()]), sq_model(vec![(r, 1), (r, r)])),
        18 => ("eigvalsh", a.eigvalsh().map(|w| vec![(w.len(), 1)]), sq_model(vec![(r, 1)])),
        19 => ("eigvalsh_into", a.eigvalsh_into().map(|w| vec![(w.len(), 1)]), sq_model(vec![(r, 1)])),
        20 => {
            let (cu, cv) = (s.chance(1, 2), s.chance(1, 2));
            let want = if kk == 0 {
                vec![Empty]
            } else {
                let mut d = vec![(kk, 1)];
                if cu {
                    d.push((r, kk));
                }
                if cv {
                    d.push((kk, c));
                }
                vec![Dims(d)]
            };
            let f = |(u, s, v): (Option<Array2<T>>, Array1<T>, Option<Array2<T>>)| {
                let mut d = vec![(s.len(), 1)];
                d.extend(u.map(|u| u.dim()));
                d.extend(v.map(|v| v.dim()));
                d
            };
            if s.chance(1, 2) {
                ("svd", a.svd(cu, cv).map(f), want)
            } else {
                ("svd_into", a.svd_into(cu, cv).map(f), want)
            }
        }
        21 => {
            let want = if kk == 0 { vec![Empty] } else { vec![Dims(vec![(r, kk), (kk, c), (kk, kk), (kk, 1), (kk - 1, 1)])] };
            let got = a.bidiagonal().map(|d| {
                let (u, vt, b) = (d.generate_u(), d.generate_vt(), d.clone().into_b());
                let (x, y) = d.into_diagonals();
                vec![u.dim(), vt.dim(), b.dim(), (x.len(), 1), (y.len(), 1)]
            });
            ("bidiagonal", got, want)
        }
        22 => {
            let mut want = vec![];
            if !sq {
                want.push(ns.clone());
            }
            if kk == 0 {
                want.push(Empty);
            }
            if want.is_empty() {
                want.push(Dims(vec![(r, r), (r, r), (r, 1), (r - 1, 1)]));
            }
            let got = a.sym_tridiagonal().map(|d| {
                let (q, t) = (d.generate_q(), d.clone().into_tridiag_matrix());
                let (x, y) = d.into_diagonals();
                vec![q.dim(), t.dim(), (x.len(), 1), (y.len(), 1)]
            });
            ("sym_tridiagonal", got, want)
        }
        23..=29 => {
            if r < c {
                let got = if op % 2 == 0 { a.qr().map(|d| vec![d.generate_q().dim()]) } else { a.qr_into().map(|d| vec![d.generate_q().dim()]) };
                ("qr", got, vec![NotThin(r, c)])
            } else {
                let d = match a.qr_into() {
                    Ok(d) => d,
                    Err(e) => return fail("admissible-rejected", format!("qr_into of {}x{}: {:?}", r, c, e)),
                };
                let sm = |need: usize, out| if rr != need { vec![WrongRows(need, rr)] } else { vec![Dims(vec![out])] };
                match op {
                    23 => ("generate_q/into_r", Ok(vec![d.generate_q().dim(), d.into_r().dim()]), vec![Dims(vec![(r, c), (c, c)])]),
                    24 => {
                        let (q, rm) = d.into_decomp();
                        ("into_decomp", Ok(vec![q.dim(), rm.dim()]), vec![Dims(vec![(r, c), (c, c)])])
                    }
                    25 => ("solve", d.solve(&fb.view()).map(|x| vec![x.dim()]), sm(r, (c, k))),
                    26 => {
                        b_in_place = true;
                        ("solve_into", d.solve_into(fb.view()).map(|x| vec![x.dim()]), sm(r, (c, k)))
                    }
                    27 => ("solve_tr", d.solve_tr(&fb.view()).map(|x| vec![x.dim()]), sm(c, (r, k))),
                    28 => {
                        b_in_place = true;
                        ("solve_tr_into", d.solve_tr_into(fb.view()).map(|x| vec![x.dim()]), sm(c, (r, k)))
                    }
                    _ => ("inverse", d.inverse().map(|x| vec![x.dim()]), if sq { vec![Dims(vec![(r, r)])] } else { vec![ns.clone()] }),
                }
            }
        }
        30 => ("least_squares", a.least_squares(&fb.view()).map(|x| vec![x.dim()]), solve_model(true, r, (c, k))),
        31 => {
            b_in_place = true;
            ("least_squares_into", a.least_squares_into(fb.view()).map(|x| vec![x.dim()]), solve_model(true, r, (c, k)))
        }
        _ => {
            let t = a.is_triangular(uplo);
            ensure!(t == sq, "is-triangular", "{} for a {}x{} diagonal matrix", t, r, c);
            let z = [a.norm_l1(), a.norm_l2(), a.norm_max()];
            ensure!(kk > 0 || z.iter().all(|x| x.f() == 0.0), "empty-norm", "{:?}", z);
            return Ok(());
        }
    };
    let got = exp_of(got);
    let accepted = matches!(got, Dims(_));
    cx.label(if accepted { "admissible" } else { "inadmissible" });
    cx.label_if(r == 0 || c == 0 || k == 0, "zero-sized");
    cx.label(name);
    cx.interesting();
    ensure!(want.contains(&got), format!("{}: shape", name), "{} on A {}x{}, B {}x{}: {:?}, expected {:?}", name, r, c, rr, k, got, want);
    outside(&fb, name)?;
    if b_in_place && matches!(got, WrongRows(..)) {
        ensure!(!fb.changed_inside(same), format!("{}: rejected right-hand side changed", name), "{} on A {}x{}, B {}x{}", name, r, c, rr, k);
        cx.label("rejected right-hand side checked");
    }
    Ok(())
}

// ---------------------------------------------------------------- P17

pub fn check_bidiag<T: Sc>(cx: &mut Cx, a: &M, u: &M, b: &M, vt: &M) -> Res {
    check_orth::<T>(cx, "U orthonormal", u)?;
    check_orth::<T>(cx, "Vt orthonormal", &vt.t())?;
    let (e, tol) = recon_tol::<T>(a);
    cx.within("U*B*Vt = A", u.mul(&b.ldexp(e)).mul(vt).sub(&a.ldexp(e)).frob(), tol, || format!("{:?}", a.dim()))
}
pub fn check_tridiag<T: Sc>(cx: &mut Cx, a: &M, q: &M, t: &M) -> Res {
    check_orth::<T>(cx, "Q orthogonal", q)?;
    let (e, tol) = recon_tol::<T>(a);
    cx.within("Q*T*Q^T = A", q.mul(&t.ldexp(e)).mul(&q.t()).sub(&a.ldexp(e)).frob(), tol, || format!("n={}", a.r))
}
fn p17(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p17_t)
}
fn p17_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let op = s.u(22);
    // sizes beyond small ones matter less here than layouts
    let n = s.weighted(&[1, 3, 4, 4, 3, 2, 2, 1, 1]).max(1) + if s.chance(1, 12) { 16 } else { 0 };
    let m2 = n + s.u(5);
    let kb = s.range(1, 4);
    cx.interesting();
    let spd_m = |s: &mut Source| spd(s, n).0.round::<T>();
    let general_m = |s: &mut Source, r: usize, c: usize| full_rank(s, r, c).0.round::<T>();
    let nt = |cx: &mut Cx, m: &M, w: &str| {
        let d = format!("{} {} {:?}", T::NAME, w, m);
        cx.note(|| d);
    };
    match op {
        0 | 1 => {
            let a = spd_m(s);
            let (full, _) = with_upper(s, &a);
            let mut f: Frame<T> = frame(s, &full);
            nt(cx, &full, "cholesky_inplace");
            if op == 0 {
                cx.label("cholesky_inplace");
                ok(f.view().cholesky_inplace(), "cholesky_inplace")?;
                ensure!(tri_is_clean(&to_m(&f.view())), "clean-upper-nonzero", "cholesky_inplace on a view");
            } else {
                cx.label("cholesky_inplace_dirty");
                ok(f.view().cholesky_inplace_dirty(), "cholesky_inplace_dirty")?;
            }
            outside(&f, "cholesky")?;
            check_llt::<T>(cx, &a, &to_m(&f.view()))?;
            // the same contents in the plain layout
            let l0 = to_m(&ok(lay::<T>(&a, 0).cholesky(), "cholesky")?);
            let l1 = to_m(&f.view());
            let w = jacobi_eig(&a).0;
            let kap = w[n - 1] / w[0].max(1e-300);
            for i in 0..n {
                for j in 0..=i {
                    cx.within("same factor as row-major", (l0.get(i, j) - l1.get(i, j)).abs(), 8.0 * u::<T>(n, n) * kap * l0.max_abs(), || format!("{},{}", i, j))?;
                }
            }
        }
        2 => {
            cx.label("triangular_inplace");
            let a = plain(s, n, n).round::<T>();
            let mut f: Frame<T> = frame(s, &a);
            let up = s.chance(1, 2);
            ok(f.view().triangular_inplace(if up { UPLO::Upper } else { UPLO::Lower }), "triangular_inplace")?;
            outside(&f, "triangular_inplace")?;
            let o = to_m(&f.view());
            for i in 0..n {
                for j in 0..n {
                    let w = if (up && i <= j) || (!up && i >= j) { a.get(i, j) } else { 0.0 };
                    ensure!(o.get(i, j) == w, "masking", "{},{}: {:e}", i, j, o.get(i, j));
                }
            }
        }
        3 => {
            cx.label("solvec_inplace");
            let a = spd_m(s);
            let b = plain(s, n, kb).round::<T>();
            let (full, _) = with_upper(s, &a);
            let (mut f, mut g): (Frame<T>, Frame<T>) = (frame(s, &full), frame(s, &b));
            nt(cx, &full, "solvec_inplace");
            match s.u(3) {
                0 => {
                    ok(f.view().solvec_inplace(&mut g.view()), "solvec_inplace")?;
                }
                1 => {
                    ok(f.view().solvec_into(g.view()), "solvec_into")?;
                }
                _ => {
                    let x = ok(f.view().solvec(&g.view()), "solvec")?;
                    ensure!(!g.changed_inside(same), "rhs-changed", "solvec changed its right-hand side");
                    g = Frame::new(s.u(WINDOWS), n, kb, |k| T::of(k as f64), |i, j| x[(i, j)]);
                }
            }
            outside(&f, "solvec")?;
            outside(&g, "solvec")?;
            check_spd_solution::<T>(cx, &a, &b, &to_m(&g.view()))?;
        }
        4 => {
            cx.label("solve_triangular");
            let up = s.chance(1, 2);
            let uplo = if up { UPLO::Upper } else { UPLO::Lower };
            let mut t = plain(s, n, n);
            for i in 0..n {
                let d: f64 = (0..n).map(|j| t.get(i, j).abs()).sum();
                t.set(i, i, if i % 2 == 0 { d + 1.0 } else { -d - 1.0 });
            }
            let t = t.round::<T>();
            let b = plain(s, n, kb).round::<T>();
            let (mut f, mut g): (Frame<T>, Frame<T>) = (frame(s, &t), frame(s, &b));
            nt(cx, &t, "solve_triangular");
            match s.u(3) {
                0 => {
                    ok(f.view().solve_triangular_inplace(&mut g.view(), uplo), "solve_triangular_inplace")?;
                }
                1 => {
                    ok(f.view().solve_triangular_into(g.view(), uplo), "solve_triangular_into")?;
                }
                _ => {
                    let x = ok(f.view().solve_triangular(&g.view(), uplo), "solve_triangular")?;
                    ensure!(!g.changed_inside(same), "rhs-changed", "solve_triangular changed its right-hand side");
                    g = Frame::new(s.u(WINDOWS), n, kb, |k| T::of(k as f64), |i, j| x[(i, j)]);
                }
            }
            ensure!(!f.changed_inside(same), "input-changed", "solve_triangular changed the matrix");
            outside(&f, "solve_triangular")?;
            outside(&g, "solve_triangular")?;
            let mut tri = t.clone();
            for i in 0..n {
                for j in 0..n {
                    if (up && i > j) || (!up && i < j) {
                        tri.set(i, j, 0.0);
                    }
                }
            }
            check_solution::<T>(cx, &tri, &b, &to_m(&g.view()), f64::NAN)?;
        }
        5 => {
            cx.label("invc_inplace");
            let a = spd_m(s);
            let (full, _) = with_upper(s, &a);
            let mut f: Frame<T> = frame(s, &full);
            nt(cx, &full, "invc");
            let x = if s.chance(1, 2) {
                ok(f.view().invc_inplace(), "invc_inplace")?
            } else {
                let x = ok(f.view().invc(), "invc")?;
                ensure!(!f.changed_inside(same), "input-changed", "invc changed its input");
                x
            };
            outside(&f, "invc")?;
            check_spd_solution::<T>(cx, &a, &M::eye(n), &to_m(&x))?;
        }
        6 => {
            cx.label("reflect");
            let (rows, cols) = (n, s.range(0, 6));
            let m = plain(s, rows, cols).round::<T>();
            let ax = unit_axis::<T>(s, rows);
            let bias = s.pick(&[0.0, 1.0, -2.5]);
            let axis = Array1::from(ax.iter().map(|x| T::of(*x)).collect::<Vec<_>>());
            let by_rows = s.chance(1, 2);
            let mut f: Frame<T> = frame(s, &if by_rows { m.t() } else { m.clone() });
            let refl = Reflection::new(axis.view(), T::of(bias));
            if by_rows {
                refl.reflect_rows(&mut f.view());
            } else {
                refl.reflect_cols(&mut f.view());
            }
            outside(&f, "reflect")?;
            let o = to_m(&f.view());
            check_reflection::<T>(cx, &ax, bias, &m, &if by_rows { o.t() } else { o })?;
        }
        7 | 8 => {
            cx.label("qr_into");
            let a = general_m(s, m2, n);
            let mut f: Frame<T> = frame(s, &a);
            nt(cx, &a, "qr");
            let (q, r) = if op == 7 {
                let (q, r) = ok(f.view().qr_into(), "qr_into")?.into_decomp();
                (to_m(&q), to_m(&r))
            } else {
                let (q, r) = ok(f.view().qr(), "qr")?.into_decomp();
                ensure!(!f.changed_inside(same), "input-changed", "qr changed its input");
                (to_m(&q), to_m(&r))
            };
            outside(&f, "qr")?;
            check_qr::<T>(cx, &a, &q, &r)?;
        }
        9 => {
            cx.label("qr solve on views");
            let a = general_m(s, m2, n);
            let tr = s.chance(1, 2);
            let b = plain(s, if tr { n } else { m2 }, kb).round::<T>();
            let (mut f, mut g): (Frame<T>, Frame<T>) = (frame(s, &a), frame(s, &b));
            nt(cx, &a, "qr solve");
            let by_ref = s.chance(1, 2);
            let x = {
                let d = ok(f.view().qr_into(), "qr_into")?;
                match (tr, by_ref) {
                    (false, false) => to_m(&ok(d.solve_into(g.view()), "solve_into")?),
                    (false, true) => to_m(&ok(d.solve(&g.view()), "solve")?),
                    (true, false) => to_m(&ok(d.solve_tr_into(g.view()), "solve_tr_into")?),
                    (true, true) => to_m(&ok(d.solve_tr(&g.view()), "solve_tr")?),
                }
            };
            ensure!(!by_ref || !g.changed_inside(same), "rhs-changed", "solve/solve_tr changed its right-hand side");
            outside(&f, "qr solve")?;
            outside(&g, "qr solve")?;
            check_solution::<T>(cx, &if tr { a.t() } else { a.clone() }, &b, &x, 1e4)?;
        }
        10 | 11 => {
            cx.label("least_squares_into on views");
            let (r, c) = if s.chance(1, 2) { (m2, n) } else { (n, m2) };
            let a = general_m(s, r, c);
            let b = plain(s, r, kb).round::<T>();
            let (mut f, mut g): (Frame<T>, Frame<T>) = (frame(s, &a), frame(s, &b));
            nt(cx, &a, "least_squares");
            let x = if op == 10 {
                to_m(&ok(f.view().least_squares_into(g.view()), "least_squares_into")?)
            } else {
                let x = to_m(&ok(f.view().least_squares(&g.view()), "least_squares")?);
                ensure!(!g.changed_inside(same), "rhs-changed", "least_squares changed its right-hand side");
                x
            };
            outside(&f, "least_squares")?;
            outside(&g, "least_squares")?;
            check_solution::<T>(cx, &a, &b, &x, 1e4)?;
            // the same contents in the plain layout: the solution is unique
            let x0 = to_m(&ok(lay::<T>(&a, 0).least_squares(&lay::<T>(&b, 0)), "least_squares")?);
            let sv = jacobi_sv(&a);
            let kap = sv[0] / sv[sv.len() - 1];
            let tol = 30.0 * u::<T>(r, c) * kap * (x0.frob() + kap * b.frob() / sv[0]);
            cx.within("same solution as row-major", x0.sub(&x).frob(), tol, || format!("{}x{}", r, c))?;
        }
        12 => {
            cx.label("bidiagonal on views");
            let (r, c) = if s.chance(1, 2) { (m2, n) } else { (n, m2) };
            let a = general(s, r, c).0.round::<T>();
            let mut f: Frame<T> = frame(s, &a);
            nt(cx, &a, "bidiagonal");
            let (u_, b, vt) = {
                let d = ok(f.view().bidiagonal(), "bidiagonal")?;
                (to_m(&d.generate_u()), d.generate_vt(), d.into_b())
            };
            outside(&f, "bidiagonal")?;
            check_bidiag::<T>(cx, &a, &u_, &to_m(&vt), &to_m(&b)).or_else(|_| check_bidiag::<T>(cx, &a, &u_, &to_m(&vt), &to_m(&b)))?;
        }
        13 => {
            cx.label("sym_tridiagonal on views");
            let a = symmetric(s, n).0.round::<T>();
            let mut f: Frame<T> = frame(s, &a);
            nt(cx, &a, "sym_tridiagonal");
            let (q, t) = {
                let d = ok(f.view().sym_tridiagonal(), "sym_tridiagonal")?;
                (to_m(&d.generate_q()), to_m(&d.into_tridiag_matrix()))
            };
            outside(&f, "sym_tridiagonal")?;
            check_tridiag::<T>(cx, &a, &q, &t)?;
        }
        14 | 15 => {
            cx.label("eigh on views");
            let a = symmetric(s, n).0.round::<T>();
            let mut f: Frame<T> = frame(s, &a);
            nt(cx, &a, "eigh");
            let (w, v) = if op == 14 {
                ok(f.view().eigh_into(), "eigh_into")?
            } else {
                let r = ok(f.view().eigh(), "eigh")?;
                ensure!(!f.changed_inside(same), "input-changed", "eigh changed its input");
                r
            };
            outside(&f, "eigh")?;
            check_eig::<T>(cx, &a, &vecf(&w), &to_m(&v))?;
        }
        16 => {
            cx.label("eigvalsh on views");
            let a = symmetric(s, n).0.round::<T>();
            let mut f: Frame<T> = frame(s, &a);
            let w = if s.chance(1, 2) {
                ok(f.view().eigvalsh_into(), "eigvalsh_into")?
            } else {
                let r = ok(f.view().eigvalsh(), "eigvalsh")?;
                ensure!(!f.changed_inside(same), "input-changed", "eigvalsh changed its input");
                r
            };
            outside(&f, "eigvalsh")?;
            let w0 = ok(lay::<T>(&a, 0).eigvalsh(), "eigvalsh")?;
            cmp_spectra::<T>(cx, "same eigenvalues as row-major", &vecf(&w), &vecf(&w0), a.frob().max(1e-300), n, T::QUANTUM * 100.0)?;
        }
        17 | 18 => {
            cx.label("svd on views");
            let (r, c) = if s.chance(1, 2) { (m2, n) } else { (n, m2) };
            let a = general(s, r, c).0.round::<T>();
            let mut f: Frame<T> = frame(s, &a);
            nt(cx, &a, "svd");
            let (uu, sv, vt) = if op == 17 {
                ok(f.view().svd_into(true, true), "svd_into")?
            } else {
                let r = ok(f.view().svd(true, true), "svd")?;
                ensure!(!f.changed_inside(same), "input-changed", "svd changed its input");
                r
            };
            outside(&f, "svd")?;
            check_svd::<T>(cx, &a, uu.map(|x| to_m(&x)).as_ref(), &vecf(&sv), vt.map(|x| to_m(&x)).as_ref())?;
            let w0 = ok(lay::<T>(&a, 0).svd(false, false), "svd")?.1;
            cmp_spectra::<T>(cx, "same singular values as row-major", &vecf(&sv), &vecf(&w0), a.frob().max(1e-300), m2, T::QUANTUM * 100.0)?;
        }
        19 => {
            cx.label("cholesky by reference on views");
            let a = spd_m(s);
            let (full, _) = with_upper(s, &a);
            let mut f: Frame<T> = frame(s, &full);
            let l = if s.chance(1, 2) { ok(f.view().cholesky(), "cholesky")? } else { ok(f.view().cholesky_dirty(), "cholesky_dirty")? };
            ensure!(!f.changed_inside(same), "input-changed", "cholesky changed its input");
            outside(&f, "cholesky")?;
            check_llt::<T>(cx, &a, &to_m(&l))?;
        }
        20 => {
            cx.label("norms and queries on views");
            let (r, c) = (s.range(0, 6), s.range(0, 6));
            let a = plain(s, r, c).round::<T>();
            let mut f: Frame<T> = frame(s, &a);
            let (l1, l2, lm) = (f.view().norm_l1().f(), f.view().norm_l2().f(), f.view().norm_max().f());
            check_norms::<T>(cx, &a.d, l1, l2, lm)?;
            let want = r == c && (0..r).all(|i| (0..i).all(|j| a.get(i, j) == 0.0));
            ensure!(f.view().is_triangular(UPLO::Upper) == want, "is-triangular", "on a view of {:?}", a);
            ensure!(!f.changed_inside(same), "input-changed", "a query changed its input");
            outside(&f, "queries")?;
        }
        _ => {
            cx.label("shared view of a transposed array");
            // two read-only views of one array: rows as columns
            let a = spd_m(s);
            let aa: Array2<T> = lay(&a, s.u(LAYOUTS));
            let v: ArrayView2<T> = aa.t();
            let before = to_m(&aa);
            let (q, r) = ok(v.qr(), "qr")?.into_decomp();
            check_qr::<T>(cx, &a.t(), &to_m(&q), &to_m(&r))?;
            let (w, vv) = ok(v.eigh(), "eigh")?;
            check_eig::<T>(cx, &a, &vecf(&w), &to_m(&vv))?;
            let (uu, sv, vt) = ok(v.svd(true, true), "svd")?;
            check_svd::<T>(cx, &a.t(), uu.map(|x| to_m(&x)).as_ref(), &vecf(&sv), vt.map(|x| to_m(&x)).as_ref())?;
            let l = ok(v.cholesky(), "cholesky")?;
            check_llt::<T>(cx, &a.t(), &to_m(&l))?;
            ensure!(before.same_bits(&to_m(&aa)), "input-changed", "a by-reference routine changed its input");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P18

fn unit_axis<T: Sc>(s: &mut Source, n: usize) -> Vec<f64> {
    let mut v = match s.weighted(&[4, 2, 1]) {
        0 => plain(s, n, 1).d,
        1 => {
            let k = s.u(n.max(1));
            (0..n).map(|i| if i == k { if i % 2 == 0 { 1.0 } else { -1.0 } } else { 0.0 }).collect()
        }
        _ => vec![1.0; n],
    };
    let nn = M { r: n, c: 1, d: v.clone() }.frob();
    if nn == 0.0 {
        if n > 0 {
            v[0] = 1.0;
        }
    } else {
        v.iter_mut().for_each(|x| *x /= nn);
    }
    v.iter().map(|x| T::of(*x).f()).collect()
}
/// out = m with every column reflected, columns with non-finite input skipped
fn check_reflection<T: Sc>(cx: &mut Cx, axis: &[f64], bias: f64, m: &M, out: &M) -> Res {
    ensure!(m.dim() == out.dim(), "shape-changed", "{:?} became {:?}", m.dim(), out.dim());
    let n = m.r;
    for j in 0..m.c {
        let v = m.col(j);
        if v.iter().any(|x| !x.is_finite()) {
            continue;
        }
        let d = dot(axis, &v);
        let vn = M { r: n, c: 1, d: v.clone() }.frob();
        let tol = 3.0 * T::EPS * (n + 4) as f64 * (vn + bias.abs()) + T::QUANTUM * (n + 2) as f64;
        for i in 0..n {
            let w = v[i] - 2.0 * (d - bias) * axis[i];
            cx.within("v - 2(a.v - b)a", (out.get(i, j) - w).abs(), tol, || format!("component {} of column {}: {:e} instead of {:e}", i, j, out.get(i, j), w))?;
        }
    }
    Ok(())
}
fn p18(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p18_t)
}
fn p18_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let n = match s.weighted(&[1, 8, 6, 2]) {
        0 => 0,
        1 => s.range(1, 5),
        2 => s.range(6, 20),
        _ => s.range(21, 80),
    };
    let c = s.weighted(&[1, 3, 3, 2, 2, 1, 1]);
    let e = s.pick(&[0, 0, 0, 10, -10, 40, -40]);
    let ax = unit_axis::<T>(s, n);
    let bias = T::of(s.pick(&[0.0, 0.0, 1.0, -1.0, 0.375, -100.0, 1e4]) * (e as f64).exp2()).f();
    let mut m = plain(s, n, c).ldexp(e).round::<T>();
    let poison = c >= 2 && n >= 1 && s.chance(1, 5);
    let pj = if poison {
        let j = s.u(c);
        let i = s.u(n);
        m.set(i, j, s.pick(&[f64::NAN, f64::INFINITY]));
        Some(j)
    } else {
        None
    };
    cx.label_if(poison, "one non-finite column");
    cx.note(|| format!("{} axis {:?} bias {:e} {:?}", T::NAME, ax.iter().take(12).collect::<Vec<_>>(), bias, m));
    if n >= 1 && c >= 1 {
        cx.interesting();
    }
    let mut owned: Array2<T> = arr(s, &m);
    // axis storage: owned, strided view, reversed view
    let wide = {
        let mut w = Array1::from_elem(3 * n + 2, T::nan());
        for i in 0..n {
            w[1 + 3 * i] = T::of(ax[i]);
        }
        w
    };
    let rev = Array1::from(ax.iter().rev().map(|x| T::of(*x)).collect::<Vec<_>>());
    let ak = s.u(3);
    let axis = match ak {
        0 => wide.slice(s![1..1 + 3 * n;3]),
        1 => rev.slice(s![..;-1]),
        _ => wide.slice(s![1..1 + 3 * n;3]),
    };
    let refl = Reflection::new(axis, T::of(bias));
    ensure!(refl.axis().len() == n && refl.axis().iter().zip(&ax).all(|(a, b)| a.f().to_bits() == b.to_bits()), "axis-accessor", "axis() = {:?}", refl.axis());
    refl.reflect_cols(&mut owned);
    let out = to_m(&owned);
    check_reflection::<T>(cx, &ax, bias, &m, &out)?;
    // by rows on the transpose
    let mut tr: Array2<T> = arr(s, &m.t());
    refl.reflect_rows(&mut tr);
    check_reflection::<T>(cx, &ax, bias, &m, &to_m(&tr).t())?;
    let owned_axis = Reflection::new(Array1::from(ax.iter().map(|x| T::of(*x)).collect::<Vec<_>>()), T::of(bias));
    ensure!(owned_axis.axis().iter().zip(&ax).all(|(a, b)| a.f().to_bits() == b.to_bits()), "axis-accessor", "axis() = {:?}", owned_axis.axis());
    // involution
    owned_axis.reflect_cols(&mut owned);
    let back = to_m(&owned);
    for j in 0..c {
        if pj == Some(j) {
            continue;
        }
        let v = m.col(j);
        let vn = M { r: n, c: 1, d: v.clone() }.frob();
        let tol = 10.0 * T::EPS * (n + 4) as f64 * (vn + bias.abs()) + 4.0 * T::QUANTUM * (n + 2) as f64;
        for i in 0..n {
            cx.within("reflecting twice restores", (back.get(i, j) - v[i]).abs(), tol, || format!("{},{}", i, j))?;
        }
        // mirrored component, unchanged orthogonal component
        if n >= 1 {
            let (a0, a1) = (dot(&ax, &v), dot(&ax, &out.col(j)));
            cx.within("axis component mirrored about the bias", (a0 - bias + a1 - bias).abs(), 2.0 * tol, || format!("column {}", j))?;
        }
    }
    // distances between columns
    for j in 1..c {
        if pj == Some(j) || pj == Some(j - 1) {
            continue;
        }
        let dist = |m: &M| M { r: n, c: 1, d: (0..n).map(|i| m.get(i, j) - m.get(i, j - 1)).collect() }.frob();
        let big = M { r: n, c: 1, d: m.col(j) }.frob() + M { r: n, c: 1, d: m.col(j - 1) }.frob() + bias.abs();
        cx.within("distances kept", (dist(&m) - dist(&out)).abs(), 8.0 * T::EPS * (n + 4) as f64 * (n as f64).sqrt().max(1.0) * big + T::QUANTUM * (n + 2) as f64, || format!("columns {} and {}", j - 1, j))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P19

fn check_norms<T: Sc>(cx: &mut Cx, v: &[f64], l1: f64, l2: f64, lm: f64) -> Res {
    let n = v.len() as f64;
    let big = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    ensure!(lm == big, "norm_max", "norm_max = {:e}, largest magnitude {:e}", lm, big);
    // compensated sum
    let (mut sum, mut comp) = (0.0f64, 0.0f64);
    for x in v {
        let y = x.abs();
        let t = sum + y;
        comp += if sum >= y { (sum - t) + y } else { (y - t) + sum };
        sum = t;
    }
    let want1 = sum + comp;
    cx.within("norm_l1", (l1 - want1).abs(), T::EPS * (n + 2.0) * want1, || format!("{:e} instead of {:e}", l1, want1))?;
    let want2 = M { r: 1, c: v.len(), d: v.to_vec() }.frob();
    cx.within("norm_l2", (l2 - want2).abs(), T::EPS * (n + 4.0) * want2, || format!("{:e} instead of {:e}", l2, want2))?;
    let sl = 1.0 + T::EPS * (n + 4.0);
    ensure!(lm <= l2 * sl && l2 <= l1 * sl && l1 <= n * lm * sl, "norm-order", "max {:e}, L2 {:e}, L1 {:e}, count {}", lm, l2, l1, n);
    Ok(())
}
fn p19(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p19_t)
}
fn norms<T: Sc, S: Data<Elem = T>, D: Dimension>(a: &ArrayBase<S, D>) -> [f64; 3] {
    [a.norm_l1().f(), a.norm_l2().f(), a.norm_max().f()]
}
/// The same elements as `v` in an array of the given shape with a random storage layout.
fn lay_nd<T: Sc>(s: &mut Source, shape: &[usize], v: &[f64]) -> ArrayD<T> {
    let dims = shape.len();
    let mode = s.u(4);
    let mut a: ArrayD<T> = match mode {
        0 => ArrayD::zeros(IxDyn(shape)),
        1 => ArrayD::zeros(IxDyn(shape).f()),
        2 => {
            // permuted axes
            let p = s.perm(dims);
            let mut sh = vec![0; dims];
            for i in 0..dims {
                sh[p[i]] = shape[i];
            }
            // b has axes such that b.permuted_axes(p)[i] = b axis p[i]
            ArrayD::zeros(IxDyn(&sh)).permuted_axes(IxDyn(&p))
        }
        _ => {
            // window with steps inside a NaN-filled array
            let sh: Vec<usize> = shape.iter().map(|x| 2 * x + 1).collect();
            let mut b: ArrayD<T> = ArrayD::from_elem(IxDyn(&sh), T::nan());
            for ax in 0..dims {
                let step = if s.chance(1, 2) { 2 } else { -2 };
                b.slice_axis_inplace(Axis(ax), Slice::new(1, Some(1 + 2 * shape[ax] as isize), step));
            }
            b
        }
    };
    assert_eq!(a.shape(), shape);
    for (x, y) in a.iter_mut().zip(v) {
        *x = T::of(*y);
    }
    a
}
/// Elements anywhere in the range of the type: the L1 and maximum norms are still exact up to
/// rounding as long as the sum is representable; the L2 norm as long as the squares are, and
/// otherwise it is never NaN and errs only in the direction of the overflow or underflow.
fn p19_edge<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let n = s.range(1, 12);
    let lo = ilog2(T::QUANTUM);
    let hi = T::MAXEXP - 6;
    let mix = s.chance(1, 3);
    let base = match s.weighted(&[1, 1, 1]) {
        0 => lo + s.u(60) as i32,
        1 => hi - s.u(60) as i32,
        _ => lo + s.u((hi - lo) as usize) as i32,
    };
    let mut v = plain(s, 1, n).round::<T>();
    for i in 0..n {
        let x = v.d[i].clamp(-2.0, 2.0);
        let e = if mix { lo + s.u((hi - lo) as usize) as i32 } else { base };
        v.d[i] = M { r: 1, c: 1, d: vec![x] }.ldexp(e).round::<T>().d[0];
    }
    let shape: Vec<usize> = if n % 2 == 0 && s.chance(1, 2) { vec![2, n / 2] } else { vec![n] };
    let a: ArrayD<T> = lay_nd(s, &shape, &v.d);
    cx.note(|| format!("{} full range {:?}", T::NAME, v.d));
    cx.label("full range");
    cx.interesting();
    let [l1, l2, lm] = norms(&a);
    let big = v.max_abs();
    ensure!(lm == big, "norm_max", "norm_max = {:e}, largest magnitude {:e}", lm, big);
    let ne = norm_exp(&v);
    let sc = v.ldexp(ne);
    let nf = n as f64;
    let back = |x: f64| M { r: 1, c: 1, d: vec![x] }.ldexp(ne).d[0];
    // Scaled so that the largest element is about one.
    let w1: f64 = sc.d.iter().map(|x| x.abs()).sum();
    let w2 = sc.frob();
    let q = back(T::QUANTUM);
    cx.within("norm_l1 (full range)", (back(l1) - w1).abs(), T::EPS * (nf + 2.0) * w1 + 2.0 * nf * q, || format!("{:e} for {:?}", l1, v.d))?;
    ensure!(!l2.is_nan() && l2 >= 0.0, "norm_l2", "L2 norm is {:e} for {:?}", l2, v.d);
    let top = ((T::MAXEXP - 10) as f64 / 2.0).exp2();
    if big > 0.0 && l2 == f64::INFINITY || T::IS32 && l2 > f32::MAX as f64 {
        ensure!(big > top, "norm_l2", "L2 norm overflowed for {:?}", v.d);
    } else {
        // each square is off by at most half a quantum
        let slack = (nf * T::QUANTUM).sqrt();
        cx.within("norm_l2 (full range)", (back(l2) - w2).abs(), T::EPS * (nf + 4.0) * w2 + 2.0 * back(slack), || format!("{:e} for {:?}", l2, v.d))?;
    }
    Ok(())
}
fn p19_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    if s.chance(1, 6) {
        return p19_edge::<T>(s, cx);
    }
    let dims = s.u(5);
    let shape: Vec<usize> = (0..dims).map(|_| if dims == 1 { if s.chance(1, 12) { s.range(60, 300) } else { s.range(0, 20) } } else { s.weighted(&[1, 4, 4, 3, 2, 1]) }).collect();
    let n: usize = shape.iter().product();
    let e = match s.weighted(&[4, 1]) {
        0 => 0,
        _ => s.range(0, 2 * safe_exp::<T>() as usize) as i32 - safe_exp::<T>(),
    };
    let mut v = match s.weighted(&[6, 1]) {
        0 => plain(s, 1, n),
        _ => M::zeros(1, n),
    };
    // largest element at a chosen place, possibly negative
    if n > 0 && s.chance(1, 3) {
        let i = s.u(n);
        v.d[i] = s.pick(&[-1000.0, 1000.0, -1e-3]);
    }
    // elements whose squares underflow are outside the claim about the L2 norm
    let least = T::TINY.sqrt() * 64.0;
    let v = v.ldexp(e).map(|x| if x.abs() < least { 0.0 } else { x }).round::<T>();
    let a: ArrayD<T> = lay_nd(s, &shape, &v.d);
    cx.note(|| format!("{} shape {:?} {:?}", T::NAME, shape, v.d.iter().take(20).collect::<Vec<_>>()));
    cx.label(["0-d", "1-d", "2-d", "3-d", "4-d"][dims]);
    cx.label_if(n == 0, "empty");
    if n >= 2 {
        cx.interesting();
    }
    let [l1, l2, lm] = match (dims, s.u(2)) {
        (0, 0) => norms(&a.view().into_dimensionality::<ndarray::Ix0>().unwrap()),
        (1, 0) => norms(&a.view().into_dimensionality::<ndarray::Ix1>().unwrap()),
        (2, 0) => norms(&a.view().into_dimensionality::<Ix2>().unwrap()),
        (3, 0) => norms(&a.view().into_dimensionality::<ndarray::Ix3>().unwrap()),
        (4, 0) => norms(&a.view().into_dimensionality::<ndarray::Ix4>().unwrap()),
        _ => norms(&a),
    };
    if n == 0 {
        ensure!(l1 == 0.0 && l2 == 0.0 && lm == 0.0, "empty-norm", "{:e} {:e} {:e}", l1, l2, lm);
        return Ok(());
    }
    check_norms::<T>(cx, &v.d, l1, l2, lm)?;
    let zero = v.max_abs() == 0.0;
    ensure!(zero == (l1 == 0.0) && zero == (l2 == 0.0) && zero == (lm == 0.0), "zero-iff", "{:e} {:e} {:e} for {:?}", l1, l2, lm, v.d);
    let rel = T::EPS * (n as f64 + 4.0) * 2.0;
    let close = |cx: &mut Cx, what: &'static str, a: f64, b: f64| cx.within(what, (a - b).abs(), rel * a.abs().max(b.abs()), || format!("{:e} and {:e}", a, b));
    // homogeneity
    let c = s.pick(&[2.0, -1.0, -3.0, 0.1, 0.0]);
    let cf = T::of(c).f();
    let sc = norms(&lay_nd::<T>(s, &shape, &v.map(|x| cf * x).round::<T>().d));
    for (x, y) in sc.iter().zip([l1, l2, lm]) {
        close(cx, "homogeneity", *x, cf.abs() * y)?;
    }
    // order and layout
    let p = s.perm(n.min(64));
    let mut w = v.clone();
    for i in 0..p.len() {
        w.d[i] = v.d[p[i]];
    }
    let pn = norms(&lay_nd::<T>(s, &shape, &w.d));
    for (x, y) in pn.iter().zip([l1, l2, lm]) {
        close(cx, "independent of order", *x, y)?;
    }
    // triangle inequality
    let e2 = norm_exp(&v);
    let o = plain(s, 1, n).ldexp(-e2).round::<T>();
    if o.d.iter().all(|x| x.abs() < (safe_exp::<T>() as f64 + 20.0).exp2()) {
        let sum = v.add(&o).round::<T>();
        let (on, sn) = (norms(&lay_nd::<T>(s, &shape, &o.d)), norms(&lay_nd::<T>(s, &shape, &sum.d)));
        for (x, (y, z)) in sn.iter().zip([l1, l2, lm].iter().zip(&on)) {
            ensure!(*x <= (y + z) * (1.0 + rel) + T::TINY * n as f64, "triangle-inequality", "{:e} > {:e} + {:e}", x, y, z);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P26

/// What a query on a decomposition object returned, with exact bits.
#[derive(PartialEq, Clone)]
enum Ans {
    Mats(Vec<((usize, usize), Vec<u64>)>),
    Flag(bool),
    Err(String),
}
impl Debug for Ans {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Ans::Mats(v) => {
                for (d, b) in v {
                    write!(f, "{:?}{:?} ", d, b.iter().take(8).map(|x| f64::from_bits(*x)).collect::<Vec<_>>())?;
                }
                Ok(())
            }
            Ans::Flag(b) => write!(f, "{}", b),
            Ans::Err(e) => write!(f, "Err({})", e),
        }
    }
}
fn nb(x: f64) -> u64 {
    if x.is_nan() {
        f64::NAN.to_bits()
    } else {
        x.to_bits()
    }
}
fn mat<T: Sc, S: Data<Elem = T>>(a: &ArrayBase<S, Ix2>) -> ((usize, usize), Vec<u64>) {
    let m = to_m(a);
    (m.dim(), m.d.iter().map(|x| nb(*x)).collect())
}
fn vect<T: Sc>(a: &Array1<T>) -> ((usize, usize), Vec<u64>) {
    ((a.len(), 1), a.iter().map(|x| nb(x.f())).collect())
}
fn ans<T: Sc, S: Data<Elem = T>>(r: linfa_linalg::Result<ArrayBase<S, Ix2>>) -> Ans {
    match r {
        Ok(x) => Ans::Mats(vec![mat(&x)]),
        Err(e) => Ans::Err(format!("{:?}", e)),
    }
}
type Owned<T> = OwnedRepr<T>;
fn qr_query<T: Sc>(d: &QRDecomp<T, Owned<T>>, q: usize, b: &Array2<T>) -> Ans {
    match q {
        0 => Ans::Mats(vec![mat(&d.generate_q())]),
        1 => ans(d.solve(b)),
        2 => ans(d.solve_into(b.clone())),
        3 => ans(d.solve_tr(b)),
        4 => ans(d.solve_tr_into(b.clone())),
        5 => ans(d.inverse()),
        6 => Ans::Flag(d.is_invertible()),
        7 => Ans::Mats(vec![mat(&d.clone().into_r())]),
        8 => {
            let (q, r) = d.clone().into_decomp();
            Ans::Mats(vec![mat(&q), mat(&r)])
        }
        _ => {
            let _ = format!("{:?}", d);
            Ans::Flag(true)
        }
    }
}
fn bi_query<T: Sc>(d: &BidiagonalDecomp<T, Owned<T>>, q: usize) -> Ans {
    match q % 6 {
        0 => Ans::Mats(vec![mat(&d.generate_u())]),
        1 => Ans::Mats(vec![mat(&d.generate_vt())]),
        2 => Ans::Mats(vec![mat(&d.clone().into_b())]),
        3 => {
            let (x, y) = d.clone().into_diagonals();
            Ans::Mats(vec![vect(&x), vect(&y)])
        }
        4 => Ans::Flag(d.is_upper_diag()),
        _ => {
            let _ = format!("{:?}", d);
            Ans::Flag(true)
        }
    }
}
fn tri_query<T: Sc>(d: &TridiagonalDecomp<T, Owned<T>>, q: usize) -> Ans {
    match q % 4 {
        0 => Ans::Mats(vec![mat(&d.generate_q())]),
        1 => Ans::Mats(vec![mat(&d.clone().into_tridiag_matrix())]),
        2 => {
            let (x, y) = d.clone().into_diagonals();
            Ans::Mats(vec![vect(&x), vect(&y)])
        }
        _ => {
            let _ = format!("{:?}", d);
            Ans::Flag(true)
        }
    }
}
fn p26(s: &mut Source, cx: &mut Cx) -> Res {
    if s.chance(1, 24) {
        return crate::props_lobpcg::p26_truncated(s, cx);
    }
    by_type!(s, cx, p26_t)
}
fn p26_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let kind = s.u(3);
    let n = s.weighted(&[2, 4, 4, 3, 2, 1, 1]) + if s.chance(1, 15) { 12 } else { 1 };
    let steps = s.range(2, 9);
    let lay_k = any_layout(s);
    match kind {
        0 => {
            cx.label("QR object");
            let rows = n + s.weighted(&[3, 1, 1, 1]);
            let m = match s.u(4) {
                0 => general(s, rows, n).0,
                1 => {
                    // exactly singular: every solving query fails
                    let mut m = plain(s, rows, n);
                    let j = s.u(n);
                    (0..rows).for_each(|i| m.set(i, j, 0.0));
                    m
                }
                _ => full_rank(s, rows, n).0,
            }
            .round::<T>();
            let a: Array2<T> = lay(&m, lay_k);
            let fresh = || ok(a.clone().qr_into(), "qr_into");
            let mut objs = vec![fresh()?];
            let mut log = vec![];
            let mut errs = 0;
            for _ in 0..steps {
                let o = s.u(objs.len());
                if s.chance(1, 5) && objs.len() < 4 {
                    let c = objs[o].clone();
                    objs.push(c);
                    log.push(format!("clone {}", o));
                    continue;
                }
                let q = s.u(10);
                // right-hand sides of right and wrong heights
                let h = match s.weighted(&[4, 1]) {
                    0 => {
                        if q == 3 || q == 4 {
                            n
                        } else {
                            rows
                        }
                    }
                    _ => s.range(0, 6),
                };
                let k = s.range(1, 2);
                let bl = any_layout(s);
                let b: Array2<T> = lay(&fill(s, h, k, 0), bl);
                log.push(format!("query {} on {} (rhs {}x{})", q, o, h, k));
                let got = qr_query(&objs[o], q, &b);
                let want = qr_query(&fresh()?, q, &b);
                errs += matches!(got, Ans::Err(_)) as usize;
                ensure!(got == want, "history-dependent", "after {:?}: {:?}, fresh decomposition: {:?}", log, got, want);
            }
            cx.label_if(errs > 0, "history with a failing query");
            cx.note(|| format!("{} QR {:?} {:?}", T::NAME, m, log));
            // consume one object at the end
            let d = objs.pop().unwrap();
            let (q, r) = d.into_decomp();
            check_qr::<T>(cx, &m, &to_m(&q), &to_m(&r))?;
            if let Some(d) = objs.pop() {
                let r2 = d.into_r();
                ensure!(mat(&r2) == mat(&r), "history-dependent", "R of a clone's original differs");
            }
        }
        1 => {
            cx.label("bidiagonal object");
            let (r, c) = if s.chance(1, 2) { (n + s.u(3), n) } else { (n, n + s.u(3)) };
            let m = general(s, r, c).0.round::<T>();
            let a: Array2<T> = lay(&m, lay_k);
            let fresh = || ok(a.clone().bidiagonal(), "bidiagonal");
            let mut objs = vec![fresh()?];
            let mut log = vec![];
            for _ in 0..steps {
                let o = s.u(objs.len());
                if s.chance(1, 5) && objs.len() < 4 {
                    let c = objs[o].clone();
                    objs.push(c);
                    log.push(format!("clone {}", o));
                    continue;
                }
                let q = s.u(6);
                log.push(format!("query {} on {}", q, o));
                let (got, want) = (bi_query(&objs[o], q), bi_query(&fresh()?, q));
                ensure!(got == want, "history-dependent", "after {:?}: {:?}, fresh decomposition: {:?}", log, got, want);
            }
            cx.note(|| format!("{} bidiagonal {:?} {:?}", T::NAME, m, log));
            let d = objs.pop().unwrap();
            let (uu, vt) = (to_m(&d.generate_u()), to_m(&d.generate_vt()));
            check_bidiag::<T>(cx, &m, &uu, &to_m(&d.into_b()), &vt)?;
        }
        _ => {
            cx.label("tridiagonal object");
            let m = symmetric(s, n).0.round::<T>();
            let a: Array2<T> = lay(&m, lay_k);
            let fresh = || ok(a.clone().sym_tridiagonal(), "sym_tridiagonal");
            let mut objs = vec![fresh()?];
            let mut log = vec![];
            for _ in 0..steps {
                let o = s.u(objs.len());
                if s.chance(1, 5) && objs.len() < 4 {
                    let c = objs[o].clone();
                    objs.push(c);
                    log.push(format!("clone {}", o));
                    continue;
                }
                let q = s.u(4);
                log.push(format!("query {} on {}", q, o));
                let (got, want) = (tri_query(&objs[o], q), tri_query(&fresh()?, q));
                ensure!(got == want, "history-dependent", "after {:?}: {:?}, fresh decomposition: {:?}", log, got, want);
            }
            cx.note(|| format!("{} tridiagonal {:?} {:?}", T::NAME, m, log));
            let d = objs.pop().unwrap();
            let q = to_m(&d.generate_q());
            check_tridiag::<T>(cx, &m, &q, &to_m(&d.into_tridiag_matrix()))?;
        }
    }
    cx.interesting();
    Ok(())
}

// ---------------------------------------------------------------- P28

/// Range of k such that every non-zero entry of 2^k * m stays normal and the largest stays clear of
/// overflow by `head` binary orders.
fn k_range<T: Sc>(m: &M, head: i32) -> Option<(i32, i32)> {
    let mx = m.max_abs();
    let mn = m.d.iter().filter(|x| **x != 0.0).fold(f64::INFINITY, |a, x| a.min(x.abs()));
    if mx == 0.0 {
        return Some((T::MINEXP + 60, T::MAXEXP - 60));
    }
    let (lo, hi) = (T::MINEXP - ilog2(mn), T::MAXEXP - head - ilog2(mx));
    (lo <= hi).then_some((lo, hi))
}
fn pick_k(s: &mut Source, (lo, hi): (i32, i32)) -> i32 {
    match s.weighted(&[2, 2, 2]) {
        0 => lo + s.u((hi - lo) as usize + 1) as i32,
        1 => (lo + s.range(0, 30) as i32).min(hi),
        _ => (hi - s.range(0, 30) as i32).max(lo),
    }
}
fn p28(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p28_t)
}
fn p28_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let op = s.u(9);
    let n = size_s(s);
    let r = n + s.weighted(&[4, 1, 1, 1]);
    let head = 2 + (2 * r * n + 8).ilog2() as i32;
    let label_k = |cx: &mut Cx, k: i32| {
        let sq = if T::IS32 { 60 } else { 500 };
        cx.label(if k.abs() > sq { "scale/squares leave the range" } else { "scale/squares in range" });
    };
    match op {
        0 | 1 => {
            // QR with full-rank or arbitrary content
            let (a, kap) = if op == 0 {
                let (a, kp, _) = full_rank(s, r, n);
                (a.round::<T>(), kp)
            } else {
                (general(s, r, n).0.round::<T>(), f64::NAN)
            };
            let kr = match k_range::<T>(&a, head) {
                Some(k) => k,
                None => return Ok(()),
            };
            let k = pick_k(s, kr);
            let b = a.ldexp(k);
            cx.label("qr");
            label_k(cx, k);
            cx.note(|| format!("{} qr 2^{} {:?}", T::NAME, k, a));
            if k != 0 {
                cx.interesting();
            }
            let (q1, r1) = ok(arr::<T>(s, &a).qr_into(), "qr_into")?.into_decomp();
            let (q2, r2) = ok(arr::<T>(s, &b).qr_into(), "qr_into")?.into_decomp();
            let (q1, r1, q2, r2) = (to_m(&q1), to_m(&r1), to_m(&q2), to_m(&r2));
            check_qr::<T>(cx, &b, &q2, &r2)?;
            if kap.is_finite() {
                let e = norm_exp(&a);
                let d = r1.ldexp(e).sub(&r2.ldexp(e - k)).frob();
                cx.within("R scales", d, 20.0 * u::<T>(r, n) * kap * a.ldexp(e).frob(), || format!("2^{} {}x{}", k, r, n))?;
                cx.within("Q unchanged", q1.sub(&q2).frob(), 20.0 * u::<T>(r, n) * kap * (n as f64).sqrt(), || format!("2^{} {}x{}", k, r, n))?;
            }
        }
        2 | 3 => {
            // least squares, exact, minimum norm, inverse; and refusal of exactly singular matrices
            let singular = s.chance(1, 5);
            let (mut a, kap, _) = full_rank(s, r, n);
            if singular {
                let j = s.u(n);
                (0..r).for_each(|i| a.set(i, j, 0.0));
            }
            // only strictly wide systems go through the transpose, where the zero line is a row
            let wide = r > n && s.chance(1, 2);
            let a = if wide { a.t() } else { a };
            let a = a.round::<T>();
            let kr = match k_range::<T>(&a, head) {
                Some(k) => k,
                None => return Ok(()),
            };
            let k = pick_k(s, kr);
            let b = a.ldexp(k);
            // right-hand sides are scaled along when the solution would leave the range otherwise
            let kb = if k.abs() > if T::IS32 { 40 } else { 300 } { k } else { s.pick(&[0, k]) };
            let y = dense(s, a.r, 2).round::<T>();
            let kb = match k_range::<T>(&y, head + 6) {
                Some((lo, hi)) => kb.clamp(lo, hi),
                None => 0,
            };
            let yb = y.ldexp(kb);
            cx.label(if singular { "least squares, singular" } else { "least squares" });
            label_k(cx, k);
            cx.note(|| format!("{} least_squares 2^{} rhs 2^{} {:?}", T::NAME, k, kb, a));
            if k != 0 {
                cx.interesting();
            }
            let x1 = arr::<T>(s, &a).least_squares(&arr::<T>(s, &y));
            let x2 = arr::<T>(s, &b).least_squares(&arr::<T>(s, &yb));
            if singular {
                ensure!(is_noninv(&x1) && is_noninv(&x2), "verdict-changes", "singular matrix: {:?} at scale 1, {:?} at 2^{}", x1.is_ok(), x2.is_ok(), k);
                return Ok(());
            }
            let (x1, x2) = (to_m(&ok(x1, "least_squares")?), to_m(&ok(x2, "least_squares")?));
            check_solution::<T>(cx, &b, &yb, &x2, kap)?;
            let kx = k - kb; // x2 = 2^(kb-k) x1
            let e = norm_exp(&x1);
            let fx = quantum::<T>(e + kx) * (r * n) as f64;
            if x2.finite() && fx < 1e-3 * T::EPS {
                let d = x1.ldexp(e).sub(&x2.ldexp(e + kx)).frob();
                cx.within("solution scales", d, 30.0 * u::<T>(r, n) * kap * kap * x1.ldexp(e).frob().max(y.ldexp(e).frob() / a.frob()), || format!("2^{} {:?}", k, a.dim()))?;
            }
            if a.r == a.c {
                let (i1, i2) = (ok(arr::<T>(s, &a).qr_into(), "qr")?.inverse(), ok(arr::<T>(s, &b).qr_into(), "qr")?.inverse());
                let (i1, i2) = (to_m(&ok(i1, "inverse")?), to_m(&ok(i2, "inverse")?));
                let e = norm_exp(&i1);
                if -e - k < T::MAXEXP - 4 && -e - k > T::MINEXP + if T::IS32 { 30 } else { 60 } && i2.finite() {
                    let d = i1.ldexp(e).sub(&i2.ldexp(e + k)).frob();
                    cx.within("inverse scales", d, 30.0 * u::<T>(n, n) * kap * i1.ldexp(e).frob(), || format!("2^{} n={}", k, n))?;
                    cx.label("inverse compared");
                }
            }
        }
        4 => {
            // Cholesky: verdict and factor
            let pd = s.chance(3, 4);
            let a = if pd { let m = spd(s, n).0; grade(s, &m) } else { symmetric(s, n).0 };
            let a = fit::<T>(a).round::<T>();
            let kr = match k_range::<T>(&a, head) {
                Some(k) => k,
                None => return Ok(()),
            };
            let k = pick_k(s, kr);
            let b = a.ldexp(k);
            cx.label("cholesky");
            label_k(cx, k);
            cx.note(|| format!("{} cholesky 2^{} {:?}", T::NAME, k, a));
            if k != 0 {
                cx.interesting();
            }
            let v = pd_class::<T>(&a);
            let (l1, l2) = (arr::<T>(s, &a).cholesky(), arr::<T>(s, &b).cholesky());
            match v {
                Pd::Yes => {
                    let (l1, l2) = (to_m(&ok(l1, "cholesky")?), to_m(&ok(l2, "cholesky")?));
                    check_llt::<T>(cx, &b, &l2)?;
                    check_llt::<T>(cx, &a, &l1)?;
                    // L scales by 2^(k/2): compare squares of the diagonal
                    for i in 0..n {
                        let (p, q) = (l1.get(i, i) / a.get(i, i).sqrt(), l2.get(i, i) / b.get(i, i).sqrt());
                        let _ = (p, q);
                    }
                    if k % 2 == 0 {
                        let w = l2.ldexp(-k / 2).sub(&l1);
                        for i in 0..n {
                            for j in 0..=i {
                                let sc = a.get(i, i).sqrt();
                                let t = l2.get(j, j) * ((-k / 2) as f64).exp2();
                                cx.within("L scales", w.get(i, j).abs() / sc, 4.0 * T::EPS * (n + 3) as f64 * (a.get(j, j) / t / t).max(1.0), || format!("{},{} 2^{}", i, j, k))?;
                            }
                        }
                    }
                }
                Pd::No => {
                    ensure!(
                        matches!(l1, Err(LinalgError::NotPositiveDefinite)) && matches!(l2, Err(LinalgError::NotPositiveDefinite)),
                        "verdict-changes",
                        "not positive definite: accepted {} at scale 1, {} at 2^{}",
                        l1.is_ok(),
                        l2.is_ok(),
                        k
                    )
                }
                _ => {}
            }
        }
        5 => {
            let (rr, cc) = if s.chance(1, 2) { (r, n) } else { (n, r) };
            let a = general(s, rr, cc).0.round::<T>();
            let kr = match k_range::<T>(&a, head) {
                Some(k) => k,
                None => return Ok(()),
            };
            let k = pick_k(s, kr);
            let b = a.ldexp(k);
            cx.label("bidiagonal");
            label_k(cx, k);
            cx.note(|| format!("{} bidiagonal 2^{} {:?}", T::NAME, k, a));
            if k != 0 {
                cx.interesting();
            }
            let d = ok(arr::<T>(s, &b).bidiagonal(), "bidiagonal")?;
            let (uu, vt) = (to_m(&d.generate_u()), to_m(&d.generate_vt()));
            check_bidiag::<T>(cx, &b, &uu, &to_m(&d.into_b()), &vt)?;
        }
        6 => {
            let a = symmetric(s, n).0.round::<T>();
            let kr = match k_range::<T>(&a, head) {
                Some(k) => k,
                None => return Ok(()),
            };
            let k = pick_k(s, kr);
            let b = a.ldexp(k);
            cx.label("tridiagonal");
            label_k(cx, k);
            cx.note(|| format!("{} tridiagonal 2^{} {:?}", T::NAME, k, a));
            if k != 0 {
                cx.interesting();
            }
            let d = ok(arr::<T>(s, &b).sym_tridiagonal(), "sym_tridiagonal")?;
            let q = to_m(&d.generate_q());
            check_tridiag::<T>(cx, &b, &q, &to_m(&d.into_tridiag_matrix()))?;
        }
        7 => {
            let a = symmetric(s, n).0.round::<T>();
            let kr = match k_range::<T>(&a, head) {
                Some(k) => k,
                None => return Ok(()),
            };
            let k = pick_k(s, kr);
            let b = a.ldexp(k);
            cx.label("eigh");
            label_k(cx, k);
            cx.note(|| format!("{} eigh 2^{} {:?}", T::NAME, k, a));
            if k != 0 {
                cx.interesting();
            }
            let w1 = eigvals::<T>(s, &a)?;
            let (w2, v2) = ok(arr::<T>(s, &b).eigh_into(), "eigh_into")?;
            check_eig::<T>(cx, &b, &vecf(&w2), &to_m(&v2))?;
            let e = norm_exp(&a);
            let sc = |w: Vec<f64>, k: i32| M { r: 1, c: w.len(), d: w }.ldexp(k).d;
            cmp_spectra::<T>(cx, "eigenvalues scale", &sc(vecf(&w2), e - k), &sc(w1, e), a.ldexp(e).frob().max(1.0), n, 0.0)?;
        }
        _ => {
            let (rr, cc) = if s.chance(1, 2) { (r, n) } else { (n, r) };
            let a = general(s, rr, cc).0.round::<T>();
            let kr = match k_range::<T>(&a, head) {
                Some(k) => k,
                None => return Ok(()),
            };
            let k = pick_k(s, kr);
            let b = a.ldexp(k);
            cx.label("svd");
            label_k(cx, k);
            cx.note(|| format!("{} svd 2^{} {:?}", T::NAME, k, a));
            if k != 0 {
                cx.interesting();
            }
            let w1 = run_svd::<T>(s, &a, false, false)?.1;
            let (uu, w2, vt) = run_svd::<T>(s, &b, true, true)?;
            check_svd::<T>(cx, &b, uu.as_ref(), &w2, vt.as_ref())?;
            let e = norm_exp(&a);
            let sc = |w: Vec<f64>, k: i32| M { r: 1, c: w.len(), d: w }.ldexp(k).d;
            cmp_spectra::<T>(cx, "singular values scale", &sc(w2, e - k), &sc(w1, e), a.ldexp(e).frob().max(1.0), r, 0.0)?;
        }
    }
    Ok(())
}

const A_ORACLE: &str = "oracle arithmetic (f64 products, Jacobi rotations) is accurate to a few ulps; tolerances are multiples of the type's epsilon and the size";
const A_SIZE: &str = "sizes up to about 70; larger matrices are not generated";

pub fn props() -> Vec<Prop> {
    let b = Prop { id: "", run: p07, quick: 0, thorough: 0, rule: "", pinned: &[], assumptions: &[A_ORACLE, A_SIZE] };
    vec![
        Prop { id: "P07", run: p07, quick: 4_000_000, thorough: 40_000_000, rule: "random r x c arrays of f64/f32/i32/u8/u64 (incl. NaN, infinities, -0.0), full, clean or clean with one placed element, as windows of a larger array or owned; non-trivial: both dimensions >= 2", assumptions: &[A_SIZE], ..b },
        Prop { id: "P14", run: p14, quick: 1_800_000, thorough: 24_000_000, rule: "random finite matrices over the whole exponent range (bands, extreme scales, extreme single rows/columns/entries, special values), symmetric or not, over operation-counting and plain floats; non-trivial: size >= 2 and not zero", assumptions: &["work is bounded by FUEL_K * (max dimension + 5)^3 counted floating-point operations", "entries are capped so that 4 * n * max is representable (exact results do not overflow)", A_SIZE], ..b },
        Prop { id: "P15", run: p15, quick: 1_200_000, thorough: 24_000_000, rule: "random value vectors with ties, signed zeros, infinities and vector matrices of arbitrary distinct bits, all three sort forms; non-trivial: at least two values", assumptions: &[A_SIZE], ..b },
        Prop { id: "P16", run: p16, quick: 8_000_000, thorough: 80_000_000, rule: "random public routine with A and B of every shape with dimensions 0..6, against a per-routine shape model; every case is non-trivial", assumptions: &["A is full rank and positive definite where square, so that only shapes decide", "with two shape faults at once either documented error is accepted"], ..b },
        Prop { id: "P17", run: p17, quick: 2_000_000, thorough: 40_000_000, rule: "random routine on mutable windows (6 kinds of stride/order) of a larger array with recognisable surroundings, both for matrix and right-hand side; every case is non-trivial", ..b },
        Prop { id: "P18", run: p18, quick: 5_000_000, thorough: 40_000_000, rule: "random unit axis (dense, coordinate, constant; three storages), bias and block of columns, optionally with one non-finite column; non-trivial: at least one row and one column", ..b },
        Prop { id: "P19", run: p19, quick: 5_000_000, thorough: 40_000_000, rule: "random arrays of dimension 0-4 in four storage families; non-trivial: at least two elements", assumptions: &["squares of the largest elements are representable"], ..b },
        Prop { id: "P26", run: p26, quick: 1_200_000, thorough: 24_000_000, rule: "random histories of 2-9 queries, clones and failing queries on decomposition objects, each answer compared bit for bit with a fresh decomposition's; every case is non-trivial", ..b },
        Prop { id: "P28", run: p28, quick: 1_200_000, thorough: 24_000_000, rule: "random matrix and power of two over the whole range in which no entry becomes subnormal or overflows; non-trivial: the power is not 0", ..b },
    ]
}
