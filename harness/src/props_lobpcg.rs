//! P20-P25: the iterative solver (LOBPCG), the truncated eigen-solver and the truncated SVD.
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::props_dense::*;
use crate::scalar::*;
use crate::{by_type, ensure};
use linfa_linalg::lobpcg::*;
use linfa_linalg::{LinalgError, Order};
use ndarray::prelude::*;
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use std::cell::RefCell;

// ---------------------------------------------------------------- operators and runs

/// A symmetric operator with entries representable in T, with its reference eigendecomposition.
struct Op {
    a: M,
    n: usize,
    w: Vec<f64>,
    v: M,
    norm: f64,
}
impl Op {
    fn new<T: Sc>(a: &M) -> Op {
        let mut a = a.round::<T>();
        for i in 0..a.r {
            for j in 0..i {
                let x = a.get(j, i);
                a.set(i, j, x);
            }
        }
        let (w, v) = jacobi_eig(&a);
        let norm = w.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        Op { n: a.r, a, w, v, norm }
    }
    fn from_spectrum<T: Sc>(s: &mut Source, sp: &[f64]) -> Op {
        let q = orthogonal(s, sp.len());
        Op::new::<T>(&q.mul(&M::diag(sp)).mul(&q.t()))
    }
    /// the wanted eigenvalues, in order
    fn wanted(&self, k: usize, order: Order) -> Vec<f64> {
        match order {
            Order::Smallest => self.w[..k].to_vec(),
            Order::Largest => self.w.iter().rev().take(k).copied().collect(),
        }
    }
    /// columns of the wanted eigenvectors, in order
    fn wanted_vecs(&self, k: usize, order: Order) -> M {
        let mut o = M::zeros(self.n, k);
        for j in 0..k {
            let jj = if order == Order::Smallest { j } else { self.n - 1 - j };
            for i in 0..self.n {
                o.set(i, j, self.v.get(i, jj));
            }
        }
        o
    }
    fn gap(&self, k: usize, order: Order) -> f64 {
        if k >= self.n {
            return f64::INFINITY;
        }
        match order {
            Order::Smallest => self.w[k] - self.w[k - 1],
            Order::Largest => self.w[self.n - k] - self.w[self.n - k - 1],
        }
    }
    /// the norm, or one for the zero operator
    fn scale(&self) -> f64 {
        if self.norm > 0.0 {
            self.norm
        } else {
            1.0
        }
    }
    fn spread(&self) -> f64 {
        self.w[self.n - 1] - self.w[0]
    }
}
fn ord(s: &mut Source) -> Order {
    if s.chance(1, 2) {
        Order::Smallest
    } else {
        Order::Largest
    }
}
/// The binary exponent by which an operator of norm about one is scaled: mostly none, sometimes far.
fn op_exp<T: Sc>(s: &mut Source, cx: &mut Cx) -> i32 {
    match s.weighted(&[12, 5, 1]) {
        0 => 0,
        1 => s.range(0, 20) as i32 - 10,
        _ => {
            cx.label("operator/far from unit scale");
            let lim = if T::IS32 { 18 } else { 80 };
            s.range(0, 2 * lim) as i32 - lim as i32
        }
    }
}
/// Any symmetric operator: given spectra of all sorts and structured matrices, moderate scale.
fn any_op<T: Sc>(s: &mut Source, cx: &mut Cx, n: usize) -> Op {
    let a = match s.weighted(&[3, 2]) {
        0 => {
            cx.label("operator/given spectrum");
            let sp = spectrum(s, n, false);
            let q = orthogonal(s, n);
            q.mul(&M::diag(&sp)).mul(&q.t())
        }
        _ => {
            cx.label("operator/structured");
            symmetric(s, n).0
        }
    };
    let e = op_exp::<T>(s, cx);
    let k = norm_exp(&a);
    // bring the norm to about one, then apply the scale
    Op::new::<T>(&if a.max_abs() > 0.0 { a.ldexp(k + e) } else { a })
}
thread_local! {
    /// not 0: replace starting blocks and seeds by others
    static OTHER_START: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
fn starting(s: &mut Source, n: usize, k: usize) -> M {
    let mut x = fill(s, n, k, 3);
    if s.chance(1, 10) {
        // any length will do for a start
        x = x.ldexp(s.range(0, 40) as i32 - 20);
    }
    let salt = OTHER_START.with(|c| c.get());
    if salt != 0 {
        let mut g = Expand::new(salt ^ hash_words(x.d.iter().map(|x| x.to_bits())));
        x.d.iter_mut().for_each(|x| *x = g.below(1 << 20) as f64 / (1 << 19) as f64 - 1.0);
    }
    x
}
fn seed(s: &mut Source) -> u64 {
    let seed = s.below(1 << 32);
    match OTHER_START.with(|c| c.get()) {
        0 => seed,
        salt => hash_words([seed, salt]) >> 32,
    }
}
/// Whether an iteration from a given start ends at the wanted eigenvectors is a matter of chance: it
/// may meet the tolerance near others first. A wrong result only counts if it is not the start's fault,
/// that is if other starts do not all give the right one.
fn whatever_the_start(s: &mut Source, cx: &mut Cx, f: CaseFn) -> Res {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            OTHER_START.with(|c| c.set(0));
        }
    }
    let e = match f(s, cx) {
        Err(e) if e.kind.starts_with("end:") => e,
        r => return r,
    };
    let tape = s.rec.clone();
    let mut good = 0;
    for salt in 1..=12 {
        let _reset = Reset;
        OTHER_START.with(|c| c.set(salt));
        let mut other = Cx::new(false);
        match f(&mut Source::replay(&tape), &mut other) {
            Err(_) => return Err(e),
            Ok(()) if other.nontrivial => good += 1,
            Ok(()) => {}
        }
        if good == 4 {
            cx.label("only this start ends elsewhere");
            return Ok(());
        }
    }
    Err(e)
}
/// A starting block with known conditioning; None when it is too ill-conditioned to demand anything.
fn start_block<T: Sc>(s: &mut Source, n: usize, k: usize, max_cond: f64) -> (M, Option<f64>) {
    let x = starting(s, n, k).round::<T>();
    let sv = jacobi_sv(&x);
    let (hi, lo) = (sv[0], sv[k - 1]);
    let c = if lo > 0.0 && hi / lo <= max_cond { Some(hi / lo) } else { None };
    (x, c)
}

#[derive(Clone)]
struct Pairs {
    vals: Vec<f64>,
    vecs: M,
    rnorm: Vec<f64>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Ok,
    NotConverged,
    Other,
}
struct Run {
    end: End,
    err: String,
    p: Option<Pairs>,
    /// rows, columns and finiteness of every block given to the operator and to the preconditioner
    calls: Vec<(usize, usize, bool)>,
    pcalls: Vec<(usize, usize, bool)>,
}
fn pairs<T: Sc>(l: Lobpcg<T>) -> Pairs {
    Pairs { vals: vecf(&l.eigvals), vecs: to_m(&l.eigvecs), rnorm: l.rnorm.iter().map(|x| x.f()).collect() }
}
fn split<T: Sc>(r: LobpcgResult<T>) -> (End, String, Option<Pairs>) {
    match r {
        Ok(l) => (End::Ok, String::new(), Some(pairs(l))),
        Err((e, l)) => {
            let end = if matches!(e, LinalgError::NotConverged) { End::NotConverged } else { End::Other };
            (end, format!("{:?}", e), l.map(pairs))
        }
    }
}
struct Cfg<'a> {
    pre: Option<&'a M>,
    y: Option<&'a M>,
    tol: f32,
    maxiter: usize,
    order: Order,
}
fn run<T: Sc>(a: &M, x: &M, lx: usize, c: &Cfg) -> Run {
    let aa: Array2<T> = lay(a, 0);
    let pre: Option<Array2<T>> = c.pre.map(|p| lay(p, 0));
    let y: Option<Array2<T>> = c.y.map(|y| lay(y, lx));
    let calls = RefCell::new(vec![]);
    let pcalls = RefCell::new(vec![]);
    let r = lobpcg(
        |b: ArrayView2<T>| {
            calls.borrow_mut().push((b.nrows(), b.ncols(), b.iter().all(|x| x.f().is_finite())));
            aa.dot(&b)
        },
        lay::<T>(x, lx),
        |mut b: ArrayViewMut2<T>| {
            pcalls.borrow_mut().push((b.nrows(), b.ncols(), b.iter().all(|x| x.f().is_finite())));
            if let Some(p) = &pre {
                let z = p.dot(&b);
                b.assign(&z);
            }
        },
        y.as_ref().map(|y| y.view()),
        c.tol,
        c.maxiter,
        c.order,
    );
    let (end, err, p) = split(r);
    Run { end, err, p, calls: calls.into_inner(), pcalls: pcalls.into_inner() }
}
/// a diagonal preconditioner with entries in [lo, hi], or a dense SPD one
fn preconditioner<T: Sc>(s: &mut Source, n: usize, spread: f64) -> M {
    let mut d = Draw::new(s, n);
    let p: Vec<f64> = (0..n).map(|_| 1.0 + (spread - 1.0) * (d.below(1 << 20) as f64 / (1 << 20) as f64)).collect();
    let m = if s.chance(1, 2) {
        M::diag(&p)
    } else {
        let q = orthogonal(s, n);
        q.mul(&M::diag(&p)).mul(&q.t())
    };
    Op::new::<T>(&m).a
}
fn limit(n: usize, maxiter: usize) -> usize {
    (10 * n).min(maxiter)
}

/// Everything demanded of any returned result, converged or not.
/// `y` has orthonormal columns spanning the constraints, residuals are those in its complement.
fn check_pairs<T: Sc>(cx: &mut Cx, op: &Op, p: &Pairs, k: usize, order: Order, cond: f64, calls: usize, y: Option<&M>) -> Res {
    let n = op.n;
    ensure!(p.vals.len() == k && p.rnorm.len() == k && p.vecs.dim() == (n, k), "shape", "{} values, {:?} vectors, {} residual norms", p.vals.len(), p.vecs.dim(), p.rnorm.len());
    ensure!(p.vecs.finite() && p.vals.iter().chain(&p.rnorm).all(|x| x.is_finite()), "not-finite", "values {:?} residuals {:?}", p.vals, p.rnorm);
    ensure!(
        p.vals.windows(2).all(|w| if order == Order::Largest { w[0] >= w[1] } else { w[0] <= w[1] }),
        "order",
        "{:?} values {:?}",
        order,
        p.vals
    );
    // directions with a Gram eigenvalue above sqrt(eps) are kept, so that is the loss of accuracy
    let c = 10.0 * (T::EPS.sqrt() + cond * cond * T::EPS) * (n + 10) as f64;
    cx.within("vectors orthonormal", orth_err(&p.vecs), c, || format!("n={} k={}", n, k))?;
    let av = op.a.mul(&p.vecs);
    let sc = op.norm.max(T::TINY) * c;
    for j in 0..k {
        let (v, w) = (p.vecs.col(j), av.col(j));
        cx.within("value is Rayleigh quotient", (dot(&v, &w) / dot(&v, &v) - p.vals[j]).abs(), sc, || format!("n={} k={} pair {}", n, k, j))?;
        let r: Vec<f64> = (0..n).map(|i| w[i] - p.vals[j] * v[i]).collect();
        let r = M { r: n, c: 1, d: r };
        let r = y.map_or_else(|| r.frob(), |y| complement(y, &r).frob());
        cx.within("residual norm as reported", (r - p.rnorm[j]).abs(), sc * (1.0 + calls as f64 / 20.0), || format!("n={} k={} pair {}", n, k, j))?;
    }
    Ok(())
}
fn total<T: Sc>(p: &Pairs) -> f64 {
    p.rnorm.iter().map(|x| T::of(*x)).sum::<T>().f()
}

// ---------------------------------------------------------------- P20

fn nk(s: &mut Source, max: usize) -> (usize, usize) {
    let n = match s.weighted(&[3, 4, 2]) {
        0 => s.range(1, 5),
        1 => s.range(6, 16.min(max)),
        // now and then far more than a handful
        _ if s.chance(1, 60) => return (s.range(30, 70), s.range(1, 6)),
        _ => s.range(10, max),
    };
    let k = match s.weighted(&[5, 3, 1]) {
        0 => s.range(1, n.min(5)),
        1 => s.range(1, n),
        _ => n,
    };
    (n, k)
}
fn tolerance<T: Sc>(s: &mut Source, norm: f64) -> f32 {
    let t = match s.weighted(&[1, 6, 2]) {
        0 => 0.0,
        1 => s.pick(&[1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8]) * norm,
        _ => s.pick(&[1e-3, 1e-5, 1e-10]),
    };
    t as f32
}

fn p20(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p20_t)
}
fn p20_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let (n, k) = nk(s, 24);
    let order = ord(s);
    let op = any_op::<T>(s, cx, n);
    let (x, cond) = start_block::<T>(s, n, k, if T::IS32 { 30.0 } else { 1e3 });
    let tol = tolerance::<T>(s, op.norm);
    let maxiter = match s.weighted(&[3, 2, 2]) {
        0 => s.range(0, 12),
        1 => 10 * n,
        _ => s.range(0, 100),
    };
    let pre = if s.chance(1, 3) { Some(preconditioner::<T>(s, n, 20.0)) } else { None };
    let lx = any_layout(s);
    let cfg = Cfg { pre: pre.as_ref(), y: None, tol, maxiter, order };
    cx.note(|| format!("{} n={} k={} {:?} tol={:e} maxiter={} pre={} eigenvalues {:?}", T::NAME, n, k, order, tol, maxiter, pre.is_some(), op.w));
    let r = run::<T>(&op.a, &x, lx, &cfg);
    let p = match (&r.p, cond) {
        (Some(p), _) => p,
        (None, None) => {
            cx.label("starting block too ill-conditioned");
            return Ok(());
        }
        (None, Some(c)) => return fail("no result", format!("{} for a starting block with condition number {:e}", r.err, c)),
    };
    let cond = match cond {
        Some(c) => c,
        None => return Ok(()),
    };
    if n >= 2 && k < n && r.calls.len() > 1 {
        cx.interesting();
    }
    cx.label(if k == n { "k = n" } else if 3 * k > n { "k > n/3" } else { "k <= n/3" });
    check_pairs::<T>(cx, &op, p, k, order, cond, r.calls.len(), None)?;
    let lim = limit(n, maxiter);
    match r.end {
        End::Ok => {
            cx.label("end/converged");
            // every pair was below the tolerance at the end, and the best total seen is returned
            let t = T::of(tol as f64).f() * k as f64;
            cx.within("converged total residual", total::<T>(p), t * (1.0 + 4.0 * k as f64 * T::EPS), || format!("n={} k={} tol={:e}", n, k, tol))?;
        }
        End::NotConverged => {
            cx.label("end/limit reached");
            ensure!(r.calls.len() == lim + 1, "gave-up-early", "not converged after {} of {} iterations", r.calls.len() as i64 - 1, lim);
            ensure!(p.rnorm.iter().any(|x| *x > tol as f64 * (1.0 - T::EPS)), "converged-but-error", "all residuals {:?} are below {:e}", p.rnorm, tol);
        }
        End::Other => {
            cx.label("end/other error");
        }
    }
    // longer runs only improve the result: the runs share their history
    let more = Cfg { maxiter: maxiter + s.range(1, 15), ..cfg };
    let r2 = run::<T>(&op.a, &x, lx, &more);
    match &r2.p {
        None => return fail("no result", format!("{} with more iterations", r2.err)),
        Some(p2) => ensure!(total::<T>(p2) <= total::<T>(p), "more-iterations-worse", "total residual {:e} after {} iterations, {:e} after {}", total::<T>(p), maxiter, total::<T>(p2), more.maxiter),
    }
    ensure!(r.end != End::Ok || r2.end == End::Ok, "success-lost", "converged within {} iterations, {:?} within {}", maxiter, r2.end, more.maxiter);
    Ok(())
}

// ---------------------------------------------------------------- P21

/// A spectrum (ascending) of n values whose k wanted ones are separated from the others by `gap`
/// (relative to the total spread), possibly with repeated values inside the wanted group.
fn gapped_spectrum(s: &mut Source, cx: &mut Cx, n: usize, k: usize, order: Order) -> Vec<f64> {
    let rest = n - k;
    let gap = s.pick(&[0.1, 0.3, 1.0, 3.0]);
    let mut d = Draw::new(s, n + 1);
    let mut inner: Vec<f64> = (0..rest).map(|_| d.below(1 << 16) as f64 / 65536.0).collect();
    if rest > 1 {
        inner[0] = 0.0;
        inner[1] = 1.0;
    }
    let top = inner.iter().fold(0.0f64, |a, b| a.max(*b));
    let mut outer = vec![];
    let mut cur = if rest > 0 { top + gap } else { 0.0 };
    let style = d.below(3);
    for i in 0..k {
        outer.push(cur);
        cur += match style {
            0 => 0.0,
            1 => 0.3,
            _ => (i % 2) as f64 * 0.5,
        };
    }
    cx.label(match style {
        0 => "wanted/all equal",
        1 => "wanted/distinct",
        _ => "wanted/pairs",
    });
    let mut v: Vec<f64> = inner.into_iter().chain(outer).collect();
    let shift = match s.weighted(&[2, 2, 2]) {
        0 => {
            cx.label("spectrum/indefinite");
            -0.5 * (v.iter().fold(0.0f64, |a, b| a.max(*b)))
        }
        1 => {
            cx.label("spectrum/positive");
            0.5
        }
        _ => {
            cx.label("spectrum/negative");
            -cur - 1.0
        }
    };
    v.iter_mut().for_each(|x| *x += shift);
    if order == Order::Smallest {
        v.iter_mut().for_each(|x| *x = -*x);
    }
    v
}
/// smallest singular value of W^T Q_X: how much of the wanted space the starting block sees
fn overlap(w: &M, x: &M) -> f64 {
    let q = orth_basis(x);
    if q.c < w.c {
        return 0.0;
    }
    *jacobi_sv(&w.t().mul(&q)).last().unwrap()
}
/// accuracy of eigenvalues whose residual norms are r, when the rest is separated by gap
fn value_tol<T: Sc>(op: &Op, r: f64) -> f64 {
    r + (op.norm + 1e-300) * T::EPS.sqrt() * 1e-1 * (op.n + 10) as f64
}
fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
/// |sin| of the largest angle between span(v) and the wanted space w (both orthonormal-ish)
fn angle(w: &M, v: &M) -> f64 {
    let p = w.mul(&w.t().mul(v));
    v.sub(&p).frob()
}
fn p21(s: &mut Source, cx: &mut Cx) -> Res {
    whatever_the_start(s, cx, |s, cx| by_type!(s, cx, p21_t))
}
fn p21_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let (n, k) = nk(s, 30);
    let order = ord(s);
    let sp = gapped_spectrum(s, cx, n, k, order);
    let mut op = Op::from_spectrum::<T>(s, &sp);
    let e = op_exp::<T>(s, cx);
    if e != 0 {
        op = Op::new::<T>(&op.a.ldexp(e));
    }
    let tol = op.scale() * if T::IS32 { s.pick(&[1e-2, 3e-3]) } else { s.pick(&[1e-4, 1e-5, 1e-6, 1e-7]) };
    let via = s.chance(1, 3);
    cx.label(if k == n { "k = n" } else if 3 * k > n { "k > n/3" } else { "k <= n/3" });
    let (r, ov) = if via {
        cx.label("via TruncatedEig");
        let seed = seed(s);
        cx.note(|| format!("{} TruncatedEig seed={} n={} k={} {:?} tol={:e} eigenvalues {:?}", T::NAME, seed, n, k, order, tol, op.w));
        let mut t = TruncatedEig::new_with_rng(lay::<T>(&op.a, any_layout(s)), order, Xoshiro256Plus::seed_from_u64(seed)).precision(tol as f32).maxiter(10 * n);
        let x = uniform_start(&mut Xoshiro256Plus::seed_from_u64(seed), n, k);
        let sv = jacobi_sv(&x);
        if sv[0] > sv[k - 1] * if T::IS32 { 100.0 } else { 1e5 } {
            cx.label("starting block too ill-conditioned");
            return Ok(());
        }
        (split(t.decompose(k)), overlap(&op.wanted_vecs(k, order), &x))
    } else {
        let (x, c) = start_block::<T>(s, n, k, if T::IS32 { 30.0 } else { 1e3 });
        if c.is_none() {
            return Ok(());
        }
        cx.note(|| format!("{} n={} k={} {:?} tol={:e} eigenvalues {:?}", T::NAME, n, k, order, tol, op.w));
        let r = run::<T>(&op.a, &x, any_layout(s), &Cfg { pre: None, y: None, tol: tol as f32, maxiter: 10 * n, order });
        ((r.end, r.err, r.p), overlap(&op.wanted_vecs(k, order), &x))
    };
    if ov < if T::IS32 { 0.1 } else { 0.03 } || (k < n && ov * op.gap(k, order) < 50.0 * tol) {
        cx.label("poor start");
        return Ok(());
    }
    if k < n {
        cx.interesting();
    }
    let (end, err, p) = r;
    let p = match p {
        Some(p) => p,
        None => return fail("no result", err),
    };
    cx.label(match end {
        End::Ok => "end/converged",
        End::NotConverged => "end/limit reached",
        _ => "end/other error",
    });
    let rt = M { r: 1, c: k, d: p.rnorm.clone() }.frob();
    ensure!(end == End::Ok, "end: does not converge", "{} residuals {:?} tol {:e}", err, p.rnorm, tol);
    let want = op.wanted(k, order);
    for j in 0..k {
        cx.within("end: extremal eigenvalues", (want[j] - p.vals[j]).abs(), value_tol::<T>(&op, rt), || format!("want {:?} got {:?}", want, p.vals))?;
    }
    if k < n {
        let gap = op.gap(k, order);
        let t = 4.0 * value_tol::<T>(&op, rt) * (k as f64).sqrt() / gap;
        cx.within("end: wanted subspace", angle(&op.wanted_vecs(k, order), &p.vecs), t, || format!("gap {:e}", gap))?;
    }
    Ok(())
}

/// The starting block TruncatedEig draws: uniform in [0, 1).
fn uniform_start(g: &mut Xoshiro256Plus, n: usize, k: usize) -> M {
    let mut x = M::zeros(n, k);
    for i in 0..n {
        for j in 0..k {
            x.set(i, j, rand::Rng::gen::<f64>(g));
        }
    }
    x
}

// ---------------------------------------------------------------- P22

/// An operator of size n and `c` orthonormal vectors (columns of the returned matrix), such that the
/// operator compressed to their complement has the given eigenvalues. Without coupling the vectors are
/// eigenvectors. Also returns those eigenvalues in ascending order with their vectors.
fn split_op<T: Sc>(s: &mut Source, rest: &[f64], c: usize, coupling: f64) -> (Op, M, Vec<f64>, M) {
    let n = rest.len() + c;
    let top = rest.iter().fold(1.0f64, |a, b| a.max(b.abs()));
    let mut d = Draw::new(s, c);
    // the singled-out eigenvalues lie anywhere, in particular beyond all others
    let mut sp: Vec<f64> = (0..c).map(|_| (d.below(25) as f64 - 12.0) / 8.0 * top).collect();
    sp.extend(rest);
    let q = orthogonal(s, n);
    let mut b = M::diag(&sp);
    if coupling > 0.0 {
        let e = fill(s, c, n - c, 3);
        for i in 0..c {
            for j in 0..n - c {
                b.set(i, c + j, coupling * e.get(i, j));
                b.set(c + j, i, coupling * e.get(i, j));
            }
        }
    }
    let op = Op::new::<T>(&q.mul(&b).mul(&q.t()));
    // the others, ascending with their vectors
    let mut idx: Vec<usize> = (c..n).collect();
    idx.sort_by(|a, b| sp[*a].total_cmp(&sp[*b]));
    let mut v = M::zeros(n, n - c);
    for (jj, j) in idx.iter().enumerate() {
        for i in 0..n {
            v.set(i, jj, q.get(i, *j));
        }
    }
    (op, q.cols(0, c), idx.iter().map(|j| sp[*j]).collect(), v)
}
/// A basis of span(y): mixed, scaled, reordered columns; the condition number stays below about 100.
fn other_basis<T: Sc>(s: &mut Source, cx: &mut Cx, y: &M) -> M {
    let c = y.c;
    let m = match s.weighted(&[1, 3, 2]) {
        0 => {
            cx.label("basis/orthonormal");
            return y.round::<T>();
        }
        1 => {
            cx.label("basis/mixed");
            let sv: Vec<f64> = (0..c).map(|i| if i == 0 { 1.0 } else { 1.0 / (1.0 + s.u(if T::IS32 { 8 } else { 50 }) as f64) }).collect();
            with_singular_values(s, c, c, &sv)
        }
        _ => {
            cx.label("basis/scaled");
            let p = s.perm(c);
            let mut m = M::zeros(c, c);
            // columns of very different length now and then
            let far = if s.chance(1, 4) { if T::IS32 { 25 } else { 200 } } else { 0 };
            for (i, j) in p.into_iter().enumerate() {
                let f = s.range(0, 2 * far) as i32 - far as i32;
                m.set(i, j, s.pick(&[1.0, -1.0, 2.0, 0.25, 10.0, -0.125]) * (f as f64).exp2());
            }
            if far > 0 {
                cx.label("basis/far from unit length");
            }
            m
        }
    };
    let far = if s.chance(1, 6) { if T::IS32 { 20 } else { 200 } } else { 6 };
    let e = s.range(0, 2 * far) as i32 - far as i32;
    y.mul(&m).ldexp(e).round::<T>()
}
/// part of x orthogonal to the orthonormal columns of y
fn complement(y: &M, x: &M) -> M {
    let p = x.sub(&y.mul(&y.t().mul(x)));
    p.sub(&y.mul(&y.t().mul(&p)))
}
/// condition number of a starting block after projection, measured against its size before
fn projected_cond(x: &M, px: &M) -> f64 {
    let lo = *jacobi_sv(px).last().unwrap();
    if lo > 0.0 {
        jacobi_sv(x)[0] / lo
    } else {
        f64::INFINITY
    }
}
fn max_cond<T: Sc>() -> f64 {
    if T::IS32 {
        100.0
    } else {
        1e5
    }
}
fn p22(s: &mut Source, cx: &mut Cx) -> Res {
    whatever_the_start(s, cx, |s, cx| by_type!(s, cx, p22_t))
}
fn p22_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let n = s.range(2, 22);
    let c = match s.weighted(&[3, 1]) {
        0 => s.range(1, (n - 1).min(5)),
        _ => s.range(1, n - 1),
    };
    let rest = n - c;
    let k = if s.chance(3, 4) { s.range(1, rest.min(4)) } else { s.range(1, rest) };
    let order = ord(s);
    let lx = any_layout(s);
    if s.chance(1, 4) {
        return p22_general::<T>(s, cx, n, c, k, order, lx);
    }
    let coupling = s.pick(&[0.0, 0.0, 0.1, 1.0]);
    cx.label(if coupling == 0.0 { "invariant constraints" } else { "coupled constraints" });
    let sp = gapped_spectrum(s, cx, rest, k, order);
    let (mut op, y0, mut w, v) = split_op::<T>(s, &sp, c, coupling);
    let e = op_exp::<T>(s, cx);
    if e != 0 {
        op = Op::new::<T>(&op.a.ldexp(e));
        w.iter_mut().for_each(|x| *x *= (e as f64).exp2());
    }
    let y = other_basis::<T>(s, cx, &y0);
    let tol = op.scale() * if T::IS32 { s.pick(&[1e-2, 3e-3]) } else { s.pick(&[1e-4, 1e-5, 1e-6]) };
    let (want, wv): (Vec<f64>, M) = match order {
        Order::Smallest => (w[..k].to_vec(), v.cols(0, k)),
        Order::Largest => {
            let mut m = M::zeros(n, k);
            for j in 0..k {
                for i in 0..n {
                    m.set(i, j, v.get(i, rest - 1 - j));
                }
            }
            (w.iter().rev().take(k).copied().collect(), m)
        }
    };
    let gap = match (k < rest, order) {
        (false, _) => f64::INFINITY,
        (_, Order::Smallest) => w[k] - w[k - 1],
        (_, Order::Largest) => w[rest - k] - w[rest - k - 1],
    };
    let via = s.chance(1, 3);
    let seed = seed(s);
    let x = if via { uniform_start(&mut Xoshiro256Plus::seed_from_u64(seed), n, k) } else { starting(s, n, k).round::<T>() };
    cx.note(|| format!("{} n={} constraints={:?} k={} {:?} tol={:e} via TruncatedEig={} seed={} remaining eigenvalues {:?} all {:?}", T::NAME, n, y, k, order, tol, via, seed, w, op.w));
    let px = complement(&y0, &x);
    let pc = projected_cond(&x, &px);
    let ov = overlap(&wv, &px);
    let solve = |y: &M, lx: usize| {
        if via {
            let mut t = TruncatedEig::new_with_rng(lay::<T>(&op.a, lx), order, Xoshiro256Plus::seed_from_u64(seed)).precision(tol as f32).maxiter(10 * n).orthogonal_to(lay::<T>(y, lx));
            split(t.decompose(k))
        } else {
            let r = run::<T>(&op.a, &x, lx, &Cfg { pre: None, y: Some(y), tol: tol as f32, maxiter: 10 * n, order });
            (r.end, r.err, r.p)
        }
    };
    cx.label_if(via, "via TruncatedEig");
    let (end, err, p) = solve(&y, lx);
    if pc > max_cond::<T>() {
        cx.label("starting block too ill-conditioned");
        return Ok(());
    }
    let p = match p {
        Some(p) => p,
        None => return fail("no result", err),
    };
    check_constrained::<T>(cx, &op, &y0, &p, k, order, pc)?;
    if ov < if T::IS32 { 0.1 } else { 0.03 } || ov * gap < 50.0 * tol {
        cx.label("poor start");
        return Ok(());
    }
    cx.interesting();
    ensure!(end == End::Ok, "end: does not converge", "{} residuals {:?} tol {:e}", err, p.rnorm, tol);
    let rt = M { r: 1, c: k, d: p.rnorm.clone() }.frob();
    let vt = value_tol::<T>(&op, rt);
    for j in 0..k {
        cx.within("end: extremal remaining eigenvalues", (want[j] - p.vals[j]).abs(), vt, || format!("want {:?} got {:?}", want, p.vals))?;
    }
    if k < rest {
        cx.within("end: wanted remaining subspace", angle(&wv, &p.vecs), 4.0 * vt * (k as f64).sqrt() / gap, || format!("gap {:e}", gap))?;
    }
    // another basis of the same space
    let y2 = other_basis::<T>(s, cx, &y0);
    let (end2, err2, p2) = solve(&y2, 0);
    let p2 = match p2 {
        Some(p) => p,
        None => return fail("no result", format!("{} with another basis {:?}", err2, y2)),
    };
    ensure!(end2 == End::Ok, "end: does not converge", "{} with another basis {:?}", err2, y2);
    let rt2 = M { r: 1, c: k, d: p2.rnorm.clone() }.frob();
    for j in 0..k {
        cx.within("end: same values for another basis", (p2.vals[j] - p.vals[j]).abs(), vt + value_tol::<T>(&op, rt2), || format!("{:?} and {:?}", p.vals, p2.vals))?;
    }
    Ok(())
}
fn check_constrained<T: Sc>(cx: &mut Cx, op: &Op, y0: &M, p: &Pairs, k: usize, order: Order, cond: f64) -> Res {
    check_pairs::<T>(cx, op, p, k, order, cond, 20, Some(y0))?;
    let c = 10.0 * (T::EPS.sqrt() + cond * T::EPS) * (op.n + 10) as f64;
    cx.within("orthogonal to the constraints", y0.t().mul(&p.vecs).max_abs(), c, || format!("n={} k={}", op.n, k))
}
/// Constraints that are no eigenvectors: the vectors stay in their complement all the same.
fn p22_general<T: Sc>(s: &mut Source, cx: &mut Cx, n: usize, c: usize, k: usize, order: Order, lx: usize) -> Res {
    cx.label("arbitrary constraints");
    let op = any_op::<T>(s, cx, n);
    let q = orthogonal(s, n);
    let y0 = q.cols(0, c);
    let y = other_basis::<T>(s, cx, &y0);
    let x = starting(s, n, k).round::<T>();
    let px = complement(&y0, &x);
    let pc = projected_cond(&x, &px);
    // below the rounding level of the operator, iterations amplify noise in any direction
    let tol = tolerance::<T>(s, op.norm).max((op.norm.max(T::TINY) * T::EPS * if T::IS32 { 1e3 } else { 1e6 }) as f32);
    let maxiter = s.range(0, 30);
    let pre = if s.chance(1, 3) { Some(preconditioner::<T>(s, n, 20.0)) } else { None };
    cx.note(|| format!("{} n={} constraints={:?} k={} {:?} tol={:e} maxiter={} eigenvalues {:?}", T::NAME, n, y, k, order, tol, maxiter, op.w));
    let r = run::<T>(&op.a, &x, lx, &Cfg { pre: pre.as_ref(), y: Some(&y), tol, maxiter, order });
    if pc > max_cond::<T>() {
        cx.label("starting block too ill-conditioned");
        return Ok(());
    }
    let p = match r.p {
        Some(p) => p,
        None => return fail("no result", r.err),
    };
    cx.label_if(r.calls.len() > 1, "arbitrary constraints, iterated");
    if r.calls.len() > 1 {
        cx.interesting();
    }
    check_constrained::<T>(cx, &op, &y0, &p, k, order, pc)?;
    // Ritz values of a subspace of the complement interlace those of the compressed operator
    let b = q.cols(c, n);
    let cw = jacobi_eig(&b.t().mul(&op.a).mul(&b)).0;
    let t = op.norm.max(T::TINY) * (T::EPS.sqrt() + pc * T::EPS) * 2.0 * (n + 10) as f64;
    for j in 0..k {
        let (bound, over) = match order {
            Order::Largest => (cw[n - c - 1 - j], p.vals[j] - cw[n - c - 1 - j]),
            Order::Smallest => (cw[j], cw[j] - p.vals[j]),
        };
        cx.within("values interlace the compressed spectrum", over, t, || format!("pair {} value {:e} bound {:e}", j, p.vals[j], bound))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P23

fn p23(s: &mut Source, cx: &mut Cx) -> Res {
    whatever_the_start(s, cx, |s, cx| by_type!(s, cx, p23_t))
}
fn p23_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    match s.weighted(&[4, 2, 3]) {
        0 => p23_calls::<T>(s, cx),
        1 => p23_converged_start::<T>(s, cx),
        _ => p23_preconditioned::<T>(s, cx),
    }
}
fn check_calls(r: &Run, n: usize, k: usize, lim: usize) -> Res {
    for (what, calls) in [("operator", &r.calls), ("preconditioner", &r.pcalls)] {
        for (i, (rows, cols, finite)) in calls.iter().enumerate() {
            ensure!(*rows == n && *cols >= 1 && *cols <= k, "block shape", "{} call {} with a {}x{} block, n={} k={}", what, i, rows, cols, n, k);
            ensure!(*finite, "block not finite", "{} call {} of {}", what, i, calls.len());
        }
    }
    ensure!(r.calls.len() <= lim + 1, "too many operator calls", "{} calls, iteration limit {}", r.calls.len(), lim);
    ensure!(r.pcalls.len() <= lim, "too many preconditioner calls", "{} calls, iteration limit {}", r.pcalls.len(), lim);
    Ok(())
}
fn p23_calls<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    cx.label("call history");
    let (n, k) = nk(s, 20);
    let order = ord(s);
    let op = any_op::<T>(s, cx, n);
    let (x, _) = start_block::<T>(s, n, k, 1e3);
    let tol = tolerance::<T>(s, op.norm);
    let maxiter = match s.weighted(&[3, 1, 2]) {
        0 => s.range(0, 12),
        1 => s.pick(&[10 * n, 10 * n + 1, 1000, usize::MAX]),
        _ => s.range(0, 100),
    };
    let spread = s.pick(&[2.0, 20.0, 1000.0]);
    let pre = if s.chance(1, 2) { Some(preconditioner::<T>(s, n, spread)) } else { None };
    let cfg = Cfg { pre: pre.as_ref(), y: None, tol, maxiter, order };
    cx.note(|| format!("{} n={} k={} {:?} tol={:e} maxiter={} pre={} eigenvalues {:?}", T::NAME, n, k, order, tol, maxiter, pre.is_some(), op.w));
    let r = run::<T>(&op.a, &x, any_layout(s), &cfg);
    let lim = limit(n, maxiter);
    check_calls(&r, n, k, lim)?;
    if r.calls.len() > 2 {
        cx.interesting();
    }
    cx.label_if(r.calls.iter().any(|c| c.1 < k), "converged pairs left out of calls");
    cx.label_if(r.calls.len() == lim + 1 && lim > 0, "limit exhausted");
    // the preconditioner sees the residuals, the operator sees the start and then as many directions
    ensure!(r.calls.is_empty() || r.calls.len() == r.pcalls.len() + 1, "calls unpaired", "{} operator calls, {} preconditioner calls", r.calls.len(), r.pcalls.len());
    for (i, (c, p)) in r.calls.iter().skip(1).zip(&r.pcalls).enumerate() {
        ensure!(c.1 == p.1, "calls unpaired", "iteration {}: operator applied to {} columns, preconditioner to {}", i, c.1, p.1);
    }
    Ok(())
}
/// Starting in the wanted invariant subspace, there is nothing to iterate.
fn p23_converged_start<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    cx.label("start in an invariant subspace");
    let (n, k) = nk(s, 20);
    let order = ord(s);
    let op = any_op::<T>(s, cx, n);
    let mut w = M::zeros(n, k);
    let idx = s.perm(n);
    for j in 0..k {
        for i in 0..n {
            w.set(i, j, op.v.get(i, idx[j]));
        }
    }
    let x = other_basis::<T>(s, cx, &w);
    let tol = (op.norm.max(T::TINY) * T::EPS * 3e4 * (n + 10) as f64).max(T::TINY * 1e3) as f32;
    let maxiter = s.pick(&[0, 1, 5, 10 * n]);
    cx.note(|| format!("{} n={} k={} {:?} tol={:e} maxiter={} start {:?} eigenvalues {:?}", T::NAME, n, k, order, tol, maxiter, x, op.w));
    let r = run::<T>(&op.a, &x, any_layout(s), &Cfg { pre: None, y: None, tol, maxiter, order });
    cx.interesting();
    ensure!(r.end == End::Ok, "not recognised as converged", "{} residuals {:?}", r.err, r.p.as_ref().map(|p| p.rnorm.clone()));
    ensure!(r.calls.len() == 1 && r.pcalls.is_empty(), "needless iterations", "{} operator calls, {} preconditioner calls", r.calls.len(), r.pcalls.len());
    let p = r.p.unwrap();
    let mut want: Vec<f64> = (0..k).map(|j| op.w[idx[j]]).collect();
    want = sorted(want);
    if order == Order::Largest {
        want.reverse();
    }
    for j in 0..k {
        cx.within("values of the invariant subspace", (want[j] - p.vals[j]).abs(), 2.0 * tol as f64, || format!("want {:?} got {:?}", want, p.vals))?;
    }
    Ok(())
}
/// A preconditioner does not change what is converged to.
fn p23_preconditioned<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    cx.label("preconditioned");
    let (n, k) = nk(s, 20);
    let order = ord(s);
    let sp = gapped_spectrum(s, cx, n, k, order);
    let mut op = Op::from_spectrum::<T>(s, &sp);
    let e = op_exp::<T>(s, cx);
    if e != 0 {
        op = Op::new::<T>(&op.a.ldexp(e));
    }
    let tol = op.scale() * if T::IS32 { s.pick(&[1e-2, 3e-3]) } else { s.pick(&[1e-4, 1e-5, 1e-6]) };
    let spread = s.pick(&[2.0, 4.0]);
    let pre = preconditioner::<T>(s, n, spread);
    let via = s.chance(1, 3);
    let seed = seed(s);
    let x = if via { uniform_start(&mut Xoshiro256Plus::seed_from_u64(seed), n, k) } else { starting(s, n, k).round::<T>() };
    cx.note(|| format!("{} n={} k={} {:?} tol={:e} via TruncatedEig={} seed={} preconditioner {:?} eigenvalues {:?}", T::NAME, n, k, order, tol, via, seed, pre, op.w));
    cx.label_if(via, "via TruncatedEig");
    let pc = projected_cond(&x, &x);
    let wv = op.wanted_vecs(k, order);
    let gap = op.gap(k, order);
    let ov = overlap(&wv, &x);
    if pc > max_cond::<T>() || ov < if T::IS32 { 0.1 } else { 0.03 } || ov * gap < 50.0 * tol {
        cx.label("poor start");
        return Ok(());
    }
    if k < n {
        cx.interesting();
    }
    let (end, err, p) = if via {
        let mut t = TruncatedEig::new_with_rng(lay::<T>(&op.a, any_layout(s)), order, Xoshiro256Plus::seed_from_u64(seed)).precision(tol as f32).maxiter(10 * n).precondition_with(lay::<T>(&pre, any_layout(s)));
        split(t.decompose(k))
    } else {
        let r = run::<T>(&op.a, &x, any_layout(s), &Cfg { pre: Some(&pre), y: None, tol: tol as f32, maxiter: 10 * n, order });
        check_calls(&r, n, k, 10 * n)?;
        (r.end, r.err, r.p)
    };
    let p = match p {
        Some(p) => p,
        None => return fail("no result", err),
    };
    ensure!(end == End::Ok, "end: does not converge", "{} residuals {:?} tol {:e}", err, p.rnorm, tol);
    check_pairs::<T>(cx, &op, &p, k, order, pc, 20, None)?;
    let rt = M { r: 1, c: k, d: p.rnorm.clone() }.frob();
    let vt = value_tol::<T>(&op, rt);
    let want = op.wanted(k, order);
    for j in 0..k {
        cx.within("end: extremal eigenvalues, preconditioned", (want[j] - p.vals[j]).abs(), vt, || format!("want {:?} got {:?}", want, p.vals))?;
    }
    if k < n {
        cx.within("end: wanted subspace, preconditioned", angle(&wv, &p.vecs), 4.0 * vt * (k as f64).sqrt() / gap, || format!("gap {:e}", gap))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P24

fn p24(s: &mut Source, cx: &mut Cx) -> Res {
    whatever_the_start(s, cx, |s, cx| by_type!(s, cx, p24_t))
}
fn p24_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    // now and then more blocks than a handful
    let long = s.chance(1, 40);
    let n = if long { s.range(13, if T::IS32 { 16 } else { 32 }) } else { s.range(1, if T::IS32 { 8 } else { 12 }) };
    let order = ord(s);
    let step = match s.weighted(&[3, 3]) {
        0 => 1,
        _ => s.range(1, if T::IS32 { 3 } else { n + 2 }),
    };
    let c = if s.chance(1, 3) { s.range(0, n) } else { 0 };
    // distinct values, at least 0.4 apart
    let mut at = -(s.range(0, 2 * n) as f64) * 0.5;
    let mut sp = vec![];
    for _ in c..n {
        sp.push(at);
        at += s.pick(&[0.4, 0.7, 1.0]);
    }
    let (mut op, y0, mut w, v) = split_op::<T>(s, &sp, c, 0.0);
    // the iterator gives up on residuals above a fixed size, so the problem may only shrink
    let scale = if s.chance(1, 6) { -(s.range(1, if T::IS32 { 12 } else { 50 }) as f64) } else { 0.0 }.exp2();
    if scale != 1.0 {
        cx.label("small scale");
        op = Op::new::<T>(&op.a.ldexp(scale.log2() as i32));
        w.iter_mut().for_each(|x| *x *= scale);
    }
    let rest = n - c;
    let y = if c > 0 { Some(other_basis::<T>(s, cx, &y0)) } else { None };
    let pre = if s.chance(1, 4) { Some(preconditioner::<T>(s, n, 2.0)) } else { None };
    let tol = scale * if T::IS32 { 2e-3 } else { s.pick(&[1e-4, 1e-6]) };
    let seed = seed(s);
    // builder calls in any sequence, some of them repeated: the last of a kind counts
    let mut builder = s.perm(4);
    if s.chance(1, 2) {
        builder.insert(0, s.u(4));
    }
    let hasty = s.chance(1, 6);
    let maxiter = if hasty { s.range(0, 4) } else { 10 * n };
    let lx = any_layout(s);
    cx.note(|| format!("{} n={} step={} {:?} tol={:e} maxiter={} seed={} constraints={:?} preconditioner={} builder={:?} eigenvalues {:?} remaining {:?}", T::NAME, n, step, order, tol, maxiter, seed, y, pre.is_some(), builder, op.w, w));
    let make = |seq: &[usize]| {
        let mut t = TruncatedEig::new_with_rng(lay::<T>(&op.a, lx), order, Xoshiro256Plus::seed_from_u64(seed));
        for (i, b) in seq.iter().enumerate() {
            let last = !seq[i + 1..].contains(b);
            t = match b {
                0 => t.precision(if last { tol as f32 } else { 0.5 }),
                1 => t.maxiter(if last { maxiter } else { 3 }),
                2 => match &y {
                    Some(y) if last => t.orthogonal_to(lay::<T>(y, lx)),
                    Some(_) => t.orthogonal_to(lay::<T>(&M::eye(n), 0)),
                    None => t,
                },
                _ => match &pre {
                    Some(p) if last => t.precondition_with(lay::<T>(p, lx)),
                    Some(_) => t.precondition_with(lay::<T>(&M::zeros(n, n), 0)),
                    None => t,
                },
            };
        }
        t
    };
    // where the starting blocks do not see what is wanted, nothing but the invariants is demanded
    let mut g = Xoshiro256Plus::seed_from_u64(seed);
    let mut good = true;
    let mut have = y0.clone();
    let mut done = 0;
    let col_of = |j: usize| if order == Order::Smallest { j } else { rest - 1 - j };
    while done < rest {
        let k = step.min(rest - done);
        let x = uniform_start(&mut g, n, k);
        let px = complement(&have, &x);
        let mut wv = M::zeros(n, k);
        for j in 0..k {
            for i in 0..n {
                wv.set(i, j, v.get(i, col_of(done + j)));
            }
        }
        let mut nh = M::zeros(n, have.c + k);
        for i in 0..n {
            for j in 0..have.c + k {
                nh.set(i, j, if j < have.c { have.get(i, j) } else { wv.get(i, j - have.c) });
            }
        }
        have = nh;
        done += k;
        good &= projected_cond(&x, &px) < if T::IS32 { 60.0 } else { 3e4 } && overlap(&wv, &px) > if T::IS32 { 0.1 } else { 0.03 };
    }
    let mut it: TruncatedEigIterator<T, Xoshiro256Plus> = if step == 1 && s.chance(1, 2) {
        cx.label("into_iter");
        make(&builder).into_iter()
    } else {
        match make(&builder).into_iter_step_size(step) {
            Ok(i) => i,
            Err(e) => return fail("no iterator", format!("{:?}", e)),
        }
    };
    let mut plain_it = make(&[0, 1, 2, 3]).into_iter_step_size(step).unwrap();
    let mut vals: Vec<f64> = vec![];
    let mut vecs: Vec<Vec<f64>> = (0..c).map(|j| y0.col(j)).collect();
    let mut blocks = 0;
    let ended = loop {
        ensure!(blocks <= n, "endless", "{} blocks of a problem of size {}", blocks, n);
        let got = it.next();
        let other = plain_it.next();
        let same = match (&got, &other) {
            (None, None) => true,
            (Some(a), Some(b)) => a.0.iter().zip(b.0.iter()).all(|(x, y)| x.f().to_bits() == y.f().to_bits()) && to_m(&a.1).same_bits(&to_m(&b.1)),
            _ => false,
        };
        ensure!(same, "builder sequence matters", "block {}: {:?} with {:?}, {:?} with the plain sequence", blocks, got.as_ref().map(|x| &x.0), builder, other.as_ref().map(|x| &x.0));
        let (bv, bm) = match got {
            Some(x) => x,
            None => break vals.len(),
        };
        let left = rest - vals.len().min(rest);
        ensure!(left > 0, "too many pairs", "{} pairs before, then {:?}", vals.len(), bv);
        let k = step.min(left);
        ensure!(bv.len() == k && bm.dim() == (n, k), "block size", "step {}, {} left: {} values and {:?} vectors", step, left, bv.len(), bm.dim());
        let (bv, bm) = (vecf(&bv), to_m(&bm));
        ensure!(bm.finite() && bv.iter().all(|x| x.is_finite()), "not-finite", "{:?}", bv);
        ensure!(bv.windows(2).all(|w| if order == Order::Largest { w[0] >= w[1] } else { w[0] <= w[1] }), "order", "{:?}", bv);
        let av = op.a.mul(&bm);
        let mut before = M::zeros(n, vecs.len());
        for (j, u) in vecs.iter().enumerate() {
            for i in 0..n {
                before.set(i, j, u[i]);
            }
        }
        let before = orth_basis(&before);
        for j in 0..k {
            let mut r = M::zeros(n, 1);
            (0..n).for_each(|i| r.set(i, 0, av.get(i, j) - bv[j] * bm.get(i, j)));
            // in the complement of what was found before
            let r = complement(&before, &r).frob();
            // pairs with larger residuals count as not converged and end the iteration
            cx.within("yielded residual", r, 0.1 + T::EPS.sqrt() * op.norm * n as f64, || format!("pair {} of block {}", j, blocks))?;
            let u = bm.col(j);
            if good {
                cx.within("unit vectors", (dot(&u, &u).sqrt() - 1.0).abs(), T::EPS.sqrt() * (n + 10) as f64, || format!("pair {} of block {}", j, blocks))?;
                for (i, o) in vecs.iter().enumerate() {
                    cx.within("orthogonal to those before", dot(o, &u).abs(), T::EPS.sqrt() * (n + 10) as f64, || format!("vector {} and pair {} of block {}", i, j, blocks))?;
                }
            }
            vecs.push(u);
        }
        vals.extend(bv);
        blocks += 1;
    };
    ensure!(it.next().is_none() || ended < rest, "resumed after the end", "after {} pairs", ended);
    if hasty {
        cx.label(if ended < rest { "few iterations, ended early" } else { "few iterations, all found" });
        return Ok(());
    }
    if !good {
        cx.label("poor start");
        return Ok(());
    }
    if blocks > 1 {
        cx.interesting();
    }
    cx.label_if(c > 0, "initial constraints");
    cx.label_if(step > 1, "steps of several pairs");
    cx.label_if(step > 1 && rest % step != 0, "smaller last block");
    ensure!(ended == rest, "end: ended early", "{} of {} pairs: {:?}", ended, rest, vals);
    for j in 0..rest {
        let want = w[col_of(j)];
        cx.within("end: spectrum enumerated", (vals[j] - want).abs(), 10.0 * tol + op.norm * T::EPS.sqrt() * 0.1 * (n + 10) as f64, || format!("want {:?} ({:?}) got {:?}", w, order, vals))?;
        let wv = v.col(col_of(j));
        cx.within("end: eigenvectors enumerated", 1.0 - dot(&wv, &vecs[c + j]).abs(), ((300.0 * tol + T::EPS.sqrt() * op.norm * (n + 10) as f64) / scale).powi(2) + 100.0 * T::EPS, || format!("pair {}", j))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P25

fn p25(s: &mut Source, cx: &mut Cx) -> Res {
    whatever_the_start(s, cx, |s, cx| by_type!(s, cx, p25_t))
}
fn p25_t<T: Sc + MagnitudeCorrection>(s: &mut Source, cx: &mut Cx) -> Res {
    let (small, k) = nk(s, 16);
    let extra = match s.weighted(&[2, 3]) {
        0 => 0,
        _ => s.range(1, 12),
    };
    let tall = s.chance(1, 2);
    let (r, c) = if tall { (small + extra, small) } else { (small, small + extra) };
    // the larger side decides which Gram matrix is iterated on
    let tall = r > c;
    let order = ord(s);
    let cutoff = T::EPS * if T::IS32 { 1e3 } else { 1e6 };
    // squares of the singular values: wanted ones separated from the others, or anything at all
    let mode = s.weighted(&[5, 2, 3]);
    let a = match mode {
        0 => {
            cx.label("separated");
            let sp = gapped_spectrum(s, cx, small, k, order);
            let lo = sp.iter().fold(f64::INFINITY, |a, b| a.min(*b));
            let up = s.pick(&[0.0, 0.25, 1.0]);
            let sv: Vec<f64> = sp.iter().map(|x| (x - lo + up).sqrt()).collect();
            with_singular_values(s, r, c, &sv)
        }
        1 => {
            cx.label("low rank");
            // equal or distinct nonzero values, then zeros
            let rank = s.range(0, small);
            let sv: Vec<f64> = (0..small).map(|i| if i < rank { (1.0 + s.u(4) as f64).sqrt() } else { 0.0 }).collect();
            with_singular_values(s, r, c, &sv)
        }
        _ => {
            cx.label("any matrix");
            let m = general(s, r, c).0;
            let k = norm_exp(&m);
            if m.max_abs() > 0.0 {
                m.ldexp(k)
            } else {
                m
            }
        }
    };
    // the squares of the entries are iterated on
    let e = op_exp::<T>(s, cx) / 2;
    let a = a.ldexp(e).round::<T>();
    let gram = if tall { a.t().mul(&a) } else { a.mul(&a.t()) };
    let (lw, lv) = jacobi_eig(&gram);
    let norm = lw.last().unwrap().max(0.0);
    let op = Op { n: small, w: lw.iter().map(|x| x.max(0.0)).collect(), v: lv, norm, a: gram };
    let tol = op.scale() * if T::IS32 { s.pick(&[1e-2, 4e-3]) } else { s.pick(&[1e-4, 1e-6, 1e-8]) };
    let seed = seed(s);
    let k = if s.chance(1, 20) { 0 } else { k };
    let lx = any_layout(s);
    cx.note(|| format!("{} {:?} k={} {:?} precision^2={:e} seed={} {:?} squared singular values {:?}", T::NAME, (r, c), k, order, tol, seed, a, op.w));
    let make = || {
        let t = TruncatedSvd::new_with_rng(lay::<T>(&a, lx), order, Xoshiro256Plus::seed_from_u64(seed)).precision(tol.sqrt() as f32).maxiter(20 * small + 20);
        t.decompose(k)
    };
    let res = make();
    if k == 0 {
        cx.label("k = 0");
        let d = match res {
            Ok(d) => d,
            Err(e) => return fail("no result", format!("{:?} for k = 0", e)),
        };
        let (u, sv, vt) = d.values_vectors();
        ensure!(d.values().is_empty() && sv.is_empty() && u.ncols() == 0 && vt.nrows() == 0, "not empty", "{:?} {:?} {:?}", sv, u.dim(), vt.dim());
        return Ok(());
    }
    // the starting block is drawn in f32
    let mut g = Xoshiro256Plus::seed_from_u64(seed);
    let mut x = M::zeros(small, k);
    for i in 0..small {
        for j in 0..k {
            x.set(i, j, rand::Rng::gen::<f32>(&mut g) as f64);
        }
    }
    let cond = projected_cond(&x, &x);
    if cond > max_cond::<T>() {
        cx.label("starting block too ill-conditioned");
        return Ok(());
    }
    let d = match res {
        Ok(d) => d,
        Err(e) => return fail("no result", format!("{:?}", e)),
    };
    let vals = vecf(&d.values());
    let (u, sv, vt) = d.values_vectors();
    let (u, sv, vt) = (to_m(&u), vecf(&sv), to_m(&vt));
    let kept = vals.len();
    ensure!(kept == sv.len() && vals.iter().zip(&sv).all(|(a, b)| a.to_bits() == b.to_bits()), "values differ", "values() {:?}, values_vectors() {:?}", vals, sv);
    ensure!(kept <= k && u.dim() == (r, kept) && vt.dim() == (kept, c), "shape", "{} of {} values, {:?} {:?}", kept, k, u.dim(), vt.dim());
    ensure!(vals.iter().all(|x| x.is_finite() && *x >= 0.0) && u.finite() && vt.finite(), "not-finite", "values {:?}", vals);
    ensure!(vals.windows(2).all(|w| if order == Order::Largest { w[0] >= w[1] } else { w[0] <= w[1] }), "order", "{:?} {:?}", order, vals);
    if order == Order::Smallest {
        ensure!(kept == k, "values dropped", "{} of {} smallest values", kept, k);
    } else if kept > 0 {
        ensure!(vals.iter().all(|x| *x > 0.99 * cutoff.sqrt() * vals[0]), "tiny value kept", "{:?}", vals);
    }
    // the side the eigenproblem was solved for is orthonormal, the other follows from it
    let (es, os) = if tall { (vt.t(), u.clone()) } else { (u.clone(), vt.t()) };
    let am = if tall { a.clone() } else { a.t() };
    let nt = (T::EPS.sqrt() + cond * cond * T::EPS) * (small + 10) as f64;
    if kept > 0 {
        cx.within("iterated side orthonormal", orth_err(&es), nt, || format!("{:?}", vals))?;
    }
    let ae = am.mul(&es);
    let big = norm.sqrt();
    for j in 0..kept {
        let w = vals[j];
        // far below the largest value the squared problem has lost all digits
        if w * w < norm * nt * 10.0 || norm == 0.0 {
            continue;
        }
        let mut err = 0.0f64;
        for i in 0..am.r {
            err = err.max((ae.get(i, j) - w * os.get(i, j)).abs());
        }
        cx.within("A v = s u", err, big * T::EPS * 30.0 * (r + c) as f64, || format!("triplet {}", j))?;
        let o = os.col(j);
        cx.within("derived vectors are unit", (dot(&o, &o) - 1.0).abs(), nt * norm / (w * w), || format!("triplet {}: {:e}", j, w))?;
    }
    // Ritz values never lie beyond the true ones
    let rt = norm * nt * 3.0 + T::TINY;
    for j in 0..kept {
        let (t, over) = match order {
            Order::Largest => (op.w[small - 1 - j], vals[j] * vals[j] - op.w[small - 1 - j]),
            Order::Smallest => (op.w[j], op.w[j] - vals[j] * vals[j]),
        };
        cx.within("values interlace", over, rt, || format!("value {} squared {:e}, true {:e}", j, vals[j] * vals[j], t))?;
    }
    let d2 = match make() {
        Ok(d) => vecf(&d.values()),
        Err(e) => return fail("not reproducible", format!("{:?}", e)),
    };
    ensure!(d2.iter().map(|x| x.to_bits()).eq(vals.iter().map(|x| x.to_bits())), "not reproducible", "{:?} and {:?} with equal seeds", vals, d2);
    if mode == 2 {
        return Ok(());
    }
    // converged: the extremal values
    let wv = op.wanted_vecs(k, order);
    let gap = op.gap(k, order);
    let zero_tail = order == Order::Largest && k < small && op.w[small - k] <= norm * T::EPS * 100.0;
    if mode == 0 {
        let ov = overlap(&wv, &x);
        if ov < if T::IS32 { 0.1 } else { 0.03 } || ov * gap < 50.0 * tol {
            cx.label("poor start");
            return Ok(());
        }
    } else if !(zero_tail || k == small) {
        return Ok(());
    } else if order == Order::Largest {
        // the nonzero part must be seen by the start
        let rank = op.w.iter().filter(|x| **x > norm * T::EPS * 100.0).count();
        let ov = if rank > 0 { overlap(&op.wanted_vecs(rank, order), &x) } else { 1.0 };
        if ov < if T::IS32 { 1e-1 } else { 1e-2 } {
            cx.label("poor start");
            return Ok(());
        }
    }
    cx.interesting();
    cx.label(if order == Order::Largest { "converged largest" } else { "converged smallest" });
    let want = op.wanted(k, order);
    let vt_ = value_tol::<T>(&op, tol * (k as f64).sqrt()) + norm * cutoff * 2.0;
    for j in 0..k {
        let got = if j < kept { vals[j] * vals[j] } else { 0.0 };
        cx.within("end: extremal singular values", (got - want[j]).abs(), vt_, || format!("squares: want {:?} got {:?}", want, vals.iter().map(|x| x * x).collect::<Vec<_>>()))?;
    }
    cx.label_if(kept < k, "zeros dropped");
    if mode == 0 && k < small && kept == k {
        cx.within("end: singular subspace", angle(&wv, &es), 4.0 * vt_ * (k as f64).sqrt() / gap, || format!("gap {:e}", gap))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- P26, truncated part

pub fn p26_truncated(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p26_tr)
}
fn p26_tr<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    cx.label("truncated eigen-solver");
    let n = s.range(1, 10);
    let order = ord(s);
    let op = any_op::<T>(s, cx, n);
    let seed = seed(s);
    let tol = op.norm.max(1e-3) * if T::IS32 { 1e-2 } else { 1e-6 };
    let maxiter = s.range(0, 60);
    let lx = any_layout(s);
    let make = || TruncatedEig::new_with_rng(lay::<T>(&op.a, lx), order, Xoshiro256Plus::seed_from_u64(seed)).precision(tol as f32).maxiter(maxiter);
    let mut a = make();
    let mut b = make();
    let mut g = Xoshiro256Plus::seed_from_u64(seed);
    let mut log = vec![];
    cx.interesting();
    for _ in 0..s.range(2, 6) {
        let k = s.range(0, n + 1);
        log.push(k);
        if s.chance(1, 4) {
            // a clone goes on like the original
            b = a.clone();
        }
        let (end, err, p) = split(a.decompose(k));
        let (end2, _, p2) = split(b.decompose(k));
        let before = g.clone();
        let x = uniform_start(&mut g, n, k);
        let bits = |p: &Option<Pairs>| p.as_ref().map(|p| (p.vals.iter().chain(&p.rnorm).map(|x| x.to_bits()).collect::<Vec<_>>(), p.vecs.d.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
        ensure!(end == end2 && bits(&p) == bits(&p2), "seed does not determine the result", "decompositions {:?}: {:?} and {:?}", log, p.as_ref().map(|p| &p.vals), p2.as_ref().map(|p| &p.vals));
        if k == 0 {
            ensure!(end == End::Ok && p.as_ref().map_or(false, |p| p.vals.is_empty()), "k = 0", "decompositions {:?}: {}", log, err);
        } else if k > n {
            ensure!(end == End::Other && p.is_none() && err.contains("NotThin"), "k > n", "decompositions {:?}: {}", log, err);
        } else {
            let cond = projected_cond(&x, &x);
            if cond > max_cond::<T>() {
                return Ok(());
            }
            let p = match p {
                Some(p) => p,
                None => return fail("no result", format!("decompositions {:?}: {}", log, err)),
            };
            check_pairs::<T>(cx, &op, &p, k, order, cond, 20, None)?;
            // as a fresh solver whose generator is in the same state
            let mut f = TruncatedEig::new_with_rng(lay::<T>(&op.a, lx), order, before).precision(tol as f32).maxiter(maxiter);
            let (end3, _, p3) = split(f.decompose(k));
            let p = Some(p);
            ensure!(end == end3 && bits(&p) == bits(&p3), "history-dependent", "decompositions {:?}: {:?}, a fresh solver {:?}", log, p.as_ref().map(|p| &p.vals), p3.as_ref().map(|p| &p.vals));
        }
    }
    cx.note(|| format!("{} TruncatedEig n={} {:?} seed={} tol={:e} maxiter={} decompositions {:?} eigenvalues {:?}", T::NAME, n, order, seed, tol, maxiter, log, op.w));
    Ok(())
}

// ---------------------------------------------------------------- P30

/// One iterate of the model: Ritz values, vectors and residual norms.
struct Iterate {
    vals: Vec<f64>,
    rnorm: Vec<f64>,
}
/// Rayleigh-Ritz over span(z): the k extremal Ritz values with the coefficients of their vectors in
/// terms of the columns of z, and the gap to the next Ritz value. None if z is ill-conditioned.
fn ritz(a: &M, z: &M, k: usize, order: Order) -> Option<(Vec<f64>, M, f64, f64)> {
    let q = orth_basis(z);
    if q.c < z.c {
        return None;
    }
    let (w, v) = jacobi_eig(&q.t().mul(a).mul(&q));
    let m = w.len();
    let mut y = M::zeros(m, k);
    let mut vals = vec![];
    for j in 0..k {
        let jj = if order == Order::Smallest { j } else { m - 1 - j };
        vals.push(w[jj]);
        for i in 0..m {
            y.set(i, j, v.get(i, jj));
        }
    }
    let gap = match (k < m, order) {
        (false, _) => f64::INFINITY,
        (_, Order::Smallest) => w[k] - w[k - 1],
        (_, Order::Largest) => w[m - k] - w[m - k - 1],
    };
    let spacing = vals.windows(2).fold(f64::INFINITY, |g, w| g.min((w[0] - w[1]).abs()));
    let c = solve_full(&q.t().mul(z), &y)?;
    Some((vals, c, gap, spacing))
}
fn hcat(parts: &[&M]) -> M {
    let n = parts[0].r;
    let mut o = M::zeros(n, parts.iter().map(|p| p.c).sum());
    let mut at = 0;
    for p in parts {
        for j in 0..p.c {
            for i in 0..n {
                o.set(i, at + j, p.get(i, j));
            }
        }
        at += p.c;
    }
    o
}
/// columns of unit length
fn unit_cols(m: &M) -> M {
    let mut o = m.clone();
    for (j, l) in col_norms(m).into_iter().enumerate() {
        if l > 0.0 {
            for i in 0..m.r {
                o.set(i, j, m.get(i, j) / l);
            }
        }
    }
    o
}
fn select(m: &M, mask: &[bool]) -> M {
    let idx: Vec<usize> = (0..m.c).filter(|j| mask[*j]).collect();
    let mut o = M::zeros(m.r, idx.len());
    for (jj, j) in idx.into_iter().enumerate() {
        for i in 0..m.r {
            o.set(i, jj, m.get(i, j));
        }
    }
    o
}
/// The locally optimal block preconditioned conjugate gradient method, as defined by Knyazev, in
/// double precision with orthonormal bases. Returns the iterates as long as they are well determined
/// (well-conditioned trial spaces, separated Ritz values, residuals neither at the tolerance nor at
/// the rounding level), the second value tells whether the last one is below the tolerance.
fn model(a: &M, norm: f64, x: &M, y: Option<&M>, pre: Option<&M>, tol: f64, steps: usize, order: Order, strict: f64) -> (Vec<Iterate>, bool, bool) {
    let k = x.c;
    let n = x.r;
    let proj = |m: &M| y.map_or_else(|| m.clone(), |y| complement(y, m));
    let mut out = vec![];
    let x0 = orth_basis(&proj(x));
    let (mut vals, c, _, _) = match ritz(a, &x0, k, order) {
        Some(r) => r,
        None => return (out, false, false),
    };
    let mut x = x0.mul(&c);
    let mut p: Option<M> = None;
    let mut masked = false;
    for step in 0..=steps {
        let mut r = a.mul(&x).sub(&x.mul(&M::diag(&vals)));
        r = proj(&r);
        let rnorm = col_norms(&r);
        let low = rnorm.iter().fold(f64::INFINITY, |m, x| m.min(*x));
        let mask: Vec<bool> = rnorm.iter().map(|x| *x > tol).collect();
        let near_tol = rnorm.iter().any(|x| (*x - tol).abs() < 1e-3_f64.max(1e3 * strict) * tol);
        if near_tol || low < 1e3 * strict * norm && tol == 0.0 {
            break;
        }
        out.push(Iterate { vals: vals.clone(), rnorm });
        if mask.iter().all(|b| !*b) {
            return (out, true, masked);
        }
        if step == steps {
            break;
        }
        let mut w = select(&r, &mask);
        if let Some(t) = pre {
            w = t.mul(&w);
        }
        for _ in 0..2 {
            w = proj(&w);
            w = w.sub(&x.mul(&x.t().mul(&w)));
        }
        let w = unit_cols(&w);
        let pa = p.as_ref().map(|p| unit_cols(&select(p, &mask)));
        let parts: Vec<&M> = [Some(&x), Some(&w), pa.as_ref()].into_iter().flatten().collect();
        let z = hcat(&parts);
        // The trial space must be well determined, and the old directions among themselves too.
        let bad = |m: &M| m.c > m.r || *jacobi_sv(m).last().unwrap() < 0.02;
        if z.c + y.map_or(0, |y| y.c) > n || bad(&z) {
            break;
        }
        let (nv, c, gap, spacing) = match ritz(a, &z, k, order) {
            Some(r) => r,
            None => break,
        };
        if gap < 0.02 * norm || (spacing < 0.02 * norm && tol > 0.0) {
            break;
        }
        masked |= mask.iter().any(|b| !*b);
        let nx = z.mul(&c);
        let mut tau = M::zeros(k, k);
        for i in 0..k {
            for j in 0..k {
                tau.set(i, j, c.get(i, j));
            }
        }
        p = Some(nx.sub(&x.mul(&tau)));
        x = nx;
        vals = nv;
    }
    (out, false, masked)
}
fn p30(s: &mut Source, cx: &mut Cx) -> Res {
    by_type!(s, cx, p30_t)
}
fn p30_t<T: Sc>(s: &mut Source, cx: &mut Cx) -> Res {
    let k = s.weighted(&[4, 3, 2, 1]) + 1;
    let n = match s.weighted(&[4, 1]) {
        0 => s.range(3 * k, 3 * k + 12),
        _ => s.range(3 * k, 40),
    };
    let order = ord(s);
    let strict = if T::IS32 { 1e-5 } else { 1e-11 };
    let c = if n > 3 * k && s.chance(1, 3) { s.range(1, (n - 3 * k).min(4)) } else { 0 };
    let a = match s.weighted(&[3, 2, 1]) {
        0 => {
            let sp: Vec<f64> = {
                let mut d = Draw::new(s, n);
                (0..n).map(|_| d.below(1 << 16) as f64 / 32768.0 - 1.0).collect()
            };
            let q = orthogonal(s, n);
            q.mul(&M::diag(&sp)).mul(&q.t())
        }
        1 => {
            let k = s.pick(&[3usize, 4]);
            let m = fill(s, n, n, k);
            m.add(&m.t())
        }
        _ => {
            let sp = gapped_spectrum(s, cx, n, k, order);
            let q = orthogonal(s, n);
            q.mul(&M::diag(&sp)).mul(&q.t())
        }
    };
    if a.max_abs() == 0.0 {
        return Ok(());
    }
    let e = op_exp::<T>(s, cx);
    let ne = norm_exp(&a);
    let op = Op::new::<T>(&a.ldexp(ne + e));
    let (x, cond) = start_block::<T>(s, n, k, 30.0);
    let y0 = if c > 0 { Some(orthogonal(s, n).cols(0, c)) } else { None };
    let y = y0.as_ref().map(|y| other_basis::<T>(s, cx, y));
    // what the library is given is the rounded basis
    let y0 = y.as_ref().map(|y| orth_basis(&unit_cols(y)));
    let spread = s.pick(&[2.0, 20.0, 5.0]);
    let pre = if s.chance(1, 3) { Some(preconditioner::<T>(s, n, spread)) } else { None };
    let tol = if s.chance(1, 2) { 0.0 } else { s.pick(&[0.3f64, 0.1, 0.03, 0.01]) * op.norm } as f32;
    let steps = s.weighted(&[1, 3, 4, 3, 2, 1]).min(if T::IS32 { 3 } else { 5 });
    cx.note(|| format!("{} n={} k={} {:?} tol={:e} steps={} pre={} constraints={} x={:?} eigenvalues {:?}", T::NAME, n, k, order, tol, steps, pre.is_some(), c, x, op.w));
    if cond.is_none() || y0.as_ref().is_some_and(|y| projected_cond(&x, &complement(y, &x)) > 60.0) {
        cx.label("starting block too ill-conditioned");
        return Ok(());
    }
    let tolf = T::of(tol as f64).f();
    let (it, done, masked) = model(&op.a, op.norm, &x, y0.as_ref(), pre.as_ref(), tolf, steps, order, strict);
    if it.is_empty() {
        cx.label("model undetermined");
        return Ok(());
    }
    let j = it.len() - 1;
    cx.label(["0 steps", "1 step", "2 steps", "3 steps", "4 steps", "5 steps"][j]);
    if j >= 1 {
        cx.interesting();
    }
    cx.label_if(masked, "with converged pairs left out");
    cx.label_if(c > 0, "constrained");
    cx.label_if(pre.is_some(), "preconditioned");
    let total = |i: &Iterate| i.rnorm.iter().sum::<f64>();
    let best = (0..=j).min_by(|p, q| total(&it[*p]).total_cmp(&total(&it[*q]))).unwrap();
    let r = run::<T>(&op.a, &x, any_layout(s), &Cfg { pre: pre.as_ref(), y: y.as_ref(), tol, maxiter: j, order });
    let p = match r.p {
        Some(p) => p,
        None => return fail("no result", r.err),
    };
    ensure!((r.end == End::Ok) == done, "converged at another step", "model {} after {} steps, library {:?} {}: residuals {:?}, model {:?}", done, j, r.end, r.err, p.rnorm, it[j].rnorm);
    let t = op.norm * strict * 6f64.powi(j as i32 + 1);
    if it.iter().enumerate().any(|(i, q)| i != best && (total(q) - total(&it[best])).abs() < 4.0 * t * k as f64) {
        cx.label("two equally good iterates");
        return Ok(());
    }
    cx.label_if(best < j, "an earlier iterate is the best");
    for i in 0..k {
        cx.within("Ritz value", (p.vals[i] - it[best].vals[i]).abs(), t, || format!("step {} of {}: {:?}, model {:?}", best, j, p.vals, it[best].vals))?;
    }
    cx.within("total residual", (p.rnorm.iter().sum::<f64>() - total(&it[best])).abs(), t * k as f64 * 2.0, || format!("step {} of {}: {:?}, model {:?}", best, j, p.rnorm, it[best].rnorm))?;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let b = Prop { id: "", run: p20, quick: 0, thorough: 0, rule: "", pinned: &[], assumptions: &[] };
    vec![
        Prop { id: "P20", run: p20, quick: 60_000, thorough: 1_200_000, rule: "one LOBPCG run (operator, start, limits, order, preconditioner or not) judged against the operator itself; non-trivial: n >= 2, k < n and more than one operator call", ..b },
        Prop { id: "P21", run: p21, quick: 240_000, thorough: 4_800_000, rule: "one converged-or-not LOBPCG run judged against the known spectrum; non-trivial: k < n and the start is well conditioned and overlaps the wanted eigenvectors", ..b },
        Prop { id: "P22", run: p22, quick: 200_000, thorough: 4_000_000, rule: "one LOBPCG run under constraints (eigenvector spans and arbitrary blocks); non-trivial: a well-placed start, or for arbitrary blocks more than one operator call", ..b },
        Prop { id: "P23", run: p23, quick: 180_000, thorough: 3_600_000, rule: "one recorded history of operator and preconditioner calls; non-trivial: more than two operator calls, a start inside an invariant subspace, or a preconditioned run that left its start", ..b },
        Prop { id: "P24", run: p24, quick: 120_000, thorough: 2_400_000, rule: "one enumeration of a whole spectrum by the iterator; non-trivial: more than one block and every start well conditioned", ..b },
        Prop { id: "P30", run: p30, quick: 160_000, thorough: 2_000_000, rule: "one LOBPCG run of 0-5 iterations judged against a model of the method in double precision with orthonormal bases, as far as the model is well determined; non-trivial: at least one iteration is compared", ..b },
        Prop { id: "P25", run: p25, quick: 240_000, thorough: 4_800_000, rule: "one truncated SVD judged against the dense reference; non-trivial: the random start is well conditioned", ..b },
    ]
}
