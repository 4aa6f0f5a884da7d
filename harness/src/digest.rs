//! P27: the checked and the unchecked build compute the same results.
//!
//! A case is a tape of choices; `digest` turns it into a call of one public routine and a hash of the
//! exact outcome (bits of all numbers, error texts, the fact of a panic). This process, built with debug
//! assertions, compares its own digest with that of a server process built without.
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::ensure;
use crate::scalar::*;
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::lobpcg::*;
use linfa_linalg::norm::Norm;
use linfa_linalg::qr::*;
use linfa_linalg::reflection::Reflection;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::*;
use linfa_linalg::{LinalgError, Order};
use ndarray::prelude::*;
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// Words describing an outcome.
#[derive(Default)]
struct Out {
    words: Vec<u64>,
    text: String,
    panic: Option<String>,
}
impl Out {
    fn x(&mut self, x: f64) {
        self.words.push(if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() });
    }
    fn n(&mut self, n: usize) {
        self.words.push(n as u64);
    }
    fn a<T: Sc, S: ndarray::Data<Elem = T>, D: Dimension>(&mut self, a: &ArrayBase<S, D>) {
        a.shape().iter().for_each(|d| self.n(*d));
        a.iter().for_each(|x| self.x(x.f()));
    }
    fn s(&mut self, s: &str) {
        self.words.push(hash_str(s));
        if self.text.len() < 200 {
            self.text.push_str(s);
            self.text.push(' ');
        }
    }
    fn r<V>(&mut self, r: Result<V, LinalgError>, f: impl FnOnce(&mut Out, V)) {
        match r {
            Ok(v) => {
                self.s("Ok");
                f(self, v)
            }
            Err(e) => self.s(&format!("{:?}", e)),
        }
    }
    fn call(&mut self, name: &str, f: impl FnOnce(&mut Out)) {
        self.s(name);
        if let Err(m) = caught(|| f(self)) {
            // the place of a failed index check differs between the builds, the fact must not
            self.s("panic");
            self.panic.get_or_insert(m);
        }
    }
    fn digest(&self) -> u64 {
        hash_words(self.words.iter().copied())
    }
}

const OPS: usize = 14;
fn outcome(s: &mut Source, cx: &mut Cx) -> Out {
    let mut o = Out::default();
    match s.weighted(&[3, 2]) {
        0 => outcome_t::<f64>(s, cx, &mut o),
        _ => outcome_t::<f32>(s, cx, &mut o),
    }
    o
}
fn outcome_t<T: Sc + MagnitudeCorrection>(s: &mut Source, cx: &mut Cx, o: &mut Out) {
    let op = s.u(OPS);
    let (mut r, mut c) = dims(s);
    // mostly admissible shapes
    match op {
        0 | 1 | 2 if s.chance(9, 10) => (r, c) = (r.max(c), r.min(c)),
        3 | 4 | 5 | 7 | 8 | 12 if s.chance(9, 10) => c = r,
        _ => {}
    }
    if s.chance(1, 30) {
        if s.chance(1, 2) {
            r = 0
        } else {
            c = 0
        }
    }
    let m = match op {
        _ if r == 0 || c == 0 => M::zeros(r, c),
        3 | 4 if r == c && s.chance(3, 4) => spd(s, r).0,
        7 | 8 | 12 if r == c && s.chance(3, 4) => symmetric(s, r).0,
        _ => general(s, r, c).0,
    };
    let e = if s.chance(1, 4) { scale_exp(s, safe_exp::<T>()) } else { 0 };
    let m = m.ldexp(e).round::<T>();
    let lx = any_layout(s);
    let a: Array2<T> = lay(&m, lx);
    let rows = if s.chance(9, 10) {
        if op == 1 && s.chance(1, 2) {
            c
        } else {
            r
        }
    } else {
        s.range(0, r + 2)
    };
    let k = s.range(0, 3);
    let b0 = plain(s, rows, k).round::<T>();
    let lb = any_layout(s);
    let b: Array2<T> = lay(&b0, lb);
    let flags = s.u(4);
    let seed = s.below(1 << 20);
    cx.note(|| format!("{} routine {} A={:?} ({}) B={:?} flags={} seed={}", T::NAME, op, m, layout_name(lx), b0, flags, seed));
    if r > 1 && c > 1 {
        cx.interesting();
    }
    cx.label(match op {
        0 => "QR factors",
        1 => "QR solves and inverse",
        2 => "least squares",
        3 => "Cholesky factor",
        4 => "Cholesky solve and inverse",
        5 => "triangular solve",
        6 => "bidiagonal",
        7 => "tridiagonal",
        8 => "symmetric eigen",
        9 | 10 => "SVD",
        11 => "norms and reflections",
        12 => "LOBPCG",
        _ => "truncated SVD",
    });
    let (ord, uplo) = (if flags & 1 == 0 { Order::Smallest } else { Order::Largest }, if flags & 2 == 0 { UPLO::Lower } else { UPLO::Upper });
    match op {
        0 => {
            o.call("qr", |o| {
                let q = a.qr();
                o.r(q, |o, d| {
                    o.a(&d.generate_q());
                    o.n(d.clone().into_r().len());
                    let (q, r) = d.into_decomp();
                    o.a(&q);
                    o.a(&r);
                })
            });
        }
        1 => o.call("qr solves", |o| {
            let d = a.clone().qr_into();
            o.r(d, |o, d| {
                o.n(d.is_invertible() as usize);
                o.r(d.solve(&b), |o, x| o.a(&x));
                o.r(d.solve_into(b.clone()), |o, x| o.a(&x));
                o.r(d.solve_tr(&b), |o, x| o.a(&x));
                o.r(d.solve_tr_into(b.clone()), |o, x| o.a(&x));
                o.r(d.inverse(), |o, x| o.a(&x));
            })
        }),
        2 => {
            o.call("least_squares", |o| { let x = a.clone(); o.r(x.least_squares(&b), |o, x| o.a(&x)) });
            o.call("least_squares_into", |o| o.r(a.clone().least_squares_into(b.clone()), |o, x| o.a(&x)));
        }
        3 => {
            o.call("cholesky", |o| o.r(a.cholesky(), |o, x| o.a(&x)));
            o.call("cholesky_inplace_dirty", |o| {
                let mut x = a.clone();
                let r = x.cholesky_inplace_dirty().map(|_| ());
                o.r(r, |_, _| {});
                o.a(&x)
            });
            o.call("triangular", |o| o.r(a.clone().into_triangular(uplo), |o, x| {
                o.n(x.is_triangular(uplo) as usize);
                o.a(&x)
            }));
        }
        4 => {
            o.call("solvec", |o| {
                let mut x = a.clone();
                let r = x.solvec(&b);
                o.r(r, |o, x| o.a(&x));
                o.a(&x)
            });
            o.call("invc", |o| o.r(a.invc(), |o, x| o.a(&x)));
        }
        5 => {
            o.call("solve_triangular", |o| o.r(a.solve_triangular(&b, uplo), |o, x| o.a(&x)));
            o.call("is_triangular", |o| o.n(a.is_triangular(uplo) as usize));
        }
        6 => o.call("bidiagonal", |o| {
            o.r(a.clone().bidiagonal(), |o, d| {
                o.n(d.is_upper_diag() as usize);
                o.a(&d.generate_u());
                o.a(&d.generate_vt());
                o.a(&d.clone().into_b());
                let (x, y) = d.into_diagonals();
                o.a(&x);
                o.a(&y);
            })
        }),
        7 => o.call("sym_tridiagonal", |o| {
            o.r(a.clone().sym_tridiagonal(), |o, d| {
                o.a(&d.generate_q());
                let (x, y) = d.clone().into_diagonals();
                o.a(&x);
                o.a(&y);
                o.a(&d.into_tridiag_matrix());
            })
        }),
        8 => {
            o.call("eigh", |o| {
                o.r(a.eigh(), |o, (w, v)| {
                    o.a(&w);
                    o.a(&v);
                    let (w, v) = (w, v).sort_eig(ord);
                    o.a(&w);
                    o.a(&v);
                })
            });
            o.call("eigvalsh", |o| o.r(a.eigvalsh(), |o, w| o.a(&w.sort_eig(ord))));
        }
        9 | 10 => o.call("svd", |o| {
            o.r(a.svd(flags & 1 == 0, flags & 2 == 0), |o, d| {
                for d in [d.clone(), d.sort_svd(ord)] {
                    d.0.iter().for_each(|u| o.a(u));
                    o.a(&d.1);
                    d.2.iter().for_each(|v| o.a(v));
                }
            })
        }),
        11 => {
            o.call("norms", |o| {
                o.x(a.norm_l1().f());
                o.x(a.norm_l2().f());
                o.x(a.norm_max().f());
            });
            if r > 0 && c > 0 {
                o.call("reflection", |o| {
                    let h = Reflection::new(a.column(0).to_owned(), b.iter().next().copied().unwrap_or(T::of(0.0)));
                    let mut x = a.clone();
                    h.reflect_cols(&mut x);
                    o.a(&x);
                    let mut x = a.t().to_owned();
                    h.reflect_rows(&mut x);
                    o.a(&x);
                });
            }
        }
        12 => {
            if r == c && r > 0 && r <= 12 {
                o.call("lobpcg", |o| {
                    let z = norm_exp(&m);
                    let sym: Array2<T> = if m.max_abs() > 0.0 { lay(&m.add(&m.t()).ldexp(z - 1).round::<T>(), lx) } else { a.clone() };
                    let mut t = TruncatedEig::new_with_rng(sym, ord, Xoshiro256Plus::seed_from_u64(seed)).maxiter(20);
                    if flags & 2 == 0 && r > 2 {
                        t = t.orthogonal_to(Array2::from_shape_fn((r, 2), |(i, j)| T::of(if i == j { 1.0 } else { 0.0 })));
                    }
                    let k = 1 + seed as usize % (r.saturating_sub(2)).max(1);
                    let (l, e) = match t.decompose(k) {
                        Ok(l) => (Some(l), None),
                        Err((e, l)) => (l, Some(e)),
                    };
                    o.s(&format!("{:?}", e));
                    if let Some(l) = l {
                        o.a(&l.eigvals);
                        o.a(&l.eigvecs);
                        l.rnorm.iter().for_each(|x| o.x(x.f()));
                    }
                });
            }
        }
        _ => {
            if r > 0 && c > 0 && r.max(c) <= 12 {
                o.call("truncated svd", |o| {
                    let z = norm_exp(&m);
                    let x: Array2<T> = if m.max_abs() > 0.0 { lay(&m.ldexp(z).round::<T>(), lx) } else { a.clone() };
                    let t = TruncatedSvd::new_with_rng(x, ord, Xoshiro256Plus::seed_from_u64(seed)).maxiter(20);
                    let k = 1 + seed as usize % r.min(c);
                    o.r(t.decompose(k), |o, d| {
                        let (u, sv, v) = d.values_vectors();
                        o.a(&u);
                        o.a(&sv);
                        o.a(&v);
                    })
                });
            }
        }
    }
}

// ---------------------------------------------------------------- the other build

struct Server {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
}
thread_local! {
    static SERVER: RefCell<Option<Server>> = const { RefCell::new(None) };
}
fn start() -> std::io::Result<Server> {
    let path = std::env::var("LV_UNCHECKED").unwrap_or_else(|_| "/verif/harness/target/release/lv".into());
    let mut child = Command::new(path).arg("digest").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
    let inp = child.stdin.take().unwrap();
    let out = BufReader::new(child.stdout.take().unwrap());
    Ok(Server { child, inp, out })
}
/// Some(digest, description), or None when the server died over it.
fn ask(tape: &[u64]) -> std::io::Result<Option<(u64, String)>> {
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(start()?);
        }
        let v = s.as_mut().unwrap();
        let line = tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
        let mut answer = String::new();
        let sent = writeln!(v.inp, "{}", line).and_then(|_| v.inp.flush());
        if sent.is_err() || v.out.read_line(&mut answer)? == 0 {
            let _ = v.child.kill();
            let _ = v.child.wait();
            *s = None;
            return Ok(None);
        }
        let (d, t) = answer.trim_end().split_once(':').unwrap_or(("", ""));
        Ok(Some((d.parse().unwrap_or(0), t.to_string())))
    })
}
/// The server: one tape per line, answered by one digest per line.
pub fn cmd_digest(args: &[String]) -> i32 {
    if cfg!(debug_assertions) && args.is_empty() {
        eprintln!("this is the checked build");
        return 2;
    }
    let stdin = std::io::stdin();
    let mut stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let tape: Vec<u64> = match line {
            Ok(l) => l.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
            Err(_) => break,
        };
        let o = outcome(&mut Source::replay(&tape), &mut Cx::new(false));
        if writeln!(stdout, "{}:{}", o.digest(), o.text).and_then(|_| stdout.flush()).is_err() {
            break;
        }
    }
    0
}

fn p27(s: &mut Source, cx: &mut Cx) -> Res {
    let o = outcome(s, cx);
    if let Some(p) = &o.panic {
        if p.contains("src/index.rs") || p.contains("out of bounds") {
            return fail("index check fails", p.clone());
        }
        cx.label("panics");
    }
    match ask(&s.rec) {
        Err(e) => panic!("cannot run the unchecked build: {}", e),
        Ok(None) => fail("unchecked build crashes", format!("no answer; checked build: {}", o.text)),
        Ok(Some((d, t))) => {
            if d == o.digest() {
                Ok(())
            } else {
                fail("builds differ", format!("checked: {} [{}], unchecked: {} [{}]", o.digest(), o.text, d, t))
            }
        }
    }
}

// ---------------------------------------------------------------- P32

/// The answer of a process that has called nothing before.
fn ask_fresh(tape: &[u64]) -> std::io::Result<Option<(u64, String)>> {
    let mut child = Command::new(std::env::current_exe()?).args(["digest", "any"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
    let line = tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let sent = writeln!(child.stdin.take().unwrap(), "{}", line);
    let mut answer = String::new();
    let got = BufReader::new(child.stdout.take().unwrap()).read_line(&mut answer);
    child.wait()?;
    if sent.is_err() || got? == 0 {
        return Ok(None);
    }
    let (d, t) = answer.trim_end().split_once(':').unwrap_or(("", ""));
    Ok(Some((d.parse().unwrap_or(0), t.to_string())))
}
fn again(tape: &[u64]) -> Out {
    outcome(&mut Source::replay(tape), &mut Cx::new(false))
}
fn p32(s: &mut Source, cx: &mut Cx) -> Res {
    let k = s.range(1, 4);
    let threads = s.u(4);
    let fresh = s.chance(1, 16);
    let mut calls: Vec<(Vec<u64>, u64, String)> = vec![];
    for _ in 0..k {
        let start = s.rec.len();
        let o = outcome(s, cx);
        calls.push((s.rec[start..].to_vec(), o.digest(), o.text));
    }
    if k > 1 {
        cx.interesting();
    }
    // in another order, each after the others
    for i in s.perm(k) {
        let o = again(&calls[i].0);
        ensure!(o.digest() == calls[i].1, "another answer later", "call {}: first {}, then {}", i, calls[i].2, o.text);
    }
    if threads > 0 {
        cx.label("several threads at once");
        let rot = s.u(k);
        let calls = &calls;
        let all: Vec<Vec<(usize, u64, String)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    sc.spawn(move || {
                        (0..k)
                            .map(|i| {
                                let j = (i + t + rot) % k;
                                let o = again(&calls[j].0);
                                (j, o.digest(), o.text)
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for a in &all {
            ensure!(a.len() == k, "thread ended", "a thread with {} calls died", k);
            for (j, d, t) in a {
                ensure!(*d == calls[*j].1, "another answer on another thread", "call {}: first {}, then {}", j, calls[*j].2, t);
            }
        }
    }
    if fresh {
        cx.label("fresh process");
        let (tape, d, text) = &calls[0];
        match ask_fresh(tape) {
            Err(e) => panic!("cannot start a process: {}", e),
            Ok(None) => return fail("a fresh process dies", text.clone()),
            Ok(Some((d2, t2))) => ensure!(*d == d2, "another answer in a fresh process", "after other calls: {}, fresh: {}", text, t2),
        }
    }
    Ok(())
}

pub const PROP32: Prop = Prop {
    id: "P32",
    run: p32,
    quick: 40_000,
    thorough: 2_000_000,
    rule: "a history of 1-4 calls (of 14 groups of routines, both float types), each repeated after the others in another order, on up to three threads at once, and (one case in 16) in a process that has called nothing before; non-trivial: at least two calls",
    pinned: &[],
    assumptions: &["a repeated call gets a fresh array of the same contents and layout, so that bitwise equality can be asked for"],
};

pub const PROP: Prop = Prop {
    id: "P27",
    run: p27,
    quick: 600_000,
    thorough: 16_000_000,
    rule: "one routine (of 14 groups) on one generated input in both builds; non-trivial: the matrix has at least two rows and two columns",
    pinned: &[],
    assumptions: &["an index check that fails panics in src/index.rs or in ndarray's own bounds checks"],
};
