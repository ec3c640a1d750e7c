//! C09: conjugate gradients.
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut};
use fenris_sparse::cg::*;
use hk::num::Q;
use hk::*;
use nalgebra_sparse::CsrMatrix;
use std::cell::RefCell;
use std::error::Error;

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Reset,
    Op(Vec<f64>, Vec<f64>),
    Pre(Vec<f64>, Vec<f64>),
    /// iterate, residual, iteration, answer
    Crit(Vec<f64>, Vec<f64>, usize, bool),
    Fault(Actor),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Actor {
    Op,
    Pre,
    Crit,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Crit {
    /// Relative residual tolerance (the library's criterion).
    Rel(f64),
    /// Accept exactly at this iteration.
    At(usize),
    Never,
}

#[derive(Clone, Debug)]
struct Sys {
    a: DMatrix<f64>,
    p: Vec<f64>,
    b: Vec<f64>,
    x0: Vec<f64>,
    crit: Crit,
    max_iter: Option<usize>,
    sparse: bool,
    fault: Option<(Actor, usize)>,
}

struct Log(RefCell<Vec<Ev>>, RefCell<usize>, Option<(Actor, usize)>);

impl Log {
    /// Whether this call of the actor is the one that fails.
    fn fault(&self, a: Actor) -> bool {
        match self.2 {
            Some((b, k)) if a == b => {
                let mut n = self.1.borrow_mut();
                *n += 1;
                if *n == k + 1 {
                    self.0.borrow_mut().push(Ev::Fault(a));
                    return true;
                }
                false
            }
            _ => false,
        }
    }
}

struct Op<'l, A>(A, &'l Log, Actor);
impl<'l, A: LinearOperator<f64>> LinearOperator<f64> for Op<'l, A> {
    fn apply(&self, mut y: DVectorViewMut<f64>, x: DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        if self.1.fault(self.2) {
            y.fill(f64::NAN);
            return Err(format!("injected {:?}", self.2).into());
        }
        let xs: Vec<f64> = x.iter().cloned().collect();
        self.0.apply(y.as_view_mut(), x)?;
        let ys: Vec<f64> = y.iter().cloned().collect();
        self.1 .0.borrow_mut().push(if self.2 == Actor::Op { Ev::Op(xs, ys) } else { Ev::Pre(xs, ys) });
        Ok(())
    }
}

struct CritObj<'l>(Crit, &'l Log);
impl<'l> CgStoppingCriterion<f64> for CritObj<'l> {
    fn reset(&self, _a: &dyn LinearOperator<f64>, _x: DVectorView<f64>, _b: DVectorView<f64>) {
        self.1 .0.borrow_mut().push(Ev::Reset);
    }
    fn has_converged(&self, a: &dyn LinearOperator<f64>, x: DVectorView<f64>, b: DVectorView<f64>, b_norm: f64, it: usize, r: DVectorView<f64>) -> Result<bool, SolveErrorKind> {
        if self.1.fault(Actor::Crit) {
            return Err(SolveErrorKind::StoppingCriterionError("injected Crit".into()));
        }
        let xs = x.iter().cloned().collect();
        let rs = r.iter().cloned().collect();
        let ans = match self.0 {
            Crit::Rel(t) => RelativeResidualCriterion::new(t).has_converged(a, x, b, b_norm, it, r)?,
            Crit::At(k) => it == k,
            Crit::Never => false,
        };
        self.1 .0.borrow_mut().push(Ev::Crit(xs, rs, it, ans));
        Ok(ans)
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Out {
    /// Ok or a description of the error kind.
    res: Result<(), String>,
    iterations: usize,
    x: Vec<u64>,
    log: Vec<Ev>,
}

fn run(s: &Sys, ws: &mut CgWorkspace<f64>) -> Out {
    let log = Log(RefCell::new(vec![]), RefCell::new(0), s.fault);
    let n = s.b.len();
    let b = DVector::from_vec(s.b.clone());
    let mut x = DVector::from_vec(s.x0.clone());
    let pre = DMatrix::from_diagonal(&DVector::from_vec(s.p.clone()));
    macro_rules! go {
        ($a:expr) => {{
            let mut cg = ConjugateGradient::with_workspace(ws)
                .with_operator(Op($a, &log, Actor::Op))
                .with_preconditioner(Op(&pre, &log, Actor::Pre))
                .with_stopping_criterion(CritObj(s.crit, &log));
            if let Some(m) = s.max_iter {
                cg = cg.with_max_iter(m);
            }
            cg.solve_with_guess(&b, &mut x)
        }};
    }
    let r = if s.sparse {
        // all entries stored, except for zero columns
        let mut coo = nalgebra_sparse::CooMatrix::new(n, n);
        for i in 0..n {
            for j in 0..n {
                if s.a[(i, j)] != 0.0 {
                    coo.push(i, j, s.a[(i, j)]);
                }
            }
        }
        let a = CsrMatrix::from(&coo);
        go!(&a)
    } else {
        go!(&s.a)
    };
    let (res, iterations) = match r {
        Ok(o) => (Ok(()), o.num_iterations),
        Err(e) => {
            let k = match &e.kind {
                SolveErrorKind::OperatorError(m) => format!("operator: {m}"),
                SolveErrorKind::PreconditionerError(m) => format!("preconditioner: {m}"),
                SolveErrorKind::StoppingCriterionError(m) => format!("criterion: {m}"),
                SolveErrorKind::IndefiniteOperator => "indefinite operator".into(),
                SolveErrorKind::IndefinitePreconditioner => "indefinite preconditioner".into(),
                SolveErrorKind::MaxIterationsReached { max_iter } => format!("max {max_iter}"),
                k => format!("other {k}"),
            };
            (Err(k), e.output.num_iterations)
        }
    };
    Out { res, iterations, x: x.iter().map(|v| v.to_bits()).collect(), log: log.0.into_inner() }
}

fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
/// -1, 1, or 0 if the sign is within rounding of zero.
fn sign(a: &[f64], b: &[f64]) -> i32 {
    let s = dot(a, b);
    let scale: f64 = a.iter().zip(b).map(|(x, y)| (x * y).abs()).sum();
    if s.abs() <= 1e-13 * scale {
        0
    } else {
        s.signum() as i32
    }
}

/// Exact definiteness of a symmetric integer matrix.
fn posdef(a: &DMatrix<f64>) -> bool {
    let n = a.nrows();
    let mut m: Vec<Vec<Q>> = (0..n).map(|i| (0..n).map(|j| Q::of(a[(i, j)])).collect()).collect();
    for k in 0..n {
        if m[k][k].sgn() <= 0 {
            return false;
        }
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            for j in k..n {
                let t = m[k][j];
                m[i][j] = m[i][j] - f * t;
            }
        }
    }
    true
}

fn check(s: &Sys) -> Verdict {
    let o = run(s, &mut CgWorkspace::default());
    let spd = posdef(&s.a) && s.p.iter().all(|v| *v > 0.0);
    judge(s, &o, spd)
}

/// The outcome does not depend on the units of the equations and of the unknowns: scaling by powers of two scales
/// everything exactly.
fn units(s: &Sys) -> Verdict {
    let o = run(s, &mut CgWorkspace::default());
    for (ka, kb, kp) in [(-40, 30, 0), (60, -70, -3), (-60, -100, 7), (-10, -260, 0), (30, 250, 2)] {
        let (fa, fb, fp) = (2f64.powi(ka), 2f64.powi(kb), 2f64.powi(kp));
        let mut t = s.clone();
        t.a *= fa;
        t.b.iter_mut().for_each(|v| *v *= fb);
        t.x0.iter_mut().for_each(|v| *v *= fb / fa);
        t.p.iter_mut().for_each(|v| *v *= fp);
        let u = run(&t, &mut CgWorkspace::default());
        ensure_eq!((&u.res, u.iterations), (&o.res, o.iterations), "outcome with operator x 2^{ka}, right-hand side x 2^{kb}, preconditioner x 2^{kp}");
        let back: Vec<f64> = u.x.iter().map(|v| f64::from_bits(*v) * (fa / fb)).collect();
        let want: Vec<f64> = o.x.iter().map(|v| f64::from_bits(*v)).collect();
        // an equation solved exactly leaves rounding errors behind that are not always scaled exactly
        let big = want.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        for i in 0..want.len() {
            ensure!((back[i] - want[i]).abs() <= 1e-12 * big, "unknown {i} is {} instead of {} in units 2^{ka}, 2^{kb}, 2^{kp}", back[i], want[i]);
        }
    }
    Ok(Some(digest(&format!("{s:?}"))))
}

fn judge(s: &Sys, o: &Out, spd: bool) -> Verdict {
    let n = s.b.len();
    let x: Vec<f64> = o.x.iter().map(|b| f64::from_bits(*b)).collect();
    let zero_rhs = s.b.iter().all(|v| *v == 0.0);
    ensure_eq!(o.log.iter().filter(|e| **e == Ev::Reset).count(), 1, "number of resets of the stopping criterion");
    let first_crit = o.log.iter().position(|e| matches!(e, Ev::Crit(..))).unwrap_or(o.log.len());
    ensure!(o.log.iter().position(|e| *e == Ev::Reset).unwrap() < first_crit.max(1), "the criterion is reset after its first use");
    let finite = x.iter().all(|v| v.is_finite());
    // failures
    if let Some(k) = o.log.iter().position(|e| matches!(e, Ev::Fault(_))) {
        let Ev::Fault(a) = o.log[k] else { unreachable!() };
        ensure_eq!(k + 1, o.log.len(), "calls after the failure");
        let want = match a {
            Actor::Op => "operator: injected Op",
            Actor::Pre => "preconditioner: injected Pre",
            Actor::Crit => "criterion: injected Crit",
        };
        ensure_eq!(o.res, Err(want.to_string()), "outcome after the failure of {a:?}");
    }
    let crits: Vec<(&Vec<f64>, &Vec<f64>, usize, bool)> = o
        .log
        .iter()
        .filter_map(|e| match e {
            Ev::Crit(x, r, i, a) => Some((x, r, *i, *a)),
            _ => None,
        })
        .collect();
    for (k, c) in crits.iter().enumerate() {
        ensure_eq!(c.2, k, "iteration number shown to the criterion");
        ensure!(!c.3 || k + 1 == crits.len(), "iterating on after the criterion accepted");
    }
    if let Some(m) = s.max_iter {
        ensure!(o.iterations <= m, "{} iterations, {m} permitted", o.iterations);
    }
    // the residual shown to the criterion is the residual of the iterate shown to it
    let amax = s.a.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    if finite && !s.fault.is_some() {
        for (k, c) in crits.iter().enumerate() {
            let ax = &s.a * DVector::from_vec(c.0.clone());
            let scale = norm(&s.b) + (n as f64) * amax * crits[..=k].iter().fold(0.0f64, |m, c| m.max(norm(c.0)));
            for i in 0..n {
                let r = s.b[i] - ax[i];
                ensure!((r - c.1[i]).abs() <= 1e-9 * (1.0 + scale), "residual {i} at iteration {k} is {} instead of {r}", c.1[i]);
            }
        }
        if let Some(c) = crits.first() {
            ensure_eq!(*c.0, s.x0, "first iterate");
        }
    }
    // the directions the operator was applied to, after the initial residual
    let dirs: Vec<(&Vec<f64>, &Vec<f64>)> = o.log.iter().filter_map(|e| if let Ev::Op(x, y) = e { Some((x, y)) } else { None }).skip(1).collect();
    let pres: Vec<(&Vec<f64>, &Vec<f64>)> = o.log.iter().filter_map(|e| if let Ev::Pre(x, y) = e { Some((x, y)) } else { None }).collect();
    match &o.res {
        Ok(()) => {
            if zero_rhs {
                ensure!(x.iter().all(|v| *v == 0.0), "the solution for a zero right-hand side is {x:?}");
                ensure_eq!(o.iterations, 0, "iterations for a zero right-hand side");
            } else {
                let Some(c) = crits.last() else { return Err("success without asking the criterion".into()) };
                ensure!(c.3, "success although the criterion did not accept");
                let same = c.0.iter().zip(&o.x).all(|(a, b)| a.to_bits() == *b);
                ensure!(same, "the returned iterate {x:?} is not the accepted one {:?}", c.0);
                ensure_eq!(o.iterations, c.2, "reported iterations");
            }
        }
        Err(k) if k.starts_with("max ") => {
            ensure_eq!(Some(k[4..].parse().unwrap()), s.max_iter, "reported limit");
            ensure_eq!(Some(o.iterations), s.max_iter, "iterations at the limit");
            ensure!(crits.last().map_or(false, |c| !c.3), "limit reported although the criterion accepted");
        }
        Err(k) if k == "indefinite operator" => {
            let (p, ap) = dirs.last().ok_or("indefinite operator reported without applying it")?;
            ensure!(sign(p, ap) <= 0, "indefinite operator reported, but p'Ap = {} > 0", dot(p, ap));
        }
        Err(k) if k == "indefinite preconditioner" => {
            let (r, z) = pres.last().ok_or("indefinite preconditioner reported without applying it")?;
            ensure!(sign(r, z) <= 0, "indefinite preconditioner reported, but r'Pr = {} > 0", dot(r, z));
        }
        Err(_) => {
            ensure!(matches!(o.log.last(), Some(Ev::Fault(_))), "unexpected failure {:?}", o.res);
        }
    }
    // indefiniteness is reported: no update is made along a direction with p'Ap < 0, and none with r'Pr < 0
    for (k, (p, ap)) in dirs.iter().enumerate() {
        if sign(p, ap) < 0 {
            ensure_eq!(k + 1, dirs.len(), "iterating on after p'Ap < 0");
            let known = matches!(&o.res, Err(e) if e.starts_with("indefinite"));
            ensure!(known, "p'Ap < 0 led to {:?}", o.res);
        }
    }
    for (k, (r, z)) in pres.iter().enumerate() {
        if sign(r, z) < 0 && k + 1 < pres.len() {
            return Err("iterating on after r'Pr < 0".into());
        }
        if sign(r, z) < 0 && k < dirs.len() {
            let known = matches!(&o.res, Err(e) if e.starts_with("indefinite")) || s.fault.is_some();
            ensure!(known, "r'Pr < 0 led to {:?}", o.res);
        }
    }
    // definite systems are solved
    if spd && n > 0 && s.fault.is_none() {
        if let Crit::Rel(tol) = s.crit {
            if tol >= 1e-8 && s.max_iter.map_or(true, |m| m >= n) {
                ensure_eq!(o.res, Ok(()), "a definite system of dimension {n} with relative tolerance {tol}");
                // rounding errors can cost iterations on longer runs
                let most = if n <= 3 { n } else { 2 * n };
                ensure!(o.iterations <= most, "{} iterations for {n} unknowns", o.iterations);
                let sol = s.a.clone().lu().solve(&DVector::from_vec(s.b.clone())).unwrap();
                for i in 0..n {
                    if tol > 1e-8 {
                        break;
                    }
                    ensure!((sol[i] - x[i]).abs() <= 1e-5 * (1.0 + sol.amax()), "unknown {i} is {} instead of {}", x[i], sol[i]);
                }
            }
        }
        // the error never grows in the energy norm
        let sol = s.a.clone().lu().solve(&DVector::from_vec(s.b.clone())).unwrap();
        let en = |v: &Vec<f64>| {
            let e = DVector::from_vec(v.clone()) - &sol;
            e.dot(&(&s.a * &e))
        };
        for w in crits.windows(2) {
            ensure!(en(w[1].0) <= en(w[0].0) * (1.0 + 1e-9) + 1e-12 * (1.0 + en(crits[0].0)), "the energy of the error grows");
        }
    }
    Ok(if o.iterations > 0 || o.res.is_err() { Some(digest(&format!("{s:?}"))) } else { None })
}

fn sym(n: usize, d: &mut Dig, diag: &[f64], off: &[f64]) -> DMatrix<f64> {
    let mut a = DMatrix::zeros(n, n);
    for i in 0..n {
        for j in 0..=i {
            let v = *d.pick(if i == j { diag } else { off });
            a[(i, j)] = v;
            a[(j, i)] = v;
        }
    }
    a
}

fn main() {
    let ctx = Ctx::new(
        "C09",
        Level::FaultEnumeration,
        "every symmetric system over an entry lattice x preconditioner x right-hand side x guess x criterion x iteration limit; every call position of operator, preconditioner and criterion at which a failure can occur; every sequence of solves on one workspace",
    );
    ctx.assume("signs of p'Ap and r'Pr that are within rounding of zero may be judged either way");
    let diag = [2.0, 3.0, 0.0, -1.0];
    let off = [0.0, 1.0, -1.0];
    let pres = [1.0, 0.5, 4.0, -1.0];
    let vals = [0.0, 1.0, -2.0];
    let crits = [Crit::Rel(1e-8), Crit::At(0), Crit::At(1), Crit::Rel(0.5), Crit::Never];
    for n in 0..=ctx.tier(3usize, 3) {
        let off: &[f64] = if n == 3 && !ctx.thorough { &off[..2] } else { &off };
        let diag: &[f64] = if n == 3 && !ctx.thorough { &diag[..3] } else { &diag };
        let np = if n == 3 { 2 } else { 4 };
        let nm = pow(diag.len() as u64, n as u32) * pow(off.len() as u64, (n * n.saturating_sub(1) / 2) as u32);
        let nx = if n == 3 { 2 } else { 3 };
        let total = nm * pow(np, n as u32) * pow(3, n as u32) * pow(nx, n as u32) * 5 * 4 * 2;
        let of = |i: u64| {
            let mut d = Dig(i);
            let crit = *d.pick(&crits);
            let mi = d.next(4);
            let sparse = d.bit();
            let a = sym(n, &mut d, diag, off);
            let p = (0..n).map(|_| pres[d.next(np)]).collect();
            let b = (0..n).map(|_| *d.pick(&vals)).collect();
            let x0 = (0..n).map(|_| vals[d.next(nx)]).collect();
            let max_iter = match mi {
                0 => Some(n + 1),
                1 => Some(0),
                2 => Some(1),
                _ => if crit == Crit::Never || matches!(crit, Crit::At(_)) { Some(n + 2) } else { Some(3 * n + 7) },
            };
            Sys { a, p, b, x0, crit, max_iter, sparse, fault: None }
        };
        ctx.suite(&format!("systems of dimension {n}"), total, |i| format!("{:?}", of(i)), |i| check(&of(i)));
    }
    // no iteration limit, on definite systems
    for n in 1..=3usize {
        let nm = pow(3, n as u32) * pow(3, (n * (n - 1) / 2) as u32);
        ctx.suite(
            &format!("definite systems of dimension {n} without a limit"),
            nm * pow(3, n as u32) * 2,
            |i| format!("{i}"),
            |i| {
                let mut d = Dig(i);
                let sparse = d.bit();
                let a = sym(n, &mut d, &[3.0, 4.0, 6.0], &off);
                let b = (0..n).map(|_| *d.pick(&vals)).collect();
                if !posdef(&a) {
                    return Ok(None);
                }
                check(&Sys { a, p: vec![0.5; n], b, x0: vec![1.0; n], crit: Crit::Rel(1e-8), max_iter: None, sparse, fault: None })
            },
        );
    }

    for n in 1..=3usize {
        let nm = pow(3, n as u32) * pow(3, (n * (n - 1) / 2) as u32);
        ctx.suite(
            &format!("systems of dimension {n} in other units"),
            nm * pow(2, n as u32) * pow(3, n as u32) * 2,
            |i| format!("{i}"),
            |i| {
                let mut d = Dig(i);
                let sparse = d.bit();
                let a = sym(n, &mut d, &[3.0, 1.0, -2.0], &off);
                let p = (0..n).map(|_| *d.pick(&[1.0, 0.25])).collect();
                let b = (0..n).map(|_| *d.pick(&vals)).collect();
                units(&Sys { a, p, b, x0: vec![0.5; n], crit: Crit::Rel(1e-6), max_iter: Some(n + 2), sparse, fault: None })
            },
        );
    }

    // long runs
    let mut long = vec![];
    let sizes: Vec<usize> = if ctx.thorough { (4..=160).chain([255, 256, 257, 300]).collect() } else { vec![4, 5, 8, 17, 33, 49, 50, 51, 52, 64, 65, 80, 99, 100, 101, 102, 128, 129, 130, 257] };
    for &n in &sizes {
        for kind in 0..4 {
            let a = DMatrix::from_fn(n, n, |i, j| match kind {
                // a string of springs, fixed at both ends
                0 => if i == j { 2.0 } else if i.abs_diff(j) == 1 { -1.0 } else { 0.0 },
                // free at one end
                1 => if i == j { if i == 0 { 1.0 } else { 2.0 } } else if i.abs_diff(j) == 1 { -1.0 } else { 0.0 },
                // n different eigenvalues
                2 => if i == j { 1.0 + i as f64 / 2.0 } else { 0.0 },
                // stiff and soft springs
                _ => {
                    let k = |e: usize| if e % 2 == 0 { 4.0 } else { 1.0 };
                    if i == j { k(i) + k(i + 1) } else if i.abs_diff(j) == 1 { -k(i.max(j)) } else { 0.0 }
                }
            });
            for rhs in 0..4 {
                let b: Vec<f64> = (0..n).map(|i| match rhs {
                    0 => 1.0,
                    1 => ((i * 7) % 11) as f64 - 3.0,
                    2 => if i == 0 { 1.0 } else { 0.0 },
                    _ => if i + 1 == n { -5.0 } else { 1.0 / (i + 1) as f64 },
                }).collect();
                for (x0, pre, sparse) in [(0.0, 0, true), (1.0, 1, true), (-3.0, 0, false)] {
                    let mut p: Vec<f64> = (0..n).map(|i| if pre == 0 { 1.0 } else { 1.0 / a[(i, i)] }).collect();
                    for (crit, max_iter) in [(Crit::Rel(1e-6), None), (Crit::Rel(1e-6), Some(2 * n)), (Crit::At(n / 2), Some(n)), (Crit::Never, Some(n / 2 + 1))] {
                        long.push(Sys { a: a.clone(), p, b: b.clone(), x0: vec![x0; n], crit, max_iter, sparse, fault: None });
                        p = long.last().unwrap().p.clone();
                    }
                }
            }
        }
    }
    let name = |s: &Sys| format!("n {} a01 {} a00 {} b {:?} x0 {} p {} {:?} {:?} sparse {}", s.b.len(), s.a[(0, 1)], s.a[(0, 0)], &s.b[..2], s.x0[0], s.p[0], s.crit, s.max_iter, s.sparse);
    ctx.suite_over("long runs", &long, name, |s| {
        let o = run(s, &mut CgWorkspace::default());
        judge(s, &o, true)?;
        // past convergence rounding errors are all there is
        if matches!(s.crit, Crit::Rel(_)) { units(s) } else { Ok(Some(digest(&format!("{s:?}")))) }
    });

    // failures at every call position
    let mut base = vec![];
    for n in 0..=3usize {
        for (k, diag) in [[4.0, 5.0, 3.0], [2.0, 2.0, -1.0], [1.0, 0.0, 2.0]].iter().enumerate() {
            for b in 0..3 {
                for crit in crits {
                    for sparse in [false, true] {
                        let mut a = DMatrix::zeros(n, n);
                        for i in 0..n {
                            a[(i, i)] = diag[i];
                            for j in 0..i {
                                a[(i, j)] = if k == 1 { 2.0 } else { 1.0 };
                                a[(j, i)] = a[(i, j)];
                            }
                        }
                        let b: Vec<f64> = (0..n).map(|i| if b == 0 { 0.0 } else { (i * b) as f64 - 1.0 }).collect();
                        base.push(Sys { a, p: vec![2.0; n], b, x0: vec![0.5; n], crit, max_iter: Some(n + 3), sparse, fault: None });
                    }
                }
            }
        }
    }
    let mut faults = vec![];
    for s in &base {
        for actor in [Actor::Op, Actor::Pre, Actor::Crit] {
            for k in 0..s.b.len() + 5 {
                let mut t = s.clone();
                t.fault = Some((actor, k));
                faults.push(t);
            }
        }
    }
    ctx.suite_over(
        "failures",
        &faults,
        |s| format!("{s:?}"),
        |s| {
            let mut ws = CgWorkspace::default();
            let o = run(s, &mut ws);
            let fired = o.log.iter().any(|e| matches!(e, Ev::Fault(_)));
            judge(s, &o, false)?;
            let mut clean = s.clone();
            clean.fault = None;
            let fresh = run(&clean, &mut CgWorkspace::default());
            if !fired {
                ensure_eq!(o, fresh, "a failure that never happened changes the outcome");
            } else {
                // up to the failure everything is as without it, and the workspace can be used again
                let m = o.log.len() - 1;
                ensure!(o.log[..m] == fresh.log[..m], "different calls before the failure");
                let again = run(&clean, &mut ws);
                ensure_eq!(again, fresh, "solve with the workspace of a failed solve");
            }
            Ok(if fired { Some(digest(&format!("{s:?}"))) } else { None })
        },
    );

    // histories of one workspace
    let mut pool: Vec<Sys> = vec![];
    let mk = |d: &[f64], o: f64, b: &[f64], crit: Crit, max: usize, sparse: bool| {
        let n = b.len();
        let a = DMatrix::from_fn(n, n, |i, j| if i == j { d[i % d.len()] } else { o });
        Sys { a, p: vec![1.0; n], b: b.to_vec(), x0: vec![0.25; n], crit, max_iter: Some(max), sparse, fault: None }
    };
    for sparse in [true, false] {
        pool.push(mk(&[4.0, 5.0, 6.0], 1.0, &[1.0, 2.0, 3.0], Crit::Rel(1e-8), 10, sparse));
        pool.push(mk(&[3.0], 1.0, &[1.0, -1.0], Crit::Rel(1e-8), 10, sparse));
        // overflows to infinity and beyond
        pool.push(mk(&[1e300, 1e300], 1e300 / 2.0, &[1e300, 1e200], Crit::Never, 4, sparse));
        pool.push(mk(&[1.0, -1.0], 0.0, &[1.0, 2.0], Crit::Rel(1e-8), 5, sparse));
        pool.push(mk(&[2.0], 0.0, &[7.0], Crit::Rel(1e-8), 5, sparse));
    }
    pool.push(mk(&[2.0], 1.0, &[], Crit::Rel(1e-8), 5, true));
    {
        let mut f = mk(&[4.0, 5.0, 6.0, 9.0], 1.0, &[1.0, 2.0, 3.0, 4.0], Crit::Rel(1e-8), 10, true);
        f.fault = Some((Actor::Op, 2));
        pool.push(f.clone());
        f.fault = Some((Actor::Pre, 1));
        pool.push(f);
    }
    let k = pool.len() as u64;
    let depth = ctx.tier(4, 5);
    let fresh: Vec<Out> = pool.iter().map(|s| run(s, &mut CgWorkspace::default())).collect();
    let bits = |o: &Out| format!("{:?} {} {:?}", o.res, o.iterations, o.x);
    ctx.suite(
        &format!("workspace histories of length {depth}"),
        pow(k, depth),
        |i| {
            let mut d = Dig(i);
            format!("problems {:?}", (0..depth).map(|_| d.next(k)).collect::<Vec<_>>())
        },
        |i| {
            let mut d = Dig(i);
            let mut ws = CgWorkspace::default();
            for t in 0..depth {
                let j = d.next(k);
                let o = run(&pool[j], &mut ws);
                ensure_eq!(bits(&o), bits(&fresh[j]), "outcome of problem {j} at step {t}");
            }
            Ok(Some(i))
        },
    );
    ctx.count("histories", pow(k, depth));
    ctx.finish()
}
