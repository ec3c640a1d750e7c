//! C10: Newton's method and line search, and finite differences.
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DVectorViewMut};
use fenris_optimize::calculus::*;
use fenris_optimize::newton::*;
use hk::*;
use std::error::Error;

#[derive(Clone, Debug)]
enum Ev {
    /// point, value
    Eval(Vec<f64>, Vec<f64>),
    /// point, right-hand side, answer (None: failed)
    Solve(Vec<f64>, Vec<f64>, Option<Vec<f64>>),
    /// direction, succeeded
    Search(Vec<f64>, bool),
}

/// A function whose values, Jacobian solutions and failures follow a script.
struct Script {
    dim: usize,
    values: Vec<Vec<f64>>,
    after: f64,
    solutions: Vec<f64>,
    solve_fails: Option<usize>,
    evals: usize,
    solves: usize,
    log: Vec<Ev>,
}

impl VectorFunction<f64> for Script {
    fn dimension(&self) -> usize {
        self.dim
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>) {
        for i in 0..self.dim {
            f[i] = self.values.get(self.evals).map_or(self.after, |v| v[i]);
        }
        self.evals += 1;
        self.log.push(Ev::Eval(x.iter().cloned().collect(), f.iter().cloned().collect()));
    }
}

impl DifferentiableVectorFunction<f64> for Script {
    fn solve_jacobian_system(&mut self, sol: &mut DVectorViewMut<f64>, x: &DVectorView<f64>, rhs: &DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        let k = self.solves;
        self.solves += 1;
        let (x, r) = (x.iter().cloned().collect(), rhs.iter().cloned().collect());
        if self.solve_fails == Some(k) {
            self.log.push(Ev::Solve(x, r, None));
            return Err(format!("injected at solve {k}").into());
        }
        for i in 0..self.dim {
            sol[i] = self.solutions[k % self.solutions.len()] * (1.0 + i as f64);
        }
        self.log.push(Ev::Solve(x, r, Some(sol.iter().cloned().collect())));
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ls {
    Plain,
    None,
    Backtracking,
    /// A line search that takes half steps and fails at the given call.
    Half(usize),
}

struct HalfSearch(usize, usize);
impl LineSearch<f64, Script> for HalfSearch {
    fn step(&mut self, function: &mut Script, mut f: DVectorViewMut<f64>, mut x: DVectorViewMut<f64>, p: DVectorView<f64>) -> Result<f64, Box<dyn Error>> {
        let k = self.1;
        self.1 += 1;
        function.log.push(Ev::Search(p.iter().cloned().collect(), k != self.0));
        if k == self.0 {
            return Err(format!("injected at search {k}").into());
        }
        x.axpy(0.5, &p, 1.0);
        function.eval_into(&mut f, &DVectorView::from(&x));
        Ok(0.5)
    }
}

#[derive(Clone, Debug)]
struct Case {
    dim: usize,
    values: Vec<Vec<f64>>,
    after: f64,
    solutions: Vec<f64>,
    solve_fails: Option<usize>,
    ls: Ls,
    max: Option<usize>,
    tol: f64,
}

fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

/// Powers of two by which residuals and tolerances are scaled: nothing Newton's method decides depends on the units.
const UNITS: [f64; 4] = [1.0, 1.0 / (1u64 << 40) as f64, 3.0549363634996047e-151, 2.037035976334486e90];

impl Case {
    fn scaled(mut self, s: f64) -> Case {
        self.values.iter_mut().flatten().for_each(|v| *v *= s);
        self.after *= s;
        self.tol *= s;
        self
    }
}

fn check(c: &Case) -> Verdict {
    let mut s = Script { dim: c.dim, values: c.values.clone(), after: c.after, solutions: c.solutions.clone(), solve_fails: c.solve_fails, evals: 0, solves: 0, log: vec![] };
    let x0: Vec<f64> = (0..c.dim).map(|i| 1.0 + i as f64).collect();
    let mut x = DVector::from_vec(x0.clone());
    let mut f = DVector::from_element(c.dim, 77.0);
    let mut dx = DVector::from_element(c.dim, 88.0);
    let set = NewtonSettings { max_iterations: c.max, tolerance: c.tol };
    let r = match c.ls {
        Ls::Plain => newton(&mut s, &mut x, &mut f, &mut dx, set),
        Ls::None => newton_line_search(&mut s, &mut x, &mut f, &mut dx, set, &mut NoLineSearch),
        Ls::Backtracking => newton_line_search(&mut s, &mut x, &mut f, &mut dx, set, &mut BacktrackingLineSearch),
        Ls::Half(k) => {
            // the search needs the script itself, not a reference to it
            let mut hs = HalfSearch(k, 0);
            let mut own = Script { log: vec![], values: s.values.clone(), solutions: s.solutions.clone(), ..s };
            let r = newton_line_search(ByMove(&mut own), &mut x, &mut f, &mut dx, set, &mut Adapt(&mut hs));
            s = own;
            r
        }
    };
    let log = &s.log;
    let Some(Ev::Eval(px, _)) = log.first() else { return Err("the function was not evaluated first".into()) };
    ensure_eq!(bits(px), bits(&x0), "first evaluation point");
    // Which evaluations are accepted iterates: the last one before a Jacobian solve or before the end.
    let mut steps = 0usize;
    let mut cur: Option<(Vec<f64>, Vec<f64>)> = None;
    let mut pending = false;
    for (k, e) in log.iter().enumerate() {
        match e {
            Ev::Eval(x, v) => {
                cur = Some((x.clone(), v.clone()));
                if pending && !matches!(log.get(k + 1), Some(Ev::Eval(..))) {
                    steps += 1;
                    pending = false;
                }
            }
            Ev::Solve(x, r, sol) => {
                let (cx, cf) = cur.as_ref().unwrap();
                ensure!(!(norm(cf) <= c.tol), "iterating on from a residual of norm {} within the tolerance {}", norm(cf), c.tol);
                ensure_eq!(bits(x), bits(cx), "point of the Jacobian");
                ensure_eq!(bits(r), bits(cf), "right-hand side of the Jacobian system");
                if let Some(m) = c.max {
                    ensure!(steps < m, "a step is made after {steps} iterations, {m} permitted");
                }
                if sol.is_none() {
                    ensure_eq!(k + 1, log.len(), "calls after the Jacobian solve failed");
                }
                pending = true;
            }
            Ev::Search(p, ok) => {
                if let Some(Ev::Solve(_, _, Some(sol))) = log.get(k - 1) {
                    let neg: Vec<f64> = sol.iter().map(|v| -v).collect();
                    ensure!(p.iter().zip(&neg).all(|(a, b)| a == b || (a.is_nan() && b.is_nan())), "direction {p:?}, expected {neg:?}");
                } else {
                    return Err("a line search without a Jacobian solve".into());
                }
                if !ok {
                    ensure_eq!(k + 1, log.len(), "calls after the line search failed");
                }
            }
        }
    }
    let (cx, cf) = cur.unwrap();
    let failed_solve = matches!(log.last(), Some(Ev::Solve(_, _, None)));
    let failed_search = matches!(log.last(), Some(Ev::Search(_, false)));
    match &r {
        Ok(n) => {
            ensure!(!failed_solve && !failed_search, "success after a failure");
            ensure!(norm(&cf) <= c.tol, "success with a residual of norm {} and tolerance {}", norm(&cf), c.tol);
            ensure_eq!(bits(x.as_slice()), bits(&cx), "returned point");
            ensure_eq!(bits(f.as_slice()), bits(&cf), "returned residual");
            ensure_eq!(*n, steps, "reported iterations");
            ensure!(c.max.map_or(true, |m| *n <= m), "{n} iterations, {:?} permitted", c.max);
        }
        Err(NewtonError::MaximumIterationsReached(n)) => {
            ensure!(!failed_solve && !failed_search, "limit reported after a failure");
            ensure!(!(norm(&cf) <= c.tol), "the limit is reported with a residual of norm {} and tolerance {}", norm(&cf), c.tol);
            ensure_eq!(Some(*n), c.max, "reported limit");
            ensure_eq!(*n, steps, "steps at the limit");
        }
        Err(NewtonError::JacobianError(e)) => {
            ensure!(failed_solve, "a Jacobian failure that did not happen: {e}");
            ensure_eq!(e.to_string(), format!("injected at solve {}", c.solve_fails.unwrap()), "message");
        }
        Err(NewtonError::LineSearchError(e)) => match c.ls {
            Ls::Half(k) => {
                ensure!(failed_search, "a line search failure that did not happen: {e}");
                ensure_eq!(e.to_string(), format!("injected at search {k}"), "message");
            }
            Ls::Backtracking => {
                // nothing along the way may have been good enough
                // (from a residual that is not a number nothing counts as a decrease)
                let finite = c.values.iter().flatten().all(|v| v.is_finite());
                ensure!(!finite || !(norm(&cf) <= 0.0), "line search fails at a zero residual");
            }
            _ => return Err(format!("a line search failure without a line search: {e}")),
        },
    }
    if failed_solve {
        ensure!(matches!(r, Err(NewtonError::JacobianError(_))), "a failed Jacobian solve led to {r:?}");
    }
    if failed_search {
        ensure!(matches!(r, Err(NewtonError::LineSearchError(_))), "a failed line search led to {r:?}");
    }
    // Newton steps of the plain variant: x moves by exactly minus the solution
    if matches!(c.ls, Ls::Plain | Ls::None) {
        for w in log.windows(3) {
            if let [Ev::Eval(a, _), Ev::Solve(_, _, Some(d)), Ev::Eval(b, _)] = w {
                for i in 0..c.dim {
                    let want = a[i] - d[i];
                    ensure!(b[i] == want || (b[i].is_nan() && want.is_nan()), "the step goes to {} instead of {want}", b[i]);
                }
            }
        }
    }
    Ok(if log.len() > 1 { Some(digest(&format!("{c:?}"))) } else { None })
}

/// Lets a line search for the script itself be used through `&mut`.
struct ByMove<'a>(&'a mut Script);
impl<'a> VectorFunction<f64> for ByMove<'a> {
    fn dimension(&self) -> usize {
        self.0.dim
    }
    fn eval_into(&mut self, f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>) {
        self.0.eval_into(f, x)
    }
}
impl<'a> DifferentiableVectorFunction<f64> for ByMove<'a> {
    fn solve_jacobian_system(&mut self, sol: &mut DVectorViewMut<f64>, x: &DVectorView<f64>, rhs: &DVectorView<f64>) -> Result<(), Box<dyn Error>> {
        self.0.solve_jacobian_system(sol, x, rhs)
    }
}
struct Adapt<'s>(&'s mut HalfSearch);
impl<'s, 'a> LineSearch<f64, ByMove<'a>> for Adapt<'s> {
    fn step(&mut self, function: &mut ByMove<'a>, f: DVectorViewMut<f64>, x: DVectorViewMut<f64>, p: DVectorView<f64>) -> Result<f64, Box<dyn Error>> {
        self.0.step(function.0, f, x, p)
    }
}

fn main() {
    let ctx = Ctx::new(
        "C10",
        Level::FaultEnumeration,
        "every script of residual values (zero, below, at and above the tolerance, huge, infinite, NaN) up to a length x iteration limit x position of a failing Jacobian solve or line search x line search; every scripted backtracking search; finite differences of every quadratic map over a coefficient lattice",
    );
    let tol = 1.0;
    let alpha1 = [0.0, 0.5, 1.0, 1.0 + 1e-9, -3.0, 40.0, f64::NAN, f64::INFINITY];
    let lss = [Ls::Plain, Ls::None, Ls::Half(0), Ls::Half(1), Ls::Half(2), Ls::Half(99)];
    let maxs = [None, Some(0), Some(1), Some(2), Some(3), Some(7)];
    let len = ctx.tier(4u32, 6);
    let total = pow(8, len) * 6 * 6 * 5 * 3;
    let of = |i: u64| {
        let mut d = Dig(i);
        let ls = *d.pick(&lss);
        let max = *d.pick(&maxs);
        let sf = d.next(5);
        let sol = d.next(3);
        let values = (0..len).map(|_| vec![*d.pick(&alpha1)]).collect();
        Case {
            dim: 1,
            values,
            after: 0.0,
            solutions: match sol {
                0 => vec![1.0, -0.5],
                1 => vec![0.0],
                _ => vec![2.0, f64::NAN],
            },
            solve_fails: if sf == 4 { None } else { Some(sf) },
            ls,
            max,
            tol,
        }
    };
    ctx.suite("scripts of scalar residuals", total, |i| format!("{:?}", of(i)), |i| check(&of(i)));
    ctx.suite(
        "scripts of scalar residuals in other units",
        total * 3,
        |i| format!("{:?}", of(i / 3).scaled(UNITS[1 + i as usize % 3])),
        |i| check(&of(i / 3).scaled(UNITS[1 + i as usize % 3])),
    );

    // the norm in two dimensions
    let alpha2 = [0.0, 0.6, -0.8, 0.8, 1.0, f64::NAN];
    let total2 = pow(36, 3) * 4 * 2;
    let of2 = |i: u64| {
        let mut d = Dig(i);
        let max = [Some(0), Some(1), Some(2), None][d.next(4)];
        let tol = [1.0, 0.0][d.next(2)];
        let values = (0..3).map(|_| vec![*d.pick(&alpha2), *d.pick(&alpha2)]).collect();
        Case { dim: 2, values, after: 0.0, solutions: vec![1.0, 0.25], solve_fails: None, ls: Ls::Plain, max, tol }
    };
    ctx.suite("scripts of planar residuals", total2 * 4, |i| format!("{:?}", of2(i / 4).scaled(UNITS[i as usize % 4])), |i| check(&of2(i / 4).scaled(UNITS[i as usize % 4])));

    // Newton with backtracking on scripts
    let alpha3 = [0.0, 0.5, 3.0, 2.9999, 2.999, f64::NAN, f64::INFINITY];
    let blen = ctx.tier(5u32, 7);
    let total3 = pow(7, blen) * 3 * 3 * 2;
    let of3 = |i: u64| {
        let mut d = Dig(i);
        let max = [Some(0), Some(2), Some(9)][d.next(3)];
        let sf = [None, Some(0), Some(1)][d.next(3)];
        let after = [0.0, 100.0][d.next(2)];
        let values = (0..blen).map(|_| vec![*d.pick(&alpha3)]).collect();
        Case { dim: 1, values, after, solutions: vec![1.0, -2.0], solve_fails: sf, ls: Ls::Backtracking, max, tol }
    };
    ctx.suite("scripts with backtracking", total3 * 4, |i| format!("{:?}", of3(i / 4).scaled(UNITS[i as usize % 4])), |i| check(&of3(i / 4).scaled(UNITS[i as usize % 4])));

    // The backtracking search on its own: any first residual, any later residuals, any direction.
    let vals = [0.0, 1.0, 3.0, 2.9999, 2.9998, 3.0003, f64::NAN, f64::INFINITY];
    let dirs = [1.0, -0.5, 0.0, 1e8];
    let slen = ctx.tier(4u32, 6);
    let total4 = pow(8, slen + 1) * 4 * 3 * 2 * 4;
    ctx.suite(
        "backtracking",
        total4,
        |i| format!("{i}"),
        |i| {
            let mut d = Dig(i);
            let unit = *d.pick(&UNITS);
            let p = *d.pick(&dirs);
            // the last is a decrease which is never sufficient
            let after = [0.0, 100.0, 3.0 * (1.0 - 1e-11)][d.next(3)] * unit;
            let dim = d.next(2) + 1;
            let f0 = *d.pick(&vals) * unit;
            let values: Vec<Vec<f64>> = (0..slen).map(|_| vec![*d.pick(&vals) * unit; dim]).collect();
            let mut s = Script { dim, values, after, solutions: vec![0.0], solve_fails: None, evals: 0, solves: 0, log: vec![] };
            let x0 = DVector::from_fn(dim, |i, _| 2.0 + i as f64);
            let dir = DVector::from_fn(dim, |i, _| p * (1.0 - 3.0 * i as f64));
            let mut x = x0.clone();
            let mut f = DVector::from_element(dim, f0);
            let r = BacktrackingLineSearch.step(&mut s, DVectorViewMut::from(&mut f), DVectorViewMut::from(&mut x), DVectorView::from(&dir));
            let g0 = 0.5 * dim as f64 * f0 * f0;
            let evals: Vec<(&Vec<f64>, &Vec<f64>)> = s.log.iter().map(|e| if let Ev::Eval(x, v) = e { (x, v) } else { unreachable!() }).collect();
            match r {
                Ok(a) => {
                    ensure!(a > 0.0 && a <= 1.0, "step length {a}");
                    let (ex, ev) = evals.last().ok_or("success without evaluating the function")?;
                    ensure_eq!(bits(ev), bits(f.as_slice()), "returned residual");
                    ensure_eq!(bits(ex), bits(x.as_slice()), "returned point");
                    for i in 0..dim {
                        let want = x0[i] + a * dir[i];
                        let slack = 1e-13 * (x0[i].abs() + dir[i].abs()) * 4.0;
                        ensure!((x[i] - want).abs() <= slack, "coordinate {i} is {} instead of {want} for a step of {a}", x[i]);
                    }
                    let g: f64 = 0.5 * ev.iter().map(|v| v * v).sum::<f64>();
                    ensure!(g <= (1.0 - 1e-4 * a) * g0 * (1.0 + 1e-12), "no sufficient decrease: {g} from {g0} with step {a}");
                }
                Err(_) => {
                    ensure!(evals.len() > 1, "failure after {} trials", evals.len());
                    // a residual of zero is always good enough
                    if f0.is_finite() {
                        ensure!(evals.iter().all(|(_, v)| v.iter().any(|x| *x != 0.0)), "failure although a zero residual was found");
                    }
                    ensure!(after > 0.0 || !f0.is_finite(), "failure although the residual vanishes in the end");
                }
            }
            Ok(Some(i))
        },
    );

    // Real systems, affine and quadratic: Newton converges in one step on affine maps.
    ctx.suite(
        "affine maps",
        pow(5, 4) * pow(3, 2) * 2,
        |i| format!("{i}"),
        |i| {
            let mut d = Dig(i);
            let a = DMatrix::from_fn(2, 2, |_, _| d.next(5) as f64 - 2.0);
            let b = DVector::from_fn(2, |_, _| d.next(3) as f64 - 1.0);
            let back = d.bit();
            if a.determinant().abs() < 0.5 {
                return Ok(None);
            }
            let lu = a.clone().lu();
            let mut fun = VectorFunctionBuilder::with_dimension(2)
                .with_function(|f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| f.copy_from(&(&a * x - &b)))
                .with_jacobian_solver(|s: &mut DVectorViewMut<f64>, _: &DVectorView<f64>, r: &DVectorView<f64>| {
                    s.copy_from(&lu.solve(r).ok_or("singular")?);
                    Ok(())
                });
            let mut x = DVector::from_vec(vec![3.0, -4.0]);
            let (mut f, mut dx) = (DVector::zeros(2), DVector::zeros(2));
            let set = NewtonSettings { max_iterations: Some(3), tolerance: 1e-9 };
            let n = if back {
                newton_line_search(&mut fun, &mut x, &mut f, &mut dx, set, &mut BacktrackingLineSearch)
            } else {
                newton(&mut fun, &mut x, &mut f, &mut dx, set)
            }
            .map_err(|e| e.to_string())?;
            ensure!(n <= 1, "{n} iterations on an affine map");
            ensure!((&a * &x - &b).norm() <= 1e-9, "not a root: {x}");
            Ok(Some(i))
        },
    );

    // finite differences of quadratic maps f_i = c + l.x + q x_0 x_1 + s x_i^2
    ctx.suite(
        "finite differences",
        pow(3, 8) * 6 * 3,
        |i| format!("{i}"),
        |i| {
            let mut d = Dig(i);
            // steps and points with and without rounding
            let h = [0.25, 1.0, 2.0, 1e-3, 0.1, 1e-6][d.next(6)];
            let x0 = DVector::from_vec([vec![1.5, -2.0, 0.5], vec![0.1, 1e-9, 3.7], vec![-1e-3, 7.3, 0.0]][d.next(3)].clone());
            let mut c = || d.next(3) as f64 - 1.0;
            let co: Vec<f64> = (0..8).map(|_| c()).collect();
            let tol = 1e-12 + 1e-12 / h;
            let fun = |x: &[f64]| -> [f64; 2] {
                [co[0] + co[1] * x[0] + co[2] * x[1] + co[3] * x[0] * x[2], co[4] * x[2] + co[5] * x[1] * x[1] + co[6] * x[0] * x[1] + co[7]]
            };
            let x = x0.as_slice();
            let jac = DMatrix::from_row_slice(2, 3, &[
                co[1] + co[3] * x[2], co[2], co[3] * x[0],
                co[6] * x[1], 2.0 * co[5] * x[1] + co[6] * x[0], co[4],
            ]);
            let mut xm = x0.clone();
            let j1 = approximate_jacobian_fd(2, |x, mut f| f.copy_from_slice(&fun(x.as_slice())), &mut xm, h);
            ensure_eq!(xm, x0, "the point after approximate_jacobian_fd");
            let mut j2 = DMatrix::from_element(2, 3, f64::NAN);
            approximate_jacobian_fd_into(&mut j2, |x, mut f| f.copy_from_slice(&fun(x.as_slice())), &mut xm, h);
            ensure_eq!(xm, x0, "the point after approximate_jacobian_fd_into");
            let f = VectorFunctionBuilder::with_dimension(2).with_function(|f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| f.copy_from_slice(&fun(x.as_slice())));
            let j3 = approximate_jacobian(f, &x0, &h);
            for (what, j) in [("approximate_jacobian_fd", &j1), ("approximate_jacobian_fd_into", &j2), ("approximate_jacobian", &j3)] {
                ensure!((j - &jac).amax() <= tol, "{what} gives {j} instead of {jac}");
            }
            for k in 0..2 {
                let g = approximate_gradient_fd(|x: DVectorView<f64>| fun(x.as_slice())[k], &mut xm, h);
                ensure_eq!(xm, x0, "the point after approximate_gradient_fd");
                let mut g2 = DVector::from_element(3, f64::NAN);
                approximate_gradient_fd_into(DVectorViewMut::from(&mut g2), |x: DVectorView<f64>| fun(x.as_slice())[k], &mut xm, h);
                ensure_eq!(xm, x0, "the point after approximate_gradient_fd_into");
                for i in 0..3 {
                    ensure!((g[i] - jac[(k, i)]).abs() <= tol && (g2[i] - jac[(k, i)]).abs() <= tol, "gradient {g} {g2} instead of {}", jac.row(k));
                }
            }
            Ok(Some(i))
        },
    );
    ctx.finish()
}
