//! C19: element matrices, vectors and scalars are the quadrature sums of their weak forms, whatever ran before.
use checks::worlds::*;
use checks::mixed::*;
use fenris::allocators::{BiDimAllocator, DimAllocator, TriDimAllocator};
use fenris::assembly::local::*;
use fenris::assembly::operators::*;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DMatrix, DVector, DVectorView, DefaultAllocator, OMatrix, OPoint, OVector, U1, U2, U3};
use fenris::{SmallDim, Symmetry};
use fenris_solid::GravitySource;
use hk::*;
use std::marker::PhantomData;

/// Operator data: nothing useful unless it was filled in.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Coef(f64);
impl Default for Coef {
    fn default() -> Self {
        Coef(f64::NAN)
    }
}

const PQ: f64 = 0.125;

/// Constant fourth order tensor of the operators.
fn tensor(sym: bool, k: usize, i: usize, m: usize, j: usize) -> f64 {
    let t = |k: usize, i: usize, m: usize, j: usize| ((3 * k + 5 * i + 7 * m + 11 * j + k * j) % 13) as f64 - 6.0;
    if sym {
        0.5 * (t(k, i, m, j) + t(m, j, k, i))
    } else {
        t(k, i, m, j)
    }
}

/// energy, derivative and tangent of the operators as functions of the gradient G[k][i] = d u_i / d x_k
fn energy(g: &[Vec<f64>], c: f64) -> f64 {
    let (d, s) = (g.len(), g[0].len());
    let mut e = 0.0;
    for k in 0..d {
        for i in 0..s {
            for m in 0..d {
                for j in 0..s {
                    e += 0.5 * g[k][i] * tensor(true, k, i, m, j) * g[m][j];
                }
            }
            e += PQ / 3.0 * g[k][i].powi(3);
        }
    }
    c * e
}
fn flux(sym: bool, g: &[Vec<f64>], c: f64, k: usize, i: usize) -> f64 {
    let (d, s) = (g.len(), g[0].len());
    let mut r = 0.0;
    for m in 0..d {
        for j in 0..s {
            let x = g[m][j];
            r += tensor(sym, k, i, m, j) * if sym { x } else { x + PQ * x * x };
        }
    }
    if sym {
        r += PQ * g[k][i] * g[k][i];
    }
    c * r
}
fn tangent(sym: bool, g: &[Vec<f64>], c: f64, [k, i, m, j]: [usize; 4]) -> f64 {
    let x = g[m][j];
    let t = tensor(sym, k, i, m, j);
    c * if sym {
        t + if k == m && i == j { 2.0 * PQ * x } else { 0.0 }
    } else {
        t * (1.0 + 2.0 * PQ * x)
    }
}

struct Op<S> {
    sym: bool,
    marker: PhantomData<S>,
}
fn rows<D: SmallDim, S: SmallDim>(g: &OMatrix<f64, D, S>) -> Vec<Vec<f64>>
where
    DefaultAllocator: Allocator<f64, D, S>,
{
    (0..D::dim()).map(|k| (0..S::dim()).map(|i| g[(k, i)]).collect()).collect()
}
impl<D: SmallDim, S: SmallDim> Operator<f64, D> for Op<S> {
    type SolutionDim = S;
    type Parameters = Coef;
}
impl<D: SmallDim, S: SmallDim> EllipticOperator<f64, D> for Op<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn compute_elliptic_operator(&self, g: &OMatrix<f64, D, S>, c: &Coef) -> OMatrix<f64, D, S> {
        let r = rows(g);
        OMatrix::<f64, D, S>::from_fn(|k, i| flux(self.sym, &r, c.0, k, i))
    }
}
impl<D: SmallDim, S: SmallDim> EllipticEnergy<f64, D> for Op<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn compute_energy(&self, g: &OMatrix<f64, D, S>, c: &Coef) -> f64 {
        energy(&rows(g), c.0)
    }
}
impl<D: SmallDim, S: SmallDim> EllipticContraction<f64, D> for Op<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn contract(&self, g: &OMatrix<f64, D, S>, a: &OVector<f64, D>, b: &OVector<f64, D>, c: &Coef) -> OMatrix<f64, S, S> {
        let r = rows(g);
        OMatrix::<f64, S, S>::from_fn(|i, j| {
            let mut v = 0.0;
            for k in 0..D::dim() {
                for m in 0..D::dim() {
                    v += a[k] * tangent(self.sym, &r, c.0, [k, i, m, j]) * b[m];
                }
            }
            v
        })
    }
    fn symmetry(&self) -> Symmetry {
        if self.sym {
            Symmetry::Symmetric
        } else {
            Symmetry::NonSymmetric
        }
    }
}

/// f_i(x) = c (i + 1 + (i + 2) x_0 - x_last^2)
struct Src<S>(PhantomData<S>);
impl<D: SmallDim, S: SmallDim> Operator<f64, D> for Src<S> {
    type SolutionDim = S;
    type Parameters = Coef;
}
fn source(x: P, d: usize, i: usize, c: f64) -> f64 {
    c * (i as f64 + 1.0 + (i as f64 + 2.0) * x[0] - x[d - 1] * x[d - 1])
}
impl<D: SmallDim, S: SmallDim> SourceFunction<f64, D> for Src<S>
where
    DefaultAllocator: BiDimAllocator<f64, D, S>,
{
    fn evaluate(&self, x: &OPoint<f64, D>, c: &Coef) -> OVector<f64, S> {
        let x = coords(x);
        OVector::<f64, S>::from_fn(|i, _| source(x, D::dim(), i, c.0))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    MatN,
    MatS,
    VecN,
    VecS,
    Energy,
    LapMat,
    LapVec,
    LapEnergy,
    Mass,
    Source,
    Gravity,
}
use What::*;
const ALL: [What; 11] = [MatN, MatS, VecN, VecS, Energy, LapMat, LapVec, LapEnergy, Mass, Source, Gravity];

/// One element of a space to assemble.
#[derive(Clone, Copy, Debug)]
struct Job {
    d: usize,
    space: usize,
    e: usize,
    s: usize,
    what: What,
    table: usize,
    state: usize,
}

/// The weak form written out. None: the element's map is singular where the form needs its inverse.
/// Also the scale that bounds rounding.
fn oracle<D: SmallDim>(sp: &Mixed<D>, j: &Job) -> Option<(Vec<f64>, f64)> {
    let (d, el) = (j.d, &sp.elems[j.e]);
    let s = if matches!(j.what, LapMat | LapVec | LapEnergy) {
        1
    } else if j.what == Gravity {
        d
    } else {
        j.s
    };
    let n = el.nodes.len();
    let rule = &rules(j.table, sp.elems.len(), d)[j.e];
    let u = state(j.state, s);
    let len = match j.what {
        MatN | MatS | LapMat | Mass => (n * s) * (n * s),
        VecN | VecS | LapVec | Source | Gravity => n * s,
        _ => 1,
    };
    let mut out = vec![0.0; len];
    let mut mag = 0.0f64;
    let tm = 10.0 * (d * s) as f64;
    for (xi, w, c) in rule {
        let jac = el.geo.jac(*xi);
        let dt = det(&jac, d);
        let f = w * dt.abs();
        let phi = el.basis.value(*xi);
        let pm = phi.iter().fold(1.0, |a: f64, b| a.max(b.abs()));
        if matches!(j.what, Mass | Source | Gravity) {
            let x = el.geo.map(*xi);
            for a in 0..n {
                match j.what {
                    Mass => {
                        for b in 0..n {
                            for i in 0..s {
                                out[(s * a + i) + (s * b + i) * n * s] += f * c * phi[a] * phi[b];
                            }
                        }
                        mag += (f * c).abs() * pm * pm;
                    }
                    _ => {
                        for i in 0..s {
                            let v = if j.what == Gravity { c * gravity(i) } else { source(x, d, i, *c) };
                            out[s * a + i] += f * v * phi[a];
                            let m = x.iter().fold(1.0, |a: f64, b| a.max(b.abs()));
                            mag += (f * c).abs() * pm * 10.0 * (1.0 + m * m);
                        }
                    }
                }
            }
            continue;
        }
        if dt == 0.0 {
            return None;
        }
        let inv = inverse(&jac, d);
        let grads: Vec<Vec<f64>> =
            el.basis.grad(*xi).iter().map(|g| (0..d).map(|r| (0..d).map(|c| g[c] * inv[c][r]).sum()).collect()).collect();
        let mut g = vec![vec![0.0; s]; d];
        let mut ga = 0.0f64;
        let mut gm = 0.0f64;
        for (a, node) in el.nodes.iter().enumerate() {
            for k in 0..d {
                gm = gm.max(grads[a][k].abs());
                for i in 0..s {
                    g[k][i] += u[s * node + i] * grads[a][k];
                    ga += (u[s * node + i] * grads[a][k]).abs();
                }
            }
        }
        let fc = if matches!(j.what, LapMat | LapVec | LapEnergy) { f.abs() } else { (f * c).abs() };
        match j.what {
            MatN | MatS | LapMat => {
                for a in 0..n {
                    for b in 0..n {
                        for i in 0..s {
                            for jj in 0..s {
                                let mut v = 0.0;
                                for k in 0..d {
                                    for m in 0..d {
                                        let t = if j.what == LapMat {
                                            (k == m) as usize as f64
                                        } else {
                                            tangent(j.what == MatS, &g, *c, [k, i, m, jj])
                                        };
                                        v += grads[a][k] * t * grads[b][m];
                                    }
                                }
                                out[(s * a + i) + (s * b + jj) * n * s] += f * v;
                            }
                        }
                    }
                }
                mag += fc * tm * (1.0 + ga) * gm * gm;
            }
            VecN | VecS | LapVec => {
                for a in 0..n {
                    for i in 0..s {
                        for k in 0..d {
                            let v = if j.what == LapVec { g[k][i] } else { flux(j.what == VecS, &g, *c, k, i) };
                            out[s * a + i] += f * v * grads[a][k];
                        }
                    }
                }
                mag += fc * tm * (ga + ga * ga) * gm;
            }
            _ => {
                let v = if j.what == LapEnergy { 0.5 * g.iter().map(|r| r[0] * r[0]).sum::<f64>() } else { energy(&g, *c) };
                out[0] += f * v;
                mag += fc * tm * (ga * ga + ga * ga * ga);
            }
        }
    }
    Some((out, mag))
}

fn gravity(i: usize) -> f64 {
    [0.5, -2.0, -9.75][i]
}

/// Assemble into a buffer full of garbage (a matrix is a window of a larger one); None if the assembler refuses.
fn matrix(a: &dyn ElementMatrixAssembler<f64>, e: usize, strided: bool) -> Result<Option<Vec<f64>>, String> {
    let n = a.solution_dim() * a.element_node_count(e);
    let pad = if strided { 2 } else { 0 };
    let mut big = DMatrix::from_element(n + 2 * pad, n + pad, f64::NAN);
    let r = a.assemble_element_matrix_into(e, big.view_mut((pad, pad), (n, n)));
    for r in 0..n + 2 * pad {
        for c in 0..n + pad {
            let own = r >= pad && r < pad + n && c >= pad && c < pad + n;
            ensure!(own || big[(r, c)].is_nan(), "entry {r}, {c} outside of the output window was written");
        }
    }
    Ok(r.ok().map(|_| big.view((pad, pad), (n, n)).iter().copied().collect()))
}
fn vector(a: &dyn ElementVectorAssembler<f64>, e: usize) -> Result<Option<Vec<f64>>, String> {
    let n = a.solution_dim() * a.element_node_count(e);
    let mut v = DVector::from_element(n, f64::NAN);
    let r = a.assemble_element_vector_into(e, fenris::nalgebra::DVectorViewMut::from(&mut v));
    Ok(r.ok().map(|_| v.iter().copied().collect()))
}

fn actual<D: SmallDim, S: SmallDim>(sp: &Mixed<D>, j: &Job) -> Result<Option<Vec<f64>>, String>
where
    DefaultAllocator: TriDimAllocator<f64, D, D, S> + TriDimAllocator<f64, S, D, D> + BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, U1> + TriDimAllocator<f64, U1, D, D>,
{
    let ne = sp.elems.len();
    let strided = j.state % 2 == 1;
    let s = match j.what {
        LapMat | LapVec | LapEnergy => 1,
        Gravity => D::dim(),
        _ => S::dim(),
    };
    let u = DVector::from_vec(state(j.state, s));
    let coef = table::<D, Coef>(j.table, ne, Coef);
    let unit = table::<D, ()>(j.table, ne, |_| ());
    let dens = table::<D, Density<f64>>(j.table, ne, Density);
    let op = Op::<S> { sym: matches!(j.what, MatS | VecS | Energy), marker: PhantomData };
    let el = ElementEllipticAssemblerBuilder::new()
        .with_finite_element_space(sp)
        .with_operator(&op)
        .with_quadrature_table(&coef)
        .with_u(DVectorView::from(&u))
        .build();
    let la = ElementEllipticAssemblerBuilder::new()
        .with_finite_element_space(sp)
        .with_operator(&LaplaceOperator)
        .with_quadrature_table(&unit)
        .with_u(DVectorView::from(&u))
        .build();
    match j.what {
        MatN | MatS => matrix(&el, j.e, strided),
        VecN | VecS => vector(&el, j.e),
        Energy => Ok(el.assemble_element_scalar(j.e).ok().map(|x| vec![x])),
        LapMat => matrix(&la, j.e, strided),
        LapVec => vector(&la, j.e),
        LapEnergy => Ok(la.assemble_element_scalar(j.e).ok().map(|x| vec![x])),
        Mass => {
            let m = ElementMassAssembler::with_solution_dim(j.s).with_space(sp).with_quadrature_table(&dens);
            matrix(&m, j.e, strided)
        }
        Source => {
            let src = Src::<S>(PhantomData);
            let a = ElementSourceAssemblerBuilder::new()
                .with_finite_element_space(sp)
                .with_source(&src)
                .with_quadrature_table(&coef)
                .build::<f64>();
            vector(&a, j.e)
        }
        Gravity => {
            let src = GravitySource::from_acceleration(OVector::<f64, D>::from_fn(|i, _| gravity(i)));
            let a = ElementSourceAssemblerBuilder::new()
                .with_finite_element_space(sp)
                .with_source(&src)
                .with_quadrature_table(&dens)
                .build::<f64>();
            vector(&a, j.e)
        }
    }
}

fn run(w: &World, j: &Job) -> Result<u64, String> {
    macro_rules! go {
        ($sp:expr, $D:ty) => {{
            let sp = &$sp;
            let got = match j.s {
                1 => actual::<$D, U1>(sp, j)?,
                2 => actual::<$D, U2>(sp, j)?,
                _ => actual::<$D, U3>(sp, j)?,
            };
            compare(got, oracle(sp, j), j, sp.elems[j.e].kind.name)
        }};
    }
    match j.d {
        1 => go!(w.d1[j.space], U1),
        2 => go!(w.d2[j.space], U2),
        _ => go!(w.d3[j.space], U3),
    }
}

fn compare(got: Option<Vec<f64>>, want: Option<(Vec<f64>, f64)>, j: &Job, name: &str) -> Result<u64, String> {
    match (got, want) {
        (None, None) => Ok(1),
        (None, Some(_)) => Err(format!("{j:?} ({name}): refused")),
        (Some(_), None) => Err(format!("{j:?} ({name}): the element's map is singular, but a result was returned")),
        (Some(g), Some((w, mag))) => {
            ensure_eq!(g.len(), w.len(), "{j:?} ({name}): number of entries");
            for i in 0..g.len() {
                ensure!((g[i] - w[i]).abs() <= 1e-10 * mag, "{j:?} ({name}): entry {i} is {}, not {} (tolerance {})", g[i], w[i], 1e-10 * mag);
            }
            Ok(digest(&w.iter().map(|x| x.to_bits()).collect::<Vec<_>>()))
        }
    }
}

fn main() {
    let ctx = Ctx::new(
        "C19",
        Level::Exploration,
        "The element assembler's output equals the weak form's quadrature sum, written out with independently derived \
         basis functions and geometry maps, within 1e-10 of the size of the summed terms.",
    );
    let w = World::new();

    // every element of every space, every form, solution dimension, table and a set of states
    let mut jobs = vec![];
    for d in 1..=3 {
        for space in 0..SCALES.len() {
            for e in 0..num_elems(d) {
                for what in ALL {
                    for s in 1..=(if matches!(what, LapMat | LapVec | LapEnergy | Gravity) { 1 } else { 3 }) {
                        for table in 0..3 {
                            let states = match what {
                                Mass | Source | Gravity => 2,
                                _ => 3,
                            };
                            for state in 0..states {
                                jobs.push(Job { d, space, e, s, what, table, state });
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.suite_over("forms", &jobs, |j| format!("{j:?}"), |j| run(&w, j).map(Some));

    // large, tiny and zero coefficients, weights and states
    let mut jobs = vec![];
    for d in 1..=3 {
        for e in 0..num_elems(d) {
            for what in ALL {
                for s in 1..=(if matches!(what, LapMat | LapVec | LapEnergy | Gravity) { 1 } else { 3 }) {
                    for table in SCALED_TABLES {
                        for state in [1, 2] {
                            jobs.push(Job { d, space: 0, e, s, what, table, state });
                        }
                    }
                    if !matches!(what, Mass | Source | Gravity) {
                        for state in [1001, 1002, 2001, 2002] {
                            for table in [0, 2, 8] {
                                jobs.push(Job { d, space: 0, e, s, what, table, state });
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.suite_over("large, tiny and zero numbers", &jobs, |j| format!("{j:?}"), |j| run(&w, j).map(Some));

    // mass matrices of more unknowns at a node
    let mut jobs = vec![];
    let most = ctx.tier(20, 70);
    for d in 1..=3 {
        for e in 0..num_elems(d) {
            for s in (4..=most).chain([33, 64, 65]).filter(|s| *s <= 20 || d < 3 || *s % 16 < 2) {
                jobs.push(Job { d, space: 0, e, s, what: Mass, table: 1, state: s % 2 });
            }
        }
    }
    ctx.suite_over("many unknowns at a node", &jobs, |j| format!("{j:?}"), |j| run(&w, j).map(Some));

    // single degrees of freedom: the response to each
    let mut jobs = vec![];
    for d in 1..=3 {
        for e in 0..num_elems(d) - 1 {
            for what in [MatN, VecN, VecS, Energy, LapVec, LapEnergy] {
                for s in 1..=(if matches!(what, LapVec | LapEnergy) { 1 } else { 3 }) {
                    if what == MatN && d == 3 && (!ctx.thorough || s == 3) {
                        continue;
                    }
                    for state in 3..3 + NODES * s {
                        jobs.push(Job { d, space: 0, e, s, what, table: 1, state });
                    }
                }
            }
        }
    }
    ctx.suite_over("single degrees of freedom", &jobs, |j| format!("{j:?}"), |j| run(&w, j).map(Some));

    // histories on one thread: what ran before makes no difference
    let j = |d, space, e, s, what, table, state| Job { d, space, e, s, what, table, state };
    let mut menu = vec![
        j(2, 0, 0, 1, MatN, 0, 1),
        j(2, 0, 1, 2, MatS, 1, 2),
        j(2, 1, 4, 3, VecN, 2, 1),
        j(2, 0, 6, 2, MatS, 1, 1), // refused: collapsed element
        j(2, 2, 2, 2, Energy, 0, 2), // rule without points
        j(2, 2, 3, 1, LapMat, 2, 1),
        j(2, 0, 1, 1, LapVec, 0, 2),
        j(2, 1, 3, 2, Mass, 0, 1),
        j(2, 0, 0, 3, Mass, 1, 0),
        j(2, 2, 4, 1, Source, 2, 1),
        j(2, 1, 0, 2, Gravity, 0, 0),
        j(3, 0, 0, 3, MatN, 2, 2),
        j(3, 1, 3, 1, VecS, 0, 1),
        j(3, 2, 1, 1, Mass, 0, 1),
        j(1, 0, 0, 2, MatN, 0, 1),
        j(3, 0, 2, 3, Gravity, 1, 0),
    ];
    let len = ctx.tier(4, 5);
    menu.push(j(2, 0, 2, 1, Source, 0, 1)); // rule without points
    let m = menu.len() as u64;
    ctx.suite(
        "histories",
        pow(m, len),
        |i| {
            let mut g = Dig(i);
            format!("{:?}", (0..len).map(|_| *g.pick(&menu)).collect::<Vec<_>>())
        },
        |i| {
            let mut g = Dig(i);
            let seq: Vec<Job> = (0..len).map(|_| *g.pick(&menu)).collect();
            // a new thread: its scratch space has seen nothing else
            std::thread::scope(|t| {
                t.spawn(|| -> Verdict {
                    for (n, j) in seq.iter().enumerate() {
                        no_panic(|| run(&w, j)).and_then(|r| r).map_err(|e| format!("after {n} assemblies: {e}"))?;
                    }
                    Ok(Some(i))
                })
                .join()
                .unwrap()
            })
        },
    );
    ctx.assume("Operators and sources are evaluated by the same formulas in the operator under assembly and in the reference sum; the library's own operators and material models are checked by C27 and LaplaceOperator here.");
    ctx.assume("Element kinds, node numberings, maps and basis functions come from a space defined in the check, so the assemblers are decided independently of the element implementations (C17, C18).");
    ctx.finish();
}
