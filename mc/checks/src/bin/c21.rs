//! C21: integrals and error norms are the quadrature sums they stand for.
use checks::cells::{build, grid, kind, point, typed, Shape, TestCell};
use checks::fem::*;
use checks::mixed::*;
use checks::worlds::*;
use fenris::allocators::{BiDimAllocator, DimAllocator, ElementConnectivityAllocator, TriDimAllocator};
use fenris::assembly::buffers::{BufferUpdate, InterpolationBuffer};
use fenris::assembly::global::assemble_scalar;
use fenris::assembly::local::*;
use fenris::connectivity::*;
use fenris::element::ElementConnectivity;
use fenris::error::*;
use fenris::integrate::dependency::*;
use fenris::integrate::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::{DVector, DVectorView, DefaultAllocator, DimName, OMatrix, OPoint, OVector, Vector1, U1, U2, U3};
use fenris::quadrature::total_order;
use fenris::space::*;
use fenris::SmallDim;
use hk::*;

/// f_o(x, u, grad u); absent arguments count as zero
fn integrand(o: usize, x: P, u: &[f64], g: &[Vec<f64>], d: usize) -> f64 {
    let k = o as f64 + 1.0;
    let mut v = k * (1.0 + x[0] - x[d - 1] * x[d - 1]);
    for (s, u) in u.iter().enumerate() {
        v += u * (k + s as f64) + u * u * 0.5;
    }
    for (k, row) in g.iter().enumerate() {
        for (s, g) in row.iter().enumerate() {
            v += g * ((k + 2 * s) as f64 + 1.0) - 0.25 * g * g;
        }
    }
    v
}
fn rows<D: SmallDim, S: SmallDim>(g: &OMatrix<f64, D, S>) -> Vec<Vec<f64>>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D, S>,
{
    (0..D::dim()).map(|k| (0..S::dim()).map(|i| g[(k, i)]).collect()).collect()
}
/// The exact field that error norms compare with.
fn exact(x: P, d: usize, s: usize) -> f64 {
    (s as f64 + 1.0) * x[0] - x[d - 1] * 0.5 + 0.25
}
fn exact_grad(x: P, d: usize, k: usize, s: usize) -> f64 {
    0.5 * (k as f64 - s as f64) + x[0] * 0.25 + 0.125 * x[d - 1]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    /// assembled: f(x, u)
    U,
    /// assembled: f(x)
    X,
    /// assembled: f(x, u, grad u), f(x, u), f(x, grad u) over volume elements
    VolAll,
    VolU,
    VolGrad,
    /// vector valued, on one element
    ElemU,
    ElemAll,
    L2Sq,
    L2,
    H1Sq,
    H1,
    /// whole space
    TotalU,
    TotalL2Sq,
    TotalL2,
    TotalH1Sq,
    TotalH1,
}
use What::*;
const ALL: [What; 16] = [U, X, VolAll, VolU, VolGrad, ElemU, ElemAll, L2Sq, L2, H1Sq, H1, TotalU, TotalL2Sq, TotalL2, TotalH1Sq, TotalH1];
impl What {
    fn total(self) -> bool {
        matches!(self, TotalU | TotalL2Sq | TotalL2 | TotalH1Sq | TotalH1)
    }
    fn inverse(self) -> bool {
        matches!(self, VolAll | VolU | VolGrad | ElemAll | H1Sq | H1 | TotalH1Sq | TotalH1)
    }
    fn root(self) -> bool {
        matches!(self, L2 | H1 | TotalL2 | TotalH1)
    }
}

#[derive(Clone, Copy, Debug)]
struct Job {
    d: usize,
    space: usize,
    /// number of elements that the space keeps
    keep: usize,
    e: usize,
    s: usize,
    what: What,
    table: usize,
    state: usize,
}

fn oracle<D: SmallDim>(sp: &Mixed<D>, j: &Job) -> Option<(Vec<f64>, f64)> {
    let d = j.d;
    let u = state(j.state, j.s);
    let rules = rules(j.table, sp.elems.len(), d);
    let elems: Vec<usize> = if j.what.total() { (0..sp.elems.len()).collect() } else { vec![j.e] };
    let mut out = vec![0.0; if matches!(j.what, ElemU | ElemAll) { 2 } else { 1 }];
    let mut mag = 0.0;
    for e in elems {
        let el = &sp.elems[e];
        for (xi, w, _) in &rules[e] {
            let jac = el.geo.jac(*xi);
            let dt = det(&jac, d);
            let f = w * dt.abs();
            if j.what.inverse() && dt == 0.0 {
                return None;
            }
            let x = el.geo.map(*xi);
            let phi = el.basis.value(*xi);
            let mut v = vec![0.0; j.s];
            let mut va = 0.0f64;
            for (a, n) in el.nodes.iter().enumerate() {
                for s in 0..j.s {
                    v[s] += u[j.s * n + s] * phi[a];
                    va += (u[j.s * n + s] * phi[a]).abs();
                }
            }
            let mut g = vec![vec![0.0; j.s]; d];
            let mut ga = 0.0f64;
            if j.what.inverse() {
                let inv = inverse(&jac, d);
                for (a, rg) in el.basis.grad(*xi).iter().enumerate() {
                    for k in 0..d {
                        let pg: f64 = (0..d).map(|c| rg[c] * inv[c][k]).sum();
                        for s in 0..j.s {
                            g[k][s] += u[j.s * el.nodes[a] + s] * pg;
                            ga += (u[j.s * el.nodes[a] + s] * pg).abs();
                        }
                    }
                }
            }
            let xm = x.iter().fold(1.0f64, |a, b| a.max(b.abs()));
            mag += f.abs() * 20.0 * (xm * xm + va + va * va + ga + ga * ga);
            for o in 0..out.len() {
                out[o] += f * match j.what {
                    U | VolU | ElemU | TotalU => integrand(o, x, &v, &[], d),
                    X => integrand(o, x, &[], &[], d),
                    VolAll | ElemAll => integrand(o, x, &v, &g, d),
                    VolGrad => integrand(o, x, &[], &g, d),
                    L2Sq | L2 | TotalL2Sq | TotalL2 => (0..j.s).map(|s| (v[s] - exact(x, d, s)).powi(2)).sum(),
                    _ => (0..d).map(|k| (0..j.s).map(|s| (g[k][s] - exact_grad(x, d, k, s)).powi(2)).sum::<f64>()).sum(),
                };
            }
        }
    }
    Some((out, mag))
}

fn actual<D: SmallDim, S: SmallDim>(sp: &Mixed<D>, j: &Job, ws: &mut IntegrationWorkspace<f64>) -> Option<Vec<f64>>
where
    DefaultAllocator: TriDimAllocator<f64, S, D, D> + TriDimAllocator<f64, D, D, S> + BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, S> + DimAllocator<f64, U1> + DimAllocator<f64, U2>,
{
    let d = D::dim();
    let u = DVector::from_vec(state(j.state, S::dim()));
    let uv = DVectorView::from(&u);
    let t = table::<D, f64>(j.table, sp.elems.len(), |c| c);
    let slice = |v: &OVector<f64, S>| v.iter().copied().collect::<Vec<f64>>();
    let fu = |x: &OPoint<f64, D>, v: &OVector<f64, S>| Vector1::new(integrand(0, coords(x), &slice(v), &[], d));
    let fx = |x: &OPoint<f64, D>| Vector1::new(integrand(0, coords(x), &[], &[], d));
    let fg = |x: &OPoint<f64, D>, g: &OMatrix<f64, D, S>| Vector1::new(integrand(0, coords(x), &[], &rows(g), d));
    let fa = |x: &OPoint<f64, D>, v: &OVector<f64, S>, g: &OMatrix<f64, D, S>| {
        Vector1::new(integrand(0, coords(x), &slice(v), &rows(g), d))
    };
    let ex = |x: &OPoint<f64, D>| OVector::<f64, S>::from_fn(|s, _| exact(coords(x), d, s));
    let eg = |x: &OPoint<f64, D>| OMatrix::<f64, D, S>::from_fn(|k, s| exact_grad(coords(x), d, k, s));
    macro_rules! asm {
        ($f:expr, $build:ident) => {{
            let a = ElementIntegralAssemblerBuilder::<f64, _, S, _, _>::new()
                .with_space(sp)
                .with_quadrature_table(&t)
                .with_interpolation_weights(uv)
                .with_integrand($f)
                .$build();
            if j.what.total() {
                assemble_scalar(&a).ok().map(|x| vec![x])
            } else {
                a.assemble_element_scalar(j.e).ok().map(|x| vec![x])
            }
        }};
    }
    // an element on its own, with its local weights
    let (mut w, mut p, mut local) = (vec![], vec![], DVector::zeros(0));
    if !j.what.total() {
        for (xi, wt, _) in &rules(j.table, sp.elems.len(), d)[j.e] {
            w.push(*wt);
            p.push(point::<D>(*xi));
        }
        local = DVector::from_vec(sp.elems[j.e].nodes.iter().flat_map(|n| (0..S::dim()).map(|s| u[S::dim() * n + s]).collect::<Vec<_>>()).collect());
    }
    let lv = DVectorView::from(&local);
    let el = ElementInSpace::from_space_and_element_index(sp, j.e);
    match j.what {
        U | TotalU => asm!(FnFunction::new(fu), build_integrator),
        X => asm!(FnFunction::new(fx).with_dependencies::<NoDeps<S>>(), build_integrator),
        VolAll => asm!(FnFunction::new(fa), build_volume_integrator),
        VolU => asm!(FnFunction::new(fu).with_dependencies::<DependsOnU>(), build_volume_integrator),
        VolGrad => asm!(FnFunction::new(fg).with_dependencies::<DependsOnGrad>(), build_volume_integrator),
        ElemU => {
            let f = FnFunction::new(|x: &OPoint<f64, D>, v: &OVector<f64, S>| {
                OVector::<f64, U2>::from_fn(|o, _| integrand(o, coords(x), &slice(v), &[], d))
            });
            let r: OVector<f64, U2> = integrate_over_element(&f, &el, (&w[..], &p[..]), lv, ws);
            Some(r.iter().copied().collect())
        }
        ElemAll => {
            let f = FnFunction::new(|x: &OPoint<f64, D>, v: &OVector<f64, S>, g: &OMatrix<f64, D, S>| {
                OVector::<f64, U2>::from_fn(|o, _| integrand(o, coords(x), &slice(v), &rows(g), d))
            });
            let r: Result<OVector<f64, U2>, _> = integrate_over_volume_element(&f, &el, (&w[..], &p[..]), lv, ws);
            r.ok().map(|r| r.iter().copied().collect())
        }
        L2Sq => Some(vec![estimate_element_L2_error_squared(&el, &ex, lv, &w, &p, ws)]),
        L2 => Some(vec![estimate_element_L2_error(&el, &ex, lv, &w, &p, ws)]),
        H1Sq => Some(vec![estimate_element_H1_seminorm_error_squared(&el, &eg, lv, &w, &p, ws)]),
        H1 => Some(vec![estimate_element_H1_seminorm_error(&el, &eg, lv, &w, &p, ws)]),
        TotalL2Sq => estimate_L2_error_squared(sp, &ex, uv, &t).ok().map(|x| vec![x]),
        TotalL2 => estimate_L2_error(sp, &ex, uv, &t).ok().map(|x| vec![x]),
        TotalH1Sq => estimate_H1_seminorm_error_squared(sp, &eg, uv, &t).ok().map(|x| vec![x]),
        TotalH1 => estimate_H1_seminorm_error(sp, &eg, uv, &t).ok().map(|x| vec![x]),
    }
}

fn run(w: &World, j: &Job, ws: &mut IntegrationWorkspace<f64>) -> Result<u64, String> {
    macro_rules! go {
        ($sp:expr, $D:ty) => {{
            let mut sp = $sp.clone();
            sp.elems.truncate(j.keep);
            let want = oracle(&sp, j);
            if want.is_none() && matches!(j.what, H1 | H1Sq) {
                return Ok(0); // documented to need a regular map
            }
            let got = match j.s {
                1 => actual::<$D, U1>(&sp, j, ws),
                2 => actual::<$D, U2>(&sp, j, ws),
                _ => actual::<$D, U3>(&sp, j, ws),
            };
            compare(got, want, j)
        }};
    }
    match j.d {
        1 => go!(w.d1[j.space], U1),
        2 => go!(w.d2[j.space], U2),
        _ => go!(w.d3[j.space], U3),
    }
}

fn compare(got: Option<Vec<f64>>, want: Option<(Vec<f64>, f64)>, j: &Job) -> Result<u64, String> {
    match (got, want) {
        (None, None) => Ok(1),
        (None, Some(_)) => Err(format!("{j:?}: refused")),
        (Some(_), None) => Err(format!("{j:?}: a map is singular, but a result was returned")),
        (Some(mut g), Some((w, mag))) => {
            ensure_eq!(g.len(), w.len(), "{j:?}: number of entries");
            if j.what.root() {
                if w[0] <= 1e-9 * mag {
                    // negative weights: the root of a sum that is not positive says nothing
                    return Ok(2);
                }
                ensure!(g[0] >= 0.0, "{j:?}: the norm is {}, the square of the norm {}", g[0], w[0]);
                g[0] = g[0] * g[0];
            }
            for i in 0..g.len() {
                ensure!((g[i] - w[i]).abs() <= 1e-10 * mag, "{j:?}: entry {i} is {}, not {} (tolerance {})", g[i], w[i], 1e-10 * mag);
            }
            Ok(digest(&w.iter().map(|x| x.to_bits()).collect::<Vec<_>>()))
        }
    }
}

/// The integral of a monomial over the box [0, n_k] scaled and shifted per axis.
const SCALE: P = [1.0, -2.0, 0.5];
const SHIFT: P = [-0.5, 0.25, 1.0];
fn place(v: [i32; 3], d: usize) -> P {
    std::array::from_fn(|k| if k < d { v[k] as f64 / 6.0 * SCALE[k] + SHIFT[k] } else { 0.0 })
}
fn box_integral(e: [u32; 3], n: [usize; 3], d: usize) -> f64 {
    (0..d)
        .map(|k| {
            let (a, b) = (SHIFT[k], SHIFT[k] + n[k] as f64 * SCALE[k]);
            let p = e[k] as i32 + 1;
            (b.powi(p) - a.powi(p)) / p as f64 * SCALE[k].signum()
        })
        .product()
}

fn rule(s: Shape, n: usize) -> (Vec<f64>, Vec<P>) {
    let p2 = |(w, p): (Vec<f64>, Vec<fenris::nalgebra::Point2<f64>>)| (w, p.iter().map(coords).collect());
    let p3 = |(w, p): (Vec<f64>, Vec<fenris::nalgebra::Point3<f64>>)| (w, p.iter().map(coords).collect());
    match s {
        Shape::Seg => {
            let (w, x) = fenris::quadrature::univariate::gauss(n / 2 + 1);
            (w, x.iter().map(coords).collect())
        }
        Shape::Tri => p2(total_order::triangle(n).unwrap()),
        Shape::Quad => p2(total_order::quadrilateral(n).unwrap()),
        Shape::Tet => p3(total_order::tetrahedron(n).unwrap()),
        Shape::Hex => p3(total_order::hexahedron(n).unwrap()),
    }
}

/// Monomials of total degree up to m.
fn monomials(d: usize, m: u32) -> Vec<[u32; 3]> {
    let lim = |k: usize| if k < d { m } else { 0 };
    let mut out = vec![];
    for a in 0..=lim(0) {
        for b in 0..=lim(1) {
            for c in 0..=lim(2) {
                if a + b + c <= m {
                    out.push([a, b, c]);
                }
            }
        }
    }
    out
}

fn on_mesh<C, D: SmallDim>(n: [usize; 3], relabel: usize) -> Verdict
where
    C: TestCell<Dim = D> + ElementConnectivity<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: ElementConnectivityAllocator<f64, C> + TriDimAllocator<f64, D, D, U1> + TriDimAllocator<f64, U1, D, D> + DimAllocator<f64, D>,
{
    let d = D::dim();
    let k = C::kind();
    let cells = grid(k.shape, n);
    let m: Mesh<f64, D, C> = typed::<C>(&build(&k, &cells, relabel), |v| place(v, d));
    let strength = if d == 3 { 8 } else { 10 };
    let (w, p) = rule(k.shape, strength);
    let t = UniformQuadratureTable::from_points_and_weights(p.iter().map(|x| point::<D>(*x)).collect(), w);
    let zero = DVector::zeros(m.vertices().len());
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-8 * (1.0 + b.abs());
    for e in monomials(d, strength as u32) {
        let f = FnFunction::new(|x: &OPoint<f64, D>| Vector1::new(monomial(e, coords(x)))).with_dependencies::<NoDeps<U1>>();
        let a = ElementIntegralAssemblerBuilder::<f64, _, U1, _, _>::new()
            .with_space(&m)
            .with_quadrature_table(&t)
            .with_interpolation_weights(&zero)
            .with_integrand(f)
            .build_integrator();
        let got = assemble_scalar(&a).map_err(|e| e.to_string())?;
        let want = box_integral(e, n, d);
        ensure!(near(got, want), "the integral of the monomial {e:?} is {got}, not {want}");
    }
    let grad = |e: [u32; 3]| move |x: &OPoint<f64, D>| OVector::<f64, D>::from_fn(|k, _| monomial_grad(e, coords(x), k));
    let degree = strength as u32 / 2;
    for e in monomials(d, degree) {
        // the norm of a polynomial: the error of zero
        let u = |x: &OPoint<f64, D>| Vector1::new(monomial(e, coords(x)));
        let l2 = estimate_L2_error(&m, &u, &zero, &t).map_err(|e| e.to_string())?;
        let want = box_integral(e.map(|x| 2 * x), n, d);
        ensure!(near(l2 * l2, want), "the squared L2 norm of the monomial {e:?} is {}, not {want}", l2 * l2);
        let h1 = estimate_H1_seminorm_error(&m, &grad(e), &zero, &t).map_err(|e| e.to_string())?;
        let want: f64 = (0..d)
            .filter(|k| e[*k] > 0)
            .map(|k| {
                let mut f = e;
                f[k] -= 1;
                (e[k] as f64).powi(2) * box_integral(f.map(|x| 2 * x), n, d)
            })
            .sum();
        ensure!(near(h1 * h1, want), "the squared H1 seminorm of the monomial {e:?} is {}, not {want}", h1 * h1);
        // fields of the space have no error
        if space(&k).contains(&e) {
            let uh = DVector::from_iterator(m.vertices().len(), m.vertices().iter().map(|x| monomial(e, coords(x))));
            let l2 = estimate_L2_error(&m, &u, &uh, &t).map_err(|e| e.to_string())?;
            let h1 = estimate_H1_seminorm_error(&m, &grad(e), &uh, &t).map_err(|e| e.to_string())?;
            ensure!(l2.abs() < 1e-9 && h1.abs() < 1e-9, "the interpolant of {e:?}, a field of the space, has errors {l2} and {h1}");
        }
    }
    Ok(Some(digest(&(n, relabel, C::NAME))))
}

/// Integrals over curves and surfaces in space.
fn on_surface<C, D: SmallDim, R: SmallDim>(place: impl Fn([i32; 3]) -> P, n: usize, relabel: usize, table_kind: usize) -> Verdict
where
    C: TestCell<Dim = D> + ElementConnectivity<f64, GeometryDim = D, ReferenceDim = R>,
    DefaultAllocator: ElementConnectivityAllocator<f64, C> + TriDimAllocator<f64, D, R, U2> + TriDimAllocator<f64, U2, D, R> + DimAllocator<f64, D> + DimAllocator<f64, R>,
{
    let (d, r) = (D::dim(), R::dim());
    let k = C::kind();
    let m: Mesh<f64, D, C> = typed::<C>(&build(&k, &grid(k.shape, [n, n, 1]), relabel), &place);
    let ne = m.connectivity().len();
    let t = table::<R, f64>(table_kind, ne, |c| c);
    let u = DVector::from_fn(2 * m.vertices().len(), |i, _| ((i * 7 + 3) % 11) as f64 * 0.25 - 1.0);
    let f = FnFunction::new(|x: &OPoint<f64, D>, v: &OVector<f64, U2>| Vector1::new(integrand(0, coords(x), v.as_slice(), &[], d)));
    let a = ElementIntegralAssemblerBuilder::<f64, _, U2, _, _>::new()
        .with_space(&m)
        .with_quadrature_table(&t)
        .with_interpolation_weights(&u)
        .with_integrand(f)
        .build_integrator();
    let basis = Basis::of(&k);
    let (mut total, mut total_size) = (0.0, 0.0);
    let rules = rules(table_kind, ne, r);
    for e in 0..ne {
        let nodes = m.connectivity()[e].vertex_indices();
        let geo = Geo::new(k.shape, nodes[..k.shape.corners().len()].iter().map(|i| coords(&m.vertices()[*i])).collect());
        let (mut want, mut size) = (0.0, 0.0);
        for (xi, w, _) in &rules[e] {
            let j = geo.jac(*xi);
            let dot = |a: usize, b: usize| (0..3).map(|k| j[a][k] * j[b][k]).sum::<f64>();
            let area = if r == 1 { dot(0, 0).sqrt() } else { (dot(0, 0) * dot(1, 1) - dot(0, 1) * dot(0, 1)).sqrt() };
            let phi = basis.value(*xi);
            let v: Vec<f64> = (0..2).map(|s| nodes.iter().zip(&phi).map(|(n, p)| u[2 * n + s] * p).sum()).collect();
            let x = geo.map(*xi);
            want += w * area * integrand(0, x, &v, &[], d);
            // of the terms, by which rounding errors are measured
            size += w.abs() * area * (20.0 + (0..3).map(|k| x[k] * x[k]).sum::<f64>());
        }
        let got = a.assemble_element_scalar(e).map_err(|e| e.to_string())?;
        ensure!((got - want).abs() <= 1e-9 * size, "element {e}: the integral is {got}, not {want}");
        total += want;
        total_size += size;
    }
    let got = assemble_scalar(&a).map_err(|e| e.to_string())?;
    ensure!((got - total).abs() <= 1e-9 * total_size, "the integral over the mesh is {got}, not {total}");
    Ok(Some(total.to_bits()))
}

/// One buffer, used for several elements: every answer belongs to the latest element and reference point.
fn buffer_history<D: SmallDim>(sp: &Mixed<D>, buf: &mut InterpolationBuffer<f64>, e: usize, steps: &[(usize, usize)]) -> Result<(), String>
where
    DefaultAllocator: BiDimAllocator<f64, D, D> + BiDimAllocator<f64, D, U2>,
{
    let d = D::dim();
    let u = DVector::from_vec(state(1, 2));
    let el = &sp.elems[e];
    let mut b = buf.prepare_element_in_space(e, sp, &u, 2);
    let pts: [P; 2] = [[-0.5, -0.75, -0.25], [-0.875, 0.0, -0.5]].map(|p: P| std::array::from_fn(|k| if k < d { p[k] } else { 0.0 }));
    let (mut at_value, mut at_grad) = (None, None);
    for (p, upd) in steps {
        let xi = pts[*p];
        b.update_reference_point(&point::<D>(xi), [BufferUpdate::BasisValues, BufferUpdate::BasisGradients, BufferUpdate::Both][*upd].clone());
        if *upd != 1 {
            at_value = Some(xi);
        }
        if *upd != 0 {
            at_grad = Some(xi);
        }
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * (1.0 + b.abs());
        let x = coords(&b.map_reference_coords());
        let want = el.geo.map(xi);
        ensure!((0..d).all(|k| near(x[k], want[k])), "reference point {xi:?} of element {e} was mapped to {x:?}, not {want:?}");
        let (j, want) = (b.element_reference_jacobian(), el.geo.jac(xi));
        ensure!((0..d).all(|r| (0..d).all(|c| near(j[(r, c)], want[c][r]))), "the Jacobian at {xi:?} of element {e} is {j}, not {want:?}");
        if let Some(xi) = at_value {
            let phi = el.basis.value(xi);
            ensure!(b.basis_values().len() == phi.len() && b.basis_values().iter().zip(&phi).all(|(a, b)| near(*a, *b)), "basis values of element {e} at {xi:?}");
            let v: OVector<f64, U2> = b.interpolate();
            for s in 0..2 {
                let want: f64 = el.nodes.iter().zip(&phi).map(|(n, p)| u[2 * n + s] * p).sum();
                ensure!(near(v[s], want), "component {s} in element {e} at {xi:?} is {}, not {want}", v[s]);
            }
        }
        if let Some(xi) = at_grad {
            let g: OMatrix<f64, D, U2> = b.interpolate_ref_gradient();
            let rg = el.basis.grad(xi);
            for s in 0..2 {
                for k in 0..d {
                    let want: f64 = el.nodes.iter().zip(&rg).map(|(n, p)| u[2 * n + s] * p[k]).sum();
                    ensure!(near(g[(k, s)], want), "derivative {k} of component {s} in element {e} at {xi:?} is {}, not {want}", g[(k, s)]);
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::new(
        "C21",
        Level::Exploration,
        "Integrals and error norms equal their quadrature sums, written out with independently derived bases and maps, \
         within 1e-10 of the size of the summed terms; strong rules integrate polynomials exactly.",
    );
    let w = World::new();

    let mut jobs = vec![];
    for d in 1..=3 {
        let n = num_elems(d);
        for space in 0..SCALES.len() {
            for what in ALL {
                for s in 1..=3 {
                    for table in 0..4 {
                        for state in 0..3 {
                            for e in 0..(if what.total() { 1 } else { n }) {
                                for keep in if what.total() { vec![0, 1, n - 1, n] } else { vec![n] } {
                                    jobs.push(Job { d, space, keep, e, s, what, table, state });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.suite_over("sums", &jobs, |j| format!("{j:?}"), |j| run(&w, j, &mut Default::default()).map(Some));

    // large, tiny and zero weights, large states
    let mut jobs = vec![];
    for d in 1..=3 {
        let n = num_elems(d);
        for what in ALL {
            for s in 1..=3 {
                for (table, state) in [(6, 1), (6, 2), (7, 1), (7, 2), (8, 1), (8, 2), (0, 2001), (3, 2002), (8, 2001)] {
                    for e in 0..(if what.total() { 1 } else { n }) {
                        jobs.push(Job { d, space: 0, keep: n, e, s, what, table, state });
                    }
                }
            }
        }
    }
    ctx.suite_over("large, tiny and zero numbers", &jobs, |j| format!("{j:?}"), |j| run(&w, j, &mut Default::default()).map(Some));

    let mut jobs = vec![];
    for d in 1..=3 {
        let n = num_elems(d);
        for e in 0..n - 1 {
            for what in [ElemU, ElemAll, L2Sq, H1Sq] {
                for s in 1..=ctx.tier(2, 3) {
                    for state in 3..3 + NODES * s {
                        jobs.push(Job { d, space: 0, keep: n, e, s, what, table: 1, state });
                    }
                }
            }
        }
    }
    ctx.suite_over("single degrees of freedom", &jobs, |j| format!("{j:?}"), |j| run(&w, j, &mut Default::default()).map(Some));

    // histories on one thread, with one workspace
    let j = |d, space, e, s, what, table, state| Job { d, space, keep: num_elems(d), e, s, what, table, state };
    let menu = vec![
        j(2, 0, 0, 1, U, 0, 1),
        j(2, 1, 1, 3, VolAll, 1, 2),
        j(2, 0, 1, 2, VolGrad, 2, 1),
        j(2, 0, 6, 2, VolAll, 1, 1), // refused: collapsed element
        j(2, 2, 2, 2, U, 0, 2),      // rule without points
        j(3, 0, 1, 2, VolU, 0, 1),
        j(3, 1, 0, 3, U, 1, 1),
        j(1, 0, 0, 2, VolAll, 1, 1),
        j(2, 0, 1, 1, ElemAll, 1, 1),
        j(3, 0, 0, 2, ElemU, 0, 1),
        j(2, 2, 3, 1, H1Sq, 0, 1),
        j(3, 2, 4, 3, L2Sq, 0, 1),
        j(2, 0, 0, 2, TotalL2Sq, 0, 1),
        j(3, 0, 0, 1, TotalU, 2, 2),
        j(2, 0, 0, 1, TotalH1, 0, 1), // refused
    ];
    let len = ctx.tier(4, 5);
    ctx.suite(
        "histories",
        pow(menu.len() as u64, len),
        |i| {
            let mut g = Dig(i);
            format!("{:?}", (0..len).map(|_| *g.pick(&menu)).collect::<Vec<_>>())
        },
        |i| {
            let mut g = Dig(i);
            let seq: Vec<Job> = (0..len).map(|_| *g.pick(&menu)).collect();
            std::thread::scope(|t| {
                t.spawn(|| -> Verdict {
                    let mut ws = IntegrationWorkspace::default();
                    for (n, j) in seq.iter().enumerate() {
                        no_panic(|| run(&w, j, &mut ws)).and_then(|r| r).map_err(|e| format!("after {n} integrals: {e}"))?;
                    }
                    Ok(Some(i))
                })
                .join()
                .unwrap()
            })
        },
    );

    // interpolation buffers
    let steps: Vec<Vec<(usize, usize)>> = checks::families::sequences(6, ctx.tier(3, 4)).into_iter().map(|s| s.iter().map(|x| (x / 3, x % 3)).collect()).collect();
    let mut visits: Vec<Vec<(usize, usize)>> = vec![];
    for d in 1..=3usize {
        let n = num_elems(d) - 1;
        for a in 0..n {
            for b in 0..n {
                visits.push(vec![(d, a), (d, b)]);
            }
            // another dimension in between
            visits.push(vec![(d, a), (d % 3 + 1, 0), (d, a)]);
        }
    }
    let k = steps.len() as u64;
    ctx.suite(
        "interpolation buffers",
        visits.len() as u64 * k,
        |i| format!("elements {:?}, updates {:?}", visits[(i / k) as usize], steps[(i % k) as usize]),
        |i| {
            let mut buf = InterpolationBuffer::default();
            let st = &steps[(i % k) as usize];
            for (n, (d, e)) in visits[(i / k) as usize].iter().enumerate() {
                // the first visit reads everything, the last one follows the sequence
                let full = [(1, 2), (0, 2)];
                let st = if n + 1 == visits[(i / k) as usize].len() { &st[..] } else { &full[..] };
                match d {
                    1 => buffer_history(&w.d1[0], &mut buf, *e, st)?,
                    2 => buffer_history(&w.d2[0], &mut buf, *e, st)?,
                    _ => buffer_history(&w.d3[0], &mut buf, *e, st)?,
                }
            }
            Ok(Some(i))
        },
    );

    // polynomials on meshes
    let mut grids = vec![];
    for i in 1..=3 {
        for j in 1..=ctx.tier(2, 3) {
            for l in 1..=2 {
                for r in 0..4 {
                    grids.push(([i, j, l], r));
                }
            }
        }
    }
    macro_rules! poly {
        ($($t:ident $d:ident),*) => {$({
            let dim = <$d as DimName>::dim();
            let g: Vec<_> = grids.iter().filter(|(n, _)| n[dim..].iter().all(|x| *x == 1)).cloned().collect();
            ctx.suite_over(concat!("polynomials ", stringify!($t)), &g, |g| format!("{g:?}"), |(n, r)| on_mesh::<$t, $d>(*n, *r));
        })*};
    }
    poly!(Segment2d1Connectivity U1, Tri3d2Connectivity U2, Tri6d2Connectivity U2, Quad4d2Connectivity U2, Quad9d2Connectivity U2, Tet4Connectivity U3, Tet10Connectivity U3, Tet20Connectivity U3, Hex8Connectivity U3, Hex20Connectivity U3, Hex27Connectivity U3);

    // curves and surfaces
    let mut surf = vec![];
    for n in 1..=3 {
        for r in 0..4 {
            for t in 0..3 {
                for map in 0..15 {
                    surf.push((n, r, t, map));
                }
            }
        }
    }
    let bend = |v: [i32; 3], map: usize, d: usize| -> P {
        let x = v.map(|c| c as f64 / 6.0);
        // in several units of length
        let unit = [1.0, 2f64.powi(-14), 2f64.powi(-40), 2f64.powi(14), 2f64.powi(40)][map / 3];
        let p = match map % 3 {
            0 => [x[0], x[1], 0.0],
            1 => [x[0] - x[1], 0.5 * x[0] * x[0] + x[1], 0.25 * x[0] * x[1] - x[1] * x[1]],
            _ => [-0.125 * x[1] * x[1], 3.0 * x[0], 2.0 * x[1] + x[0]],
        }
        .map(|c| c * unit);
        if d == 2 {
            [p[0], p[1], 0.0]
        } else {
            p
        }
    };
    ctx.suite_over("curves", &surf, |s| format!("{s:?}"), |(n, r, t, map)| on_surface::<Segment2d2Connectivity, U2, U1>(|v| bend(v, *map, 2), *n, *r, *t));
    ctx.suite_over("surfaces", &surf, |s| format!("{s:?}"), |(n, r, t, map)| on_surface::<Tri3d3Connectivity, U3, U2>(|v| bend(v, *map, 3), *n, *r, *t));
    let _ = kind("Tri3");
    ctx.assume("The element-level H1 error estimators are only used on elements with a regular map; elsewhere they are documented as unable to report the failure.");
    ctx.assume("An integral over a space that contains a collapsed element may be refused; this check requires it for the gradient-dependent form, because gradients do not exist there.");
    ctx.finish();
}
