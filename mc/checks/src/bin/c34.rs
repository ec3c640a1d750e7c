//! C34: computations in single precision agree with the same computations in double precision.
//!
//! Every scenario is written once, in terms of a number type `F`, on inputs that both types represent exactly.
use checks::cells::*;
use checks::fem::{lattice, refp};
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::{EllipticContraction, EllipticEnergy, EllipticOperator, LaplaceOperator};
use fenris::connectivity::*;
use fenris::element::*;
use fenris::error::*;
use fenris::geometry::polymesh::PolyMesh3d;
use fenris::geometry::sdf::*;
use fenris::geometry::*;
use fenris::integrate::*;
use fenris::mesh::procedural::*;
use fenris::mesh::refinement::refine_uniformly;
use fenris::mesh::*;
use fenris::nalgebra::*;
use fenris::quadrature::*;
use fenris::space::*;
use fenris::util::*;
use fenris_optimize::newton::*;
use fenris_solid::materials::*;
use fenris_solid::*;
use fenris_sparse::cg::*;
use hk::*;

const EPS: f64 = f32::EPSILON as f64;

/// What a scenario reports: numbers with the size of the errors that are to be expected (in units of the machine
/// epsilon), and everything that must be the same.
static WORST: std::sync::Mutex<std::collections::BTreeMap<String, f64>> = std::sync::Mutex::new(std::collections::BTreeMap::new());

#[derive(Default)]
struct Rec {
    nums: Vec<(String, f64, f64)>,
    tags: Vec<String>,
}
impl Rec {
    fn num(&mut self, what: impl Into<String>, v: f64, tol: f64) {
        self.nums.push((what.into(), v, tol));
    }
    fn nums(&mut self, what: &str, v: impl IntoIterator<Item = f64>, tol: f64) {
        for (i, v) in v.into_iter().enumerate() {
            self.num(format!("{what}[{i}]"), v, tol);
        }
    }
    /// Numbers that are sums of terms of their common size, or of the size `least`.
    fn sized(&mut self, what: &str, v: impl IntoIterator<Item = f64>, tol: f64, least: f64) {
        let v: Vec<f64> = v.into_iter().collect();
        let m = v.iter().fold(least, |a, x| a.max(x.abs()));
        self.nums(what, v, tol * m);
    }
    fn tag(&mut self, t: impl Into<String>) {
        self.tags.push(t.into());
    }
}

fn compare(double: Result<Rec, String>, single: Result<Rec, String>) -> Verdict {
    let (d, s) = match (double, single) {
        (Ok(d), Ok(s)) => (d, s),
        (Err(e), Ok(_)) => return Err(format!("panic in double precision only: {e}")),
        (Ok(_), Err(e)) => return Err(format!("panic in single precision only: {e}")),
        (Err(_), Err(_)) => return Ok(None),
    };
    let debug = std::env::var("MC_WORST").is_ok();
    for (a, b) in d.tags.iter().zip(&s.tags) {
        ensure!(a == b, "in single precision {b}, in double precision {a}");
    }
    ensure_eq!(s.tags.len(), d.tags.len(), "number of results in single precision");
    ensure_eq!(s.nums.len(), d.nums.len(), "number of numbers in single precision");
    for ((what, x, t), (w, y, _)) in d.nums.iter().zip(&s.nums) {
        ensure_eq!(w, what, "results in single precision");
        if debug {
            let mut m = WORST.lock().unwrap();
            let key = what.split('[').next().unwrap().to_string();
            let e = m.entry(key).or_insert(0.0f64);
            let q = (x - y).abs() / (t * EPS);
            if q.is_finite() {
                *e = e.max(q);
            }
        }
        let same = (x - y).abs() <= t * EPS || x == y || (x.is_nan() && y.is_nan());
        ensure!(same, "{what} is {y} in single and {x} in double precision, and should agree within {:e}", t * EPS);
    }
    let mut h: Vec<u64> = d.nums.iter().map(|n| (n.1 as f32).to_bits() as u64).collect();
    h.push(digest(&d.tags));
    Ok(Some(digest(&h)))
}

macro_rules! both {
    ($r:ident, $body:block) => {{
        let double = no_panic(|| {
            #[allow(dead_code)]
            type F = f64;
            let mut rec = Rec::default();
            {
                let $r = &mut rec;
                $body
            }
            rec
        });
        let single = no_panic(|| {
            #[allow(dead_code)]
            type F = f32;
            let mut rec = Rec::default();
            {
                let $r = &mut rec;
                $body
            }
            rec
        });
        compare(double, single)
    }};
}

type P = [f64; 3];

/// Distortions of reference cells; all coordinates are multiples of a power of two times the unit.
const SHAPES: u64 = 8;
fn distort(which: usize, x: P) -> P {
    let [a, b, c] = x;
    match which {
        0 => [a, b, c],
        1 => [2.0 * a + b, 0.5 * b - 0.25 * c, c + 0.5 * a],
        2 => [a + 0.125 * a * b, b + 0.125 * b * c - 0.0625 * a, 1.5 * c + 0.125 * a * b],
        3 => [0.25 * a - b, a + 0.0625 * b, 0.5 * c + b],
        4 => [a + 0.0625 * b * b, 1.5 * b - 0.0625 * a * a, c + 0.0625 * a * c + 0.125 * b],
        _ => [4.0 * a, 0.25 * b + 0.125 * a, 2.0 * c - 0.5 * a],
        6 => [0.7 * a + 0.1 * b * c, 1.3 * b - 0.2 * a * c, 0.9 * c + 0.3 * a * b],
        _ => [0.6 * a - 0.8 * b, 0.8 * a + 0.6 * b + 0.1 * c, c / 3.0],
    }
}
/// A number that both types have.
fn r32(x: f64) -> f64 {
    x as f32 as f64
}
/// Where the cell is, in units of itself.
const PLACES: [P; 4] = [[0.0; 3], [1.0, -1.0, 1.0], [30.0, -17.0, 5.0], [0.333, 0.111, -0.07]];
const UNITS: [f64; 3] = [1.0, 1.0 / 1024.0, 4096.0];

/// Numbers of points per cell in every direction.
fn thorough() -> bool {
    static T: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *T.get_or_init(|| std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"))
}
fn step() -> i32 {
    if thorough() { 1 } else { 2 }
}

macro_rules! element_case {
    ($C:ident, $R:ident, $i:expr) => {{
        let mut g = Dig($i);
        let (shape, place, u) = (g.next(SHAPES), *g.pick(&PLACES), *g.pick(&UNITS));
        let k = <$C as TestCell>::kind();
        let pts = lattice(k.shape, -1, 7, step(), false);
        let xi0 = refp(pts[g.next(pts.len() as u64)]);
        both!(r, {
            type D = <$C as TestCell>::Dim;
            let vs: Vec<OPoint<F, D>> = k
                .nodes
                .iter()
                .map(|n| {
                    let x = distort(shape, refp(*n));
                    OPoint::from(SVector::<F, { <D as DimNum>::N }>::from_fn(|i, _| r32((x[i] + place[i]) * u) as F))
                })
                .collect();
            let c = <$C as TestCell>::make(&(0..vs.len()).collect::<Vec<_>>());
            let e = ElementConnectivity::<F>::element(&c, &vs).unwrap();
            let m = 4.0 + place.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            let xi = OPoint::<F, $R>::from(SVector::<F, { <$R as DimNum>::N }>::from_fn(|i, _| r32(xi0[i]) as F));
            r.nums("basis", e.evaluate_basis(&xi).iter().map(|x| *x as f64), 400.0);
            r.nums("gradient", e.gradients(&xi).iter().map(|x| *x as f64), 800.0);
            let x = e.map_reference_coords(&xi);
            r.nums("image", x.iter().map(|x| *x as f64), 100.0 * m * u);
            r.nums("jacobian", e.reference_jacobian(&xi).iter().map(|x| *x as f64), 200.0 * m * u);
            r.num("diameter", e.diameter() as f64, 40.0 * m * u);
        })
    }};
}
trait DimNum {
    const N: usize;
}
impl<const N: usize> DimNum for Const<N> {
    const N: usize = N;
}

/// Inverse maps for points of cells, which must come out where they came from.
macro_rules! inverse_case {
    ($C:ident, $R:ident, $i:expr, $square:ident) => {{
        let mut g = Dig($i);
        let (shape, place, u) = (g.next(SHAPES), *g.pick(&PLACES), *g.pick(&UNITS));
        let k = <$C as TestCell>::kind();
        let pts = lattice(k.shape, 0, 6, 1, true);
        let xi0 = refp(pts[g.next(pts.len() as u64)]);
        both!(r, {
            type D = <$C as TestCell>::Dim;
            let vs: Vec<OPoint<F, D>> = k
                .nodes
                .iter()
                .map(|n| {
                    let x = distort(shape, refp(*n));
                    OPoint::from(SVector::<F, { <D as DimNum>::N }>::from_fn(|i, _| r32((x[i] + place[i]) * u) as F))
                })
                .collect();
            let c = <$C as TestCell>::make(&(0..vs.len()).collect::<Vec<_>>());
            let e = ElementConnectivity::<F>::element(&c, &vs).unwrap();
            let m = 4.0 + place.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            let xi = OPoint::<F, $R>::from(SVector::<F, { <$R as DimNum>::N }>::from_fn(|i, _| r32(xi0[i]) as F));
            let x = e.map_reference_coords(&xi);
            inverse_case!(@ $square r e x m);
            // points near the origin
            if place[2].abs() < 2.0 {
                for f in [0.1, 0.011, 0.0013, 1.7e-4] {
                    let x = OPoint::<F, D>::from(SVector::<F, { <D as DimNum>::N }>::from_fn(|i, _| r32((xi0[i] + 0.1) * f * u) as F));
                    inverse_case!(@ $square r e x m);
                }
            }
            match project_physical_coordinates(&e, &x) {
                Ok(y) => r.nums("projected", y.iter().map(|x| *x as f64), 4000.0 * m),
                Err(e) => r.tag(format!("projection fails: {e}")),
            }
        })
    }};
    (@ yes $r:ident $e:ident $x:ident $m:ident) => {
        match map_physical_coordinates(&$e, &$x) {
            Ok(y) => $r.nums("reference coordinates", y.iter().map(|x| *x as f64), 4000.0 * $m),
            Err(e) => $r.tag(format!("no reference coordinates: {e}")),
        }
    };
    (@ no $r:ident $e:ident $x:ident $m:ident) => { let _ = &$x; };
}

macro_rules! for_kinds {
    ($m:ident) => {
        $m!(Segment2d1Connectivity, U1, yes);
        $m!(Segment2d2Connectivity, U1, no);
        $m!(Tri3d2Connectivity, U2, yes);
        $m!(Tri3d3Connectivity, U2, no);
        $m!(Tri6d2Connectivity, U2, yes);
        $m!(Quad4d2Connectivity, U2, yes);
        $m!(Quad9d2Connectivity, U2, yes);
        $m!(Tet4Connectivity, U3, yes);
        $m!(Tet10Connectivity, U3, yes);
        $m!(Tet20Connectivity, U3, yes);
        $m!(Hex8Connectivity, U3, yes);
        $m!(Hex20Connectivity, U3, yes);
        $m!(Hex27Connectivity, U3, yes);
    };
}

/// The closest point of a simplex is a point, whatever its reference coordinates.
macro_rules! closest_case {
    ($C:ident, $R:ident, $i:expr) => {{
        let mut g = Dig($i);
        let (shape, place, u) = (g.next(SHAPES), *g.pick(&PLACES), *g.pick(&UNITS));
        let k = <$C as TestCell>::kind();
        let q: P = std::array::from_fn(|_| *g.pick(&AXIS));
        both!(r, {
            type D = <$C as TestCell>::Dim;
            let at = |x: P| OPoint::<F, D>::from(SVector::<F, { <D as DimNum>::N }>::from_fn(|i, _| r32((x[i] + place[i]) * u) as F));
            let vs: Vec<OPoint<F, D>> = k.nodes.iter().map(|n| at(distort(shape, refp(*n)))).collect();
            let c = <$C as TestCell>::make(&(0..vs.len()).collect::<Vec<_>>());
            let e = ElementConnectivity::<F>::element(&c, &vs).unwrap();
            let m = 8.0 + place.iter().fold(0.0f64, |a, b| a.max(b.abs()));
            let p = e.closest_point(&at(q));
            let x = e.map_reference_coords(p.point());
            r.nums("closest point", x.iter().map(|x| *x as f64), 4000.0 * m * u);
            let b = e.element_bounds();
            r.nums("bounds", b.min().iter().chain(b.max().iter()).map(|x| *x as f64), m * u);
        })
    }};
}
const AXIS: [f64; 5] = [-5.0, -0.8, 0.1, 0.9, 3.0];

/// Points of the unit square or cube (and outside of it), displaced a little.
fn warped(x: P, w: usize, u: f64) -> P {
    let s = [0.0, 0.1, 0.25][w % 3];
    let y = [x[0] + s * x[1], x[1] - s * s * x[0], x[2] + s * x[0]];
    y.map(|v| r32(v * u))
}

macro_rules! space_case {
    ($D:ident, $N:expr, $make:expr, $i:expr) => {{
        let mut g = Dig($i);
        let (n, w, u) = (g.next(2) + 1, g.next(3), *g.pick(&UNITS));
        let q: P = std::array::from_fn(|_| *g.pick(&[-0.7, 0.11, 0.43, 0.97, 2.0]));
        both!(r, {
            let mut mesh = $make(n, Default::default(), F::default());
            mesh.transform_all_vertices(|vs| {
                for v in vs.iter_mut() {
                    let x: P = std::array::from_fn(|k| if k < $N { v[k] as f64 } else { 0.0 });
                    let y = warped(x, w, u);
                    *v = OPoint::from(SVector::<F, $N>::from_fn(|k, _| y[k] as F));
                }
            });
            // linear fields are known everywhere inside
            let lin = |v: &OPoint<F, $D>| (0..$N).fold(0.25 as F, |a, k| a + (k as F + 1.0) * v[k] / (u as F));
            let values = DVector::from_iterator(mesh.vertices().len(), mesh.vertices().iter().map(lin));
            let grad_scale = 3.0 / u;
            let space = SpatiallyIndexed::from_space(mesh);
            let x = OPoint::from(SVector::<F, $N>::from_fn(|k, _| warped(q, w, u)[k] as F));
            let (e, xi) = space.find_closest_element_and_reference_coords(&x).unwrap();
            let y = space.map_element_reference_coords(e, &xi);
            r.nums("closest point", y.iter().map(|x| *x as f64), 10_000.0 * u);
            let v: Vector1<F> = space.interpolate_at_point(&x, (&values).into());
            r.num("value", v[0] as f64, 40_000.0);
            let d: OMatrix<F, $D, U1> = space.interpolate_gradient_at_point(&x, (&values).into());
            r.nums("gradient", d.iter().map(|x| *x as f64), 20_000.0 * grad_scale);
        })
    }};
}

/// A material for every name.
macro_rules! with_material {
    ($which:expr, $m:ident, $body:expr) => {
        match $which {
            0 => {
                let $m = LinearElasticMaterial;
                $body
            }
            1 => {
                let $m = NeoHookeanMaterial;
                $body
            }
            _ => {
                let $m = StVKMaterial;
                $body
            }
        }
    };
}

macro_rules! assembly_case {
    ($N:expr, $make:expr, $i:expr) => {{
        let mut g = Dig($i);
        let (n, w, u) = (g.next(2) + 1, g.next(3), *g.pick(&UNITS));
        let (what, state) = (g.next(8), g.next(3));
        both!(r, {
            type D = Const<$N>;
            let mut mesh = $make(n, Default::default(), F::default());
            mesh.transform_all_vertices(|vs| {
                for v in vs.iter_mut() {
                    let x: P = std::array::from_fn(|k| if k < $N { v[k] as f64 } else { 0.0 });
                    let y = warped(x, w, u);
                    *v = OPoint::from(SVector::<F, $N>::from_fn(|k, _| y[k] as F));
                }
            });
            let table = mesh.canonical_mass_quadrature();
            let nn = mesh.vertices().len();
            let amp = [0.0, 1.0 / 256.0, 1.0 / 32.0][state] * u;
            let field = |s: usize| DVector::<F>::from_fn(nn * s, |i, _| r32(((i * 7 + 3) % 11) as f64 / 11.0 * amp - 0.5 * amp) as F);
            let vol = u.powi($N);
            let dense = |m: &nalgebra_sparse::CsrMatrix<F>| -> Vec<f64> { DMatrix::from(m).iter().map(|x| *x as f64).collect() };
            match what {
                0 | 1 => {
                    let uh = field(1);
                    let asm = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&LaplaceOperator).with_quadrature_table(&table).with_u(&uh).build();
                    if what == 0 {
                        let m = CsrAssembler::default().assemble(&asm).unwrap();
                        r.sized("stiffness", dense(&m), 400.0, vol / (u * u));
                    } else {
                        let v = VectorAssembler::default().assemble_vector(&asm).unwrap();
                        r.sized("load", v.iter().map(|x| *x as f64), 400.0, vol * amp / (u * u));
                        r.sized("energy", [assemble_scalar(&asm).unwrap() as f64], 400.0, vol * amp * amp / (u * u));
                    }
                }
                2 => {
                    let t = table.clone().with_uniform_data(Density(2.5 as F));
                    let asm = ElementMassAssembler::with_solution_dim(1).with_space(&mesh).with_quadrature_table(&t);
                    let m = CsrAssembler::default().assemble(&asm).unwrap();
                    r.sized("mass", dense(&m), 200.0, 0.01 * vol);
                }
                3 => {
                    let t = table.clone().with_uniform_data(Density(2.5 as F));
                    let src = GravitySource::from_acceleration(SVector::<F, $N>::from_fn(|i, _| [0.5, -9.75, 2.0][i] as F));
                    let asm = ElementSourceAssemblerBuilder::new().with_finite_element_space(&mesh).with_source(&src).with_quadrature_table(&t).build::<F>();
                    let v = VectorAssembler::default().assemble_vector(&asm).unwrap();
                    r.sized("gravity", v.iter().map(|x| *x as f64), 200.0, 0.01 * vol);
                }
                4 | 5 | 6 => {
                    let uh = field($N);
                    let t = table.clone().with_uniform_data(LameParameters { mu: 2.5 as F, lambda: 3.0 as F });
                    with_material!(what - 4, m, {
                        let op = MaterialEllipticOperator::new(&m);
                        let asm = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&op).with_quadrature_table(&t).with_u(&uh).build();
                        let k = CsrAssembler::default().assemble(&asm).unwrap();
                        r.sized("stiffness", dense(&k), 400.0, vol / (u * u));
                        let v = VectorAssembler::default().assemble_vector(&asm).unwrap();
                        r.sized("forces", v.iter().map(|x| *x as f64), 400.0, vol / u);
                        r.sized("energy", [assemble_scalar(&asm).unwrap() as f64], 400.0, vol * (1e-3 + amp / u));
                        // Dirichlet conditions, and the equilibrium of one linear step
                        let mut k = k;
                        let mut rhs = v;
                        let fixed: Vec<usize> = (0..nn).filter(|i| i % 3 != 1).collect();
                        apply_homogeneous_dirichlet_bc_csr(&mut k, &fixed, $N);
                        apply_homogeneous_dirichlet_bc_rhs(&mut rhs, &fixed, $N);
                        r.sized("constrained", dense(&k), 400.0, vol / (u * u));
                        r.sized("constrained forces", rhs.iter().map(|x| *x as f64), 400.0, vol / u);
                    });
                }
                _ => {
                    let uh = field(1);
                    let exact = |x: &OPoint<F, D>| Vector1::new(x[0] / (u as F) + (0.5 as F));
                    let grad = |_: &OPoint<F, D>| OMatrix::<F, D, U1>::from_fn(|i, _| if i == 0 { (1.0 / u) as F } else { 0.25 as F });
                    r.num("L2 error", estimate_L2_error(&mesh, &exact, &uh, &table).unwrap() as f64, 200.0 * vol.sqrt() * (1.0 + u));
                    r.num("squared L2 error", estimate_L2_error_squared(&mesh, &exact, &uh, &table).unwrap() as f64, 400.0 * vol * (1.0 + u * u));
                    r.num("H1 error", estimate_H1_seminorm_error(&mesh, &grad, &uh, &table).unwrap() as f64, 400.0 * vol.sqrt() * (1.0 + 1.0 / u));
                    let f = FnFunction::new(|x: &OPoint<F, D>, v: &Vector1<F>| Vector1::new(x[0] * v[0] + v[0] + x[1]));
                    let a = ElementIntegralAssemblerBuilder::new().with_space(&mesh).with_quadrature_table(&table).with_interpolation_weights(&uh).with_integrand(f).build_integrator();
                    r.num("integral", assemble_scalar(&a).unwrap() as f64, 200.0 * vol * (u + amp) * (1.0 + u));
                }
            }
        })
    }};
}

/// Points in general position: the coordinate `k` of choice `c` for point `j`.
fn generic(j: usize, c: usize, k: usize) -> f64 {
    let n = (1 + c + 4 * j) as f64;
    let x = n * [0.618_033_988_75, 0.754_877_666_25, 0.569_840_290_998][k] + 0.31 * n * n * [0.1, 0.37, 0.73][k];
    (x - x.floor()) * 4.0 - 2.0
}
const PLACES2: [P; 2] = [[0.0; 3], [3.3, -5.7, 4.1]];

fn plane_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let (place, u) = (*g.pick(&PLACES2), *g.pick(&UNITS));
    let c: [usize; 6] = std::array::from_fn(|_| g.next(4));
    let raw = |j: usize| -> P { std::array::from_fn(|k| r32((generic(j, c[j], k.min(1)) + place[k]) * u)) };
    let m = 16.0 * (3.0 + place[1].abs());
    // how well the intersection of the two segments is determined
    let (p, q): (Vec<P>, Vec<P>) = ((0..2).map(raw).collect(), (2..4).map(raw).collect());
    let cross = |a: [f64; 2], b: [f64; 2]| a[0] * b[1] - a[1] * b[0];
    let d = |v: &[P]| [v[1][0] - v[0][0], v[1][1] - v[0][1]];
    let len = |a: [f64; 2]| (a[0] * a[0] + a[1] * a[1]).sqrt();
    let (dp, dq) = (d(&p), d(&q));
    let cond = len(dp).max(len(dq)) * 4.0 * u / cross(dp, dq).abs() * m;
    let shortest = len(dp).min(len(dq)) / u;
    both!(r, {
        let at = |j: usize| {
            let x = raw(j);
            Point2::new(x[0] as F, x[1] as F)
        };
        let len = |r: &mut Rec, what: &str, v: F, t: f64| r.num(what, v as f64, t * m * u);
        let (s, o) = (LineSegment2d::from_end_points(at(0), at(1)), LineSegment2d::from_end_points(at(2), at(3)));
        len(r, "length", s.length(), 8.0);
        r.nums("midpoint", s.midpoint().iter().map(|x| *x as f64), 8.0 * m * u);
        r.num("parameter", s.closest_point_parametric(&at(4)) as f64, 64.0 * m / shortest);
        r.nums("closest point", s.closest_point(&at(4)).iter().map(|x| *x as f64), 64.0 * m * u);
        r.num("projection", s.to_line().project_point_parametric(&at(4)) as f64, 64.0 * m / shortest / shortest);
        let t = s.intersect_segment_parametric(&o);
        r.tag(format!("segments intersect: {}", t.is_some()));
        r.nums("intersection of segments", t.map(|x| x as f64), cond);
        let t = s.intersect_line_parametric(&o.to_line());
        r.nums("intersection with line", t.map(|x| x as f64), 4.0 * cond);
        let x = s.to_line().intersect(&o.to_line());
        r.nums("intersection of lines", x.iter().flat_map(|x| x.iter().map(|x| *x as f64)), 8.0 * cond * u);
        // half planes
        let n = Unit::new_normalize(Vector2::new((at(3) - at(2)).y, -(at(3) - at(2)).x));
        let h = HalfPlane::from_point_and_normal(at(2), n);
        len(r, "distance to half plane", h.signed_distance_to_point(&at(4)), 64.0 / shortest);
        let t = s.intersect_half_plane_parametric(&h);
        r.tag(format!("segment intersects half plane: {}", t.is_some()));
        r.nums("part in half plane", t.into_iter().flatten().map(|x| x as f64), cond);
        // disks
        let radius = (0.7 * u) as F;
        let disk = Disk::from_center_and_radius(at(4), radius);
        let gap = (s.to_line().project_point(&at(4)) - at(4)).norm() as f64 / u;
        if (gap - 0.7).abs() > 0.02 {
            let t = s.to_line().intersect_disk_parametric(&disk);
            r.tag(format!("line intersects disk: {}", t.is_some()));
            r.nums("line in disk", t.into_iter().flatten().map(|x| x as f64), 64.0 * m / shortest / shortest / (gap - 0.7).abs().sqrt());
        }
        // triangles and polygons
        let mut t = Triangle([at(0), at(1), at(4)]);
        r.num("signed area", t.signed_area() as f64, 16.0 * m * u * u);
        let area = t.signed_area() as f64 / (u * u);
        if area.abs() > 1e-3 {
            r.tag(format!("{:?}", t.orientation()));
            if area < 0.0 {
                t.swap_vertices(0, 1);
            }
            let sd = t.query_signed_distance(&at(5)).unwrap();
            len(r, "distance to triangle", sd.signed_distance, 8.0);
            len(r, "distance outside of triangle", t.distance(&at(5)), 8.0);
            let mut other = Triangle([at(2), at(3), at(5)]);
            if other.signed_area() < (0.0 as F) {
                other.swap_vertices(0, 1);
            }
            let cut = ConvexPolygon::from(t).intersect_polygon(&ConvexPolygon::from(other));
            let area: F = SimplePolygon2d::from(cut).area();
            r.num("area of intersection", area as f64, 8.0 * m * u * u * (1.0 + 1.0 / shortest));
            let inside = s.intersect_polygon(&ConvexPolygon::from(other)).map_or(0.0 as F, |s| s.length());
            len(r, "length in triangle", inside, 8.0 * cond.max(64.0 / shortest));
        }
        let quad = SimplePolygon2d::from_vertices(vec![at(0), at(1), at(2), at(3)]);
        r.num("area of polygon", quad.signed_area() as f64, 32.0 * m * u * u);
        let e = quad.closest_edge(&at(5)).unwrap();
        len(r, "distance to polygon", e.signed_distance.abs(), 8.0);
        // boxes
        let b = AxisAlignedBoundingBox::from_points(&[at(0), at(1), at(2)]).unwrap();
        r.nums("box", b.min().iter().chain(b.max().iter()).chain(b.center().iter()).map(|x| *x as f64), 8.0 * m * u);
        len(r, "distance to box", b.dist_to(&at(5)), 8.0);
        len(r, "farthest distance to box", b.max_dist_to(&at(5)), 8.0);
        r.tag(format!("in the box: {}", b.contains_point(&at(5))));
        let f = SdfAxisAlignedBox { aabb: b };
        len(r, "distance function of box", f.eval(&at(5)), 16.0);
        let f = f.union(SdfCircle { radius, center: at(4).coords });
        len(r, "distance function of union", f.eval(&at(5)), 16.0);
    })
}

/// Triangles and tetrahedra that are nearly flat: their areas and volumes are small differences.
fn thin_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let (place, u, h) = (*g.pick(&PLACES2), *g.pick(&UNITS), *g.pick(&[1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 0.0]));
    let (t, s, off) = (*g.pick(&[-0.4, 0.0, 0.3, 0.5, 1.0]), *g.pick(&[0.2, 0.7]), g.next(3));
    let c: [usize; 3] = std::array::from_fn(|_| g.next(4));
    let p: [P; 3] = std::array::from_fn(|j| std::array::from_fn(|k| generic(j, c[j], k)));
    let mix = |a: P, b: P, t: f64| -> P { std::array::from_fn(|k| a[k] + t * (b[k] - a[k])) };
    let shift = |a: P, k: usize, h: f64| -> P { std::array::from_fn(|i| if i == k { a[i] + h } else { a[i] }) };
    let pts = [p[0], p[1], shift(mix(p[0], p[1], t), off, h), shift(mix(p[0], mix(p[1], p[2], s), t), off, h)];
    let pts = pts.map(|x| -> P { std::array::from_fn(|k| r32((x[k] + place[k]) * u)) });
    // whether the triangle has a normal also in single precision: what is done without one is not specified
    let normal = {
        let v = |a: usize, b: usize| Vector3::new(pts[b][0] - pts[a][0], pts[b][1] - pts[a][1], pts[b][2] - pts[a][2]);
        let l = v(0, 1).norm().max(v(0, 2).norm()).max(v(1, 2).norm());
        v(0, 1).cross(&v(0, 2)).norm() > 4.0 * EPS * l * (l + place[1].abs() * u)
    };
    both!(r, {
        let at = |j: usize| Point3::new(pts[j][0] as F, pts[j][1] as F, pts[j][2] as F);
        let flat = |j: usize| Point2::new(pts[j][0] as F, pts[j][1] as F);
        let l = (0..4).flat_map(|i| (0..i).map(move |j| (at(i) - at(j)).norm() as f64)).fold(0.0f64, f64::max);
        r.num("area of thin triangle", Triangle([at(0), at(1), at(2)]).area() as f64, 4.0 * l * l);
        r.num("area of plane triangle", Triangle([flat(0), flat(1), flat(2)]).area() as f64, 4.0 * l * l);
        let quad = SimplePolygon3d::from_vertices(vec![at(0), at(1), at(3), at(2)]);
        r.num("area of thin polygon", quad.area() as f64, 16.0 * l * l + 4.0 * l * place[1].abs() * u);
        r.num("volume of thin tetrahedron", Tetrahedron::from_vertices([at(0), at(1), at(2), at(3)]).compute_volume() as f64, 8.0 * l * l * l + 4.0 * l * l * place[1].abs() * u);
        if normal {
            let thin = Triangle([at(0), at(1), at(2)]);
            let d = thin.closest_point(&at(3)).closest_point - at(3);
            r.num("distance to thin triangle", d.norm() as f64, 32.0 * (l + place[1].abs() * u));
            let e = Tri3d3Element::from(thin);
            let x = e.map_reference_coords(e.closest_point(&at(3)).point());
            // the projection is ill-conditioned, but never misses by more than the thickness
            let area = thin.area() as f64;
            let (thickness, aspect) = (4.0 * area / l, l * l / (2.0 * area).max(1e-30 * l * l));
            r.num("distance to thin element", (x - at(3)).norm() as f64, 64.0 * (l + place[1].abs() * u) + (64.0 * l * aspect * aspect).min(thickness / EPS));
        }
    })
}

fn solid_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let (place, u) = (*g.pick(&PLACES2), *g.pick(&UNITS));
    let c: [usize; 6] = std::array::from_fn(|_| g.next(4));
    let raw = |j: usize| -> P { std::array::from_fn(|k| r32((generic(j, c[j], k) + place[k]) * u)) };
    let m = 16.0 * (3.0 + place[1].abs());
    let sub = |a: P, b: P| -> P { std::array::from_fn(|k| (a[k] - b[k]) / u) };
    let dot = |a: P, b: P| a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>();
    let cross = |a: P, b: P| [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
    let area2 = |a: usize, b: usize, c: usize| {
        let n = cross(sub(raw(b), raw(a)), sub(raw(c), raw(a)));
        dot(n, n).sqrt()
    };
    let volume6 = dot(sub(raw(1), raw(0)), cross(sub(raw(2), raw(0)), sub(raw(3), raw(0)))).abs();
    let thin = area2(0, 1, 2).min(area2(0, 1, 3)).min(area2(0, 2, 3)).min(area2(1, 2, 3)).min(1.0);
    both!(r, {
        let at = |j: usize| {
            let x = raw(j);
            Point3::new(x[0] as F, x[1] as F, x[2] as F)
        };
        let nums = |v: &[F]| v.iter().map(|x| *x as f64).collect::<Vec<f64>>();
        let t = Triangle([at(0), at(1), at(2)]);
        r.num("area", t.area() as f64, 64.0 * 4.0 * u * u);
        r.nums("centroid", nums(t.centroid().coords.as_slice()), 8.0 * m * u);
        if thin > 0.02 {
            r.nums("normal", nums(t.normal().as_slice()), 4.0 * m / thin);
            r.num("distance to triangle", t.distance(&at(4)) as f64, 64.0 * m * u / thin);
            let near = t.closest_point(&at(4));
            r.nums("closest point of triangle", nums(near.closest_point.coords.as_slice()), 256.0 * m * u / thin / thin);
            r.num("solid angle", t.compute_solid_angle(&at(4)) as f64, 16.0 * m / thin / (t.distance(&at(4)) as f64 / u).max(1e-4));
        }
        // planes
        let n = Unit::new_normalize(at(5) - at(4));
        let plane = Plane::from_point_and_normal(at(3), n);
        let step = (at(5) - at(4)).norm() as f64 / u;
        let s = LineSegment3d::from_end_points(at(0), at(1));
        let slope = ((at(1) - at(0)).dot(&n) as f64 / u).abs();
        r.num("parameter in plane", s.closest_point_to_plane_parametric(&plane) as f64, 64.0 * m / step / slope.min(1.0).powi(2));
        let h = HalfSpace::from_plane(&plane);
        r.num("distance to half space", h.signed_distance_to_point(&at(0)) as f64, 32.0 * m * u / step);
        let [a, b] = plane.compute_tangent_vectors();
        r.num("tangents", (a.cross(&b).dot(&n)).abs() as f64, 64.0);
        r.num("tangents", (a.dot(&b).abs() + a.dot(&n).abs() + b.dot(&n).abs()) as f64, 64.0);
        let cut = SimplePolygon3d::from_vertices(vec![at(0), at(1), at(2)]).intersect_half_space(&h);
        r.num("area in half space", cut.area() as f64, 128.0 * m * u * u / step);
        // polyhedra
        let flip = (at(1) - at(0)).dot(&(at(2) - at(0)).cross(&(at(3) - at(0)))) < (0.0 as F);
        let tet = if flip { Tetrahedron::from_vertices([at(0), at(2), at(1), at(3)]) } else { Tetrahedron::from_vertices([at(0), at(1), at(2), at(3)]) };
        r.num("volume", tet.compute_volume() as f64, 16.0 * m * u * u * u);
        if thin > 0.02 && volume6 > 0.02 {
            let d = tet.compute_signed_distance(&at(4));
            r.num("distance to tetrahedron", d.signed_distance as f64, 16.0 * m * u / thin);
            let faces: Vec<_> = (0..4).map(|i| tet.get_face(i).unwrap()).collect();
            if (d.signed_distance as f64).abs() > 1e-2 * u {
                r.tag(format!("in the tetrahedron: {}", tet.contains_point(&at(4))));
                let w = compute_winding_number_for_triangles_3d(faces.iter().cloned(), &at(4));
                r.num("winding number", w as f64, 1e2 * m / thin);
            }
            let hexes = create_rectangular_uniform_hex_mesh((2.0 * u) as F, 1, 1, 1, 2);
            let boxes = PolyMesh3d::from(&hexes).translated(&Vector3::repeat((-u) as F));
            let whole = boxes.compute_volume();
            r.num("volume of boxes", whole as f64, 64.0 * u * u * u);
            let shift = Vector3::new((place[0] * u) as F, (place[1] * u) as F, (place[2] * u) as F);
            let local = HalfSpace::from_point_and_normal(at(3) - shift, n);
            r.num("volume in half space", boxes.intersect_half_space(&local).compute_volume() as f64, 64.0 * m * u * u * u / step);
        }
    })
}

fn material_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let (which, d) = (g.next(3), g.next(3) + 1);
    let size = *g.pick(&[0.0, 1e-6, 1e-3, 0.25]);
    let (mu, la) = *g.pick(&[(1.0, 0.0), (2.5, 3.0), (1e6, 4e6), (1e-4, 1e-4)]);
    let (c, j) = (g.next(4), g.next(3));
    let (mu, la) = (r32(mu), r32(la));
    macro_rules! go {
        ($D:ident, $N:expr) => {
            both!(r, {
                let du = SMatrix::<F, $N, $N>::from_fn(|a, b| r32(generic(j, c, a) * size * 0.5 + size * 0.25 * generic(a, (b + j) % 4, b)) as F);
                let par = LameParameters { mu: mu as F, lambda: la as F };
                let k = mu.max(la);
                let l = log_det_F::<F, $D>(&du);
                r.tag(format!("log det: {}", l.is_some()));
                r.nums("log det", l.map(|x| x as f64), 64.0 * size);
                with_material!(which, m, {
                    let op = MaterialEllipticOperator::new(&m);
                    // in terms of the displacement, the logarithm loses nothing for small ones
                    let lost = if which == 1 { size } else { size + EPS };
                    r.num("energy", op.compute_energy(&du, &par) as f64, 100.0 * k * lost);
                    r.nums("operator", EllipticOperator::<F, $D>::compute_elliptic_operator(&op, &du, &par).iter().map(|x| *x as f64), 100.0 * k);
                    r.nums("transposed operator", op.compute_elliptic_operator_transpose(&du, &par).iter().map(|x| *x as f64), 100.0 * k);
                    let f = deformation_gradient(&du);
                    r.num("energy", m.compute_energy_density(&f, &par) as f64, 200.0 * k);
                    r.nums("stress", m.compute_stress_tensor(&f, &par).iter().map(|x| *x as f64), 200.0 * k);
                    r.nums("displacement gradient", u_grad_from_F(&f).iter().map(|x| *x as f64), 4.0);
                    let (a, b) = (SVector::<F, $N>::from_fn(|i, _| r32(generic(4, c, i)) as F), SVector::<F, $N>::from_fn(|i, _| r32(generic(5, c, i)) as F));
                    r.nums("contraction", EllipticContraction::<F, $D>::contract(&op, &du, &a, &b, &par).iter().map(|x| *x as f64), 400.0 * k);
                });
                let young = YoungPoisson { young: mu as F, poisson: 0.3 as F };
                let lame = LameParameters::from(young);
                r.num("mu", lame.mu as f64, 16.0 * mu);
                r.num("lambda", lame.lambda as f64, 32.0 * mu);
            })
        };
    }
    match d {
        1 => go!(U1, 1),
        2 => go!(U2, 2),
        _ => go!(U3, 3),
    }
}

fn matrix_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let u = *g.pick(&[1.0, 1e-5, 3e4]);
    let turn = g.next(5);
    let s: P = [*g.pick(&[1.0, 1.5, 0.5]), *g.pick(&[2.0, 0.75]), *g.pick(&[1.25, 3.0, -0.9])];
    let axis = Vector3::new(generic(0, turn % 4, 0), generic(1, turn % 4, 1), generic(2, turn % 4, 2));
    let q = UnitQuaternion::from_scaled_axis(axis * (turn as f64 * 0.3));
    let v = UnitQuaternion::from_scaled_axis(Vector3::new(0.3, -0.7, 0.5));
    let a: Matrix3<f64> = q.to_rotation_matrix() * v.to_rotation_matrix() * Matrix3::from_diagonal(&Vector3::from(s)) * v.inverse().to_rotation_matrix();
    let sym: Matrix3<f64> = v.to_rotation_matrix() * Matrix3::from_diagonal(&Vector3::from(s)) * v.inverse().to_rotation_matrix();
    both!(r, {
        let conv = |m: &Matrix3<f64>| Matrix3::<F>::from_fn(|i, j| r32(m[(i, j)] * u) as F);
        let (w, sv, vt) = rotation_svd::<F, U3>(&conv(&a));
        r.nums("product of the decomposition", (w * Matrix3::from_diagonal(&sv) * vt).iter().map(|x| *x as f64), 400.0 * u);
        r.nums("determinants", [w.determinant() as f64, vt.determinant() as f64], 100.0);
        r.nums("rotation", (w * vt).iter().map(|x| *x as f64), 2000.0);
        if s[2] > 0.0 {
            let near = q * UnitQuaternion::from_scaled_axis(Vector3::new(0.2, -0.1, 0.3));
            let guess = UnitQuaternion::new_normalize(Quaternion::new(near.w as F, near.i as F, near.j as F, near.k as F));
            let rot = apd::<F>(&conv(&a), &guess, 200, (1e-6) as F);
            r.nums("rotation of the polar decomposition", rot.to_rotation_matrix().matrix().iter().map(|x| *x as f64), 2000.0);
        }
        let m = conv(&sym);
        let (lo, hi) = min_max_symmetric_eigenvalues(&m);
        r.nums("eigenvalues", [lo as f64, hi as f64, min_eigenvalue_symmetric(&m) as f64], 400.0 * u);
        r.num("condition", condition_number_symmetric(&m) as f64, 2000.0);
    })
}

fn rule_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let (kind, n) = (g.next(11), g.next(22));
    both!(r, {
        macro_rules! rule {
            ($q:expr) => {{
                let q = $q;
                r.tag(format!("{} points", q.0.len()));
                r.nums("weights", q.0.iter().map(|x| *x as f64), 16.0);
                r.nums("points", q.1.iter().flat_map(|p| p.iter().map(|x| *x as f64).collect::<Vec<_>>()), 16.0);
            }};
        }
        macro_rules! maybe {
            ($q:expr) => {{
                match $q {
                    Ok(q) => rule!(q),
                    Err(_) => r.tag("no rule"),
                }
            }};
        }
        match kind {
            0 => rule!(univariate::gauss::<F>(n + 1)),
            1 => match univariate::try_gauss_lobatto::<F>(n) {
                Some(q) => rule!(q),
                None => r.tag("no rule"),
            },
            2 => maybe!(total_order::triangle::<F>(n)),
            3 => maybe!(total_order::quadrilateral::<F>(n)),
            4 => maybe!(total_order::tetrahedron::<F>(n)),
            5 => maybe!(total_order::hexahedron::<F>(n)),
            6 => maybe!(total_order::pyramid::<F>(n)),
            7 => maybe!(total_order::prism::<F>(n)),
            8 => rule!(tensor::quadrilateral_gauss::<F>(n + 1)),
            9 => rule!(subdivide::subdivide_univariate(univariate::gauss::<F>(2), n + 1)),
            _ => rule!(subdivide::subdivide_triangle(total_order::triangle::<F>(2).unwrap(), n)),
        }
    })
}

fn solver_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let (n, which, u) = (g.next(7) + 1, g.next(4), *g.pick(&[1.0, 1e-6, 1e6]));
    let (guess, shape) = (g.next(3), g.next(4));
    both!(r, {
        // diagonally dominant
        let a = DMatrix::<F>::from_fn(n, n, |i, j| {
            let x = match i.abs_diff(j) {
                0 => 4.0 + generic(shape, i % 4, 0).abs(),
                1 => -1.0,
                2 => 0.25 * generic(shape, (i + j) % 4, 1),
                _ => 0.0,
            };
            r32(x * u) as F
        });
        let b = DVector::<F>::from_fn(n, |i, _| r32(generic(i % 5, shape, 1) * u) as F);
        let start = |k: usize| DVector::<F>::from_fn(n, |i, _| r32([0.0, 1.0, generic(i % 5, 2, 2) * 30.0][k]) as F);
        match which {
            0 | 1 => {
                let mut x = start(guess);
                let sparse = nalgebra_sparse::CsrMatrix::from(&a);
                let diag = DMatrix::from_diagonal(&DVector::<F>::from_fn(n, |i, _| (1.0 as F) / a[(i, i)]));
                let ok = if which == 0 {
                    ConjugateGradient::new().with_operator(&sparse).with_stopping_criterion(RelativeResidualCriterion::new(1e-5 as F)).with_max_iter(200).solve_with_guess(&b, &mut x).is_ok()
                } else {
                    ConjugateGradient::new().with_operator(&a).with_preconditioner(&diag).with_stopping_criterion(RelativeResidualCriterion::<F>::default()).with_max_iter(200).solve_with_guess(&b, &mut x).is_ok()
                };
                r.tag(format!("conjugate gradients succeed: {ok}"));
                r.nums("solution", x.iter().map(|x| *x as f64), [1e-5, 1e-4][which] * 4.0 * 4.0 / EPS + 100.0);
            }
            _ => {
                // a x + c x^3 = b, component by component, coupled by the matrix
                let c = (0.5 * u) as F;
                let mut x = start(guess);
                let (mut f, mut dx) = (DVector::<F>::zeros(n), DVector::<F>::zeros(n));
                let fun = fenris_optimize::calculus::VectorFunctionBuilder::with_dimension(n)
                    .with_function(|f: &mut DVectorViewMut<F>, x: &DVectorView<F>| {
                        let v = &a * x + x.map(|v| c * v * v * v) - &b;
                        f.copy_from(&v);
                    })
                    .with_jacobian_solver(|sol: &mut DVectorViewMut<F>, x: &DVectorView<F>, rhs: &DVectorView<F>| {
                        let mut j = a.clone();
                        for i in 0..n {
                            j[(i, i)] += (3.0 as F) * c * x[i] * x[i];
                        }
                        sol.copy_from(&j.lu().solve(&rhs.clone_owned()).ok_or("singular")?);
                        Ok(())
                    });
                let settings = NewtonSettings { max_iterations: Some(60), tolerance: (1e-5 * u) as F };
                let ok = if which == 2 {
                    newton(fun, &mut x, &mut f, &mut dx, settings).is_ok()
                } else {
                    newton_line_search(fun, &mut x, &mut f, &mut dx, settings, &mut BacktrackingLineSearch {}).is_ok()
                };
                r.tag(format!("Newton's method succeeds: {ok}"));
                r.nums("solution", x.iter().map(|x| *x as f64), 1e-5 * 4.0 / EPS);
            }
        }
    })
}

/// Meshes that are made, refined, converted and reordered.
macro_rules! mesh_case {
    ($N:expr, $make:expr, $refine:expr, $quadratic:expr, $i:expr) => {{
        let mut g = Dig($i);
        let (counts, length) = ([g.next(3) + 1, g.next(2) + 1, g.next(2) + 1], *g.pick(&[1.0, 0.3, 1.0 / 3.0, 700.0]));
        let (refine, corner, per) = (g.next(2), *g.pick(&[[0.0; 2], [0.1, -0.7], [30.0, 11.3]]), g.next(3) + 1);
        both!(r, {
            let mut mesh = $make(r32(length) as F, counts, per, Vector2::new(r32(corner[0] * length) as F, r32(corner[1] * length) as F));
            if refine == 1 {
                mesh = $refine(mesh);
            }
            let size = (corner[0].abs() + corner[1].abs() + 12.0) * length;
            let mut report = |what: &str, vs: &[OPoint<F, Const<$N>>], cells: Vec<Vec<usize>>| {
                r.nums(what, vs.iter().flat_map(|x| x.iter().map(|x| *x as f64).collect::<Vec<_>>()), 16.0 * size);
                r.tag(format!("{what}: {cells:?}"));
            };
            let cells = |c: &[Vec<usize>]| c.to_vec();
            let nodes: Vec<Vec<usize>> = mesh.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect();
            report("mesh", mesh.vertices(), cells(&nodes));
            let keep: Vec<usize> = (0..nodes.len()).filter(|i| i % 3 != 1).collect();
            let kept = mesh.keep_cells(&keep);
            report("kept", kept.vertices(), kept.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect());
            let order = reorder::reorder_mesh_par(&mesh).apply(&mesh);
            report("reordered", order.vertices(), order.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect());
            let quadratic = $quadratic(mesh.clone());
            report("quadratic", quadratic.vertices(), quadratic.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect());
            r.tag(format!("boundary: {:?} {:?}", mesh.find_boundary_vertices(), mesh.find_boundary_faces().iter().map(|f| (f.1, f.2)).collect::<Vec<_>>()));
        })
    }};
}

fn main() {
    let ctx = Ctx::new(
        "C34",
        Level::ModelChecking,
        "every scenario within the bound, written once in terms of the number type, is run in single and in double precision, and gives the same decisions and, up to rounding, the same numbers",
    );
    macro_rules! elements {
        ($C:ident, $R:ident, $sq:ident) => {{
            let k = <$C as TestCell>::kind();
            let n = SHAPES * 12;
            ctx.suite(&format!("{} elements in {} dimensions", k.name, <<$C as TestCell>::Dim as DimNum>::N), n * lattice(k.shape, -1, 7, step(), false).len() as u64, |i| format!("case {i}"), |i| element_case!($C, $R, i));
            ctx.suite(&format!("inverse of {} elements in {} dimensions", k.name, <<$C as TestCell>::Dim as DimNum>::N), n * lattice(k.shape, 0, 6, 1, true).len() as u64, |i| format!("case {i}"), |i| inverse_case!($C, $R, i, $sq));
        }};
    }
    for_kinds!(elements);
    ctx.suite("closest points of triangles", SHAPES * 12 * 25, |i| format!("case {i}"), |i| closest_case!(Tri3d2Connectivity, U2, i));
    ctx.suite("closest points of surface triangles", SHAPES * 12 * 125, |i| format!("case {i}"), |i| closest_case!(Tri3d3Connectivity, U2, i));
    ctx.suite("closest points of tetrahedra", SHAPES * 12 * 125, |i| format!("case {i}"), |i| closest_case!(Tet4Connectivity, U3, i));
    fn tri<T: fenris::Real>(n: usize, _: (), _: T) -> Mesh<T, U2, Tri3d2Connectivity> {
        create_unit_square_uniform_tri_mesh_2d(n)
    }
    fn quad<T: fenris::Real>(n: usize, _: (), _: T) -> Mesh<T, U2, Quad4d2Connectivity> {
        create_unit_square_uniform_quad_mesh_2d(n)
    }
    fn tet<T: fenris::Real>(n: usize, _: (), _: T) -> Mesh<T, U3, Tet4Connectivity> {
        create_unit_box_uniform_tet_mesh_3d(n)
    }
    fn hex<T: fenris::Real>(n: usize, _: (), _: T) -> Mesh<T, U3, Hex8Connectivity> {
        create_unit_box_uniform_hex_mesh_3d(n)
    }
    ctx.suite("indexed triangles", 2 * 3 * 3 * 25, |i| format!("case {i}"), |i| space_case!(U2, 2, tri, i));
    ctx.suite("indexed tetrahedra", 2 * 3 * 3 * 125, |i| format!("case {i}"), |i| space_case!(U3, 3, tet, i));
    macro_rules! assembly {
        ($($name:expr, $N:expr, $make:expr;)*) => {$(
            ctx.suite(concat!("assembly on ", $name), 2 * 3 * 3 * 8 * 3, |i| format!("case {i}"), |i| assembly_case!($N, $make, i));
        )*};
    }
    assembly!("Tri3", 2, tri; "Quad4", 2, quad; "Tet4", 3, tet; "Hex8", 3, hex;
        "Tri6", 2, |n, a, b| Mesh::<_, U2, Tri6d2Connectivity>::from(tri(n, a, b)); "Quad9", 2, |n, a, b| Mesh::<_, U2, Quad9d2Connectivity>::from(quad(n, a, b));
        "Tet10", 3, |n, a, b| Mesh::<_, U3, Tet10Connectivity>::from(&tet(n, a, b)); "Hex27", 3, |n, a, b| Mesh::<_, U3, Hex27Connectivity>::from(&hex(n, a, b)););
    type Square<T, C> = Mesh<T, U2, C>;
    fn rect_quads<T: fenris::Real>(l: T, n: [usize; 3], per: usize, at: Vector2<T>) -> Square<T, Quad4d2Connectivity> {
        create_rectangular_uniform_quad_mesh_2d(l, n[0], n[1], per, &at)
    }
    fn rect_tris<T: fenris::Real>(l: T, n: [usize; 3], per: usize, at: Vector2<T>) -> Square<T, Tri3d2Connectivity> {
        create_rectangular_uniform_quad_mesh_2d(l, n[0], n[1], per, &at).split_into_triangles()
    }
    fn rect_hexes<T: fenris::Real>(l: T, n: [usize; 3], per: usize, at: Vector2<T>) -> Mesh<T, U3, Hex8Connectivity> {
        create_rectangular_uniform_hex_mesh(l, n[0], n[1], n[2], per).translated(&Vector3::new(at.x, at.y, at.x))
    }
    fn rect_tets<T: fenris::Real>(l: T, n: [usize; 3], per: usize, at: Vector2<T>) -> Mesh<T, U3, Tet4Connectivity> {
        create_rectangular_uniform_tet_mesh(l, n[0], n[1], n[2], per).translated(&Vector3::new(at.x, at.y, at.x))
    }
    fn refined<T: fenris::Real>(m: Square<T, Tri3d2Connectivity>) -> Square<T, Tri3d2Connectivity> {
        refine_uniformly(&m)
    }
    fn quad9<T: fenris::Real>(m: Square<T, Quad4d2Connectivity>) -> Square<T, Quad9d2Connectivity> {
        m.into()
    }
    fn tri6<T: fenris::Real>(m: Square<T, Tri3d2Connectivity>) -> Square<T, Tri6d2Connectivity> {
        m.into()
    }
    fn hex27<T: fenris::Real>(m: Mesh<T, U3, Hex8Connectivity>) -> Mesh<T, U3, Hex27Connectivity> {
        (&m).into()
    }
    fn tet10<T: fenris::Real>(m: Mesh<T, U3, Tet4Connectivity>) -> Mesh<T, U3, Tet10Connectivity> {
        (&m).into()
    }
    let per = ctx.tier(1, 3);
    ctx.suite("meshes of quadrilaterals", 12 * 3 * 4 * 2 * 3, |i| format!("case {i}"), |i| mesh_case!(2, rect_quads, |m| m, quad9, i));
    ctx.suite("meshes of triangles", 12 * 3 * 4 * 2 * 3, |i| format!("case {i}"), |i| mesh_case!(2, rect_tris, refined, tri6, i));
    ctx.suite("meshes of hexahedra", 12 * per * 4 * 2 * 3, |i| format!("case {i}"), |i| mesh_case!(3, rect_hexes, |m| m, hex27, i));
    ctx.suite("meshes of tetrahedra", 12 * per * 4 * 2 * 3, |i| format!("case {i}"), |i| mesh_case!(3, rect_tets, |m| m, tet10, i));
    ctx.suite("queries in the plane", 4096 * 6, |i| format!("case {i}"), plane_case);
    ctx.suite("queries in space", 4096 * 6, |i| format!("case {i}"), solid_case);
    ctx.suite("thin triangles and tetrahedra", 36 * 30 * 64, |i| format!("case {i}"), thin_case);
    ctx.suite("materials", 9 * 4 * 4 * 12, |i| format!("case {i}"), material_case);
    ctx.suite("matrices", 3 * 5 * 18, |i| format!("case {i}"), matrix_case);
    ctx.suite("quadrature rules", 11 * 22, |i| format!("case {i}"), rule_case);
    ctx.suite("solvers", 7 * 4 * 3 * 12, |i| format!("case {i}"), solver_case);
    for (what, q) in WORST.lock().unwrap().iter() {
        println!("{q:.3e} of the tolerance: {what}");
    }
    ctx.finish()
}
