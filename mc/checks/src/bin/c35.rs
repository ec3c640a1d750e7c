//! C35: a question has one answer, however it is asked.
//!
//! The library offers many of its quantities in several ways: through views and wrappers of a space, through
//! references, owned and borrowed forms of a rule, parametric and non-parametric queries, single and batched
//! evaluations, functions and the iterators over their results. For every input of the lattices below, all of them
//! must agree.
#![allow(deprecated)]
use checks::cells::*;
use checks::fem::{lattice, refp};
use checks::geo;
use fenris::assembly::global::*;
use fenris::assembly::local::*;
use fenris::assembly::operators::LaplaceOperator;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::error::*;
use fenris::geometry::polymesh::PolyMesh3d;
use fenris::geometry::*;
use fenris::integrate::dependency::*;
use fenris::integrate::*;
use fenris::mesh::procedural::*;
use fenris::nalgebra::*;
use fenris::quadrature::*;
use fenris::space::*;
use fenris_nested_vec::NestedVec;
use fenris_optimize::calculus::*;
use fenris_optimize::newton::*;
use fenris_paradis::adapter::BlockAdapter;
use fenris_paradis::{DisjointSubsets, ParallelIndexedCollection};
use fenris_solid::materials::*;
use fenris_solid::*;
use fenris_sparse::cg::*;
use hk::*;
use nalgebra_sparse::CsrMatrix;
use rayon::iter::{IndexedParallelIterator, ParallelIterator};
use std::convert::TryFrom;

type P = [f64; 3];

trait DimNum {
    const N: usize;
}
impl<const N: usize> DimNum for Const<N> {
    const N: usize = N;
}

/// The same numbers, up to a few roundings of numbers of their common size (or of the given size).
fn same(what: &str, a: impl IntoIterator<Item = f64>, b: impl IntoIterator<Item = f64>, least: f64) -> Result<(), String> {
    let (a, b): (Vec<f64>, Vec<f64>) = (a.into_iter().collect(), b.into_iter().collect());
    ensure!(a.len() == b.len(), "{what}: {} numbers, and {} when asked otherwise", a.len(), b.len());
    let m = a.iter().chain(&b).fold(least, |m, x| if x.is_finite() { m.max(x.abs()) } else { m });
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        let eq = (x - y).abs() <= 1e-12 * m || x == y || (x.is_nan() && y.is_nan());
        ensure!(eq, "{what}: number {i} is {x}, and {y} when asked otherwise");
    }
    Ok(())
}
fn opt<T>(what: &str, a: Option<T>, b: Option<T>, f: impl Fn(T) -> Vec<f64>, least: f64) -> Result<(), String> {
    let some = (a.is_some(), b.is_some());
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => same(what, f(a), f(b), least),
        _ => Err(format!("{what}: {}, and otherwise {}", if some.0 { "some" } else { "none" }, if some.1 { "some" } else { "none" })),
    }
}

/// Distortions of lattice meshes and reference cells.
const SHAPES: u64 = 6;
fn distort(which: usize, x: P) -> P {
    let [a, b, c] = x;
    match which {
        0 => [a, b, c],
        1 => [2.0 * a + b, 0.5 * b - 0.25 * c, c + 0.5 * a],
        2 => [a + 0.025 * a * b, b + 0.02 * b * c - 0.0125 * a, 1.5 * c + 0.025 * a * b],
        3 => [0.25 * a - b, a + 0.0625 * b, 0.5 * c + b],
        4 => [a + 0.01 * b * b, 1.5 * b - 0.02 * a * a, c + 0.02 * a * c + 0.03 * b],
        _ => [0.7 * a + 0.01 * b * c, 1.3 * b - 0.02 * a * c, 0.9 * c + 0.03 * a * b],
    }
}

macro_rules! for_kinds {
    ($m:ident) => {
        $m!(Segment2d1Connectivity, U1);
        $m!(Segment2d2Connectivity, U1);
        $m!(Tri3d2Connectivity, U2);
        $m!(Tri3d3Connectivity, U2);
        $m!(Tri6d2Connectivity, U2);
        $m!(Quad4d2Connectivity, U2);
        $m!(Quad9d2Connectivity, U2);
        $m!(Tet4Connectivity, U3);
        $m!(Tet10Connectivity, U3);
        $m!(Tet20Connectivity, U3);
        $m!(Hex8Connectivity, U3);
        $m!(Hex20Connectivity, U3);
        $m!(Hex27Connectivity, U3);
    };
}
macro_rules! volumetric {
    ($m:ident) => {
        $m!(Tri3d2Connectivity, U2);
        $m!(Tri6d2Connectivity, U2);
        $m!(Quad4d2Connectivity, U2);
        $m!(Quad9d2Connectivity, U2);
        $m!(Tet4Connectivity, U3);
        $m!(Tet10Connectivity, U3);
        $m!(Tet20Connectivity, U3);
        $m!(Hex8Connectivity, U3);
        $m!(Hex20Connectivity, U3);
        $m!(Hex27Connectivity, U3);
    };
}

const MESHES: u64 = 6 * 4 * SHAPES;
macro_rules! mesh_of {
    ($C:ident, $g:ident) => {{
        let k = <$C as TestCell>::kind();
        let n = *$g.pick(&[[1, 1, 1], [2, 1, 1], [2, 2, 1], [1, 3, 1], [1, 1, 2], [2, 2, 2]]);
        let relabel = *$g.pick(&[0, 1, 2, 3]);
        let shape = $g.next(SHAPES);
        let l = build(&k, &grid(k.shape, n), relabel);
        typed::<$C>(&l, |v| distort(shape, plain(v).map(|x| x / 3.0)))
    }};
}

/// Everything a space says about a cell and a point of it.
macro_rules! same_cell {
    ($what:expr, $e:ident, $f:ident, $xi:ident) => {{
        ensure_eq!(ReferenceFiniteElement::<f64>::num_nodes(&$f), $e.num_nodes(), "{}: nodes", $what);
        let (mut basis, mut grads) = (vec![f64::NAN; $e.num_nodes()], $e.gradients(&$xi).map(|_| f64::NAN));
        ReferenceFiniteElement::<f64>::populate_basis(&$f, &mut basis, &$xi);
        same(concat!($what, ": basis"), $e.evaluate_basis(&$xi).iter().copied(), basis, 1.0)?;
        let n = grads.ncols();
        ReferenceFiniteElement::<f64>::populate_basis_gradients(&$f, grads.columns_mut(0, n).into(), &$xi);
        same(concat!($what, ": gradients"), $e.gradients(&$xi).iter().copied(), grads.iter().copied(), 1.0)?;
        same(concat!($what, ": image"), $e.map_reference_coords(&$xi).iter().copied(), $f.map_reference_coords(&$xi).iter().copied(), 1.0)?;
        same(concat!($what, ": jacobian"), $e.reference_jacobian(&$xi).iter().copied(), $f.reference_jacobian(&$xi).iter().copied(), 1.0)?;
        same(concat!($what, ": diameter"), [$e.diameter()], [$f.diameter()], 1.0)?;
    }};
}

/// The cells of a mesh: as elements, as cells of the mesh seen as a space, and as elements of that space.
macro_rules! cell_case {
    ($C:ident, $R:ident, $i:expr) => {{
        let mut g = Dig($i);
        let mesh = mesh_of!($C, g);
        let shape = <$C as TestCell>::kind().shape;
        let pts = lattice(shape, -1, 7, 4, false);
        let sdim_values: Vec<f64> = (0..mesh.vertices().len()).map(|i| ((i * 7 + 3) % 11) as f64 - 5.0).collect();
        for (c, conn) in mesh.connectivity().iter().enumerate() {
            let e = ElementConnectivity::<f64>::element(conn, mesh.vertices()).unwrap();
            let f = ElementInSpace::from_space_and_element_index(&mesh, c);
            ensure_eq!(FiniteElementConnectivity::element_node_count(&mesh, c), conn.vertex_indices().len(), "nodes of cell {c}");
            let mut nodes = vec![usize::MAX; conn.vertex_indices().len()];
            FiniteElementConnectivity::populate_element_nodes(&mesh, &mut nodes, c);
            ensure_eq!(nodes.as_slice(), conn.vertex_indices(), "nodes of cell {c}");
            same("diameter of cell", [FiniteElementSpace::<f64>::diameter(&mesh, c)], [FiniteElement::diameter(&e)], 1.0)?;
            for x in &pts {
                let x = refp(*x);
                let xi = OPoint::<f64, $R>::from(SVector::<f64, { <$R as DimNum>::N }>::from_fn(|i, _| x[i]));
                same_cell!("element in space", e, f, xi);
                // the space itself
                let n = nodes.len();
                let mut basis = vec![f64::NAN; n];
                mesh.populate_element_basis(c, &mut basis, &xi);
                same("basis of cell", basis.iter().copied(), e.evaluate_basis(&xi).iter().copied(), 1.0)?;
                let mut grads = OMatrix::<f64, $R, Dyn>::repeat(n, f64::NAN);
                mesh.populate_element_gradients(c, MatrixViewMut::from(&mut grads), &xi);
                same("gradients of cell", grads.iter().copied(), e.gradients(&xi).iter().copied(), 1.0)?;
                let m = FiniteElementSpace::map_element_reference_coords(&mesh, c, &xi);
                same("image in cell", m.iter().copied(), e.map_reference_coords(&xi).iter().copied(), 1.0)?;
                let j = FiniteElementSpace::element_reference_jacobian(&mesh, c, &xi);
                same("jacobian of cell", j.iter().copied(), e.reference_jacobian(&xi).iter().copied(), 1.0)?;
                // interpolation with the basis of the cell
                let w = DVector::from_iterator(n, nodes.iter().map(|i| sdim_values[*i]));
                let v: Vector1<f64> = fenris::util::compute_interpolation(&w, DVectorView::from_slice(&basis, n));
                same("interpolation in cell", [v[0]], [w.dot(&DVector::from_vec(basis))], 1.0)?;
                // the volume form is the root of the Gram determinant
                same("volume form", [volume_form(&j)], [(j.transpose() * j).determinant().max(0.0).sqrt()], 1e4)?;
            }
            // conversions and clones of the cell are the cell
            let x = refp(pts[pts.len() / 2]);
            let xi = OPoint::<f64, $R>::from(SVector::<f64, { <$R as DimNum>::N }>::from_fn(|i, _| x[i]));
            let again = conn.clone();
            let again = ElementConnectivity::<f64>::element(&again, mesh.vertices()).unwrap();
            same_cell!("clone", e, again, xi);
        }
        Ok(Some(digest(&$i)))
    }};
}

/// A space with a spatial index answers like the space.
macro_rules! index_case {
    ($C:ident, $R:ident, $i:expr) => {{
        let mut g = Dig($i);
        let mesh = mesh_of!($C, g);
        const D: usize = <<$C as TestCell>::Dim as DimNum>::N;
        let q: P = std::array::from_fn(|_| *g.pick(&[-1.0, 0.3, 1.1, 2.5, 5.0]));
        let q = OPoint::<f64, Const<D>>::from(SVector::<f64, D>::from_fn(|k, _| q[k]));
        let space = SpatiallyIndexed::from_space(mesh.clone());
        ensure!(space.space() == &mesh, "the space of the index is not the space");
        ensure_eq!(FiniteElementConnectivity::num_elements(&space), FiniteElementConnectivity::num_elements(&mesh), "elements");
        ensure_eq!(FiniteElementConnectivity::num_nodes(&space), mesh.vertices().len(), "nodes");
        let n = mesh.connectivity().len();
        let all = |b: &[AxisAlignedBoundingBox<f64, Const<D>>]| -> Vec<f64> { b.iter().flat_map(|b| b.min().iter().chain(b.max().iter()).copied().collect::<Vec<_>>()).collect() };
        let one: Vec<_> = (0..n).map(|c| mesh.bounds_for_element(c)).collect();
        same("bounds", all(&mesh.bounds_for_all_elements()), all(&one), 1.0)?;
        same("bounds in index", all(&space.bounds_for_all_elements()), all(&one), 1.0)?;
        let mut b = vec![AxisAlignedBoundingBox::from(q.clone()); n];
        space.populate_bounds_for_all_elements(&mut b);
        same("populated bounds", all(&b), all(&one), 1.0)?;
        let pts = lattice(<$C as TestCell>::kind().shape, 0, 6, 3, false);
        let mut nearest = f64::INFINITY;
        for c in 0..n {
            let conn = &mesh.connectivity()[c];
            let e = ElementConnectivity::<f64>::element(conn, mesh.vertices()).unwrap();
            same("bounds of element", all(&[e.element_bounds()]), all(&one[c..c + 1]), 1.0)?;
            same("bounds of cell in index", all(&[space.bounds_for_element(c)]), all(&one[c..c + 1]), 1.0)?;
            let f = ElementInSpace::from_space_and_element_index(&space, c);
            for x in &pts {
                let x = refp(*x);
                let xi = OPoint::<f64, $R>::from(SVector::<f64, { <$R as DimNum>::N }>::from_fn(|i, _| x[i]));
                same_cell!("element in indexed space", e, f, xi);
            }
            ensure_eq!(space.element_node_count(c), conn.vertex_indices().len(), "nodes of cell {c}");
            let mut nodes = vec![usize::MAX; conn.vertex_indices().len()];
            space.populate_element_nodes(&mut nodes, c);
            ensure_eq!(nodes.as_slice(), conn.vertex_indices(), "nodes of cell {c}");
            let (x, y, z) = (e.closest_point(&q), mesh.closest_point_in_element(c, &q), space.closest_point_in_element(c, &q));
            let tag = |p: &ClosestPoint<f64, $R>| matches!(p, ClosestPoint::InElement(_));
            ensure!(tag(&x) == tag(&y) && tag(&x) == tag(&z), "the closest point is in the element, and is not when asked otherwise");
            same("closest point in cell", x.point().iter().copied(), y.point().iter().copied(), 1.0)?;
            same("closest point in indexed cell", x.point().iter().copied(), z.point().iter().copied(), 1.0)?;
            nearest = nearest.min((e.map_reference_coords(x.point()) - &q).norm());
        }
        let (c, xi) = space.find_closest_element_and_reference_coords(&q).unwrap();
        let there = mesh.map_element_reference_coords(c, &xi);
        // (the nearest of the points that the cells report)
        ensure!(((there.clone() - &q).norm() - nearest).abs() <= 1e-9 * (1.0 + nearest), "the closest cell is {} away, another one {nearest}", (there - &q).norm());
        Ok(Some(digest(&$i)))
    }};
}

/// The same assembler through the mesh and through the index.
macro_rules! assembler_case {
    ($C:ident, $R:ident, $i:expr) => {{
        let mut g = Dig($i);
        let mesh = mesh_of!($C, g);
        let (what, state) = (g.next(8), g.next(2));
        const D: usize = <<$C as TestCell>::Dim as DimNum>::N;
        let space = SpatiallyIndexed::from_space(mesh.clone());
        let by_ref = &mesh;
        let nn = mesh.vertices().len();
        let table = mesh.canonical_mass_quadrature();
        let field = |s: usize| DVector::<f64>::from_fn(nn * s, |i, _| if state == 0 { 0.0 } else { (((i * 7 + 3) % 11) as f64 - 5.0) / 64.0 });
        macro_rules! connectivity {
            ($a:ident, $b:ident, $s:expr) => {{
                ensure_eq!($a.solution_dim(), $s, "solution dimension");
                for (n, s, e) in [($a.num_nodes(), $a.solution_dim(), $a.num_elements()), ($b.num_nodes(), $b.solution_dim(), $b.num_elements())] {
                    ensure_eq!((n, s, e), (nn, $s, mesh.connectivity().len()), "nodes, solution dimension and elements");
                }
                for (c, conn) in mesh.connectivity().iter().enumerate() {
                    let mut v = vec![usize::MAX; conn.vertex_indices().len()];
                    ensure_eq!($a.element_node_count(c), v.len(), "nodes of element {c}");
                    ensure_eq!($b.element_node_count(c), v.len(), "nodes of element {c} in index");
                    $a.populate_element_nodes(&mut v, c);
                    ensure_eq!(v.as_slice(), conn.vertex_indices(), "nodes of element {c}");
                    v.fill(usize::MAX);
                    $b.populate_element_nodes(&mut v, c);
                    ensure_eq!(v.as_slice(), conn.vertex_indices(), "nodes of element {c} in index");
                }
                let (p, q) = (CsrAssembler::<f64>::default().assemble_pattern(&$a), CsrAssembler::<f64>::default().assemble_pattern(&$b));
                ensure!(p == q, "patterns differ");
                ensure!(p == CsrParAssembler::<f64>::default().assemble_pattern(&$b), "pattern of the parallel assembler differs");
            }};
        }
        macro_rules! matrix {
            ($a:ident, $b:ident, $s:expr) => {{
                let (a, b) = (CsrAssembler::default().assemble(&$a).unwrap(), CsrAssembler::default().assemble(&$b).unwrap());
                ensure!(a.pattern() == b.pattern(), "patterns of matrices differ");
                same("matrix", a.values().iter().copied(), b.values().iter().copied(), 1e-300)?;
                let colors = color_nodes(&mesh);
                let c = CsrParAssembler::default().assemble(&colors, &$b).unwrap();
                ensure!(a.pattern() == c.pattern(), "patterns of parallel matrix differ");
                same("parallel matrix", a.values().iter().copied(), c.values().iter().copied(), 1e-300)?;
                // element by element
                let mut sum = DMatrix::<f64>::zeros(nn * $s, nn * $s);
                for (c, conn) in mesh.connectivity().iter().enumerate() {
                    let v = conn.vertex_indices();
                    let m = $s * v.len();
                    let own = $a.assemble_element_matrix(c).unwrap();
                    let mut into = DMatrix::repeat(m, m, f64::NAN);
                    $b.assemble_element_matrix_into(c, DMatrixViewMut::from(&mut into)).unwrap();
                    same("element matrix", own.iter().copied(), into.iter().copied(), 1e-300)?;
                    for (i, j) in (0..m).flat_map(|i| (0..m).map(move |j| (i, j))) {
                        sum[($s * v[i / $s] + i % $s, $s * v[j / $s] + j % $s)] += own[(i, j)];
                    }
                }
                same("sum of element matrices", DMatrix::from(&a).iter().copied(), sum.iter().copied(), 1e-300)?;
                let mut again = a.clone();
                again.values_mut().fill(0.0);
                CsrAssembler::default().assemble_into_csr(&mut again, &$b).unwrap();
                same("matrix assembled into", a.values().iter().copied(), again.values().iter().copied(), 1e-300)?;
            }};
        }
        macro_rules! vector {
            ($a:ident, $b:ident, $s:expr) => {{
                let (a, b) = (VectorAssembler::default().assemble_vector(&$a).unwrap(), VectorAssembler::default().assemble_vector(&$b).unwrap());
                let m = a.amax().max(1e-12);
                same("vector", a.iter().copied(), b.iter().copied(), m)?;
                let c = VectorParAssembler::default().assemble_vector(&color_nodes(&space), &$b).unwrap();
                same("parallel vector", a.iter().copied(), c.iter().copied(), m)?;
                let mut d = DVector::zeros(nn * $s);
                VectorAssembler::default().assemble_vector_into(&mut d, &$b).unwrap();
                same("vector assembled into", a.iter().copied(), d.iter().copied(), m)?;
                let mut sum = DVector::<f64>::zeros(nn * $s);
                for (c, conn) in mesh.connectivity().iter().enumerate() {
                    let v = conn.vertex_indices();
                    let own = $a.assemble_element_vector(c).unwrap();
                    let mut into = DVector::repeat($s * v.len(), f64::NAN);
                    $b.assemble_element_vector_into(c, DVectorViewMut::from(&mut into)).unwrap();
                    same("element vector", own.iter().copied(), into.iter().copied(), m)?;
                    for i in 0..own.len() {
                        sum[$s * v[i / $s] + i % $s] += own[i];
                    }
                }
                same("sum of element vectors", a.iter().copied(), sum.iter().copied(), m)?;
            }};
        }
        macro_rules! scalar {
            ($a:ident, $b:ident) => {{
                let x = assemble_scalar(&$a).unwrap();
                let parts: Vec<f64> = (0..mesh.connectivity().len()).map(|c| $b.assemble_element_scalar(c).unwrap()).collect();
                let m = parts.iter().fold(1e-12, |m, x| x.abs().max(m));
                for (what, y) in [
                    ("of index", assemble_scalar(&$b).unwrap()),
                    ("potential", compute_global_potential(&$a).unwrap()),
                    ("parallel", par_assemble_scalar(&$b).unwrap()),
                    ("parallel potential", par_compute_global_potential(&$a).unwrap()),
                    ("sum of elements", parts.iter().sum()),
                ] {
                    same(&format!("scalar {what}"), [x], [y], m)?;
                }
            }};
        }
        match what {
            0 => {
                let u = field(1);
                let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(by_ref).with_operator(&LaplaceOperator).with_quadrature_table(&table).with_u(&u).build();
                // (in another order, with another form of the argument)
                let b = ElementEllipticAssemblerBuilder::new().with_u(u.as_view()).with_quadrature_table(&table).with_operator(&LaplaceOperator).with_finite_element_space(&space).build();
                connectivity!(a, b, 1);
                matrix!(a, b, 1);
                vector!(a, b, 1);
                scalar!(a, b);
            }
            1 | 2 | 3 => {
                let s = what;
                let t = table.clone().with_uniform_data(Density(2.5));
                let a = ElementMassAssembler::with_solution_dim(s).with_space(&mesh).with_quadrature_table(&t);
                let b = ElementMassAssembler::with_solution_dim(s).with_quadrature_table(&t).with_space(&space);
                connectivity!(a, b, s);
                matrix!(a, b, s);
                // through the function for single elements
                let p = &t;
                for c in 0..mesh.connectivity().len() {
                    let n = p.element_quadrature_size(c);
                    let (mut wt, mut pts, mut data) = (vec![0.0; n], vec![OPoint::<f64, $R>::origin(); n], vec![Density(0.0); n]);
                    p.populate_element_quadrature_and_data(c, &mut pts, &mut wt, &mut data);
                    let m = FiniteElementConnectivity::element_node_count(&mesh, c);
                    let mut out = DMatrix::repeat(s * m, s * m, f64::NAN);
                    let e = ElementInSpace::from_space_and_element_index(&space, c);
                    let mut buffer = vec![f64::NAN; m];
                    assemble_element_mass_matrix(&mut out, &e, &wt, &pts, Density::as_inner_slice(&data), s, &mut buffer).unwrap();
                    same("element mass matrix", out.iter().copied(), a.assemble_element_matrix(c).unwrap().iter().copied(), 1e-300)?;
                    let back = Density::from_inner_slice(Density::as_inner_slice(&data));
                    ensure!(back == data.as_slice(), "densities change when seen as numbers and back");
                }
            }
            4 => {
                let t = table.clone().with_uniform_data(Density(2.5));
                let src = GravitySource::from_acceleration(SVector::<f64, D>::from_fn(|i, _| [0.5, -9.75, 2.0][i]));
                let a = ElementSourceAssemblerBuilder::new().with_finite_element_space(&mesh).with_source(&src).with_quadrature_table(&t).build::<f64>();
                let b = ElementSourceAssemblerBuilder::new().with_quadrature_table(&t).with_source(&src).with_finite_element_space(&space).build::<f64>();
                connectivity!(a, b, D);
                vector!(a, b, D);
                // the weight of the body acts on the mass of the body
                let m = ElementMassAssembler::with_solution_dim(D).with_space(&space).with_quadrature_table(&t);
                let m = DMatrix::from(&CsrAssembler::default().assemble(&m).unwrap());
                let acc = DVector::from_fn(nn * D, |i, _| [0.5, -9.75, 2.0][i % D]);
                let v = VectorAssembler::default().assemble_vector(&a).unwrap();
                same("weight", v.iter().copied(), (m * acc).iter().copied(), 1e-3)?;
            }
            5 => {
                let u = field(D);
                let t = table.clone().with_uniform_data(LameParameters { mu: 2.5, lambda: 3.0 });
                let op = MaterialEllipticOperator::new(&NeoHookeanMaterial);
                let a = ElementEllipticAssemblerBuilder::new().with_finite_element_space(&mesh).with_operator(&op).with_quadrature_table(&t).with_u(&u).build();
                let b = ElementEllipticAssemblerBuilder::new().with_operator(&op).with_finite_element_space(&space).with_u(&u).with_quadrature_table(&t).build();
                connectivity!(a, b, D);
                matrix!(a, b, D);
                vector!(a, b, D);
                scalar!(a, b);
            }
            6 => {
                // the integral of a function of position and value, with and without gradients
                let u = field(2);
                let f2 = |x: &OPoint<f64, Const<D>>, v: &Vector2<f64>| Vector1::new(x[0] * v[0] + v[1] + x[1]);
                let a = ElementIntegralAssemblerBuilder::new().with_space(&mesh).with_quadrature_table(&table).with_interpolation_weights(&u).with_integrand(FnFunction::new(f2)).build_integrator();
                let b = ElementIntegralAssemblerBuilder::new().with_integrand(FnFunction::new(f2)).with_interpolation_weights(&u).with_quadrature_table(&table).with_space(&space).build_integrator();
                connectivity!(a, b, 2);
                scalar!(a, b);
                let c = ElementIntegralAssemblerBuilder::new().with_space(&space).with_quadrature_table(&table).with_interpolation_weights(&u).with_integrand(FnFunction::new(f2).with_dependencies::<DependsOnU>()).build_volume_integrator();
                connectivity!(a, c, 2);
                scalar!(a, c);
                let d = ElementIntegralAssemblerBuilder::new().with_space(&mesh).with_quadrature_table(&table).with_interpolation_weights(&u).with_integrand(FnFunction::new(|x: &OPoint<f64, Const<D>>, v: &Vector2<f64>, _: &OMatrix<f64, Const<D>, U2>| f2(x, v))).build_volume_integrator();
                scalar!(a, d);
            }
            _ => {
                // errors
                let u = field(2);
                let exact = |x: &OPoint<f64, Const<D>>| Vector2::new(x[0] + 0.5, 0.25 * x[1]);
                let grad = |x: &OPoint<f64, Const<D>>| OMatrix::<f64, Const<D>, U2>::from_fn(|i, j| (i + 2 * j) as f64 * 0.25 + x[0]);
                let l2 = estimate_L2_error(&mesh, &exact, &u, &table).unwrap();
                let h1 = estimate_H1_seminorm_error(&mesh, &grad, &u, &table).unwrap();
                same("L2 error in index", [l2], [estimate_L2_error(&space, &exact, &u, &table).unwrap()], 0.0)?;
                same("H1 error in index", [h1], [estimate_H1_seminorm_error(&space, &grad, &u, &table).unwrap()], 0.0)?;
                same("squared L2 error", [l2 * l2], [estimate_L2_error_squared(&space, &exact, &u, &table).unwrap()], 0.0)?;
                same("squared H1 error", [h1 * h1], [estimate_H1_seminorm_error_squared(&space, &grad, &u, &table).unwrap()], 0.0)?;
                let (mut sum_l2, mut sum_h1) = (0.0, 0.0);
                let mut ws = IntegrationWorkspace::default();
                for (c, conn) in mesh.connectivity().iter().enumerate() {
                    let n = table.element_quadrature_size(c);
                    let (mut w, mut pts) = (vec![0.0; n], vec![OPoint::<f64, $R>::origin(); n]);
                    table.populate_element_quadrature(c, &mut pts, &mut w);
                    let e = ElementConnectivity::<f64>::element(conn, mesh.vertices()).unwrap();
                    let f = ElementInSpace::from_space_and_element_index(&space, c);
                    let v = fenris::util::extract_by_node_index::<f64, U2>(u.as_slice(), conn.vertex_indices());
                    let v = DVectorView::from(&v);
                    let a = estimate_element_L2_error_squared(&e, &exact, v, &w, &pts, &mut ws);
                    same("L2 error of element", [a.sqrt()], [estimate_element_L2_error(&f, &exact, v, &w, &pts, &mut ws)], 0.0)?;
                    let b = estimate_element_H1_seminorm_error_squared(&e, &grad, v, &w, &pts, &mut ws);
                    same("H1 error of element", [b.sqrt()], [estimate_element_H1_seminorm_error(&f, &grad, v, &w, &pts, &mut ws)], 0.0)?;
                    sum_l2 += a;
                    sum_h1 += b;
                }
                same("sum of L2 errors", [l2 * l2], [sum_l2], 0.0)?;
                same("sum of H1 errors", [h1 * h1], [sum_h1], 0.0)?;
                // a finite element function as the reference
                let v = DVector::<f64>::from_fn(nn * 2, |i, _| ((i * 5 + 1) % 7) as f64 / 8.0);
                let f = SpaceInterpolationFn(&space, &v);
                let points: Vec<OPoint<f64, Const<D>>> = lattice(<$C as TestCell>::kind().shape, 0, 12, 4, false).iter().map(|x| point(distort(1, plain(*x).map(|x| x / 3.0)))).collect();
                let mut many = vec![Vector2::repeat(f64::NAN); points.len()];
                space.interpolate_at_points_into(&points, (&v).into(), &mut many);
                let mut many_g = vec![OMatrix::<f64, Const<D>, U2>::repeat(f64::NAN); points.len()];
                space.interpolate_gradient_at_points_into(&points, (&v).into(), &mut many_g);
                let own: Vec<Vector2<f64>> = space.interpolate_at_points(&points, (&v).into());
                let own_g: Vec<OMatrix<f64, Const<D>, U2>> = space.interpolate_gradient_at_points(&points, (&v).into());
                for (i, p) in points.iter().enumerate() {
                    let one: Vector2<f64> = space.interpolate_at_point(p, (&v).into());
                    same("values at points", one.iter().copied(), many[i].iter().copied(), 1.0)?;
                    same("values at points, returned", one.iter().copied(), own[i].iter().copied(), 1.0)?;
                    let s: Vector2<f64> = SolutionFunction::evaluate(&f, p);
                    same("function", one.iter().copied(), s.iter().copied(), 1.0)?;
                    let one: OMatrix<f64, Const<D>, U2> = space.interpolate_gradient_at_point(p, (&v).into());
                    same("gradients at points", one.iter().copied(), many_g[i].iter().copied(), 1.0)?;
                    same("gradients at points, returned", one.iter().copied(), own_g[i].iter().copied(), 1.0)?;
                    let s: OMatrix<f64, Const<D>, U2> = SolutionGradient::evaluate_grad(&f, p);
                    same("gradient of function", one.iter().copied(), s.iter().copied(), 1.0)?;
                }
                let fixed = FixedInterpolator::from_space_and_points(&space, &points, ValuesOrGradients::Both);
                let at: Vec<Vector2<f64>> = fixed.interpolate(&v);
                same("values at fixed points", at.iter().flatten().copied(), own.iter().flatten().copied(), 1.0)?;
                let at: Vec<OMatrix<f64, Const<D>, U2>> = fixed.interpolate_gradients(&v);
                same("gradients at fixed points", at.iter().flatten().copied(), own_g.iter().flatten().copied(), 1.0)?;
            }
        }
        Ok(Some(digest(&$i)))
    }};
}

/// The forms of a function of position, value and gradient that an integral takes.
macro_rules! integrand_case {
    ($C:ident, $R:ident, $i:expr) => {{
        let mut g = Dig($i);
        let mesh = mesh_of!($C, g);
        const D: usize = <<$C as TestCell>::Dim as DimNum>::N;
        let state = g.next(2);
        let table = mesh.canonical_stiffness_quadrature();
        let mut ws = IntegrationWorkspace::default();
        for (c, conn) in mesh.connectivity().iter().enumerate() {
            let n = table.element_quadrature_size(c);
            let (mut w, mut pts) = (vec![0.0; n], vec![OPoint::<f64, $R>::origin(); n]);
            table.populate_element_quadrature(c, &mut pts, &mut w);
            let q = (&w, &pts);
            let e = ElementConnectivity::<f64>::element(conn, mesh.vertices()).unwrap();
            let u = DVector::<f64>::from_fn(2 * conn.vertex_indices().len(), |i, _| if state == 0 { 1.0 } else { (((i * 7 + 3) % 11) as f64 - 5.0) / 4.0 });
            let own = IntegrationWorkspace::default;
            type X = OPoint<f64, Const<D>>;
            type G = OMatrix<f64, Const<D>, U2>;
            // functions of the position
            let f = |x: &X| Vector2::new(x[0] * x[1] + 1.0, x[0]);
            let direct: Vector2<f64> = w.iter().zip(&pts).fold(Vector2::zeros(), |s, (w, p)| {
                s + f(&e.map_reference_coords(p)) * (w * e.reference_jacobian(p).determinant().abs())
            });
            let a = integrate_over_element(&FnFunction::new(f).with_dependencies::<NoDeps<U2>>(), &e, q, &u, &mut ws);
            same("f(x)", direct.iter().copied(), a.iter().copied(), 1.0)?;
            let b = integrate_over_element(&FnFunction::new(|x: &X, _: &Vector2<f64>| f(x)), &e, q, &u, &mut ws);
            same("f(x) as f(x, u)", direct.iter().copied(), b.iter().copied(), 1.0)?;
            let c3 = integrate_over_volume_element(&FnFunction::new(|x: &X, _: &Vector2<f64>, _: &G| f(x)), &e, q, &u, &mut ws).unwrap();
            same("f(x) as f(x, u, grad u)", direct.iter().copied(), c3.iter().copied(), 1.0)?;
            let d = integrate_over_volume_element(&FnFunction::new(|x: &X, _: &G| f(x)).with_dependencies::<DependsOnGrad>(), &e, q, &u, &mut ws).unwrap();
            same("f(x) as f(x, grad u)", direct.iter().copied(), d.iter().copied(), 1.0)?;
            let evaluated: Vector2<f64> = w.iter().zip(&pts).fold(Vector2::zeros(), |s, (w, p)| {
                s + Function::evaluate(&FnFunction::new(f), &e.map_reference_coords(p)) * (w * e.reference_jacobian(p).determinant().abs())
            });
            same("f(x) as a function", direct.iter().copied(), evaluated.iter().copied(), 1.0)?;
            // functions of the value
            let f = |x: &X, v: &Vector2<f64>| Vector3::new(x[0] * v[0], v[1], v[0] * v[1]);
            let a = integrate_over_element(&FnFunction::new(f), &e, q, &u, &mut ws);
            let b = integrate_over_volume_element(&FnFunction::new(f).with_dependencies::<DependsOnU>(), &e, q, &u, &mut ws).unwrap();
            same("f(x, u)", a.iter().copied(), b.iter().copied(), 1.0)?;
            let b = integrate_over_volume_element(&FnFunction::new(|x: &X, v: &Vector2<f64>, _: &G| f(x, v)), &e, q, u.as_view(), &mut own()).unwrap();
            same("f(x, u) as f(x, u, grad u)", a.iter().copied(), b.iter().copied(), 1.0)?;
            let by_hand = w.iter().zip(&pts).fold(Vector3::zeros(), |s, (w, p)| {
                let phi = e.evaluate_basis(p);
                let v = (0..phi.len()).fold(Vector2::zeros(), |v, k| v + Vector2::new(u[2 * k], u[2 * k + 1]) * phi[k]);
                s + f(&e.map_reference_coords(p), &v) * (w * e.reference_jacobian(p).determinant().abs())
            });
            same("f(x, u) by hand", a.iter().copied(), by_hand.iter().copied(), 1.0)?;
            // functions of the gradient
            let f = |x: &X, d: &G| Vector2::new(x[0] * d[(0, 0)] + d[(1, 1)], d[(0, 1)] - d[(D - 1, 0)]);
            let a = integrate_over_volume_element(&FnFunction::new(f).with_dependencies::<DependsOnGrad>(), &e, q, &u, &mut ws).unwrap();
            let b = integrate_over_volume_element(&FnFunction::new(|x: &X, _: &Vector2<f64>, d: &G| f(x, d)), &e, q, &u, &mut own()).unwrap();
            same("f(x, grad u)", a.iter().copied(), b.iter().copied(), 1.0)?;
            let by_hand = w.iter().zip(&pts).fold(Vector2::zeros(), |s, (w, p)| {
                let j = e.reference_jacobian(p);
                let grads = e.gradients(p);
                let inv = j.try_inverse().unwrap().transpose();
                let d = G::from_fn(|r, s| (0..grads.ncols()).map(|k| (inv * grads.column(k))[r] * u[2 * k + s]).sum());
                s + f(&e.map_reference_coords(p), &d) * (w * j.determinant().abs())
            });
            same("f(x, grad u) by hand", a.iter().copied(), by_hand.iter().copied(), 1.0)?;
            // forms of the rule
            let f = FnFunction::new(|x: &X, v: &Vector2<f64>| Vector2::new(x[0] * v[0], v[1]));
            let a = integrate_over_element(&f, &e, (w.clone(), pts.clone()), &u, &mut ws);
            let parts = QuadratureParts { weights: w.as_slice(), points: pts.as_slice(), data: NoData };
            let b = integrate_over_element(&f, &e, parts, &u, &mut own());
            same("parts of a rule", a.iter().copied(), b.iter().copied(), 1.0)?;
            let b = integrate_over_element(&f, &e, &(w.as_slice(), pts.as_slice()), &u, &mut ws);
            same("reference to a rule", a.iter().copied(), b.iter().copied(), 1.0)?;
        }
        Ok(Some(digest(&$i)))
    }};
}

/// The forms of a quadrature rule.
fn rule_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let which = g.next(10);
    let (w, p): (Vec<f64>, Vec<Point3<f64>>) = {
        let lift2 = |(w, p): QuadraturePair2d<f64>| (w, p.iter().map(|p| Point3::new(p.x, p.y, 0.5)).collect::<Vec<_>>());
        use fenris::quadrature::total_order as t;
        match which {
            0 => (vec![], vec![]),
            1 => (vec![2.0], vec![Point3::origin()]),
            2 => lift2(t::triangle(2).unwrap()),
            3 => lift2(t::quadrilateral(5).unwrap()),
            4 => t::tetrahedron(1).unwrap(),
            5 => t::tetrahedron(4).unwrap(),
            6 => t::hexahedron(3).unwrap(),
            7 => t::prism(3).unwrap(),
            8 => t::pyramid(3).unwrap(),
            _ => (vec![1.0, -1.0, 0.0], vec![Point3::origin(); 3]),
        }
    };
    let n = w.len();
    let f = |x: &Point3<f64>| 1.0 + x.x * x.y - x.z;
    let want: f64 = w.iter().zip(&p).fold(0.0, |s, (w, p)| s + f(p) * w);
    let labels: Vec<usize> = (0..n).map(|i| i * i + 1).collect();
    macro_rules! rule {
        ($what:expr, $q:expr) => {{
            let q = $q;
            ensure!(q.weights() == w.as_slice() && q.points() == p.as_slice(), "{}: weights or points differ", $what);
            ensure_eq!(q.data().len(), n, "{}: data", $what);
            same(&format!("{}: integral", $what), [q.integrate(f)], [want], 1.0)?;
            let parts = q.to_parts();
            ensure!(parts.weights == w.as_slice() && parts.points == p.as_slice() && parts.data.len() == n, "{}: parts differ", $what);
            let items: Vec<(f64, Point3<f64>)> = q.iter().map(|(w, p, _)| (*w, *p)).collect();
            ensure!(items == w.iter().copied().zip(p.iter().copied()).collect::<Vec<_>>(), "{}: items differ", $what);
            let mut it = q.iter();
            (0..n).for_each(|_| assert!(it.next().is_some()));
            ensure!(it.next().is_none() && it.next().is_none(), "{}: the items do not end", $what);
            let by: &dyn Fn() -> f64 = &|| (&q).integrate(f);
            same(&format!("{}: integral by reference", $what), [by()], [want], 1.0)?;
        }};
    }
    macro_rules! labelled {
        ($what:expr, $q:expr) => {{
            let q = $q;
            rule!($what, &q);
            ensure!(q.data() == labels.as_slice(), "{}: data differs", $what);
            ensure!(q.to_parts().data == labels.as_slice(), "{}: data of parts differs", $what);
            ensure!(q.iter().map(|(_, _, d)| *d).collect::<Vec<_>>() == labels, "{}: data of items differs", $what);
        }};
    }
    rule!("pair", (w.clone(), p.clone()));
    rule!("pair of references", (&w, &p));
    rule!("pair of slices", (w.as_slice(), p.as_slice()));
    rule!("reference to pair", &(w.clone(), p.clone()));
    rule!("reference to reference", &&(w.clone(), p.clone()));
    rule!("parts", QuadratureParts { weights: w.clone(), points: p.clone(), data: vec![(); n] });
    rule!("parts without data", QuadratureParts { weights: w.clone(), points: p.clone(), data: NoData });
    rule!("borrowed parts without data", QuadratureParts { weights: w.as_slice(), points: p.as_slice(), data: NoData });
    rule!("owned parts", OwnedQuadratureParts::from((w.clone(), p.clone())));
    let pair = (&w, &p);
    rule!("parts of pair", pair.to_parts());
    labelled!("parts with data", QuadratureParts { weights: w.clone(), points: p.clone(), data: NoData }.with_data(labels.clone()));
    labelled!("owned parts with data", OwnedQuadratureParts::from((w.clone(), p.clone())).with_data(labels.as_slice()));
    let q = (w.clone(), p.clone());
    labelled!("borrowed parts with data", q.to_parts().with_data(&labels[..]));
    if let ([w0], [p0]) = (w.as_slice(), p.as_slice()) {
        rule!("arrays", ([*w0], [*p0]));
    }
    // tables of one rule
    let t = UniformQuadratureTable::from_quadrature((w.clone(), p.clone()));
    let u = UniformQuadratureTable::from_points_and_weights(p.clone(), w.clone());
    ensure!(t == u, "tables of a rule differ");
    let l = UniformQuadratureTable::from_points_weights_and_data(p.clone(), w.clone(), labels.clone());
    let k = UniformQuadratureTable::from_quadrature_and_uniform_data((w.clone(), p.clone()), 7usize);
    ensure!(k == t.clone().with_uniform_data(7), "tables with uniform data differ");
    let twice = |x: &[f64]| NestedVec::from(&vec![x.to_vec(), x.to_vec()]);
    let twice_p = NestedVec::from(&vec![p.clone(), p.clone()]);
    let gen = GeneralQuadratureTable::from_points_and_weights(twice_p.clone(), twice(&w));
    let gen_l = GeneralQuadratureTable::from_points_weights_and_data(twice_p.clone(), twice(&w), NestedVec::from(&vec![labels.clone(), labels.clone()]));
    let com = CompactQuadratureTable::from_points_weights_and_map(twice_p.clone(), twice(&w), vec![1, 0]);
    let com_l = CompactQuadratureTable::from_quadrature_rules_and_map(twice_p, twice(&w), NestedVec::from(&vec![labels.clone(), labels.clone()]), vec![0, 1]);
    macro_rules! table {
        ($what:expr, $t:expr, $want:expr, $zero:expr) => {{
            for e in 0..2 {
                ensure_eq!(QuadratureTable::<f64, U3>::element_quadrature_size(&$t, e), n, "{}: size", $what);
                let (mut ww, mut pp, mut dd) = (vec![f64::NAN; n], vec![Point3::origin(); n], vec![$zero; n]);
                $t.populate_element_quadrature(e, &mut pp, &mut ww);
                $t.populate_element_data(e, &mut dd);
                ensure!(ww == w && pp == p && dd == $want, "{}: rule {e} differs", $what);
                let (mut ww, mut pp, mut dd) = (vec![f64::NAN; n], vec![Point3::origin(); n], vec![$zero; n]);
                $t.populate_element_quadrature_and_data(e, &mut pp, &mut ww, &mut dd);
                ensure!(ww == w && pp == p && dd == $want, "{}: rule {e} with data differs", $what);
            }
        }};
    }
    table!("uniform", t, vec![(); n], ());
    table!("uniform with data", l, labels, 0);
    table!("uniform with uniform data", k, vec![7; n], 0);
    table!("general", gen, vec![(); n], ());
    table!("general with data", gen_l, labels, 0);
    table!("compact", com, vec![(); n], ());
    table!("compact with data", com_l, labels, 0);
    ensure_eq!(format!("{}", Density(2.5)), "Density(2.5)", "text of a density");
    Ok(Some(digest(&i)))
}

/// Linear systems: forms of the operator, the preconditioner, the workspace and the criterion.
fn cg_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let n = g.next(4) + 1;
    let (m, guess, rhs, old) = (g.next(4), g.next(2), g.next(3), g.next(3));
    let a = DMatrix::<f64>::from_fn(n, n, |r, c| {
        let k = (r.min(c) * 5 + r.max(c) * 3 + m) % 5;
        if r == c { 6.0 + k as f64 } else { [(k as f64) / 4.0 - 0.5, 0.0, 1.0, -0.25][m] }
    });
    let b = DVector::from_fn(n, |r, _| [1.0 + r as f64, if r == 0 { 1.0 } else { 0.0 }, 0.0][rhs]);
    let x0 = DVector::from_fn(n, |r, _| if guess == 0 { 0.0 } else { 1.0 - r as f64 });
    let csr = CsrMatrix::from(&a);
    let tol = 1e-8;
    let used = || {
        let mut ws = CgWorkspace::default();
        if old > 0 {
            let k = n + 2 * old - 3;
            let (z, mut x) = (DVector::from_element(k, 3.0), DVector::from_element(k, 1.0));
            let _ = ConjugateGradient::with_workspace(&mut ws).with_operator(DMatrix::from_diagonal_element(k, k, 2.0)).with_stopping_criterion(RelativeResidualCriterion::new(1e-3)).solve_with_guess(&z, &mut x);
        }
        ws
    };
    let mut results: Vec<(&str, Result<usize, String>, DVector<f64>)> = vec![];
    macro_rules! solve {
        ($what:expr, $cg:expr) => {{
            let mut x = x0.clone();
            let r = $cg.solve_with_guess(&b, &mut x);
            results.push(($what, r.map(|o| o.num_iterations).map_err(|e| format!("{}", e.kind)), x));
        }};
    }
    solve!("dense", ConjugateGradient::new().with_operator(&a).with_stopping_criterion(RelativeResidualCriterion::new(tol)));
    solve!("owned dense", ConjugateGradient::new().with_operator(a.clone()).with_stopping_criterion(RelativeResidualCriterion::new(tol)));
    solve!("sparse", ConjugateGradient::new().with_operator(&csr).with_stopping_criterion(RelativeResidualCriterion::new(tol)));
    solve!("owned sparse", ConjugateGradient::new().with_operator(csr.clone()).with_stopping_criterion(RelativeResidualCriterion::new(tol)));
    solve!("criterion first", ConjugateGradient::new().with_stopping_criterion(RelativeResidualCriterion::new(tol)).with_operator(&&a));
    solve!("default criterion", ConjugateGradient::new().with_operator(&a).with_stopping_criterion(RelativeResidualCriterion::<f64>::default()));
    solve!("identity", ConjugateGradient::new().with_operator(&a).with_preconditioner(IdentityOperator).with_stopping_criterion(RelativeResidualCriterion::new(tol)));
    solve!("reference to identity", ConjugateGradient::new().with_operator(&a).with_preconditioner(&IdentityOperator).with_stopping_criterion(RelativeResidualCriterion::new(tol)));
    solve!("identity matrix", ConjugateGradient::new().with_operator(&a).with_preconditioner(DMatrix::<f64>::identity(n, n)).with_stopping_criterion(RelativeResidualCriterion::new(tol)));
    solve!("workspace", ConjugateGradient::with_workspace(&mut used()).with_operator(&a).with_stopping_criterion(RelativeResidualCriterion::new(tol)));
    solve!("enough iterations", ConjugateGradient::new().with_max_iter(1000).with_operator(&a).with_stopping_criterion(RelativeResidualCriterion::new(tol)));
    {
        let mut space = CgWorkspace::default();
    let mut cg = ConjugateGradient::with_workspace(&mut space).with_operator(&csr).with_stopping_criterion(RelativeResidualCriterion::new(tol));
        let mut first = x0.clone();
        let _ = cg.solve_with_guess(&b, &mut first);
        solve!("again", cg);
        same("repeated solution", first.iter().copied(), results.last().unwrap().2.iter().copied(), 1.0)?;
    }
    let (_, r0, x0r) = &results[0];
    for (what, r, x) in &results[1..] {
        ensure_eq!(r, r0, "{what}: iterations or failure");
        same(what, x.iter().copied(), x0r.iter().copied(), 1.0)?;
    }
    // in single precision the default criterion is coarser
    let (a, b) = (a.map(|x| x as f32), b.map(|x| x as f32));
    let (mut x, mut y) = (x0.map(|x| x as f32), x0.map(|x| x as f32));
    let r = ConjugateGradient::new().with_operator(&a).with_stopping_criterion(RelativeResidualCriterion::<f32>::default()).solve_with_guess(&b, &mut x).map(|o| o.num_iterations).map_err(|e| format!("{}", e.kind));
    let s = ConjugateGradient::new().with_operator(&a).with_stopping_criterion(RelativeResidualCriterion::new(1e-4f32)).solve_with_guess(&b, &mut y).map(|o| o.num_iterations).map_err(|e| format!("{}", e.kind));
    ensure_eq!(r, s, "default criterion in single precision");
    ensure_eq!(x, y, "solution for the default criterion in single precision");
    // applying an operator
    for (what, op) in [("matrix", &DMatrix::from(&csr) as &dyn LinearOperator<f64>), ("sparse matrix", &csr), ("reference", &&csr)] {
        let mut y = DVector::repeat(n, f64::NAN);
        op.apply(DVectorViewMut::from(&mut y), DVectorView::from(&x0)).map_err(|e| e.to_string())?;
        same(what, y.iter().copied(), (DMatrix::from(&csr) * &x0).iter().copied(), 1.0)?;
    }
    let mut y = DVector::repeat(n, f64::NAN);
    LinearOperator::<f64>::apply(&IdentityOperator, DVectorViewMut::from(&mut y), DVectorView::from(&x0)).map_err(|e| e.to_string())?;
    ensure_eq!(y, x0, "identity");
    Ok(Some(digest(&i)))
}

/// Functions of vectors: by value and by reference, derivatives returned and written.
fn newton_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let n = g.next(3) + 1;
    let (which, start, tol) = (g.next(3), g.next(3), *g.pick(&[1e-4, 1e-10]));
    let value = move |f: &mut DVectorViewMut<f64>, x: &DVectorView<f64>| {
        for k in 0..n {
            let y = x[(k + 1) % n];
            f[k] = match which {
                0 => 2.0 * x[k] - 1.0 + 0.25 * y,
                1 => x[k] * x[k] * x[k] + x[k] - 1.0 + 0.125 * y,
                _ => x[k] + 0.25 * y * y - 0.5,
            };
        }
    };
    let jac = move |sol: &mut DVectorViewMut<f64>, x: &DVectorView<f64>, rhs: &DVectorView<f64>| -> Result<(), Box<dyn std::error::Error>> {
        let mut j = DMatrix::<f64>::zeros(n, n);
        for k in 0..n {
            let l = (k + 1) % n;
            let (d, o) = match which {
                0 => (2.0, 0.25),
                1 => (3.0 * x[k] * x[k] + 1.0, 0.125),
                _ => (1.0, 0.5 * x[l]),
            };
            j[(k, k)] += d;
            j[(k, l)] += o;
        }
        sol.copy_from(&j.lu().solve(rhs).ok_or("singular")?);
        Ok(())
    };
    let make = || VectorFunctionBuilder::with_dimension(n).with_function(value).with_jacobian_solver(jac);
    let x0 = DVector::from_fn(n, |k, _| [0.5, 0.0, 1.0][start] + 0.25 * k as f64);
    let settings = NewtonSettings { max_iterations: Some(50), tolerance: tol };
    let run = |how: usize| {
        let mut f = make();
        let (mut x, mut v, mut dx) = (x0.clone(), DVector::repeat(n, 7.0), DVector::repeat(n, -7.0));
        let r = match how {
            0 => newton(&mut f, &mut x, &mut v, &mut dx, settings.clone()),
            1 => newton(&mut &mut f, &mut x, &mut v, &mut dx, settings.clone()),
            2 => newton_line_search(&mut f, &mut x, &mut v, &mut dx, settings.clone(), &mut NoLineSearch),
            _ => newton_line_search(&mut &mut f, x.as_view_mut(), v.as_view_mut(), dx.as_view_mut(), settings.clone(), &mut NoLineSearch),
        };
        (r.map_err(|e| e.to_string()), x, v)
    };
    let (r, x, v) = run(0);
    for how in 1..4 {
        let (s, y, w) = run(how);
        ensure_eq!(s, r, "Newton's method, form {how}: iterations");
        same("solution of Newton's method", x.iter().copied(), y.iter().copied(), 1.0)?;
        same("residual of Newton's method", v.iter().copied(), w.iter().copied(), 1.0)?;
    }
    // Jacobians
    let mut f = make();
    ensure_eq!((&mut f).dimension(), n, "dimension of a reference");
    ensure_eq!(f.dimension(), n, "dimension");
    let h = 1.0 / 1024.0;
    let j = approximate_jacobian(make(), &x0, &h);
    let k = approximate_jacobian(&mut f, &x0, &h);
    same("approximate Jacobian", j.iter().copied(), k.iter().copied(), 1.0)?;
    // gradients by finite differences, returned and written
    let energy = |x: DVectorView<f64>| x.iter().enumerate().map(|(k, x)| x * x * (k + 1) as f64 + x).sum::<f64>();
    let mut at = x0.clone();
    let d = approximate_gradient_fd(energy, &mut at, h);
    ensure_eq!(at, x0, "point at which the gradient is taken");
    let mut e = DVector::repeat(n, f64::NAN);
    approximate_gradient_fd_into(e.as_view_mut(), energy, &mut at, h);
    ensure_eq!(at, x0, "point at which the gradient is taken");
    same("approximate gradient", d.iter().copied(), e.iter().copied(), 1.0)?;
    Ok(Some(digest(&i)))
}

/// All sequences of points of a lattice.
fn points2(g: &mut Dig, n: usize, side: u64) -> Vec<[i64; 2]> {
    (0..n).map(|_| [g.next(side) as i64, g.next(side) as i64]).collect()
}
fn pt(p: [i64; 2]) -> Point2<f64> {
    Point2::new(p[0] as f64, p[1] as f64)
}
fn c2(p: &Point2<f64>) -> Vec<f64> {
    vec![p.x, p.y]
}
fn seg_v(s: LineSegment2d<f64>) -> Vec<f64> {
    [c2(s.start()), c2(s.end())].concat()
}

fn polygon_case(n: usize, side: u64, i: u64) -> Verdict {
    let mut g = Dig(i);
    let raw = points2(&mut g, n, side);
    if (0..n).any(|k| raw[k] == raw[(k + 1) % n]) && n > 1 {
        return Ok(None);
    }
    let v: Vec<Point2<f64>> = raw.iter().map(|p| pt(*p)).collect();
    let poly = SimplePolygon2d::from_vertices(v.clone());
    ensure!(poly.vertices() == v.as_slice() && Polygon2d::vertices(&poly) == v.as_slice(), "vertices of the polygon");
    ensure_eq!((poly.num_vertices(), poly.num_edges(), Polygon2d::num_vertices(&poly), Polygon2d::num_edges(&poly)), (n, n, n, n), "vertices and edges");
    let edges: Vec<LineSegment2d<f64>> = poly.edge_iter().collect();
    let mut called = vec![];
    poly.for_each_edge(|k, e| called.push((k, e)));
    ensure_eq!(called, edges.iter().cloned().enumerate().collect::<Vec<_>>(), "edges one by one");
    for k in 0..n + 2 {
        let want = (k < n).then(|| LineSegment2d::from_end_points(v[k], v[(k + 1) % n]));
        ensure_eq!(poly.get_edge(k), want, "edge {k}");
        ensure_eq!(edges.get(k).cloned(), want, "edge {k} of the iterator");
        if k >= n {
            for t in [0.0, 0.5, 1.0] {
                ensure!(poly.pseudonormal_on_edge(k, t).is_none(), "there is a normal on edge {k}");
            }
        }
    }
    same("signed area", [poly.signed_area()], [geo::area2(&raw) as f64 / 2.0], 1.0)?;
    same("area", [poly.area()], [poly.signed_area().abs()], 1.0)?;
    if geo::area2(&raw) != 0 {
        let ccw = poly.orientation() == Orientation::Counterclockwise;
        ensure_eq!(ccw, geo::area2(&raw) > 0, "counterclockwise");
    }
    // the same polygon, started elsewhere, reversed, moved
    if n > 0 {
        let mut r = v.clone();
        r.rotate_left(1);
        same("area of rotated polygon", [SimplePolygon2d::from_vertices(r).signed_area()], [poly.signed_area()], 1.0)?;
        let r: Vec<_> = v.iter().rev().cloned().collect();
        same("area of reversed polygon", [SimplePolygon2d::from_vertices(r).signed_area()], [-poly.signed_area()], 1.0)?;
        let mut moved = poly.clone();
        moved.transform_vertices(|v| v.iter_mut().for_each(|v| *v += Vector2::new(3.0, -2.0)));
        ensure_eq!(moved.vertices().to_vec(), v.iter().map(|v| v + Vector2::new(3.0, -2.0)).collect::<Vec<_>>(), "vertices of the moved polygon");
        same("area of moved polygon", [moved.signed_area()], [poly.signed_area()], 10.0)?;
        let b = poly.bounding_box();
        let c = AxisAlignedBoundingBox::from_points(&v).unwrap();
        ensure_eq!(b, c, "bounding box");
        ensure!(v.iter().all(|v| b.contains_point(v)), "the bounding box has not all vertices");
        // in space
        let turn = Isometry3::rotation(Vector3::new(0.0, 0.0, std::f64::consts::FRAC_PI_2));
        let shift = Isometry3::translation(1.0, 2.0, 3.0);
        for iso in [Isometry3::identity(), turn, shift, shift * turn] {
            let s = poly.apply_isometry(&iso);
            let want: Vec<f64> = v.iter().flat_map(|v| (iso * Point3::new(v.x, v.y, 0.0)).iter().copied().collect::<Vec<_>>()).collect();
            same("vertices in space", s.vertices().iter().flat_map(|v| v.iter().copied().collect::<Vec<_>>()), want, 1.0)?;
            if geo::is_simple(&raw) {
                same("area in space", [s.area()], [poly.area()], 10.0)?;
                same("area vector", s.area_vector().iter().copied(), (iso * Vector3::new(0.0, 0.0, poly.signed_area())).iter().copied(), 10.0)?;
            }
        }
    }
    // normals
    for k in 0..n {
        if n < 2 {
            break;
        }
        let nrm = |k: usize| edges[k % n].normal_dir().normalize();
        let own = nrm(k);
        for t in [0.25, 0.5, 1.0 - 1e-9, 1e-9] {
            same("normal on edge", poly.pseudonormal_on_edge(k, t).unwrap().iter().copied(), own.iter().copied(), 1.0)?;
        }
        for (t, other) in [(0.0, nrm(k + n - 1)), (1.0, nrm(k + 1))] {
            let mid = own + other;
            if mid.norm() > 1e-6 {
                same("normal at corner", poly.pseudonormal_on_edge(k, t).unwrap().iter().copied(), mid.normalize().iter().copied(), 1.0)?;
            }
        }
        same("normal at corner, from the next edge", poly.pseudonormal_on_edge(k, 1.0).unwrap().iter().copied(), poly.pseudonormal_on_edge((k + 1) % n, 0.0).unwrap().iter().copied(), 1.0)?;
    }
    // distances; a polygon that turns back at a corner has no inside there, and no sign
    let folded = n < 3 || (0..n).any(|k| (k + 2) % n != k && {
        let (a, b, c) = (raw[k], raw[(k + 1) % n], raw[(k + 2) % n]);
        let (u, v) = (geo::sub(b, a), geo::sub(c, b));
        geo::orient([0, 0], u, v) == 0 && u[0] * v[0] + u[1] * v[1] < 0
    });
    for x in [[-1.0, -1.0], [0.5, 0.25], [1.0, 1.0], [1.5, 0.0], [4.0, 1.5]] {
        let x = Point2::from(x);
        let e = poly.closest_edge(&x);
        ensure_eq!(e.is_some(), n > 0, "there is a closest edge");
        let Some(e) = e else { continue };
        let near = edges.iter().map(|e| (e.closest_point(&x) - x).norm()).fold(f64::INFINITY, f64::min);
        same("distance to closest edge", [(e.edge_point - x).norm()], [near], 1.0)?;
        if !folded {
            same("signed distance to closest edge", [e.signed_distance.abs()], [near], 1.0)?;
        }
        let edge = &edges[e.edge_index];
        same("parameter on closest edge", [e.edge_parameter], [edge.closest_point_parametric(&x)], 1.0)?;
        same("point on closest edge", c2(&e.edge_point), c2(&edge.closest_point(&x)), 1.0)?;
        if !folded {
            let d = poly.distance(&x);
            same("distance", [d], [e.signed_distance.max(0.0)], 1.0)?;
            same("bound of distance", poly.distance_bound(&x), [d, d], 1.0)?;
        }
    }
    if n > 0 && n < 3 {
        let c = poly.assume_convex();
        ensure!(c.triangulate().is_empty(), "triangles of a polygon with {n} vertices");
    }
    Ok(Some(digest(&raw)))
}

fn convex_case(n: usize, side: u64, i: u64) -> Verdict {
    let mut g = Dig(i);
    let raw = points2(&mut g, n, side);
    let v: Vec<Point2<f64>> = raw.iter().map(|p| pt(*p)).collect();
    let poly = ConvexPolygon::from_vertices(v.clone());
    ensure!(poly.vertices() == v.as_slice(), "vertices");
    ensure_eq!((poly.is_empty(), poly.is_point(), poly.is_line_segment()), (n == 0, n == 1, n == 2), "kind of polygon");
    let edges: Vec<(Point2<f64>, Point2<f64>)> = poly.edges().map(|(a, b)| (*a, *b)).collect();
    ensure_eq!(edges.len(), poly.num_edges(), "number of edges");
    if n > 2 {
        ensure_eq!(edges, (0..n).map(|k| (v[k], v[(k + 1) % n])).collect::<Vec<_>>(), "edges");
    }
    let planes: Vec<HalfPlane<f64>> = poly.half_planes().collect();
    let want: Vec<_> = edges.iter().filter(|(a, b)| a != b).collect();
    ensure_eq!(planes.len(), want.len(), "half planes");
    for (h, (a, b)) in planes.iter().zip(want) {
        let m = Point2::from((a.coords + b.coords) / 2.0);
        let left = m + Vector2::new(-(b - a).y, (b - a).x);
        same("half plane", [h.signed_distance_to_point(a), h.signed_distance_to_point(b), h.signed_distance_to_point(&left)], [0.0, 0.0, -(b - a).norm()], 1.0)?;
    }
    let triangles = poly.triangulate_into_vec();
    ensure_eq!(poly.triangulate().collect::<Vec<_>>(), triangles, "triangles");
    ensure_eq!(triangles.len(), n.saturating_sub(2), "number of triangles");
    let simple = SimplePolygon2d::from(poly.clone());
    ensure!(simple.vertices() == v.as_slice(), "vertices of the simple polygon");
    let sum: f64 = triangles.iter().map(|t| t.signed_area()).sum();
    same("area of triangles", [sum], [simple.signed_area()], 1.0)?;
    if n >= 3 {
        ensure_eq!(simple.assume_convex().triangulate(), triangles, "triangles of the simple polygon");
        same("area of the fan", [simple.assume_convex().triangulate_at_point(&Point2::new(0.25, 0.5)).iter().map(|t| t.signed_area()).sum::<f64>()], [sum], 1.0)?;
    }
    match v[..] {
        [a, b] => ensure!(ConvexPolygon::from(LineSegment2d::from_end_points(a, b)).vertices() == v.as_slice(), "polygon of a segment"),
        [a, b, c] => ensure!(ConvexPolygon::from(Triangle([a, b, c])).vertices() == v.as_slice(), "polygon of a triangle"),
        _ => {}
    }
    if n != 2 && n != 0 {
        for x in (0..2 * side as i64 + 1).flat_map(|x| (0..2 * side as i64 + 1).map(move |y| [x, y])) {
            let p = Point2::new(x[0] as f64 / 2.0, x[1] as f64 / 2.0);
            let inside = if n == 1 { p == v[0] } else { planes.iter().all(|h| h.contains_point(&p)) };
            ensure_eq!(poly.contains_point(&p), inside, "containment of {p}");
        }
    }
    Ok(Some(digest(&raw)))
}

fn quad_case(side: u64, i: u64) -> Verdict {
    let mut g = Dig(i);
    let raw = points2(&mut g, 4, side);
    if !geo::is_simple(&raw) || geo::area2(&raw) == 0 {
        return Ok(None);
    }
    let v: [Point2<f64>; 4] = std::array::from_fn(|k| pt(raw[k]));
    let quad = Quad2d(v);
    let (a, b) = quad.split_into_triangle_connectivities();
    let (s, t) = quad.split_into_triangles();
    ensure!(s.0 == a.map(|k| v[k]) && t.0 == b.map(|k| v[k]), "the triangles are not those of the connectivities");
    let want = geo::area2(&raw).abs() as f64 / 2.0;
    same("area", [quad.area(), s.area() + t.area(), SimplePolygon2d::from_vertices(v.to_vec()).area()], [want; 3], 1.0)?;
    let sign = geo::area2(&raw).signum();
    let turns: Vec<i64> = (0..4).map(|k| sign * geo::orient(raw[(k + 3) % 4], raw[k], raw[(k + 1) % 4])).collect();
    let concave = turns.iter().position(|t| *t < 0);
    ensure_eq!(quad.concave_corner(), concave, "concave corner");
    let c = ConvexPolygon::try_from(quad);
    let e = Quad4d2Element::from_vertices(v);
    let d = ConvexPolygon::try_from(e.clone());
    let f = ConvexPolygon::try_from(Quad9d2Element::from(&e));
    for (what, p) in [("quad", &c), ("element", &d), ("quadratic element", &f)] {
        ensure_eq!(p.is_ok(), concave.is_none(), "{what} is convex");
        if let Ok(p) = p {
            ensure!(p.vertices() == v.as_slice(), "vertices of the {what}");
        }
    }
    let e2 = Quad4d2Element::from(quad);
    ensure!(e2.vertices() == e.vertices(), "vertices of the element");
    Ok(Some(digest(&raw)))
}

fn line_case(side: u64, i: u64) -> Verdict {
    let mut g = Dig(i);
    let raw = points2(&mut g, 4, side);
    let x = *g.pick(&[[0.5, 0.25], [2.0, 1.0], [-1.0, 4.0]]);
    let x = Point2::from(x);
    let [a, b, c, d]: [Point2<f64>; 4] = std::array::from_fn(|k| pt(raw[k]));
    if a == b || c == d {
        return Ok(None);
    }
    let (s, o) = (LineSegment2d::from_end_points(a, b), LineSegment2d::from_end_points(c, d));
    ensure!(s.start() == &a && s.end() == &b, "end points");
    let r = s.reverse();
    ensure!(r.start() == &b && r.end() == &a && r.reverse() == s, "reversed segment");
    let l = s.to_line();
    ensure!(l.point() == &a && l.dir() == &(b - a) && s.tangent_dir() == b - a, "line of the segment");
    let through = Line2d::from_point_through_point(a, &b);
    ensure!(through.point() == l.point() && through.dir() == l.dir(), "line through the points");
    same("tangent", l.tangent().iter().copied(), ((b - a) / (b - a).norm()).iter().copied(), 1.0)?;
    same("length", [s.length(), r.length()], [(b - a).norm(); 2], 1.0)?;
    same("midpoint", c2(&s.midpoint()), c2(&s.point_from_parameter(0.5)), 1.0)?;
    same("midpoint of reversed", c2(&s.midpoint()), c2(&r.midpoint()), 1.0)?;
    same("normal", s.normal_dir().iter().copied(), [(b - a).y, -(b - a).x], 1.0)?;
    for t in [-1.0, 0.0, 0.25, 1.0, 3.0] {
        same("point of parameter", c2(&s.point_from_parameter(t)), c2(&l.point_from_parameter(t)), 1.0)?;
        same("point of parameter, reversed", c2(&s.point_from_parameter(t)), c2(&r.point_from_parameter(1.0 - t)), 1.0)?;
    }
    let sub = s.segment_from_parameters(&0.25, &2.0);
    same("part", seg_v(sub), [c2(&s.point_from_parameter(0.25)), c2(&s.point_from_parameter(2.0))].concat(), 1.0)?;
    let t = l.project_point_parametric(&x);
    same("projection", c2(&l.project_point(&x)), c2(&l.point_from_parameter(t)), 1.0)?;
    let u = s.closest_point_parametric(&x);
    same("parameter of closest point", [u], [t.clamp(0.0, 1.0)], 1.0)?;
    same("closest point", c2(&s.closest_point(&x)), c2(&s.point_from_parameter(u)), 1.0)?;
    same("closest point of reversed", c2(&s.closest_point(&x)), c2(&r.closest_point(&x)), 1.0)?;
    // intersections
    let m = o.to_line();
    let both = l.intersect_line_parametric(&m);
    let back = m.intersect_line_parametric(&l);
    opt("intersection of lines", both, back.map(|(t, u)| (u, t)), |(t, u)| vec![t, u], 10.0)?;
    let (p, q) = (l.intersect(&m), m.intersect(&l));
    opt("point of intersection", p, q, |p| c2(&p), 10.0)?;
    opt("point of intersection by parameter", p, both.map(|(t, _)| l.point_from_parameter(t)), |p| c2(&p), 10.0)?;
    opt("intersection of segment and line", s.intersect_line_parametric(&m), both.map(|b| b.0), |t| vec![t], 10.0)?;
    let parallel = geo::orient([0, 0], geo::sub(raw[1], raw[0]), geo::sub(raw[3], raw[2])) == 0;
    let corners = [(0, 1, 2), (0, 1, 3), (2, 3, 0), (2, 3, 1)];
    let touching = corners.iter().any(|(a, b, c)| geo::orient(raw[*a], raw[*b], raw[*c]) == 0);
    // (where an end of one lies on the other, roundings decide)
    if !parallel && !touching {
        let (p, q) = (s.intersect_segment_parametric(&o), o.intersect_segment_parametric(&s));
        opt("point where segments meet", p.map(|t| s.point_from_parameter(t)), q.map(|t| o.point_from_parameter(t)), |p| c2(&p), 10.0)?;
        ensure_eq!(p.is_some(), geo::segments_meet(raw[0], raw[1], raw[2], raw[3]), "the segments meet");
        opt("point where reversed segments meet", p, r.intersect_segment_parametric(&o).map(|t| 1.0 - t), |t| vec![t], 10.0)?;
    }
    // half planes
    let n = Unit::new_normalize(Vector2::new((d - c).y, -(d - c).x));
    let h = HalfPlane::from_point_and_normal(c, n);
    ensure!(h.point() == &c && h.normal() == &n.into_inner(), "point and normal of the half plane");
    let k = h.complement();
    same("distance to complement", [h.signed_distance_to_point(&x)], [-k.signed_distance_to_point(&x)], 1.0)?;
    ensure_eq!(h.contains_point(&x), h.signed_distance_to_point(&x) <= 0.0, "the half plane has the point");
    ensure!(h.contains_point(&x) || k.contains_point(&x), "neither the half plane nor its complement has the point");
    let f = h.surface();
    same("surface of half plane", [h.signed_distance_to_point(&f.point_from_parameter(-2.0)), h.signed_distance_to_point(&f.point_from_parameter(3.0))], [0.0; 2], 10.0)?;
    same("distance to half plane", [h.signed_distance_to_point(&x).abs()], [(f.project_point(&x) - x).norm()], 10.0)?;
    let t = s.intersect_half_plane_parametric(&h);
    opt("part in half plane", s.intersect_half_plane(&h), t.map(|[t, u]| s.segment_from_parameters(&t, &u)), seg_v, 1.0)?;
    let whole = |t: Option<[f64; 2]>| t.map_or(0.0, |[t, u]| u - t);
    if !parallel {
        same("parts on both sides", [whole(t) + whole(s.intersect_half_plane_parametric(&k))], [1.0], 1.0)?;
        same("part of reversed", [whole(t)], [whole(r.intersect_half_plane_parametric(&h))], 1.0)?;
    }
    // disks
    let disk = Disk::from_center_and_radius(c, 0.75);
    let t = l.intersect_disk_parametric(&disk);
    opt("part of line in disk", l.intersect_disk(&disk), t.map(|[t, u]| LineSegment2d::from_end_points(l.point_from_parameter(t), l.point_from_parameter(u))), seg_v, 10.0)?;
    let u = s.intersect_disk_parametric(&disk);
    opt("part of segment in disk", s.intersect_disk(&disk), u.map(|[t, u]| s.segment_from_parameters(&t, &u)), seg_v, 10.0)?;
    let clipped = t.filter(|[t, u]| *u >= 0.0 && *t <= 1.0).map(|[t, u]| [t.max(0.0), u.min(1.0)]);
    opt("clipped part in disk", u, clipped, |t| t.to_vec(), 10.0)?;
    // triangles
    let tri = Triangle([a, b, c]);
    for k in 0..3 {
        let e = tri.edge(k);
        ensure!(e.start() == &tri.0[k] && e.end() == &tri.0[(k + 1) % 3], "edge {k} of the triangle");
        same("side of triangle", tri.sides()[k].iter().copied(), e.tangent_dir().iter().copied(), 1.0)?;
    }
    same("centroid", c2(&tri.centroid()), c2(&Point2::from((a.coords + b.coords + c.coords) / 3.0)), 1.0)?;
    let mut other = tri;
    other.swap_vertices(0, 2);
    same("area of turned triangle", [other.signed_area(), other.area()], [-tri.signed_area(), tri.area()], 1.0)?;
    let simple = SimplePolygon2d::from_vertices(vec![a, b, c]);
    same("area of triangle", [simple.signed_area()], [tri.signed_area()], 1.0)?;
    if tri.signed_area() != 0.0 {
        ensure_eq!(tri.orientation(), simple.orientation(), "orientation of the triangle");
    }
    if tri.signed_area() > 0.0 {
        let sd = tri.query_signed_distance(&x).unwrap();
        same("distance to triangle", [tri.distance(&x)], [sd.signed_distance.max(0.0)], 1.0)?;
        same("distance of feature", [(sd.point - x).norm()], [sd.signed_distance.abs()], 1.0)?;
        let e = simple.closest_edge(&x).unwrap();
        same("distance to triangle as polygon", [sd.signed_distance], [e.signed_distance], 1.0)?;
        if sd.signed_distance.abs() > 1e-9 {
            ensure_eq!(ConvexPolygon::from(tri).contains_point(&x), sd.signed_distance <= 0.0, "the triangle has the point");
        }
        let mid = tri.centroid();
        let inner = LineSegment2d::from_end_points(a + (mid - a) * 0.125, b + (mid - b) * 0.25);
        opt("inner segment in triangle", inner.intersect_polygon(&ConvexPolygon::from(tri)), Some(inner.clone()), seg_v, 1.0)?;
    }
    // segments as elements
    let e = Segment2d2Element::from(s.clone());
    ensure!(LineSegment2d::from(&e) == s && Segment2d2Element::from(&s).vertices() == e.vertices(), "segment of the element");
    // boxes
    let bb = AxisAlignedBoundingBox::from_points(&[a, b, c]).unwrap();
    same("distance to box", [bb.dist_to(&x), bb.dist2_to(&x)], [(bb.closest_point_to(&x) - x).norm(), (bb.closest_point_to(&x) - x).norm_squared()], 1.0)?;
    same("farthest distance to box", [bb.max_dist_to(&x), bb.max_dist2_to(&x)], [(bb.furthest_point_to(&x) - x).norm(), (bb.furthest_point_to(&x) - x).norm_squared()], 1.0)?;
    ensure_eq!(bb.contains_point(&x), bb.dist_to(&x) == 0.0, "the box has the point");
    same("extents", bb.extents().iter().copied(), (bb.max() - bb.min()).iter().copied(), 1.0)?;
    same("largest extent", [bb.max_extent()], [bb.extents().max()], 1.0)?;
    same("center", c2(&bb.center()), c2(&Point2::from((bb.min().coords + bb.max().coords) / 2.0)), 1.0)?;
    ensure_eq!(AxisAlignedBoundingBox::from_points(&bb.corners_iter().collect::<Vec<_>>()).unwrap(), bb, "box of the corners");
    ensure_eq!(bb.bounding_box(), bb, "box of the box");
    ensure_eq!(bb.enclose(&bb), bb, "box around itself");
    let both = AxisAlignedBoundingBox::from(a).enclose(&AxisAlignedBoundingBox::from(b)).enclose(&AxisAlignedBoundingBox::from(c));
    ensure_eq!(both, bb, "box of boxes");
    ensure_eq!(bb.uniformly_scale(1.0), bb, "box scaled by one");
    ensure_eq!(bb.grow_uniformly(0.0), bb, "box grown by nothing");
    let grown = bb.grow_uniformly(0.5);
    same("grown box", [c2(grown.min()), c2(grown.max())].concat(), [bb.min().x - 0.5, bb.min().y - 0.5, bb.max().x + 0.5, bb.max().y + 0.5], 1.0)?;
    let far = AxisAlignedBoundingBox::from(x);
    ensure_eq!(bb.intersects(&far), bb.contains_point(&x), "the boxes intersect");
    ensure_eq!(far.intersects(&bb), bb.intersects(&far), "the boxes intersect, asked the other way");
    Ok(Some(digest(&i)))
}

fn plane_case(deep: bool, i: u64) -> Verdict {
    let mut g = Dig(i);
    let n: P = std::array::from_fn(|_| if deep { *g.pick(&[-1.0, 0.0, 2.0, 0.3, -7.0]) } else { *g.pick(&[-1.0, 0.0, 2.0]) });
    let p: P = std::array::from_fn(|_| *g.pick(&[0.0, 1.5]));
    let [x, y]: [P; 2] = std::array::from_fn(|_| std::array::from_fn(|_| if deep { *g.pick(&[-1.0, 1.0, 0.1]) } else { *g.pick(&[-1.0, 1.0]) }));
    if n == [0.0; 3] || x == y {
        return Ok(None);
    }
    let unit = Unit::new_normalize(Vector3::from(n));
    let (p, x, y) = (Point3::from(p), Point3::from(x), Point3::from(y));
    let plane = Plane::from_point_and_normal(p, unit);
    ensure!(plane.point() == &p && plane.normal() == &unit, "point and normal of the plane");
    let f = plane.flipped();
    ensure!(f.point() == &p && f.normal().into_inner() == -unit.into_inner(), "flipped plane");
    let h = HalfSpace::from_plane(&plane);
    ensure!(h.point() == &p && h.normal() == &unit.into_inner(), "half space of the plane");
    ensure!(h.plane().point() == &p && h.plane().normal() == &unit, "plane of the half space");
    let k = h.complement();
    let f = HalfSpace::from_plane(&f);
    let d = h.signed_distance_to_point(&x);
    same("distance to half spaces", [k.signed_distance_to_point(&x), f.signed_distance_to_point(&x)], [-d; 2], 1.0)?;
    same("distance to half space", [d], [unit.dot(&(x - p))], 1.0)?;
    ensure_eq!(h.contains_point(&x), d <= 0.0, "the half space has the point");
    let [a, b] = plane.compute_tangent_vectors();
    same("tangents", [a.dot(&b), a.dot(&unit), b.dot(&unit), a.norm(), b.norm()], [0.0, 0.0, 0.0, 1.0, 1.0], 1.0)?;
    // segments
    let s = LineSegment3d::from_end_points(x, y);
    let t = s.closest_point_to_plane_parametric(&plane);
    same("closest point to plane", s.closest_point_to_plane(&plane).iter().copied(), s.point_from_parameter(t).iter().copied(), 1.0)?;
    let q = LineSegment3d::from_end_points(x, y).closest_point_to_plane(&plane);
    let least = if h.contains_point(&x) == h.contains_point(&y) { d.abs().min(h.signed_distance_to_point(&y).abs()) } else { 0.0 };
    same("distance of closest point to plane", [h.signed_distance_to_point(&q).abs()], [least], 10.0)?;
    let slope = unit.dot(&(y - x));
    if slope.abs() > 1e-9 {
        let t = s.to_line().intersect_plane_parametric(&plane);
        opt("intersection with flipped plane", t, s.to_line().intersect_plane_parametric(&plane.flipped()), |t| vec![t], 10.0)?;
        opt("intersection with plane", t, Some(-d / slope), |t| vec![t], 10.0)?;
        let near = |t: f64| t.abs() < 1e-9 || (t - 1.0).abs() < 1e-9;
        if !t.map_or(false, near) {
            opt("intersection of segment with plane", s.intersect_plane_parametric(&plane), t.filter(|t| *t >= 0.0 && *t <= 1.0), |t| vec![t], 10.0)?;
        }
    }
    // polygons in the plane, as polygons and as triangles
    let tri = Triangle([x, y, p]);
    if tri.area() > 1e-9 {
        let poly = SimplePolygon3d::from_vertices(vec![x, y, p]);
        same("area in space", [poly.area(), poly.area_vector().norm()], [tri.area(); 2], 1.0)?;
        same("area vector of triangle", tri.compute_area_vector().iter().copied(), poly.area_vector().iter().copied(), 1.0)?;
        same("normal of triangle", tri.compute_normal().iter().copied(), tri.normal().iter().copied(), 1.0)?;
        same("normal direction of triangle", tri.normal_dir().iter().copied(), (tri.normal() * tri.area() * 2.0).iter().copied(), 1.0)?;
        let own = tri.compute_plane().unwrap();
        same("plane of triangle", own.normal().iter().copied(), tri.normal().iter().copied(), 1.0)?;
        let half = tri.compute_half_space().unwrap();
        same("half space of triangle", half.normal().iter().copied(), (-tri.normal()).iter().copied(), 1.0)?;
        same("half space of triangle", [half.signed_distance_to_point(&x), half.signed_distance_to_point(&p)], [0.0; 2], 10.0)?;
        ensure_eq!(ConvexPolygon3d::num_vertices(&tri), 3, "vertices of the triangle");
        for k in 0..4 {
            ensure_eq!(ConvexPolygon3d::get_vertex(&tri, k), tri.0.get(k).copied(), "vertex {k} of the triangle");
        }
        // the closest point, as triangle, polygon and element
        let z = Point3::new(0.3, 1.7, -0.4);
        let near = ConvexPolygon3d::closest_point(&tri, &z);
        same("distance to triangle", [near.distance, (near.closest_point - z).norm()], [tri.distance(&z); 2], 1.0)?;
        let e = Tri3d3Element::from(tri);
        ensure!(Triangle3d::from(&e).0 == tri.0, "triangle of the element");
        let cut = poly.intersect_half_space(&h).area() + poly.intersect_half_space(&k).area();
        let flat = [x, y, p].iter().all(|v| h.signed_distance_to_point(v).abs() < 1e-9);
        if !flat {
            same("parts in half spaces", [cut], [poly.area()], 10.0)?;
        }
    }
    Ok(Some(digest(&i)))
}

/// Polyhedral meshes.
fn polymesh_case(i: u64) -> Verdict {
    let mut g = Dig(i);
    let (which, shape, at) = (g.next(5), g.next(SHAPES), *g.pick(&[[0.0; 3], [0.5, 0.25, 1.5]]));
    let mesh = match which {
        0 => PolyMesh3d::from(&create_rectangular_uniform_hex_mesh(1.0, 1, 1, 1, 1)),
        1 => PolyMesh3d::from(&create_rectangular_uniform_hex_mesh(1.0, 2, 1, 1, 1)),
        2 => PolyMesh3d::from(&create_rectangular_uniform_tet_mesh(1.0, 1, 1, 1, 1)),
        3 => PolyMesh3d::from_poly_data(
            [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]].iter().map(|x: &P| Point3::from(*x)).collect(),
            NestedVec::from(&vec![vec![0, 2, 1], vec![0, 1, 3], vec![1, 2, 3], vec![0, 3, 2]]),
            NestedVec::from(&vec![vec![0, 1, 2, 3]]),
        ),
        _ => PolyMesh3d::new_empty(),
    };
    let mut mesh = mesh.translated(&Vector3::from(at));
    // affine maps keep cells convex
    if shape % 2 == 1 {
        for v in mesh.vertices_mut() {
            *v = Point3::from(distort(if shape == 5 { 0 } else { shape }, [v.x, v.y, v.z]));
        }
    }
    let n = mesh.num_faces();
    let faces: Vec<Vec<usize>> = mesh.face_connectivity_iter().map(|f| f.to_vec()).collect();
    let cells: Vec<Vec<usize>> = mesh.cell_connectivity_iter().map(|f| f.to_vec()).collect();
    ensure_eq!((faces.len(), cells.len()), (n, mesh.num_cells()), "faces and cells");
    for k in 0..n + 1 {
        ensure_eq!(mesh.get_face_connectivity(k).map(|f| f.to_vec()), faces.get(k).cloned(), "face {k}");
        let f = mesh.get_face(k);
        ensure_eq!(f.is_some(), k < n, "there is face {k}");
        let Some(f) = f else { continue };
        let v: Vec<Point3<f64>> = mesh.face_vertices(k).copied().collect();
        ensure_eq!(v, faces[k].iter().map(|v| mesh.vertices()[*v]).collect::<Vec<_>>(), "vertices of face {k}");
        ensure_eq!(ConvexPolygon3d::num_vertices(&f), v.len(), "number of vertices of face {k}");
        for j in 0..v.len() + 2 {
            ensure_eq!(ConvexPolygon3d::get_vertex(&f, j), v.get(j).copied(), "vertex {j} of face {k}");
        }
        let poly = SimplePolygon3d::from_vertices(v.clone());
        same("area vector of face", ConvexPolygon3d::compute_area_vector(&f).iter().copied(), poly.area_vector().iter().copied(), 10.0)?;
        let sum: Vector3<f64> = poly.assume_convex().triangulate().iter().fold(Vector3::zeros(), |s, t| s + t.normal_dir() * 0.5);
        same("area vector of triangles", sum.iter().copied(), poly.area_vector().iter().copied(), 10.0)?;
        let plane = f.compute_plane().unwrap();
        let half = f.compute_half_space().unwrap();
        same("half space of face", half.normal().iter().copied(), (-plane.normal().into_inner()).iter().copied(), 1.0)?;
        same("vertices in plane of face", v.iter().map(|v| half.signed_distance_to_point(v)), vec![0.0; v.len()], 10.0)?;
    }
    for k in 0..cells.len() + 1 {
        ensure_eq!(mesh.get_cell_connectivity(k).map(|f| f.to_vec()), cells.get(k).cloned(), "cell {k}");
    }
    // which cells have a face
    let of_face = mesh.compute_face_cell_connectivity();
    for k in 0..n {
        let want: Vec<usize> = (0..cells.len()).filter(|c| cells[*c].contains(&k)).collect();
        let mut got = of_face.get(k).unwrap().to_vec();
        got.sort();
        ensure_eq!(got, want, "cells of face {k}");
    }
    let boundary: Vec<usize> = (0..n).filter(|k| of_face.get(*k).unwrap().len() == 1).collect();
    let mut got = mesh.find_boundary_faces();
    got.sort();
    ensure_eq!(got, boundary, "boundary faces");
    // volumes
    let volume = mesh.compute_volume();
    let pieces: f64 = (0..cells.len()).map(|c| mesh.keep_cells(&[c]).compute_volume()).sum();
    same("sum of cells", [pieces], [volume], 1.0)?;
    if which == 0 || which == 3 {
        let all = compute_polyhedron_volume_from_faces((0..n).map(|k| mesh.get_face(k).unwrap()));
        same("volume of faces", [all], [volume], 10.0)?;
    }
    let step = Vector3::new(0.5, -1.0, 2.0);
    let moved = mesh.clone().translated(&step);
    let mut also = mesh.clone();
    also.translate(&step);
    ensure_eq!(moved, also, "moved mesh");
    same("volume of moved mesh", [moved.compute_volume()], [volume], 10.0)?;
    same("vertices of moved mesh", moved.vertices().iter().flat_map(|v| v.iter().copied().collect::<Vec<_>>()), mesh.vertices().iter().flat_map(|v| (v + step).iter().copied().collect::<Vec<_>>()), 1.0)?;
    let twice = PolyMesh3d::concatenate([&mesh, &moved]);
    same("volume of both", [twice.compute_volume()], [2.0 * volume], 10.0)?;
    // splitting
    let mut split = mesh.clone();
    for times in 0..3 {
        let mut other = mesh.clone();
        other.split_edges_n_times(times);
        ensure_eq!(other, split, "mesh split {times} times");
        same("volume of split mesh", [split.compute_volume()], [volume], 10.0)?;
        ensure_eq!(split.num_faces(), n, "faces of the split mesh");
        split.split_edges();
    }
    let tets = mesh.triangulate().map_err(|e| e.to_string())?;
    same("volume of triangulated mesh", [tets.compute_volume()], [volume], 10.0)?;
    let again = mesh.keep_cells(&(0..cells.len()).collect::<Vec<_>>());
    same("volume of all cells", [again.compute_volume()], [volume], 1.0)?;
    ensure_eq!(again.num_cells(), cells.len(), "cells that are kept");
    let mut dedup = twice.clone();
    dedup.dedup_faces();
    same("volume without duplicate faces", [dedup.compute_volume()], [twice.compute_volume()], 10.0)?;
    // cut by a plane: both sides together are the whole
    let h = HalfSpace::from_point_and_normal(Point3::new(0.4, 0.3, 0.6) + Vector3::from(at), Unit::new_normalize(Vector3::new(1.0, 0.5, 0.25)));
    let (a, b) = (mesh.intersect_half_space(&h), mesh.intersect_half_space(&h.complement()));
    same("volumes of both sides", [a.compute_volume() + b.compute_volume()], [volume], 10.0)?;
    // the text has the faces and cells
    let text = format!("{mesh}");
    let section = |from: &str, to: Option<&str>| -> Vec<Vec<usize>> {
        let s = &text[text.find(from).unwrap() + from.len()..];
        let s = to.map_or(s, |t| &s[..s.find(t).unwrap()]);
        s.lines().filter(|l| !l.trim().is_empty()).map(|l| l.split_once(':').unwrap().1.split(',').map(|x| x.trim().parse().unwrap()).collect()).collect()
    };
    ensure_eq!(section("Face vertex indices:\n", Some("  Cell face indices:")), faces, "faces of the text");
    ensure_eq!(section("Cell face indices:\n", None), cells, "cells of the text");
    Ok((n > 0).then(|| digest(&i)))
}

/// Disjoint subsets: everything about them, by all ways to get at them.
fn subsets_case(i: u64) -> Verdict {
    // the subset of every item (or none), in increasing or decreasing order
    let mut g = Dig(i);
    const N: usize = 6;
    let owner: [usize; N] = std::array::from_fn(|_| g.next(4));
    let (down, block) = (g.bit(), g.next(3) + 1);
    let mut sets: Vec<Vec<usize>> = vec![vec![]; 3];
    for (k, o) in owner.iter().enumerate() {
        if *o < 3 {
            sets[*o].push(k);
        }
    }
    if down {
        sets.iter_mut().for_each(|s| s.reverse());
    }
    let labels = vec![7, 0, 3];
    let nested = NestedVec::from(&sets);
    let subsets = DisjointSubsets::try_from_disjoint_subsets(nested.clone(), labels.clone()).map_err(|_| "disjoint subsets are refused".to_string())?;
    let other = DisjointSubsets::try_from_disjoint_subsets(&sets, labels.clone()).map_err(|_| "disjoint subsets are refused".to_string())?;
    ensure!(subsets.subsets() == other.subsets() && subsets.labels() == other.labels(), "subsets from nested vectors differ");
    ensure!(subsets.subsets() == &nested && subsets.clone().into_subsets() == nested, "subsets differ");
    ensure!(subsets.labels() == labels.as_slice(), "labels differ");
    let blocks = |n: usize| -> Vec<i64> { (0..n as i64).collect() };
    let want: Vec<(usize, Vec<usize>, Vec<i64>)> = sets.iter().zip(&labels).map(|(s, l)| (*l, s.clone(), s.iter().map(|k| *k as i64).collect())).collect();
    let read = |s: &fenris_paradis::SubsetAccess<'_, <[i64] as ParallelIndexedCollection<'_>>::Access>| (s.label(), s.global_indices().to_vec(), (0..s.len()).map(|k| *s.get(k)).collect::<Vec<i64>>());
    let mut data = blocks(N);
    let seen: Vec<_> = subsets.subsets_par_iter(data.as_mut_slice()).map(|s| read(&s)).collect();
    ensure_eq!(seen, want, "subsets of the parallel iterator");
    ensure_eq!(subsets.subsets_par_iter(data.as_mut_slice()).len(), 3, "length of the parallel iterator");
    ensure_eq!(subsets.subsets_par_iter(data.as_mut_slice()).opt_len(), Some(3), "length of the parallel iterator");
    ensure_eq!(subsets.subsets_par_iter(data.as_mut_slice()).count(), 3, "count of the parallel iterator");
    let seen: Vec<_> = subsets.subsets_par_iter(data.as_mut_slice()).filter(|_| true).map(|s| read(&s)).collect();
    ensure_eq!(seen, want, "filtered subsets");
    let seen: Vec<_> = subsets.subsets_par_iter(data.as_mut_slice()).enumerate().map(|(k, s)| (k, read(&s))).collect();
    ensure_eq!(seen, want.iter().cloned().enumerate().collect::<Vec<_>>(), "numbered subsets");
    let seen: Vec<_> = subsets.subsets_par_iter(data.as_mut_slice()).rev().map(|s| read(&s)).collect();
    ensure_eq!(seen, want.iter().rev().cloned().collect::<Vec<_>>(), "reversed subsets");
    let seen: Vec<_> = subsets.subsets_par_iter(data.as_mut_slice()).skip(1).take(1).map(|s| read(&s)).collect();
    ensure_eq!(seen, want[1..2].to_vec(), "one subset");
    // work items of every size, from the front, from the back, and from both
    for len in 1..=3 {
        let seen: Vec<_> = subsets.subsets_par_iter(data.as_mut_slice()).with_min_len(len).map(|s| read(&s)).collect();
        ensure_eq!(seen, want, "subsets in items of at least {len}");
        let seen: Vec<_> = subsets.subsets_par_iter(data.as_mut_slice()).with_min_len(len).rev().map(|s| read(&s)).collect();
        ensure_eq!(seen, want.iter().rev().cloned().collect::<Vec<_>>(), "reversed subsets in items of at least {len}");
        let seen: Vec<_> = subsets.subsets_par_iter(data.as_mut_slice()).with_max_len(len).rev().map(|s| read(&s)).collect();
        ensure_eq!(seen, want.iter().rev().cloned().collect::<Vec<_>>(), "reversed subsets in items of at most {len}");
        let seen: Vec<Vec<_>> = subsets.subsets_par_iter(data.as_mut_slice()).chunks(len).map(|c| c.iter().map(|s| read(s)).collect()).collect();
        ensure_eq!(seen, want.chunks(len).map(|c| c.to_vec()).collect::<Vec<_>>(), "chunks of {len} subsets");
        let seen: Vec<_> = subsets.subsets_par_iter(data.as_mut_slice()).rev().skip(3 - len).with_min_len(len).rev().map(|s| read(&s)).collect();
        ensure_eq!(seen, want[..len].to_vec(), "the first {len} subsets, reversed twice");
    }
    let found = subsets.subsets_par_iter(data.as_mut_slice()).find_any(|s| s.label() == 3).map(|s| read(&s));
    ensure_eq!(found, Some(want[2].clone()), "subset that is searched");
    // writing
    subsets.subsets_par_iter(data.as_mut_slice()).for_each(|mut s| {
        for k in 0..s.len() {
            *s.get_mut(k) += 100 * (1 + s.label() as i64);
            let was = s.get(k).clone();
            assert_eq!(was, *s.get_mut(k));
        }
    });
    let after: Vec<i64> = (0..N).map(|k| k as i64 + owner.get(k).and_then(|o| labels.get(*o)).map_or(0, |l| 100 * (1 + *l as i64))).collect();
    ensure_eq!(data, after, "numbers after writing");
    // blocks of numbers
    let mut data = blocks(N * block);
    let mut adapter = BlockAdapter::with_block_size(data.as_mut_slice(), block);
    let seen: Vec<Vec<Vec<i64>>> = subsets
        .subsets_par_iter(&mut adapter)
        .map(|mut s| {
            (0..s.len())
                .map(|k| {
                    let b = s.get(k);
                    let read: Vec<i64> = (0..b.len()).map(|j| *b.index(j)).collect();
                    let also: Vec<i64> = (0..b.len() + 2).filter_map(|j| b.get(j).copied()).collect();
                    assert_eq!(read, also);
                    let mut m = s.get_mut(k);
                    assert_eq!(m.len(), read.len());
                    assert_eq!((0..m.len()).map(|j| *m.index(j)).collect::<Vec<_>>(), read);
                    assert_eq!((0..m.len() + 2).filter_map(|j| m.get(j).copied()).collect::<Vec<_>>(), read);
                    assert!(m.get_mut(m.len()).is_none());
                    for j in 0..m.len() {
                        if j % 2 == 0 {
                            *m.index_mut(j) += 1000;
                        } else {
                            *m.get_mut(j).unwrap() += 1000;
                        }
                    }
                    read
                })
                .collect()
        })
        .collect();
    let want: Vec<Vec<Vec<i64>>> = sets.iter().map(|s| s.iter().map(|k| (0..block).map(|j| (k * block + j) as i64).collect()).collect()).collect();
    ensure_eq!(seen, want, "blocks");
    let after: Vec<i64> = (0..N * block).map(|k| k as i64 + if owner[k / block] < 3 { 1000 } else { 0 }).collect();
    ensure_eq!(data, after, "blocks after writing");
    let mut adapter = BlockAdapter::with_block_size(data.as_mut_slice(), block);
    ensure_eq!(ParallelIndexedCollection::len(&adapter), N, "number of blocks");
    if let Some(first) = sets.iter().position(|s| !s.is_empty()) {
        let out = no_panic(|| {
            let bad: Vec<i64> = subsets.subsets_par_iter(&mut adapter).enumerate().filter(|(k, _)| *k == first).map(|(_, s)| *s.get(0).index(block)).collect();
            bad
        });
        ensure!(out.is_err(), "a block has more numbers than its size: {out:?}");
    }
    Ok(Some(digest(&i)))
}

fn main() -> std::process::ExitCode {
    let mut ctx = Ctx::new("C35", Level::ModelChecking, "all inputs of the stated lattices, by all ways to ask");
    macro_rules! cells {
        ($C:ident, $R:ident) => {
            ctx.suite(concat!("cells ", stringify!($C)), MESHES, |i| format!("mesh {i}"), |i| no_panic(|| -> Verdict { cell_case!($C, $R, i) })?);
        };
    }
    for_kinds!(cells);
    macro_rules! indexed {
        ($C:ident, $R:ident, $n:expr) => {
            ctx.suite(concat!("index of ", stringify!($C)), MESHES * $n, |i| format!("case {i}"), |i| no_panic(|| -> Verdict { index_case!($C, $R, i) })?);
        };
    }
    indexed!(Tri3d2Connectivity, U2, 25);
    indexed!(Tri3d3Connectivity, U2, 125);
    indexed!(Tet4Connectivity, U3, 125);
    macro_rules! assemblers {
        ($C:ident, $R:ident) => {
            ctx.suite(concat!("assemblers of ", stringify!($C)), MESHES * 16, |i| format!("case {i}"), |i| no_panic(|| -> Verdict { assembler_case!($C, $R, i) })?);
        };
    }
    assemblers!(Tri3d2Connectivity, U2);
    assemblers!(Tet4Connectivity, U3);
    macro_rules! integrands {
        ($C:ident, $R:ident) => {
            ctx.suite(concat!("integrands on ", stringify!($C)), MESHES * 2, |i| format!("case {i}"), |i| no_panic(|| -> Verdict { integrand_case!($C, $R, i) })?);
        };
    }
    volumetric!(integrands);
    ctx.suite("quadrature rules", 10, |i| format!("rule {i}"), rule_case);
    ctx.suite("conjugate gradients", 4 * 4 * 2 * 3 * 3, |i| format!("case {i}"), cg_case);
    ctx.suite("vector functions", 3 * 3 * 3 * 2, |i| format!("case {i}"), newton_case);
    let side = ctx.tier(4, 5);
    for n in 0..=ctx.tier(5, 6) {
        let side = [side, side, side, side, side, ctx.tier(3, 4), 3][n];
        ctx.suite(&format!("polygons with {n} vertices"), pow(side * side, n as u32), |i| format!("polygon {i}"), |i| no_panic(|| polygon_case(n, side, i))?);
    }
    for n in 0..=ctx.tier(4, 5) {
        let side = [3, 3, 3, ctx.tier(3, 5), ctx.tier(3, 4), 3][n];
        ctx.suite(&format!("convex polygons with {n} vertices"), pow(side * side, n as u32), |i| format!("polygon {i}"), |i| no_panic(|| convex_case(n, side, i))?);
    }
    let deep = ctx.thorough;
    let ctx_side: (u64, u64) = ctx.tier((4, 4), (6, 5));
    ctx.suite("quadrilaterals", pow(ctx.tier(16, 36), 4), |i| format!("quadrilateral {i}"), |i| quad_case(ctx_side.0, i));
    ctx.suite("lines and segments", pow(ctx_side.1 * ctx_side.1, 4) * 3, |i| format!("case {i}"), |i| no_panic(|| line_case(ctx_side.1, i))?);
    ctx.suite("planes and half spaces", ctx.tier(27 * 8 * 64, 125 * 8 * 729), |i| format!("case {i}"), |i| no_panic(|| plane_case(deep, i))?);
    ctx.suite("polyhedral meshes", 5 * SHAPES * 2, |i| format!("case {i}"), |i| no_panic(|| polymesh_case(i))?);
    ctx.suite("disjoint subsets", pow(4, 6) * 2 * 3, |i| format!("case {i}"), |i| no_panic(|| subsets_case(i))?);
    ctx.finish()
}
