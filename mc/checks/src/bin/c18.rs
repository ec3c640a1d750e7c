//! C18: closest elements and interpolation.
use checks::cells::{build, grid, kind, point, typed, Affine, Shape, TestCell};
use checks::dist;
use checks::fem::*;
use checks::mixed::*;
use fenris::allocators::{BiDimAllocator, DimAllocator, ElementConnectivityAllocator, TriDimAllocator};
use fenris::connectivity::*;
use fenris::element::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::{DMatrix, DVector, DefaultAllocator, DimName, Dyn, MatrixViewMut, OPoint, Point2, Point3, U1, U2, U3};
use fenris::space::*;
use fenris::SmallDim;
use hk::*;
use mcsched::Config;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::Arc;

type P = [f64; 3];

/// The unit of length: elements may be very small or very large.
const UNITS: [i32; 3] = [0, -40, 40];
fn scaled(p: P, u: f64) -> P {
    p.map(|x| x * u)
}

fn in_reference(s: Shape, xi: P, tol: f64) -> bool {
    s.faces().iter().all(|(n, c)| {
        // lattice coordinate = 3 (xi + 1)
        (0..s.dim()).map(|k| n[k] as f64 * 3.0 * (xi[k] + 1.0)).sum::<f64>() <= *c as f64 + tol
    })
}

/// Position of reference coordinates in a simplex.
fn simplex_point(v: &[P], xi: P) -> P {
    let d = v.len() - 1;
    let b: Vec<f64> = (0..d).map(|k| (xi[k] + 1.0) / 2.0).collect();
    std::array::from_fn(|r| v[0][r] + (0..d).map(|k| b[k] * (v[k + 1][r] - v[0][r])).sum::<f64>())
}

fn dist(a: P, b: P) -> f64 {
    (0..3).map(|k| (a[k] - b[k]).powi(2)).sum::<f64>().sqrt()
}

/// Strictly inside a simplex of full dimension, by a margin.
fn clearly_inside(v: &[P], q: P) -> bool {
    let d = v.len() - 1;
    let j: [P; 3] = std::array::from_fn(|c| if c < d { std::array::from_fn(|r| v[c + 1][r] - v[0][r]) } else { [0.0; 3] });
    if det(&j, d).abs() < 1e-9 {
        return false;
    }
    let inv = inverse(&j, d);
    let t: Vec<f64> = (0..d).map(|c| (0..d).map(|r| inv[c][r] * (q[r] - v[0][r])).sum()).collect();
    t.iter().all(|x| *x > 1e-3) && t.iter().sum::<f64>() < 1.0 - 1e-3
}

/// The element is `v` in units of `u`, and so is the query point.
fn check_closest<E>(e: &E, s: Shape, v: &[P], q: P, u: f64) -> Result<u64, String>
where
    E: ClosestPointInElement<f64>,
    DefaultAllocator: BiDimAllocator<f64, E::GeometryDim, E::ReferenceDim>,
{
    let r = e.closest_point(&point::<E::GeometryDim>(scaled(q, u)));
    let xi = coords::<E::ReferenceDim>(r.point());
    ensure!(in_reference(s, xi, 1e-8), "the closest point of {q:?} has reference coordinates {xi:?} outside of the cell");
    let x = simplex_point(v, xi);
    let (d2, c) = dist::hull(q, v);
    ensure!(
        (dist(x, q) - d2.sqrt()).abs() <= 1e-7,
        "the reported closest point of {q:?} is {x:?} at distance {}, but {c:?} is at distance {}",
        dist(x, q),
        d2.sqrt()
    );
    let inside = matches!(r, ClosestPoint::InElement(_));
    ensure!(!inside || d2.sqrt() < 1e-7, "{q:?} is reported to be in the element, at distance {}", d2.sqrt());
    if v.len() == E::GeometryDim::dim() + 1 && clearly_inside(v, q) {
        ensure!(inside, "{q:?} is inside of the element but not reported so");
    }
    Ok(inside as u64)
}

fn vertices<D: DimName>(m: &[OPoint<f64, D>], ix: &[usize]) -> Vec<P>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    ix.iter().map(|i| coords(&m[*i])).collect()
}

/// Query lattice: all points with coordinates from `axis`, in D dimensions.
fn queries(axis: &[f64], d: usize) -> Vec<P> {
    (0..axis.len().pow(d as u32))
        .map(|i| {
            let mut g = Dig(i as u64);
            std::array::from_fn(|k| if k < d { *g.pick(axis) } else { 0.0 })
        })
        .collect()
}

/// What a space says of single elements: bounds, and closest points (for some of the points).
fn element_queries<S>(s: &S, cells: &[Vec<P>], qs: &[P], u: f64) -> Result<(), String>
where
    S: BoundsForElementInSpace<f64> + ClosestPointInElementInSpace<f64>,
    DefaultAllocator: BiDimAllocator<f64, S::GeometryDim, S::ReferenceDim>,
{
    let d = S::GeometryDim::dim();
    let want = |c: &Vec<P>| -> Vec<(f64, f64)> {
        (0..d).map(|k| (c.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min) * u, c.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max) * u)).collect()
    };
    let have = |b: &fenris::geometry::AxisAlignedBoundingBox<f64, S::GeometryDim>| -> Vec<(f64, f64)> { (0..d).map(|k| (b.min()[k], b.max()[k])).collect() };
    let all = s.bounds_for_all_elements();
    ensure_eq!(all.len(), cells.len(), "bounds of all elements");
    let mut filled = vec![fenris::geometry::AxisAlignedBoundingBox::new(point(scaled([-1.0; 3], u)), point(scaled([9.0; 3], u))); cells.len()];
    s.populate_bounds_for_all_elements(&mut filled);
    for (i, c) in cells.iter().enumerate() {
        for (how, b) in [("alone", &s.bounds_for_element(i)), ("among all", &all[i]), ("filled in", &filled[i])] {
            ensure_eq!(have(b), want(c), "bounds of element {i}, {how}");
        }
    }
    let scale = cells.iter().flatten().flatten().fold(1.0f64, |a, c| a.max(c.abs()));
    for (j, q) in qs.iter().enumerate().filter(|(j, _)| j % 7 == cells.len() % 7) {
        let i = if cells.is_empty() { break } else { j % cells.len() };
        let r = s.closest_point_in_element(i, &point(scaled(*q, u)));
        let (xi, inside) = match &r {
            ClosestPoint::InElement(xi) => (xi, true),
            ClosestPoint::ClosestPoint(xi) => (xi, false),
        };
        let x = simplex_point(&cells[i], coords::<S::ReferenceDim>(xi));
        let best = dist::hull(*q, &cells[i]).0.sqrt();
        ensure!((dist(x, *q) - best).abs() <= 1e-7 * scale, "the closest point of element {i} to {q:?} is at distance {}, not {best}", dist(x, *q));
        ensure!(!inside || best <= 1e-7 * scale, "{q:?} is said to be in element {i}, at distance {best}");
    }
    Ok(())
}

/// An indexed space must find the closest element of all.
fn check_index<C>(m: &Mesh<f64, <C as TestCell>::Dim, C>, qs: &[P]) -> Verdict
where
    C: TestCell + ElementConnectivity<f64, GeometryDim = <C as TestCell>::Dim>,
    <C as TestCell>::Dim: SmallDim,
    C::ReferenceDim: SmallDim,
    C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
    DefaultAllocator: ElementConnectivityAllocator<f64, C> + DimAllocator<f64, <C as TestCell>::Dim>,
{
    let mut out = vec![];
    for e in UNITS {
        out.push(check_index_in(m, qs, 2f64.powi(e), 0.0).map_err(|m| format!("in units of 2^{e}: {m}"))?);
    }
    Ok(out[0])
}
/// The mesh and the points are moved by `t` in all directions before.
fn check_index_in<C>(m: &Mesh<f64, <C as TestCell>::Dim, C>, qs: &[P], u: f64, t: f64) -> Verdict
where
    C: TestCell + ElementConnectivity<f64, GeometryDim = <C as TestCell>::Dim>,
    <C as TestCell>::Dim: SmallDim,
    C::ReferenceDim: SmallDim,
    C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
    DefaultAllocator: ElementConnectivityAllocator<f64, C> + DimAllocator<f64, <C as TestCell>::Dim>,
{
    let vs = m.vertices().iter().map(|p| OPoint::from(p.coords.map(|x| (x + t) * u))).collect();
    // rounding far away from the origin
    let tol = 1e-7 + 64.0 * f64::EPSILON * t.abs();
    let mesh: Mesh<f64, <C as TestCell>::Dim, C> = Mesh::from_vertices_and_connectivity(vs, m.connectivity().to_vec());
    let s = SpatiallyIndexed::from_space(mesh.clone());
    ensure_eq!(s.num_elements(), m.connectivity().len(), "elements");
    let cells: Vec<Vec<P>> = m.connectivity().iter().map(|c| vertices(m.vertices(), c.vertex_indices())).collect();
    let shape = C::kind().shape;
    if t == 0.0 {
        element_queries(&mesh, &cells, qs, u)?;
        element_queries(&s, &cells, qs, u)?;
    }
    let scale = cells.iter().flatten().flatten().fold(1.0f64, |a, c| a.max(c.abs()));
    let mut hits = vec![];
    for q in qs {
        let r = s.find_closest_element_and_reference_coords(&point(q.map(|x| (x + t) * u)));
        let Some((e, xi)) = r else {
            ensure!(cells.is_empty(), "no element was found for {q:?}");
            continue;
        };
        ensure!(e < cells.len(), "element {e} of {}", cells.len());
        let xi = coords::<C::ReferenceDim>(&xi);
        ensure!(in_reference(shape, xi, 0.1 * tol), "{q:?} is found in element {e} at {xi:?}, which is outside of it");
        let x = simplex_point(&cells[e], xi);
        let mut best = (f64::INFINITY, 0);
        for (i, c) in cells.iter().enumerate() {
            let d = dist::hull(*q, c).0.sqrt();
            if d < best.0 {
                best = (d, i);
            }
        }
        ensure!(
            (dist(x, *q) - best.0).abs() <= tol * scale,
            "{q:?} is found in element {e} at distance {}, but element {} is at distance {}",
            dist(x, *q),
            best.1,
            best.0
        );
        hits.push(e);
    }
    Ok(Some(digest(&(cells.len(), hits))))
}

/// A mesh as a finite element space presents its elements.
fn check_space<C>(m: &Mesh<f64, <C as TestCell>::Dim, C>) -> Verdict
where
    C: TestCell + ElementConnectivity<f64, GeometryDim = <C as TestCell>::Dim>,
    <C as TestCell>::Dim: SmallDim,
    C::ReferenceDim: SmallDim,
    DefaultAllocator: ElementConnectivityAllocator<f64, C> + DimAllocator<f64, <C as TestCell>::Dim>,
{
    let k = C::kind();
    let b = Basis::of(&k);
    ensure_eq!(m.num_elements(), m.connectivity().len(), "elements");
    ensure_eq!(FiniteElementConnectivity::num_nodes(m), m.vertices().len(), "nodes");
    let (d, rd) = (<C as TestCell>::Dim::dim(), C::ReferenceDim::dim());
    for (i, c) in m.connectivity().iter().enumerate() {
        let n = k.nodes.len();
        ensure_eq!(m.element_node_count(i), n, "element node count");
        let mut nodes = vec![usize::MAX; n];
        m.populate_element_nodes(&mut nodes, i);
        ensure!(nodes == c.vertex_indices(), "element nodes");
        let corners: Vec<P> = vertices(m.vertices(), &c.vertex_indices()[..k.shape.corners().len()]);
        let g = Geo::new(k.shape, corners);
        let el = ElementInSpace::from_space_and_element_index(m, i);
        ensure_eq!(ReferenceFiniteElement::<f64>::num_nodes(&el), n, "nodes of the element");
        for x in lattice(k.shape, 0, 6, 2, true) {
            let xi = refp(x);
            let p = point::<C::ReferenceDim>(xi);
            let (v, gr, j, x) = (b.value(xi), b.grad(xi), g.jac(xi), g.map(xi));
            let mut got = vec![0.0; n];
            let mut gg = DMatrix::from_element(rd, n, 0.0);
            for way in 0..2 {
                got.fill(f64::NAN);
                gg.fill(f64::NAN);
                let gv = MatrixViewMut::from_slice_generic(gg.as_mut_slice(), C::ReferenceDim::name(), Dyn(n));
                let (jj, xx, diam);
                if way == 0 {
                    m.populate_element_basis(i, &mut got, &p);
                    m.populate_element_gradients(i, gv, &p);
                    jj = m.element_reference_jacobian(i, &p);
                    xx = m.map_element_reference_coords(i, &p);
                    diam = FiniteElementSpace::diameter(m, i);
                } else {
                    el.populate_basis(&mut got, &p);
                    el.populate_basis_gradients(gv, &p);
                    jj = el.reference_jacobian(&p);
                    xx = el.map_reference_coords(&p);
                    diam = FiniteElement::diameter(&el);
                }
                for a in 0..n {
                    ensure!((got[a] - v[a]).abs() < 1e-11, "basis {a} of element {i}");
                    for q in 0..rd {
                        ensure!((gg[(q, a)] - gr[a][q]).abs() < 1e-10, "gradient {a} of element {i}");
                    }
                }
                for r in 0..d {
                    ensure!((xx[r] - x[r]).abs() < 1e-9, "position in element {i}");
                    for q in 0..rd {
                        ensure!((jj[(r, q)] - j[q][r]).abs() < 1e-9, "Jacobian of element {i}");
                    }
                }
                ensure!((diam - g.diameter()).abs() < 1e-9, "diameter of element {i}");
            }
        }
    }
    Ok(Some(digest(&m.connectivity().len())))
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

/// Weights of a field: distinct for all nodes and components.
fn weights(n: usize, sdim: usize) -> DVector<f64> {
    DVector::from_fn(n * sdim, |i, _| ((i * 37 + 11) % 101) as f64 - 50.0 + i as f64 * 0.125)
}

/// All ways to interpolate on a space must give the field that the reference space describes.
fn check_interpolation<S, D, SD>(space: &S, reference: &Mixed<D>, pts: &[OPoint<f64, D>], which: usize) -> Result<(), String>
where
    S: FindClosestElement<f64> + FiniteElementSpace<f64, GeometryDim = D, ReferenceDim = D> + Sync,
    D: SmallDim,
    SD: SmallDim,
    DefaultAllocator: TriDimAllocator<f64, D, D, SD> + DimAllocator<f64, D>,
    OPoint<f64, D>: Send + Sync,
    <DefaultAllocator as fenris::nalgebra::allocator::Allocator<f64, D>>::Buffer: Send + Sync,
{
    let (d, sd) = (D::dim(), SD::dim());
    let u = weights(reference.num_nodes, sd);
    // where each point is, according to the space (C18 checks that elsewhere)
    let at: Vec<Option<(usize, P)>> =
        pts.iter().map(|p| space.find_closest_element_and_reference_coords(p).map(|(e, x)| (e, coords(&x)))).collect();
    let want: Vec<(Vec<f64>, Vec<Vec<f64>>)> = at
        .iter()
        .map(|a| match a {
            Some((e, x)) => reference.field(*e, *x, u.as_slice(), sd, d),
            None => (vec![0.0; sd], vec![vec![0.0; sd]; d]),
        })
        .collect();
    let values = |got: &[fenris::nalgebra::OVector<f64, SD>], what: &str| -> Result<(), String> {
        ensure_eq!(got.len(), pts.len(), "{} values", what);
        for i in 0..pts.len() {
            for s in 0..sd {
                ensure!(near(got[i][s], want[i].0[s]), "{what}: component {s} at point {i} is {}, not {}", got[i][s], want[i].0[s]);
            }
        }
        Ok(())
    };
    let gradients = |got: &[fenris::nalgebra::OMatrix<f64, D, SD>], what: &str| -> Result<(), String> {
        ensure_eq!(got.len(), pts.len(), "{} gradients", what);
        for i in 0..pts.len() {
            for r in 0..d {
                for s in 0..sd {
                    ensure!(
                        near(got[i][(r, s)], want[i].1[r][s]),
                        "{what}: derivative {r} of component {s} at point {i} is {}, not {}",
                        got[i][(r, s)],
                        want[i].1[r][s]
                    );
                }
            }
        }
        Ok(())
    };
    type V<SD> = fenris::nalgebra::OVector<f64, SD>;
    type G<D, SD> = fenris::nalgebra::OMatrix<f64, D, SD>;
    let junk_v = || vec![V::<SD>::repeat(7.0); pts.len()];
    let junk_g = || vec![G::<D, SD>::repeat(-3.0); pts.len()];
    if which & 1 != 0 {
        let mut r = junk_v();
        interpolate_at_points(space, pts, (&u).into(), &mut r);
        values(&r, "interpolate_at_points")?;
    }
    if which & 2 != 0 {
        let mut r = junk_g();
        interpolate_gradient_at_points(space, pts, (&u).into(), &mut r);
        gradients(&r, "interpolate_gradient_at_points")?;
    }
    if which & 4 != 0 {
        let mut seen: Vec<FixedInterpolator<f64>> = vec![];
        for par in [false, true] {
            for w in [ValuesOrGradients::Both, ValuesOrGradients::OnlyValues, ValuesOrGradients::OnlyGradients] {
                let f = if par {
                    FixedInterpolator::from_space_and_points_par(space, pts, w)
                } else {
                    FixedInterpolator::from_space_and_points(space, pts, w)
                };
                if w.compute_values() {
                    values(&f.interpolate::<SD>(&u), "fixed interpolator")?;
                    let mut r = junk_v();
                    f.interpolate_into(&mut r, &u);
                    values(&r, "fixed interpolator into")?;
                }
                if w.compute_gradients() {
                    gradients(&f.interpolate_gradients::<D, SD>(&u), "fixed interpolator")?;
                    let mut r = junk_g();
                    f.interpolate_gradients_into(&mut r, &u);
                    gradients(&r, "fixed interpolator into")?;
                }
                seen.push(f);
            }
        }
        for i in 0..3 {
            ensure!(seen[i] == seen[i + 3], "the parallel and the sequential construction differ");
        }
        // too few degrees of freedom must not be accepted
        if let Some(m) = at.iter().flatten().flat_map(|(e, _)| reference.elems[*e].nodes.iter()).max() {
            let short = DVector::from_element(m * sd, 1.0);
            ensure!(no_panic(|| seen[0].interpolate::<SD>(&short)).is_err(), "missing degrees of freedom are accepted");
        }
    }
    Ok(())
}

fn kinds(d: usize) -> Vec<&'static str> {
    match d {
        1 => vec!["Segment2"],
        2 => vec!["Tri3", "Tri6", "Quad4", "Quad9"],
        _ => vec!["Tet4", "Tet10", "Tet20", "Hex8", "Hex20", "Hex27"],
    }
}

/// A space with one element per given kind (nodes shared at random), and points in them.
fn mixed<D: SmallDim>(which: &[usize], per: usize) -> (Mixed<D>, Vec<OPoint<f64, D>>)
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let d = D::dim();
    let ks: Vec<_> = kinds(d).into_iter().map(kind).collect();
    let num_nodes = 31;
    let mut elems = vec![];
    for (i, w) in which.iter().enumerate() {
        let k = ks[*w].clone();
        let corners: Vec<P> = k
            .shape
            .corners()
            .iter()
            .enumerate()
            .map(|(j, c)| {
                let x = refp(*c);
                let shift = 4.0 * i as f64;
                let bump = 0.125 * ((i + j) % 3) as f64;
                std::array::from_fn(|r| if r < d { x[r] + 0.25 * x[(r + 1) % d] + shift + bump * (r as f64 + 1.0) * 0.5 } else { 0.0 })
            })
            .collect();
        let nodes = (0..k.nodes.len()).map(|j| (7 * j + 5 * i + 3) % num_nodes).collect();
        elems.push(MixedElement { basis: Arc::new(Basis::of(&k)), geo: Geo::new(k.shape, corners), nodes, kind: k });
    }
    let mut s = Mixed { elems, num_nodes, yields: false, locate: HashMap::new(), marker: PhantomData };
    let mut pts = vec![];
    // the points visit the elements in turn, so that consecutive points lie in different elements
    for j in 0..per {
        for i in 0..s.elems.len() {
            let l = lattice(s.elems[i].kind.shape, 0, 6, 2, true);
            let x = refp(l[(5 * j + 3 * i + 1) % l.len()]);
            let p = point::<D>(s.elems[i].geo.map(x));
            s.locate.insert(bits(&p), (i, x));
            pts.push(p);
        }
    }
    (s, pts)
}

fn reference_of<C: TestCell>(m: &Mesh<f64, <C as TestCell>::Dim, C>) -> Mixed<<C as TestCell>::Dim>
where
    DefaultAllocator: DimAllocator<f64, <C as TestCell>::Dim>,
{
    let k = C::kind();
    let b = Arc::new(Basis::of(&k));
    let elems = m
        .connectivity()
        .iter()
        .map(|c| MixedElement {
            kind: k.clone(),
            basis: b.clone(),
            geo: Geo::new(k.shape, vertices(m.vertices(), &c.vertex_indices()[..k.shape.corners().len()])),
            nodes: c.vertex_indices().to_vec(),
        })
        .collect();
    Mixed { elems, num_nodes: m.vertices().len(), yields: false, locate: HashMap::new(), marker: PhantomData }
}

fn place2(v: [i32; 3], map: usize) -> P {
    let x = v.map(|c| c as f64 / 6.0);
    match map {
        0 => [x[0], x[1], 0.0],
        1 => [0.25 * x[0] + 3.0 * x[1] - 1.0, 2.0 * x[0] + 3.5 * x[1] + 0.5, 0.0],
        _ => [8.0 * x[0] + 7.5 * x[1], 0.125 * x[1] + 8.0 * x[0], 0.0],
    }
}
fn place3(v: [i32; 3], map: usize) -> P {
    let x = v.map(|c| c as f64 / 6.0);
    match map {
        0 => x,
        1 => [x[0] + 3.0 * x[1] - 1.0, x[1] + 2.0 * x[2] + x[0], 0.5 * x[2] + x[0]],
        _ => [6.0 * x[0] + 5.5 * x[1], 0.25 * x[1] + 6.0 * x[0] + x[2], 6.0 * x[2] + 5.0 * x[0]],
    }
}

fn subset(cells: &[Affine], mask: u64) -> Vec<Affine> {
    cells.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, c)| *c).collect()
}

fn main() {
    let ctx = Ctx::new(
        "C18",
        Level::ModelChecking,
        "Closest points: every triangle (degenerate ones included) on small lattices in 2D and 3D and every tetrahedron, against every point of a query lattice. Closest elements: every subset of the cells of small meshes under several affine images, all pairs of lattice triangles, and large meshes, against brute force over all elements. Interpolation: every sequence of operations up to a depth on spaces that mix element types, and all schedules of the parallel construction up to a preemption bound.",
    );
    // --- closest points in one element
    let l2: Vec<P> = queries(&[0.0, 1.0, 2.0], 2);
    let q2 = queries(&[-1.0, -0.25, 0.0, 0.25, 0.5, 1.0, 1.375, 2.0, 2.5], 2);
    ctx.suite("closest points of all lattice triangles in 2D", 3 * 729, |i| format!("triangle {i}"), |i| {
        let mut g = Dig(i);
        let u = 2f64.powi(*g.pick(&UNITS));
        let v: Vec<P> = (0..3).map(|_| *g.pick(&l2)).collect();
        let p: Vec<Point2<f64>> = v.iter().map(|x| Point2::new(u * x[0], u * x[1])).collect();
        let e = Tri3d2Element::from_vertices([p[0], p[1], p[2]]);
        let mut n = 0;
        for q in &q2 {
            n += check_closest(&e, Shape::Tri, &v, *q, u)?;
        }
        let b = e.element_bounds();
        for k in 0..2 {
            let (lo, hi) = v.iter().fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x[k]), a.1.max(x[k])));
            ensure!(b.min()[k] == lo * u && b.max()[k] == hi * u, "bounds {b:?}");
        }
        Ok(Some(digest(&(i, n))))
    });
    let l3: Vec<P> = queries(&[0.0, 1.0, 2.0], 3);
    let q3 = queries(if ctx.thorough { &[-0.75, 0.0, 0.5, 1.0, 1.25, 2.5] } else { &[-0.75, 0.5, 1.0, 2.25] }, 3);
    ctx.suite("closest points of all lattice triangles in 3D", 3 * 27 * 27 * 27, |i| format!("triangle {i}"), |i| {
        let mut g = Dig(i);
        let u = 2f64.powi(*g.pick(&UNITS));
        let v: Vec<P> = (0..3).map(|_| *g.pick(&l3)).collect();
        let p: Vec<Point3<f64>> = v.iter().map(|x| Point3::new(u * x[0], u * x[1], u * x[2])).collect();
        let e = Tri3d3Element::from_vertices([p[0], p[1], p[2]]);
        for q in &q3 {
            check_closest(&e, Shape::Tri, &v, *q, u)?;
        }
        let b = e.element_bounds();
        for k in 0..3 {
            let (lo, hi) = v.iter().fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x[k]), a.1.max(x[k])));
            ensure!(b.min()[k] == lo * u && b.max()[k] == hi * u, "bounds {b:?}");
        }
        Ok(Some(digest(&i)))
    });
    let (l4, n4) = if ctx.thorough { (l3.clone(), 27u64.pow(4)) } else { (queries(&[0.0, 2.0], 3), 8u64.pow(4)) };
    let q4 = queries(if ctx.thorough { &[-0.5, 0.5, 1.0, 2.25] } else { &[-0.75, 0.0, 0.375, 0.5, 1.0, 2.25] }, 3);
    ctx.suite("closest points of all lattice tetrahedra", 3 * n4, |i| format!("tetrahedron {i}"), |i| {
        let mut g = Dig(i);
        let u = 2f64.powi(*g.pick(&UNITS));
        let v: Vec<P> = (0..4).map(|_| *g.pick(&l4)).collect();
        let p: Vec<Point3<f64>> = v.iter().map(|x| Point3::new(u * x[0], u * x[1], u * x[2])).collect();
        let e = Tet4Element::from_vertices([p[0], p[1], p[2], p[3]]);
        let mut n = 0;
        for q in &q4 {
            n += check_closest(&e, Shape::Tet, &v, *q, u)?;
        }
        let b = e.element_bounds();
        for k in 0..3 {
            let (lo, hi) = v.iter().fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x[k]), a.1.max(x[k])));
            ensure!(b.min()[k] == lo * u && b.max()[k] == hi * u, "bounds {b:?}");
        }
        Ok(Some(digest(&(i, n))))
    });

    // --- indexed meshes
    let tri = kind("Tri3");
    let tet = kind("Tet4");
    let g2 = grid(Shape::Tri, [2, 2, 0]);
    let qs2: Vec<P> = queries(&[-3.0, -0.5, 0.0, 0.25, 0.5, 1.0, 1.625, 2.0, 7.0], 2);
    ctx.suite("closest elements of triangle meshes", 256 * 3, |i| format!("cells {:b}, map {}", i / 3, i % 3), |i| {
        let m = (i % 3) as usize;
        check_index::<Tri3d2Connectivity>(&typed(&build(&tri, &subset(&g2, i / 3), (i % 4) as usize), |v| place2(v, m)), &qs2.iter().map(|q| if m == 0 { *q } else { [2.0 * q[0], 3.0 * q[1], 0.0] }).collect::<Vec<_>>())
    });
    ctx.suite("closest elements of triangle meshes in 3D", 256 * 2, |i| format!("cells {:b}, map {}", i / 2, i % 2), |i| {
        let m = (i % 2) as usize;
        let f = |v: [i32; 3]| {
            let x = place2(v, m);
            [x[0], x[1], 0.5 * x[0] * x[1] - 0.25 * x[0]]
        };
        let qs = queries(&[-3.0, 0.0, 0.5, 1.25, 5.0], 3);
        check_index::<Tri3d3Connectivity>(&typed(&build(&tri, &subset(&g2, i / 2), 0), f), &qs)
    });
    let g3 = grid(Shape::Tet, [if ctx.thorough { 2 } else { 1 }, 1, 1]);
    let n3 = 1u64 << g3.len();
    let qs3 = queries(if ctx.thorough { &[-2.0, 0.0, 0.375, 1.0, 2.5] } else { &[-3.0, -0.5, 0.0, 0.375, 0.5, 1.0, 2.5] }, 3);
    ctx.suite("closest elements of tetrahedron meshes", n3 * 3, |i| format!("cells {:b}, map {}", i / 3, i % 3), |i| {
        let m = (i % 3) as usize;
        check_index::<Tet4Connectivity>(&typed(&build(&tet, &subset(&g3, i / 3), (i % 4) as usize), |v| place3(v, m)), &qs3)
    });
    // large meshes (deep search trees)
    let sizes: Vec<usize> = ctx.tier(vec![5, 9], vec![5, 9, 14, 20]);
    ctx.suite("closest elements of large triangle meshes", sizes.len() as u64 * 3, |i| format!("size {}, map {}", sizes[i as usize / 3], i % 3), |i| {
        let (n, m) = (sizes[i as usize / 3], (i % 3) as usize);
        let a: Vec<f64> = (-2..2 * n as i32 + 3).map(|k| k as f64 * 0.5 + 0.0625).collect();
        let qs: Vec<P> = queries(&a, 2).into_iter().map(|q| place2([(q[0] * 6.0) as i32, (q[1] * 6.0) as i32, 0], m)).collect();
        check_index::<Tri3d2Connectivity>(&typed(&build(&tri, &grid(Shape::Tri, [n, n, 0]), 2), |v| place2(v, m)), &qs)
    });
    let sizes: Vec<usize> = ctx.tier(vec![2], vec![2, 3]);
    ctx.suite("closest elements of large tetrahedron meshes", sizes.len() as u64 * 3, |i| format!("size {}, map {}", sizes[i as usize / 3], i % 3), |i| {
        let (n, m) = (sizes[i as usize / 3], (i % 3) as usize);
        let a: Vec<f64> = (-1..2 * n as i32 + 2).map(|k| k as f64 * 0.5 + 0.0625).collect();
        let qs: Vec<P> = queries(&a, 3).into_iter().map(|q| place3(q.map(|c| (c * 6.0) as i32), m)).collect();
        check_index::<Tet4Connectivity>(&typed(&build(&tet, &grid(Shape::Tet, [n, n, n]), 2), |v| place3(v, m)), &qs)
    });
    // diagonal slivers: any two of their boxes overlap
    let most = ctx.tier(80u64, 140);
    ctx.suite("closest elements of slivers with overlapping boxes", most * 2, |i| format!("{} slivers, kind {}", i / 2 + 1, i % 2), |i| {
        let n = i as usize / 2 + 1;
        let w = 1.0 / 64.0;
        let mut vs = vec![];
        for k in 0..=n {
            vs.push(Point2::new(0.0, k as f64 * w));
            vs.push(Point2::new(4.0, 4.0 + k as f64 * w));
        }
        let mut cells: Vec<Tri3d2Connectivity> = (0..n).map(|k| if (k + i as usize) % 2 == 0 { Tri3d2Connectivity([2 * k, 2 * k + 1, 2 * k + 3]) } else { Tri3d2Connectivity([2 * k, 2 * k + 3, 2 * k + 2]) }).collect();
        if i % 2 == 1 {
            cells.reverse();
        }
        let mut qs = queries(&[-1.0, 0.0, 1.0, 3.0, 5.0], 2);
        // and one in each of them
        for k in 0..n {
            for x in [0.5, 2.0, 3.5] {
                qs.push([x, x + (k as f64 + 0.5) * w, 0.0]);
            }
        }
        check_index::<Tri3d2Connectivity>(&Mesh::from_vertices_and_connectivity(vs, cells), &qs)
    });
    // far away from the origin (the coordinates remain exact)
    let far: Vec<f64> = (18..27).flat_map(|e| [1.0, -1.0].map(|s| s * 2f64.powi(e))).collect();
    ctx.suite("closest elements far away from the origin", far.len() as u64 * 3 * 3 * 2, |i| format!("case {i}"), |i| {
        let mut g = Dig(i);
        let (t, m, n, three) = (*g.pick(&far), g.next(3), [1, 2, 4][g.next(3)], g.bit());
        let u = 1.0 / 16.0;
        if three {
            let qs = queries(&[-2.0, 0.5, 1.0, 1.75, 5.25], 3);
            check_index_in::<Tet4Connectivity>(&typed(&build(&tet, &grid(Shape::Tet, [n.min(2), 1, 2]), 2), |v| place3(v, m)), &qs, u, t)
        } else {
            let qs = queries(&[-2.0, 0.25, 0.5, 1.0, 1.5, 2.75, 5.25], 2);
            check_index_in::<Tri3d2Connectivity>(&typed(&build(&tri, &grid(Shape::Tri, [n, n, 1]), 1), |v| place2(v, m)), &qs, u, t)
        }
    });
    // elements of very different sizes side by side
    let ratios = ctx.tier(6u64, 12);
    ctx.suite("closest elements next to much smaller elements", ratios * 3 * 4 * 2, |i| format!("case {i}"), |i| {
        let mut g = Dig(i);
        let (n, side, reverse, e) = (1usize << (g.next(ratios)), g.next(3), g.bit(), g.next(4) as i32);
        // a square of two triangles, and a row of small ones along a piece of its right side
        let h = 0.5f64.powi(3 * e + 1);
        let w = [h, h / 16.0, 1.0][side];
        let mut vs = vec![Point2::new(-1.0, -1.0), Point2::new(1.0, -1.0), Point2::new(1.0, 1.0), Point2::new(-1.0, 1.0)];
        let mut cells = vec![Tri3d2Connectivity([0, 1, 2]), Tri3d2Connectivity([0, 2, 3])];
        for k in 0..=n {
            vs.push(Point2::new(1.0, k as f64 * h));
            vs.push(Point2::new(1.0 + w, k as f64 * h));
        }
        for k in 0..n {
            let (a, b, c, d) = (4 + 2 * k, 5 + 2 * k, 6 + 2 * k, 7 + 2 * k);
            cells.push(Tri3d2Connectivity([a, b, d]));
            cells.push(Tri3d2Connectivity([a, d, c]));
        }
        if reverse {
            cells.reverse();
        }
        let mut qs = vec![];
        for t in [-1.5, -1.0, -0.5, -1.0 / 64.0, 0.0, 1.0 / 64.0, 0.5, 1.0, 1.5, 4.0] {
            for k in [-0.5, 0.0, 0.25, 0.5 * n as f64, n as f64, n as f64 + 0.5] {
                qs.push([1.0 + t * h, k * h, 0.0]);
                qs.push([1.0 + t * w, k * h, 0.0]);
            }
        }
        let m = Mesh::from_vertices_and_connectivity(vs, cells);
        // (away from the origin as far as the coordinates remain exact)
        for t in [2f64.powi(10), 2f64.powi(16), -2f64.powi(16), 2f64.powi(20), -2f64.powi(24), 2f64.powi(26)] {
            check_index_in::<Tri3d2Connectivity>(&m, &qs, 1.0, t).map_err(|e| format!("moved by {t}: {e}"))?;
        }
        check_index::<Tri3d2Connectivity>(&m, &qs)
    });
    // any two triangles, overlapping or apart
    let mut soup: Vec<[usize; 3]> = vec![];
    for a in 0..9 {
        for b in 0..a {
            for c in 0..b {
                let (x, y, z) = (l2[a], l2[b], l2[c]);
                if (y[0] - x[0]) * (z[1] - x[1]) != (y[1] - x[1]) * (z[0] - x[0]) {
                    soup.push([a, b, c]);
                }
            }
        }
    }
    let ns = soup.len() as u64;
    let total = if ctx.thorough { ns * ns * (ns + 1) } else { ns * ns };
    ctx.suite("closest elements of pairs and triples of triangles", total, |i| format!("triangles {i}"), |i| {
        let mut g = Dig(i);
        let mut cells = vec![*g.pick(&soup), *g.pick(&soup)];
        if g.0 > 0 {
            cells.push(soup[g.0 as usize - 1]);
        }
        let vs: Vec<Point2<f64>> = l2.iter().map(|p| Point2::new(p[0], p[1] * 3.0)).collect();
        let m = Mesh::from_vertices_and_connectivity(vs, cells.into_iter().map(Tri3d2Connectivity).collect());
        let qs = queries(&[-2.0, 0.25, 1.0, 1.75, 9.0], 2);
        check_index::<Tri3d2Connectivity>(&m, &qs)
    });

    // --- meshes as spaces
    macro_rules! spaces {
        ($($c:ident),*) => { $(
            let k = $c::kind();
            let cells = grid(k.shape, [2, 1, 1]);
            ctx.suite(&format!("{} meshes as spaces", k.name), 8, |i| format!("case {i}"), |i| {
                let m = (i % 2) as usize;
                let c = if i / 2 % 2 == 0 { &cells[..] } else { &cells[1..] };
                check_space::<$c>(&typed(&build(&k, c, (i / 4) as usize * 2), |v| if k.shape.dim() == 1 { place2([v[0], v[0] / 2, 0], m) } else if k.shape.dim() == 2 { place2(v, m) } else { place3(v, m) }))
            });
        )* };
    }
    spaces!(Segment2d1Connectivity, Segment2d2Connectivity, Tri3d2Connectivity, Tri6d2Connectivity, Tri3d3Connectivity, Quad4d2Connectivity,
        Quad9d2Connectivity, Tet4Connectivity, Tet10Connectivity, Tet20Connectivity, Hex8Connectivity, Hex20Connectivity, Hex27Connectivity);

    // --- interpolation on indexed meshes
    fn on_mesh<C>(l: Mesh<f64, <C as TestCell>::Dim, C>, qs: &[P]) -> Verdict
    where
        C: TestCell + ElementConnectivity<f64, GeometryDim = <C as TestCell>::Dim, ReferenceDim = <C as TestCell>::Dim>,
        <C as TestCell>::Dim: SmallDim,
        C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
        DefaultAllocator: ElementConnectivityAllocator<f64, C>
            + TriDimAllocator<f64, <C as TestCell>::Dim, <C as TestCell>::Dim, U1>
            + TriDimAllocator<f64, <C as TestCell>::Dim, <C as TestCell>::Dim, U2>
            + TriDimAllocator<f64, <C as TestCell>::Dim, <C as TestCell>::Dim, U3>
            + DimAllocator<f64, <C as TestCell>::Dim>,
        Mesh<f64, <C as TestCell>::Dim, C>: Sync,
        SpatiallyIndexed<f64, Mesh<f64, <C as TestCell>::Dim, C>>: Sync,
        OPoint<f64, <C as TestCell>::Dim>: Send + Sync,
        <DefaultAllocator as fenris::nalgebra::allocator::Allocator<f64, <C as TestCell>::Dim>>::Buffer: Send + Sync,
    {
        let r = reference_of(&l);
        let s = SpatiallyIndexed::from_space(l);
        let pts: Vec<OPoint<f64, <C as TestCell>::Dim>> = qs.iter().map(|q| point(*q)).collect();
        check_interpolation::<_, _, U1>(&s, &r, &pts, 7)?;
        check_interpolation::<_, _, U2>(&s, &r, &pts, 7)?;
        check_interpolation::<_, _, U3>(&s, &r, &pts, 7)?;
        // the trait methods
        let u = weights(r.num_nodes, 2);
        let v: Vec<fenris::nalgebra::OVector<f64, U2>> = s.interpolate_at_points(&pts, (&u).into());
        let g: Vec<fenris::nalgebra::OMatrix<f64, <C as TestCell>::Dim, U2>> = s.interpolate_gradient_at_points(&pts, (&u).into());
        let mut v2 = v.clone();
        v2.iter_mut().for_each(|x| x.fill(-1.0));
        s.interpolate_at_points_into(&pts, (&u).into(), &mut v2);
        let mut g2 = g.clone();
        g2.iter_mut().for_each(|x| x.fill(-1.0));
        s.interpolate_gradient_at_points_into(&pts, (&u).into(), &mut g2);
        ensure!(v.len() == pts.len() && g.len() == pts.len() && v == v2 && g == g2, "variants of interpolation differ");
        for (i, p) in pts.iter().enumerate() {
            let x: fenris::nalgebra::OVector<f64, U2> = s.interpolate_at_point(p, (&u).into());
            let y: fenris::nalgebra::OMatrix<f64, <C as TestCell>::Dim, U2> = s.interpolate_gradient_at_point(p, (&u).into());
            ensure!(x == v[i] && y == g[i], "interpolation at one point differs from that at many");
            if let Some((e, xi)) = s.find_closest_element_and_reference_coords(p) {
                let (a, b) = r.field(e, coords(&xi), u.as_slice(), 2, <C as TestCell>::Dim::dim());
                for k in 0..2 {
                    ensure!(near(x[k], a[k]), "value at {p:?}");
                    for q in 0..<C as TestCell>::Dim::dim() {
                        ensure!(near(y[(q, k)], b[q][k]), "gradient at {p:?}");
                    }
                }
            }
        }
        Ok(Some(digest(&(r.elems.len(), pts.len()))))
    }
        ctx.suite("interpolation on triangle meshes", 256 * 2, |i| format!("case {i}"), |i| {
        let m = (i % 2) as usize;
        let mesh = typed(&build(&tri, &subset(&g2, i / 2), (i % 3) as usize), |v| place2(v, m));
        on_mesh::<Tri3d2Connectivity>(mesh, &qs2)
    });
    ctx.suite("interpolation on tetrahedron meshes", 64 * 2, |i| format!("case {i}"), |i| {
        let m = (i % 2) as usize;
        let mesh = typed(&build(&tet, &subset(&grid(Shape::Tet, [1, 1, 1]), i / 2), (i % 3) as usize), |v| place3(v, m));
        on_mesh::<Tet4Connectivity>(mesh, &queries(&[-1.0, 0.25, 0.5, 2.0], 3))
    });

    // --- histories on spaces that mix element types (the buffers are shared between all of them)
    let ops: Vec<(usize, usize, Vec<usize>)> = {
        let mut v = vec![];
        for d in 1..=3 {
            let n = kinds(d).len();
            for first in 0..n {
                for sd in 1..=3 {
                    if d == 3 && first % 2 == 1 && sd != 2 {
                        continue;
                    }
                    v.push((d, sd, vec![first, (first + 1) % n, (first + 2) % n, first]));
                }
            }
            v.push((d, 2, vec![])); // a space without elements
        }
        v
    };
    fn run<D: SmallDim>(sd: usize, which: &[usize], bits: usize, per: usize) -> Result<(), String>
    where
        DefaultAllocator: TriDimAllocator<f64, D, D, U1> + TriDimAllocator<f64, D, D, U2> + TriDimAllocator<f64, D, D, U3> + DimAllocator<f64, D>,
        OPoint<f64, D>: Send + Sync,
        <DefaultAllocator as fenris::nalgebra::allocator::Allocator<f64, D>>::Buffer: Send + Sync,
        D: Sync,
    {
        let (s, mut pts) = mixed::<D>(which, per);
        if which.is_empty() {
            pts = vec![OPoint::origin(); per];
        }
        match sd {
            1 => check_interpolation::<_, _, U1>(&s, &s, &pts, bits),
            2 => check_interpolation::<_, _, U2>(&s, &s, &pts, bits),
            _ => check_interpolation::<_, _, U3>(&s, &s, &pts, bits),
        }
    }
    let no = ops.len() as u64;
    let history = |steps: &[(usize, usize)]| {
        for (step, (op, b)) in steps.iter().enumerate() {
            let (d, sd, which) = &ops[*op];
            match d {
                1 => run::<U1>(*sd, which, 1 << b, 2),
                2 => run::<U2>(*sd, which, 1 << b, 2),
                _ => run::<U3>(*sd, which, 1 << b, 2),
            }
            .map_err(|e| format!("step {step} ({d}D, {sd} components, elements {which:?}): {e}"))?;
        }
        Ok(Some(digest(&steps)))
    };
    ctx.suite("histories of interpolations on mixed spaces", pow(no * 3, 2), |i| format!("history {i}"), |i| {
        let mut g = Dig(i);
        let steps: Vec<_> = (0..2).map(|_| (g.next(no) as usize, g.next(3) as usize)).collect();
        history(&steps)
    });
    if ctx.tier(false, true) {
        ctx.suite("longer histories of interpolations on mixed spaces", pow(no, 3), |i| format!("history {i}"), |i| {
            let mut g = Dig(i);
            let steps: Vec<_> = (0..3).map(|k| (g.next(no) as usize, (k + i as usize) % 3)).collect();
            history(&steps)
        });
    }
    // every number of points, in any element order
    ctx.suite("numbers and orders of points", 6 * 24, |i| format!("case {i}"), |i| {
        let n = (i % 6) as usize;
        let perm = &permutations(4)[(i / 6) as usize];
        let (s, pts) = mixed::<U2>(&[0, 1, 2, 3], 3);
        let pts: Vec<_> = (0..n).map(|k| pts[perm[k % 4] + 4 * (k / 4)]).collect();
        check_interpolation::<_, _, U2>(&s, &s, &pts, 7)?;
        Ok(Some(digest(&(n, perm.clone()))))
    });

    // --- schedules of the parallel construction
    #[derive(Debug, Clone)]
    struct S {
        points: usize,
        which: Vec<usize>,
        workers: usize,
        splits: usize,
        preempt: usize,
    }
    let mut scs = vec![];
    for points in 0..=ctx.tier(5, 6) {
        for which in [vec![0, 3, 1], vec![2], vec![]] {
            for (workers, splits) in [(2, 2), (2, 4), (3, 4)] {
                scs.push(S { points, which: which.clone(), workers, splits, preempt: ctx.tier(2, 3) });
            }
        }
    }
    ctx.schedules(
        "parallel construction of fixed interpolators",
        &scs,
        |s| {
            let mut c = Config::new(s.workers, s.splits, s.preempt);
            c.max_runs = ctx.tier(4_000, 200_000);
            c
        },
        |s| format!("{s:?}"),
        |s| {
            let (mut space, mut pts) = mixed::<U2>(&s.which, 6);
            if pts.is_empty() {
                pts = vec![Point2::origin(); 6];
            }
            pts.truncate(s.points);
            let want = FixedInterpolator::from_space_and_points(&space, &pts, ValuesOrGradients::Both);
            space.yields = true;
            let got = FixedInterpolator::from_space_and_points_par(&space, &pts, ValuesOrGradients::Both);
            ensure!(got == want, "the parallel construction differs from the sequential one");
            Ok(String::new())
        },
    );
    ctx.assume("distances are compared up to 1e-7; coordinates are of order one; at points at equal distance from several elements any of these is accepted");
    ctx.finish()
}
