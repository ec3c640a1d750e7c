//! C16: element bases and geometry maps.
use checks::cells::{kind, point, Kind, Shape, TestCell, I3};
use checks::fem::*;
use fenris::allocators::BiDimAllocator;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DMatrix, DVector, DefaultAllocator, DimName, Dyn, MatrixViewMut, OPoint, Point1, Point2, Point3, U1, U2, U3};
use hk::*;
use std::sync::Arc;

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

/// Check basis values and gradients of any reference element at a point.
fn check_basis<E>(e: &E, b: &Basis, x: [f64; 3]) -> Verdict
where
    E: ReferenceFiniteElement<f64>,
    DefaultAllocator: fenris::allocators::DimAllocator<f64, E::ReferenceDim>,
{
    let n = b.coef.len();
    ensure_eq!(e.num_nodes(), n, "number of nodes");
    let p = point::<E::ReferenceDim>(x);
    let d = E::ReferenceDim::dim();
    let scale = 1.0 + x.iter().take(d).fold(0.0f64, |a, c| a.max(c.abs())).powi(4) * 20.0;
    let mut v = vec![f64::NAN; n];
    e.populate_basis(&mut v, &p);
    let mut g = DMatrix::from_element(d, n, f64::NAN);
    e.populate_basis_gradients(MatrixViewMut::from_slice_generic(g.as_mut_slice(), E::ReferenceDim::name(), Dyn(n)), &p);
    let (wv, wg) = (b.value(x), b.grad(x));
    for i in 0..n {
        ensure!(close(v[i], wv[i], 2e-13 * scale), "basis function {i} at {x:?} is {}, not {}", v[i], wv[i]);
        for k in 0..d {
            ensure!(
                close(g[(k, i)], wg[i][k], 1e-12 * scale),
                "derivative {k} of basis function {i} at {x:?} is {}, not {}",
                g[(k, i)],
                wg[i][k]
            );
        }
    }
    ensure!(close(v.iter().sum(), 1.0, 1e-12 * scale), "the basis sums to {} at {x:?}", v.iter().sum::<f64>());
    Ok(Some(digest(&x.map(f64::to_bits))))
}

fn with_nodes<C: TestCell>(geo: &Geo, k: &Kind, offset: usize) -> (Vec<OPoint<f64, C::Dim>>, C)
where
    DefaultAllocator: fenris::allocators::DimAllocator<f64, C::Dim>,
{
    // the nodes of the element lie at scattered positions of the vertex array
    let n = k.nodes.len();
    let mut vs = vec![point::<C::Dim>([1e3, -1e3, 5e2]); 2 * n + offset];
    let mut idx = vec![];
    for (i, x) in k.nodes.iter().enumerate() {
        let at = (offset + 2 * (n - 1 - i)).min(vs.len() - 1);
        vs[at] = point::<C::Dim>(geo.map(refp(*x)));
        idx.push(at);
    }
    (vs, C::make(&idx))
}

/// The geometry of one element.
fn check_geometry<C>(geo: &Geo, k: &Kind, b: &Basis, pts: &[I3], deep: bool) -> Verdict
where
    C: TestCell + ElementConnectivity<f64, GeometryDim = <C as TestCell>::Dim>,
    <C as TestCell>::Dim: fenris::SmallDim,
    DefaultAllocator: BiDimAllocator<f64, <C as TestCell>::Dim, C::ReferenceDim>,
    C::ReferenceDim: fenris::nalgebra::DimMin<C::ReferenceDim, Output = C::ReferenceDim>,
    DefaultAllocator: Allocator<f64, C::ReferenceDim, C::ReferenceDim>,
{
    let (vs, c) = with_nodes::<C>(geo, k, 1);
    let e = c.element(&vs).ok_or("no element for valid indices")?;
    let (gd, rd) = (C::Dim::dim(), C::ReferenceDim::dim());
    let diam = geo.diameter();
    let reach = geo.corners.iter().flatten().fold(diam, |a, c| a.max(c.abs()));
    ensure!(close(e.diameter(), diam, 1e-13 * reach), "diameter {} instead of {diam}", e.diameter());
    for (i, x) in k.nodes.iter().enumerate() {
        let p = e.map_reference_coords(&point(refp(*x)));
        for r in 0..gd {
            ensure!(close(p[r], vs[c.vertex_indices()[i]][r], 1e-12 * reach), "node {i} is mapped to {p:?}");
        }
    }
    for x in pts {
        let xi = refp(*x);
        let p = e.map_reference_coords(&point(xi));
        let j = e.reference_jacobian(&point(xi));
        let (wp, wj) = (geo.map(xi), geo.jac(xi));
        let s = reach * (1.0 + xi.iter().map(|c| c.abs()).fold(0.0, f64::max).powi(3));
        for r in 0..gd {
            ensure!(close(p[r], wp[r], 1e-12 * s), "{xi:?} is mapped to {p:?}, not {wp:?}");
            for q in 0..rd {
                ensure!(close(j[(r, q)], wj[q][r], 1e-12 * s), "Jacobian entry ({r}, {q}) at {xi:?} is {}, not {}", j[(r, q)], wj[q][r]);
            }
        }
        if deep {
            check_basis(&e, b, xi)?;
        }
    }
    let _ = (gd, rd);
    Ok(Some(digest(&geo.corners.iter().flatten().map(|c| c.to_bits()).collect::<Vec<_>>())))
}

/// Sets of corner displacements, in units, enumerated by index.
struct Family {
    shape: Shape,
    gd: usize,
    /// displacement choices per coordinate
    choices: Vec<f64>,
    movable: Vec<usize>,
    /// size, and distance from the origin (in sizes)
    worlds: Vec<(f64, f64)>,
}

impl Family {
    fn count(&self) -> u64 {
        pow(self.choices.len() as u64, (self.movable.len() * self.gd) as u32) * self.worlds.len() as u64
    }
    fn get(&self, i: u64, proto: &Geo) -> Geo {
        let mut d = Dig(i);
        let (s, far) = *d.pick(&self.worlds);
        let mut c: Vec<[f64; 3]> = self.shape.corners().iter().map(|c| plain(*c, self.shape)).collect();
        for m in &self.movable {
            for r in 0..self.gd {
                c[*m][r] += *d.pick(&self.choices);
            }
        }
        // an affine image, so that nothing is axis aligned or centred at the origin
        let skew = |x: [f64; 3]| -> [f64; 3] {
            let y = match self.gd {
                1 => [2.0 * x[0] + 0.25, 0.0, 0.0],
                2 => [x[0] + 0.25 * x[1] + 1.5, x[1] - 0.5 * x[0] - 0.75, 0.0],
                _ => [x[0] + 0.25 * x[1] + 1.5, x[1] - 0.5 * x[2] - 0.75, x[2] + 0.125 * x[0] + 0.5],
            };
            std::array::from_fn(|k| if k < self.gd { (y[k] + far) * s } else { 0.0 })
        };
        proto.with(c.into_iter().map(skew).collect())
    }
}

fn plain(c: I3, s: Shape) -> [f64; 3] {
    std::array::from_fn(|k| if k < s.dim() { c[k] as f64 / 3.0 - 1.0 } else { 0.0 })
}

fn geometry<C>(ctx: &Arc<Ctx>, extra: &(impl Fn(&C::Element, &Geo, &[OPoint<f64, <C as TestCell>::Dim>], bool) -> Result<(), String> + Sync))
where
    C: TestCell + ElementConnectivity<f64, GeometryDim = <C as TestCell>::Dim>,
    <C as TestCell>::Dim: fenris::SmallDim,
    DefaultAllocator: BiDimAllocator<f64, <C as TestCell>::Dim, C::ReferenceDim>,
    C::ReferenceDim: fenris::nalgebra::DimMin<C::ReferenceDim, Output = C::ReferenceDim>,
{
    let k = C::kind();
    let b = Basis::of(&k);
    let gd = C::Dim::dim();
    let proto = Geo::new(k.shape, k.shape.corners().iter().map(|c| plain(*c, k.shape)).collect());
    let linear = k.order == 1;
    let n = k.shape.corners().len();
    let all: Vec<usize> = (0..n).collect();
    // (name, movable corners, choices)
    let t = ctx.thorough;
    let mut fams: Vec<(String, Family)> = vec![];
    let f = |movable: Vec<usize>, choices: &[f64], worlds: &[(f64, f64)]| Family {
        shape: k.shape,
        gd,
        choices: choices.to_vec(),
        movable,
        worlds: worlds.to_vec(),
    };
    let three = [0.0, 0.125, -0.25];
    let two = [0.0, 0.1875];
    // the usual, small and large, very small and very large, and far away
    let tiny = 2f64.powi(-40);
    let worlds = [(1.0, 0.0), (0.0078125, 0.0), (128.0, 0.0), (tiny, 0.0), (1.0 / tiny, 0.0), (1.0, 1048576.0), (0.0009765625, 131072.0)];
    match n {
        2 => fams.push(("both corners".into(), f(all, &three, &worlds))),
        3 => fams.push(("all corners".into(), f(all, if linear || t { &three } else { &two }, &worlds))),
        4 if gd == 2 => fams.push(("all corners".into(), f(all, if t { &three } else { &two }, &worlds))),
        4 => fams.push(("all corners".into(), f(all, &two, if linear || t { &worlds } else { &worlds[..1] }))),
        _ => {
            for i in 0..n {
                for j in 0..i {
                    if linear || t || i == 7 {
                        fams.push((format!("corners {j} and {i}"), f(vec![j, i], if t { &three } else { &two }, &worlds[..])));
                    }
                }
            }
        }
    }
    // points in and around the cell
    let pts = lattice(k.shape, -2, 8, if k.shape.dim() == 3 { 5 } else { 2 }, false);
    let inner = lattice(k.shape, 0, 6, if k.shape.dim() == 3 { 3 } else { 2 }, true);
    let _ = inner;
    for (name, fam) in fams {
        ctx.suite(
            &format!("geometry of {} in {gd}D, {name}", C::NAME),
            fam.count(),
            |i| format!("corners {:?}", fam.get(i, &proto).corners),
            |i| {
                let g = fam.get(i, &proto);
                let r = check_geometry::<C>(&g, &k, &b, &pts, i < 8)?;
                let (vs, c) = with_nodes::<C>(&g, &k, 0);
                let e = c.element(&vs).ok_or("no element")?;
                let local: Vec<OPoint<f64, <C as TestCell>::Dim>> = c.vertex_indices().iter().map(|i| vs[*i].clone()).collect();
                extra(&e, &g, &local, i % fam.worlds.len() as u64 == 0)?;
                // gathering the variables of the element
                let u = DVector::from_fn(2 * vs.len(), |i, _| i as f64);
                let mut ul = DMatrix::from_element(2, k.nodes.len(), f64::NAN);
                c.populate_element_variables(MatrixViewMut::from_slice_generic(ul.as_mut_slice(), U2::name(), Dyn(k.nodes.len())), &u);
                for (i, v) in c.vertex_indices().iter().enumerate() {
                    ensure!(ul[(0, i)] == 2.0 * *v as f64 && ul[(1, i)] == 2.0 * *v as f64 + 1.0, "variables of node {i}: {ul}");
                }
                Ok(r)
            },
        );
    }
}

/// Mapping points of the cell back to reference coordinates, and projecting points onto it.
fn inverse<E>(e: &E, g: &Geo, s: Shape, unit: bool) -> Result<(), String>
where
    E: FiniteElement<f64, ReferenceDim = <E as FiniteElement<f64>>::GeometryDim>,
    DefaultAllocator: BiDimAllocator<f64, E::GeometryDim, E::ReferenceDim>,
    E::ReferenceDim: fenris::nalgebra::DimMin<E::ReferenceDim, Output = E::ReferenceDim>,
{
    let d = s.dim();
    let diam = g.diameter();
    for x in lattice(s, 0, 6, if d == 3 { 3 } else { 2 }, true) {
        let xi = refp(x);
        let p = point::<E::GeometryDim>(g.map(xi));
        // coordinates are rounded
        let far = p.coords.norm() / diam;
        let r = map_physical_coordinates(e, &p).map_err(|m| format!("the point {xi:?} of the cell is not mapped back: {m}"))?;
        for k in 0..d {
            ensure!(close(r[k], xi[k], 1e-9 + 1e-11 * far), "the point {xi:?} of the cell is mapped back to {r:?}");
        }
        let q = project_physical_coordinates(e, &p).map_err(|m| format!("the point {xi:?} of the cell is not projected: {m}"))?;
        for k in 0..d {
            ensure!(close(q[k], xi[k], 1e-8 + 1e-10 * far), "the point {xi:?} of the cell is projected to {q:?}");
        }
    }
    if unit {
        // far away: any answer is acceptable as long as there is one, and it is not wrong
        for f in [1e3, 1e7, 1e9, -1e12] {
            let p = point::<E::GeometryDim>([f * diam, 0.3 * f * diam, 0.1 * f]);
            for (i, r) in [map_physical_coordinates(e, &p), project_physical_coordinates(e, &p)].into_iter().enumerate() {
                if let Ok(xi) = r {
                    let y = g.map(std::array::from_fn(|k| if k < d { xi[k] } else { 0.0 }));
                    let err = (0..d).map(|k| (y[k] - p[k]).abs()).fold(0.0, f64::max);
                    ensure!(err < 1e-3 * f.abs() * diam, "the far point {p:?} is taken to {xi:?} ({}), which maps to {y:?}", ["map", "project"][i]);
                }
            }
        }
    }
    Ok(())
}

/// Mapping points of a strongly distorted or very flat cell back to reference coordinates.
fn far_from_affine<C>(g: &Geo, k: &Kind) -> Verdict
where
    C: TestCell + ElementConnectivity<f64, GeometryDim = <C as TestCell>::Dim, ReferenceDim = <C as TestCell>::Dim>,
    <C as TestCell>::Dim: fenris::SmallDim + fenris::nalgebra::DimMin<<C as TestCell>::Dim, Output = <C as TestCell>::Dim>,
    DefaultAllocator: BiDimAllocator<f64, <C as TestCell>::Dim, <C as TestCell>::Dim>,
{
    let d = k.shape.dim();
    let inverse_norm = |j: [[f64; 3]; 3]| -> Option<f64> {
        let mut m = DMatrix::from_fn(d, d, |r, c| j[c][r]);
        // equilibrate the rows, so that flat cells are no trouble
        let s: Vec<f64> = (0..d).map(|r| m.row(r).norm()).collect();
        if s.iter().any(|s| *s == 0.0) {
            return None;
        }
        for r in 0..d {
            let mut row = m.row_mut(r);
            row /= s[r];
        }
        if m.determinant() < 1e-2 {
            return None;
        }
        let mut i = m.try_inverse()?;
        for c in 0..d {
            let mut col = i.column_mut(c);
            col /= s[c];
        }
        Some(i.norm())
    };
    let step = if d == 3 { 3 } else { 1 };
    let inner = lattice(k.shape, 0, 6, step, true);
    // a valid cell: the map is orientation preserving, with some reserve
    if inner.iter().any(|x| inverse_norm(g.jac(refp(*x))).is_none()) {
        return Ok(None);
    }
    let (vs, c) = with_nodes::<C>(g, k, 0);
    let e = c.element(&vs).ok_or("no element")?;
    let diam = g.diameter();
    for x in inner {
        let xi = refp(x);
        let p = point::<<C as TestCell>::Dim>(g.map(xi));
        let s = inverse_norm(g.jac(xi)).unwrap();
        let tol = 1e-10 + s * (1e-11 * diam + 1e-13 * p.coords.norm());
        let r = map_physical_coordinates(&e, &p).map_err(|m| format!("the point {xi:?} of the cell is not mapped back: {m}"))?;
        for k in 0..d {
            ensure!(close(r[k], xi[k], tol), "the point {xi:?} of the cell is mapped back to {r:?}");
        }
        // the projection solves normal equations
        let tol = 1e-9 + 10.0 * s * s * diam * (1e-12 * diam + 1e-14 * p.coords.norm());
        if tol < 1e-4 {
            let r = project_physical_coordinates(&e, &p).map_err(|m| format!("the point {xi:?} of the cell is not projected: {m}"))?;
            for k in 0..d {
                ensure!(close(r[k], xi[k], tol), "the point {xi:?} of the cell is projected to {r:?}");
            }
        }
    }
    Ok(Some(digest(&g.corners.iter().flatten().map(|c| c.to_bits()).collect::<Vec<_>>())))
}

/// All lists of `n` distinct lattice points, the first of them in the given set, which may be valid cells, with flattened variants.
fn distorted<C>(ctx: &Arc<Ctx>, corners: &[Vec<[i32; 3]>], flat: &[i32])
where
    C: TestCell + ElementConnectivity<f64, GeometryDim = <C as TestCell>::Dim, ReferenceDim = <C as TestCell>::Dim>,
    <C as TestCell>::Dim: fenris::SmallDim + fenris::nalgebra::DimMin<<C as TestCell>::Dim, Output = <C as TestCell>::Dim>,
    DefaultAllocator: BiDimAllocator<f64, <C as TestCell>::Dim, <C as TestCell>::Dim>,
{
    let k = C::kind();
    let proto = Geo::new(k.shape, k.shape.corners().iter().map(|c| plain(*c, k.shape)).collect());
    let (m, d) = (flat.len() as u64, k.shape.dim());
    let get = |i: u64| {
        let mut i = Dig(i);
        let f = *i.pick(flat);
        let axis = i.next(d as u64) as usize;
        let c = &corners[i.0 as usize];
        proto.with(c.iter().map(|c| std::array::from_fn(|r| if r < d { c[r] as f64 * if r == axis { 2f64.powi(f) } else { 1.0 } } else { 0.0 })).collect())
    };
    ctx.suite(&format!("{} far from affine, and flat", C::NAME), corners.len() as u64 * m * d as u64, |i| format!("corners {:?}", get(i).corners), |i| far_from_affine::<C>(&get(i), &k));
}

/// All lists of `n` distinct points out of `pts` with a positive orientation of the first ones.
fn lists(pts: &[[i32; 3]], n: usize, good: &dyn Fn(&[[i32; 3]]) -> bool) -> Vec<Vec<[i32; 3]>> {
    let mut out: Vec<Vec<[i32; 3]>> = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|l| pts.iter().filter(|p| !l.contains(p)).map(|p| [l.clone(), vec![*p]].concat()).collect::<Vec<_>>()).collect();
        out.retain(|l| good(l));
    }
    out
}

/// Surface elements: projection and normal.
fn surface<E>(e: &E, g: &Geo, s: Shape, normal: [f64; 3], unit: bool) -> Result<(), String>
where
    E: SurfaceFiniteElement<f64>,
    DefaultAllocator: BiDimAllocator<f64, E::GeometryDim, E::ReferenceDim>,
    E::ReferenceDim: fenris::nalgebra::DimMin<E::ReferenceDim, Output = E::ReferenceDim>,
{
    let (d, gd) = (s.dim(), E::GeometryDim::dim());
    let len = normal.iter().map(|c| c * c).sum::<f64>().sqrt();
    for x in lattice(s, -2, 8, 2, false) {
        let xi = refp(x);
        let n = e.normal(&point(xi));
        for k in 0..gd {
            ensure!(close(n[k], normal[k] / len, 1e-10 * (1.0 + g.corners.iter().flatten().fold(0.0f64, |a, c| a.max(c.abs())) / g.diameter())), "the normal is {n:?}, not {normal:?} / {len}");
        }
        let base = g.map(xi);
        let (diam, far) = (g.diameter(), base.iter().map(|c| c.abs()).fold(0.0, f64::max) / g.diameter());
        for h in [0.0f64, 0.5, -2.0, 20.0, 1e8, -1e13] {
            if !unit && h.abs() > 100.0 {
                continue;
            }
            let p = point::<E::GeometryDim>(std::array::from_fn(|k| base[k] + h * diam * normal[k] / len));
            match project_physical_coordinates(e, &p) {
                Ok(q) => {
                    for k in 0..d {
                        ensure!(close(q[k], xi[k], 1e-8 * (1.0 + h.abs()) + 1e-10 * far), "the point at distance {h} above {xi:?} is projected to {q:?}");
                    }
                }
                Err(m) => ensure!(h.abs() > 100.0, "the point at distance {h} above {xi:?} is not projected: {m}"),
            }
        }
    }
    Ok(())
}

fn basis_suite<E>(ctx: &Arc<Ctx>, name: &'static str, label: &str, e: E)
where
    E: ReferenceFiniteElement<f64> + Sync,
    DefaultAllocator: fenris::allocators::DimAllocator<f64, E::ReferenceDim>,
{
    let k = kind(name);
    let b = Basis::of(&k);
    let (lo, hi) = ctx.tier((-3, 9), (-6, 12));
    let mut pts: Vec<[f64; 3]> = lattice(k.shape, lo, hi, 1, false).into_iter().map(refp).collect();
    // points off the lattice
    for x in lattice(k.shape, -7, 13, 4, false) {
        pts.push(std::array::from_fn(|c| x[c] as f64 / 11.0 - 0.37 + 0.05 * c as f64));
    }
    ctx.suite(&format!("basis of {label}"), pts.len() as u64, |i| format!("at {:?}", pts[i as usize]), |i| check_basis(&e, &b, pts[i as usize]));
}

fn check_nodes<const D: usize>(k: &Kind, g: &Geo, got: Vec<[f64; D]>, what: &str) -> Result<(), String> {
    ensure_eq!(got.len(), k.nodes.len(), "{} nodes", what);
    for (i, x) in k.nodes.iter().enumerate() {
        let w = g.map(refp(*x));
        for r in 0..D {
            ensure!(close(got[i][r], w[r], 1e-12 * g.corners.iter().flatten().fold(g.diameter(), |a, c| a.max(c.abs()))), "{what}: node {i} is at {:?}, not {w:?}", got[i]);
        }
    }
    Ok(())
}

fn p2(v: &[Point2<f64>]) -> Vec<[f64; 2]> {
    v.iter().map(|p| [p.x, p.y]).collect()
}
fn p3(v: &[Point3<f64>]) -> Vec<[f64; 3]> {
    v.iter().map(|p| [p.x, p.y, p.z]).collect()
}

fn main() {
    let ctx = Ctx::new(
        "C16",
        Level::Exploration,
        "The value and the gradient of every basis function of every element type at every point of a lattice that covers and surrounds the reference cell, and the geometry map, its Jacobian, inverse and projection for every combination of corner displacements from a finite set, compared with the nodal basis that the polynomial space and the node positions determine (computed in exact rational arithmetic).",
    );
    let id = |k: &str| {
        let k = kind(Box::leak(k.to_string().into_boxed_str()));
        let g = Geo::new(k.shape, k.shape.corners().iter().map(|c| plain(*c, k.shape)).collect());
        (k, g)
    };
    // reference elements
    basis_suite(&ctx, "Segment2", "Segment2d1", Segment2d1Element::from_interval([-1.0, 1.0]));
    basis_suite(&ctx, "Segment2", "Segment2d2", Segment2d2Element::from_vertices([Point2::new(0.0, 1.0), Point2::new(2.0, 5.0)]));
    basis_suite(&ctx, "Tri3", "Tri3d3", Tri3d3Element::from_vertices([Point3::new(0.0, 1.0, 2.0), Point3::new(2.0, 5.0, 1.0), Point3::new(7.0, 5.0, 1.0)]));
    macro_rules! refs {
        ($($t:ident $n:expr, $p:ident);* $(;)?) => {
            $( basis_suite(&ctx, $n, stringify!($t), $t::reference()); )*
            ctx.suite("nodes of the reference elements", 1, |_| String::new(), |_| {
                $( let (k, g) = id($n); check_nodes(&k, &g, $p(&$t::reference().vertices()[..]), $n)?; )*
                Ok(Some(1))
            });
        };
    }
    refs!(Tri3d2Element "Tri3", p2; Tri6d2Element "Tri6", p2; Quad4d2Element "Quad4", p2; Quad9d2Element "Quad9", p2;
        Tet4Element "Tet4", p3; Tet10Element "Tet10", p3; Tet20Element "Tet20", p3; Hex8Element "Hex8", p3;
        Hex20Element "Hex20", p3; Hex27Element "Hex27", p3);

    // geometry
    geometry::<Segment2d1Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        inverse(e, g, Shape::Seg, u)
    });
    geometry::<Segment2d2Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        let (a, b) = (g.corners[0], g.corners[1]);
        surface(e, g, Shape::Seg, [b[1] - a[1], a[0] - b[0], 0.0], u)
    });
    geometry::<Tri3d2Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        let k = kind("Tri6");
        check_nodes(&k, g, p2(&Tri6d2Element::from(e).vertices()[..]), "Tri6 from Tri3")?;
        check_nodes(&k, g, p2(&Tri6d2Element::from(*e).vertices()[..]), "Tri6 from Tri3")?;
        inverse(e, g, Shape::Tri, u)
    });
    geometry::<Tri3d3Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        let c = &g.corners;
        let d = |i: usize| -> [f64; 3] { std::array::from_fn(|k| c[i][k] - c[0][k]) };
        surface(e, g, Shape::Tri, checks::poly::cross(d(1), d(2)), u)
    });
    geometry::<Tri6d2Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        inverse(e, g, Shape::Tri, u)
    });
    geometry::<Quad4d2Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        check_nodes(&kind("Quad9"), g, p2(&Quad9d2Element::from(e).vertices()[..]), "Quad9 from Quad4")?;
        check_nodes(&kind("Quad9"), g, p2(&Quad9d2Element::from(*e).vertices()[..]), "Quad9 from Quad4")?;
        inverse(e, g, Shape::Quad, u)
    });
    geometry::<Quad9d2Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        inverse(e, g, Shape::Quad, u)
    });
    geometry::<Tet4Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        check_nodes(&kind("Tet10"), g, p3(&Tet10Element::from(e).vertices()[..]), "Tet10 from Tet4")?;
        check_nodes(&kind("Tet20"), g, p3(&Tet20Element::from(e).vertices()[..]), "Tet20 from Tet4")?;
        check_nodes(&kind("Tet20"), g, p3(&Tet20Element::from_tet4_vertices(*e.vertices()).vertices()[..]), "Tet20 from Tet4")?;
        inverse(e, g, Shape::Tet, u)
    });
    geometry::<Tet10Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        inverse(e, g, Shape::Tet, u)
    });
    geometry::<Tet20Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        inverse(e, g, Shape::Tet, u)
    });
    geometry::<Hex8Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        inverse(e, g, Shape::Hex, u)
    });
    geometry::<Hex20Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        inverse(e, g, Shape::Hex, u)
    });
    geometry::<Hex27Connectivity>(&ctx, &|e, g, v, u| {
        ensure!(e.vertices()[..] == v[..], "vertices");
        inverse(e, g, Shape::Hex, u)
    });
    // strongly distorted and very flat cells
    let grid = |n: i32, h: i32| -> Vec<[i32; 3]> { (0..n * n * h).map(|i| [i % n, i / n % n, i / (n * n)]).collect() };
    let left = |a: [i32; 3], b: [i32; 3], c: [i32; 3]| (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
    let convex = |l: &[[i32; 3]]| {
        let n = l.len();
        n < 3 || (0..n - 2).all(|i| left(l[i], l[i + 1], l[i + 2]) > 0) && (n < 4 || left(l[2], l[3], l[0]) > 0 && left(l[3], l[0], l[1]) > 0)
    };
    let det = |l: &[[i32; 3]]| {
        let d = |i: usize| -> [i32; 3] { std::array::from_fn(|k| l[i][k] - l[0][k]) };
        let (a, b, c) = (d(1), d(2), d(3));
        a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
    };
    let flat = [0, -6, -20, 10];
    let quads = lists(&grid(ctx.tier(4, 5), 1), 4, &convex);
    distorted::<Quad4d2Connectivity>(&ctx, &quads, &flat);
    distorted::<Quad9d2Connectivity>(&ctx, &quads, &flat[..1]);
    let tris = lists(&grid(ctx.tier(4, 5), 1), 3, &convex);
    distorted::<Tri3d2Connectivity>(&ctx, &tris, &flat);
    distorted::<Tri6d2Connectivity>(&ctx, &tris, &flat);
    let tets = lists(&grid(2, ctx.tier(3, 4)), 4, &|l| l.len() < 4 || det(l) > 0);
    distorted::<Tet4Connectivity>(&ctx, &tets, &flat);
    distorted::<Tet10Connectivity>(&ctx, &tets, &flat[1..3]);
    distorted::<Tet20Connectivity>(&ctx, &tets, &flat[1..3]);
    // hexahedra: every assignment of moves to (nearly) all corners
    let moves: &[[i32; 3]] = if ctx.thorough { &[[0, 0, 0], [3, 2, -1], [-1, 3, 2]] } else { &[[0, 0, 0], [3, 1, -3]] };
    let hexes: Vec<Vec<[i32; 3]>> = (0..pow(moves.len() as u64, 8))
        .flat_map(|i| {
            let mut i = Dig(i);
            let picks: Vec<[i32; 3]> = (0..8).map(|_| *i.pick(moves)).collect();
            // the moves, and their mirror images
            [[1, 1, 1], [-1, 1, 1], [1, -1, 1], [1, 1, -1]].map(|sign| {
                Shape::Hex.corners().iter().zip(&picks).map(|(c, m)| std::array::from_fn(|k| 5 * (c[k] / 3 - 1) + sign[k] * m[k])).collect()
            })
        })
        .collect();
    distorted::<Hex8Connectivity>(&ctx, &hexes, &flat);
    distorted::<Hex20Connectivity>(&ctx, &hexes, &flat[..1]);
    distorted::<Hex27Connectivity>(&ctx, &hexes, &flat[..1]);
    // indices out of range
    ctx.suite("missing vertices", 1, |_| String::new(), |_| {
        fn refuses<C>() -> Result<(), String>
        where
            C: TestCell + ElementConnectivity<f64, GeometryDim = <C as TestCell>::Dim>,
            DefaultAllocator: BiDimAllocator<f64, <C as TestCell>::Dim, C::ReferenceDim>,
        {
            let n = C::kind().nodes.len();
            for bad in 0..n {
                let idx: Vec<usize> = (0..n).map(|i| if i == bad { n } else { i }).collect();
                let vs = vec![point::<<C as TestCell>::Dim>([0.0; 3]); n];
                ensure!(no_panic(|| C::make(&idx).element(&vs).is_none()).unwrap_or(true), "{}: an element with a missing vertex", C::NAME);
            }
            Ok(())
        }
        refuses::<Tri3d2Connectivity>()?;
        refuses::<Tri6d2Connectivity>()?;
        refuses::<Quad4d2Connectivity>()?;
        refuses::<Quad9d2Connectivity>()?;
        refuses::<Tet4Connectivity>()?;
        refuses::<Tet10Connectivity>()?;
        refuses::<Tet20Connectivity>()?;
        refuses::<Hex8Connectivity>()?;
        refuses::<Hex20Connectivity>()?;
        refuses::<Hex27Connectivity>()?;
        refuses::<Tri3d3Connectivity>()?;
        Ok(Some(1))
    });
    let _ = (Point1::new(0.0), U1::name(), U3::name());
    ctx.assume("values are compared up to rounding (1e-12 relative to the size of the element)");
    ctx.finish()
}
