//! C33: cells, elements and coordinates of a mesh.
use checks::cells::*;
use checks::fem::refp;
use fenris::allocators::{DimAllocator, ElementConnectivityAllocator};
use fenris::connectivity::*;
use fenris::element::*;
use fenris::geometry::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::*;
use fenris::SmallDim;
use hk::*;
use std::fmt::Debug;

type P = [f64; 3];

fn xyz<D: DimName>(p: &OPoint<f64, D>) -> P
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    std::array::from_fn(|k| if k < D::dim() { p[k] } else { 0.0 })
}

fn pts<D: DimName>(p: &[OPoint<f64, D>]) -> Vec<P>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    p.iter().map(xyz).collect()
}

/// A cell is what its vertices make it.
trait CellOf<D: DimName>: Debug
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    fn is(&self, v: &[OPoint<f64, D>]) -> bool;
}
impl CellOf<U2> for LineSegment2d<f64> {
    fn is(&self, v: &[Point2<f64>]) -> bool {
        v.len() == 2 && [*self.start(), *self.end()] == *v
    }
}
impl CellOf<U2> for Quad2d<f64> {
    fn is(&self, v: &[Point2<f64>]) -> bool {
        self.0[..] == *v
    }
}
impl<const D: usize> CellOf<Const<D>> for Triangle<f64, Const<D>>
where
    DefaultAllocator: DimAllocator<f64, Const<D>>,
    Const<D>: SmallDim,
{
    fn is(&self, v: &[OPoint<f64, Const<D>>]) -> bool {
        self.0[..] == *v
    }
}
impl CellOf<U3> for Tetrahedron<f64> {
    fn is(&self, v: &[Point3<f64>]) -> bool {
        v.len() == 4 && *self == Tetrahedron::from_vertices(v.try_into().unwrap())
    }
}
impl CellOf<U3> for Hexahedron<f64> {
    fn is(&self, v: &[Point3<f64>]) -> bool {
        v.len() == 8 && *self == Hexahedron::from_vertices(v.try_into().unwrap())
    }
}

/// Distinct coordinates that a lattice cannot confuse.
fn coordinates(n: usize) -> Vec<P> {
    (0..n).map(|i| [1.0 + i as f64, 100.0 + (i * i) as f64 * 0.5, -3.0 - (7 * i % 13) as f64]).collect()
}

/// The assignments of vertices (of which `m` exist) to the `n` nodes of a cell: all of them if they are few,
/// otherwise some orders with any one or two nodes changed.
fn assignments(n: usize, m: usize, twice: bool) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    if n <= 4 {
        let labels: Vec<usize> = (0..n + 1).chain([m - 1, m, m + 1, usize::MAX]).collect();
        for i in 0..pow(labels.len() as u64, n as u32) {
            let mut g = Dig(i);
            out.push((0..n).map(|_| *g.pick(&labels)).collect());
        }
        return out;
    }
    let orders: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect(), (0..n).map(|i| (i * (n - 1) + 3) % n + 1).collect(), (0..n).map(|i| m - 1 - (i + 5) % n).collect()];
    for o in &orders {
        out.push(o.clone());
        let subs: Vec<usize> = (0..n).step_by(if twice { 1 } else { 3 }).chain([m - 1, m, usize::MAX]).collect();
        for a in 0..n {
            for x in (0..m + 2).chain([usize::MAX, usize::MAX / 2]) {
                let mut v = o.clone();
                v[a] = x;
                out.push(v.clone());
                for b in (a + 1)..n {
                    for y in &subs {
                        if twice || (a + b + x % 97 + y % 89) % 7 == 0 {
                            let mut w = v.clone();
                            w[b] = *y;
                            out.push(w);
                        }
                    }
                }
            }
        }
    }
    out
}

/// The cell and the element of one connectivity.
fn of_connectivity<C>(v: &[usize], m: usize, verts: impl Fn(&C::Element) -> Vec<P>) -> Verdict
where
    C: TestCell + CellConnectivity<f64, <C as TestCell>::Dim> + ElementConnectivity<f64, GeometryDim = <C as TestCell>::Dim>,
    <C as CellConnectivity<f64, <C as TestCell>::Dim>>::Cell: CellOf<<C as TestCell>::Dim>,
    <C as TestCell>::Dim: SmallDim,
    DefaultAllocator: ElementConnectivityAllocator<f64, C> + DimAllocator<f64, <C as TestCell>::Dim>,
{
    let all: Vec<OPoint<f64, <C as TestCell>::Dim>> = coordinates(m).into_iter().map(point::<<C as TestCell>::Dim>).collect();
    let c = C::make(v);
    ensure_eq!(c.vertex_indices(), v, "vertex indices");
    {
        let mut c2 = c.clone();
        ensure_eq!(&*c2.vertex_indices_mut(), v, "mutable vertex indices");
        c2.vertex_indices_mut().reverse();
        ensure!(c2.vertex_indices().iter().rev().eq(v.iter()), "writing vertex indices");
    }
    let corners = C::kind().shape.corners().len();
    let exist = |ix: &[usize]| ix.iter().all(|i| *i < m);
    let cell = no_panic(|| c.cell(&all)).ok().flatten();
    ensure_eq!(cell.is_some(), exist(&v[..corners]), "a cell was made");
    if let Some(cell) = cell {
        let want: Vec<_> = v[..corners].iter().map(|i| all[*i].clone()).collect();
        ensure!(cell.is(&want), "the cell is {cell:?} instead of one with the vertices {want:?}");
    }
    let el = no_panic(|| c.element(&all)).ok().flatten();
    ensure_eq!(el.is_some(), exist(v), "an element was made");
    if let Some(el) = el {
        ensure_eq!(el.num_nodes(), v.len(), "nodes of the element");
        let want: Vec<P> = v.iter().map(|i| xyz(&all[*i])).collect();
        ensure_eq!(verts(&el), want, "vertices of the element");
        // corners of the reference cell go to the first vertices
        for (x, i) in C::kind().shape.corners().iter().zip(v) {
            let p = el.map_reference_coords(&point::<<C as ElementConnectivity<f64>>::ReferenceDim>(refp(*x)));
            let (p, want) = (xyz(&p), xyz(&all[*i]));
            ensure!((0..3).all(|k| (p[k] - want[k]).abs() <= 1e-10 * (1.0 + want[k].abs())), "corner {x:?} was mapped to {p:?}, not {want:?}");
        }
        // the unknowns of the element
        let n = v.len();
        let u1: DVector<f64> = DVector::from_fn(m, |i, _| i as f64 * 3.0 + 0.25);
        let mut l1 = DMatrix::from_element(1, n, f64::NAN);
        c.populate_element_variables::<U1>(MatrixViewMut::from_slice_generic(l1.as_mut_slice(), U1::name(), Dyn(n)), &u1);
        ensure!((0..n).all(|i| l1[(0, i)] == u1[v[i]]), "unknowns of the element: {l1}");
        let u3: DVector<f64> = DVector::from_fn(3 * m, |i, _| i as f64 * 5.0 - 0.5);
        let mut l3 = DMatrix::from_element(3, n, f64::NAN);
        c.populate_element_variables::<U3>(MatrixViewMut::from_slice_generic(l3.as_mut_slice(), U3::name(), Dyn(n)), &u3);
        ensure!((0..n).all(|i| (0..3).all(|k| l3[(k, i)] == u3[3 * v[i] + k])), "unknowns of the element: {l3}");
    }
    // the faces in their order
    let mut faces = vec![];
    CellConnectivity::<f64, <C as TestCell>::Dim>::for_each_face(&c, |f| faces.push(f.vertex_indices().to_vec()));
    let want: Vec<Vec<usize>> = (0..c.num_faces()).map(|i| c.get_face_connectivity(i).map(|f| f.vertex_indices().to_vec()).unwrap_or_default()).collect();
    ensure_eq!(faces, want, "faces");
    ensure!(c.get_face_connectivity(c.num_faces()).is_none() && c.get_face_connectivity(usize::MAX).is_none(), "there is a face beyond the last");
    Ok(Some(digest(&(v, m))))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Translate(usize),
    Translated(usize),
    Each(usize),
    All(usize),
    Write(usize),
    CloneIt,
}
use Op::*;
const OPS: [Op; 11] = [Translate(0), Translate(1), Translated(0), Translated(1), Each(0), Each(1), All(0), All(1), Write(0), Write(1), CloneIt];
const SHIFTS: [P; 2] = [[0.5, -2.0, 4096.0], [-1e9, 0.125, 3.0]];

/// All ways of looking at the cells of a mesh.
fn views<C>(m: &Mesh<f64, <C as TestCell>::Dim, C>, vs: &[P], cells: &[Vec<usize>]) -> Result<(), String>
where
    C: TestCell + CellConnectivity<f64, <C as TestCell>::Dim>,
    C::Cell: CellOf<<C as TestCell>::Dim> + BoundedGeometry<f64, Dimension = <C as TestCell>::Dim>,
    <C as TestCell>::Dim: SmallDim,
    DefaultAllocator: DimAllocator<f64, <C as TestCell>::Dim>,
{
    let d = <C as TestCell>::Dim::dim();
    ensure_eq!(pts(m.vertices()), vs.to_vec(), "vertices");
    let have: Vec<Vec<usize>> = m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect();
    ensure_eq!(have, cells.to_vec(), "connectivity");
    let n = C::kind().shape.corners().len();
    let want: Vec<Vec<_>> = cells.iter().map(|c| c[..n].iter().map(|i| point::<<C as TestCell>::Dim>(vs[*i])).collect::<Vec<_>>()).collect();
    ensure_eq!(m.num_geometries(), cells.len(), "number of geometries");
    let all: Vec<C::Cell> = m.cell_iter().collect();
    ensure_eq!(all.len(), cells.len(), "cells");
    for (i, w) in want.iter().enumerate() {
        ensure!(all[i].is(w), "cell {i} of the iteration is {:?}, its vertices are {w:?}", all[i]);
        let c = m.get_cell(i).ok_or(format!("cell {i} is missing"))?;
        ensure!(c.is(w), "cell {i} is {c:?}, its vertices are {w:?}");
        let c = m.get_geometry(i).ok_or(format!("geometry {i} is missing"))?;
        ensure!(c.is(w), "geometry {i} is {c:?}, its vertices are {w:?}");
    }
    for i in [cells.len(), cells.len() + 1, usize::MAX] {
        ensure!(m.get_cell(i).is_none(), "there is a cell {i}");
        ensure!(m.get_geometry(i).is_none(), "there is a geometry {i}");
    }
    if !cells.is_empty() {
        let b = m.bounding_box();
        for k in 0..d {
            let at = || want.iter().flatten().map(|p| p[k]);
            let (lo, hi) = (at().fold(f64::INFINITY, f64::min), at().fold(f64::NEG_INFINITY, f64::max));
            ensure!(b.min()[k] == lo && b.max()[k] == hi, "bounding box in direction {k}: {} to {}, not {lo} to {hi}", b.min()[k], b.max()[k]);
        }
    }
    Ok(())
}

fn moved<C>(l: &Lattice, ops: &[Op]) -> Verdict
where
    C: TestCell + CellConnectivity<f64, <C as TestCell>::Dim>,
    C::Cell: CellOf<<C as TestCell>::Dim> + BoundedGeometry<f64, Dimension = <C as TestCell>::Dim>,
    <C as TestCell>::Dim: SmallDim,
    DefaultAllocator: DimAllocator<f64, <C as TestCell>::Dim>,
{
    let d = <C as TestCell>::Dim::dim();
    let flat = |p: P| -> P { std::array::from_fn(|k| if k < d { p[k] } else { 0.0 }) };
    let mut m = typed::<C>(l, plain);
    let mut vs: Vec<P> = l.vertices.iter().map(|v| flat(plain(*v))).collect();
    views::<C>(&m, &vs, &l.cells)?;
    for (i, op) in ops.iter().enumerate() {
        let shift = |s: usize| point::<<C as TestCell>::Dim>(SHIFTS[s]).coords;
        match *op {
            Translate(s) => {
                m.translate(&shift(s));
                vs.iter_mut().for_each(|p| (0..d).for_each(|k| p[k] += SHIFTS[s][k]));
            }
            Translated(s) => {
                m = m.translated(&shift(s));
                vs.iter_mut().for_each(|p| (0..d).for_each(|k| p[k] += SHIFTS[s][k]));
            }
            Each(w) => {
                // every vertex once, in whatever order
                let mut seen = vec![];
                m.transform_vertices(|p| {
                    seen.push(xyz(p));
                    p[0] += 3.0;
                    if w == 1 {
                        let x = p[0];
                        p[d - 1] = -x;
                    }
                });
                let sorted = |mut v: Vec<P>| {
                    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    v
                };
                ensure_eq!(sorted(seen), sorted(vs.clone()), "operation {i}: vertices that the function was given");
                for p in vs.iter_mut() {
                    p[0] += 3.0;
                    if w == 1 {
                        p[d - 1] = -p[0];
                    }
                }
            }
            All(w) => {
                let mut calls = 0;
                m.transform_all_vertices(|v| {
                    calls += 1;
                    if w == 0 {
                        v.reverse()
                    } else {
                        for p in v {
                            p[0] *= 2.0;
                        }
                    }
                });
                ensure_eq!(calls, 1, "operation {i}: calls of the function");
                if w == 0 {
                    vs.reverse()
                } else {
                    vs.iter_mut().for_each(|p| p[0] *= 2.0);
                }
            }
            Write(w) => {
                let v = m.vertices_mut();
                ensure_eq!(pts(v), vs, "operation {i}: writable vertices");
                let j = if w == 0 { 0 } else { v.len().wrapping_sub(1) };
                if let Some(p) = v.get_mut(j) {
                    p[0] = 77.0 + i as f64;
                    vs[j][0] = 77.0 + i as f64;
                }
            }
            CloneIt => {
                let c = m.clone();
                ensure!(c == m, "a clone differs");
                m = c;
            }
        }
        views::<C>(&m, &vs, &l.cells).map_err(|e| format!("after operation {i} ({op:?}): {e}"))?;
    }
    Ok(Some(digest(&(format!("{vs:?}"), &l.cells))))
}

/// Elements made of elements of lower order: the same cell, with the nodes where they belong.
fn raised<A, B, D: SmallDim>(low: &A, high: &B, name: &'static str, verts: &[OPoint<f64, D>]) -> Result<(), String>
where
    A: FiniteElement<f64, GeometryDim = D, ReferenceDim = D>,
    B: FiniteElement<f64, GeometryDim = D, ReferenceDim = D>,
    DefaultAllocator: fenris::allocators::BiDimAllocator<f64, D, D>,
{
    let k = kind(name);
    ensure_eq!(verts.len(), k.nodes.len(), "vertices of the {name}");
    ensure_eq!(high.num_nodes(), k.nodes.len(), "nodes of the {name}");
    for (i, x) in k.nodes.iter().enumerate() {
        let xi = point::<D>(refp(*x));
        let (a, b, v) = (xyz(&low.map_reference_coords(&xi)), xyz(&high.map_reference_coords(&xi)), xyz(&verts[i]));
        let scale = 1e-12 * (1.0 + a.iter().fold(0.0f64, |s, x| s.max(x.abs())));
        ensure!((0..3).all(|c| (a[c] - v[c]).abs() <= scale), "vertex {i} of the {name} is {v:?}, not {a:?}");
        ensure!((0..3).all(|c| (a[c] - b[c]).abs() <= scale), "node {i} of the {name} is mapped to {b:?}, not {a:?}");
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::new(
        "C33",
        Level::ModelChecking,
        "every assignment of existing and missing vertices to the nodes of a cell within the bound, and every sequence of operations on the coordinates of small meshes up to the stated length; non-trivial: all",
    );
    let thorough = ctx.tier(false, true);
    macro_rules! conn {
        ($($c:ident),*) => {$(
            let n = <$c as TestCell>::kind().nodes.len();
            let m = n + 2;
            let all = assignments(n, m, thorough && n <= 10);
            ctx.suite_over(
                &format!("cells and elements of {}", stringify!($c)),
                &all,
                |v| format!("{v:?} with {m} vertices"),
                |v| of_connectivity::<$c>(v, m, |e| pts(&e.vertices()[..])),
            );
        )*};
    }
    conn!(
        Segment2d2Connectivity, Tri3d2Connectivity, Tri3d3Connectivity, Tri6d2Connectivity, Quad4d2Connectivity, Quad9d2Connectivity, Tet4Connectivity,
        Tet10Connectivity, Tet20Connectivity, Hex8Connectivity, Hex20Connectivity, Hex27Connectivity
    );

    macro_rules! moves {
        ($($c:ident, $len:expr);*) => {$(
            let k = <$c as TestCell>::kind();
            let g = grid(k.shape, [2, 1, 1]);
            let mut lattices: Vec<Lattice> = (0..1usize << g.len().min(3))
                .flat_map(|s| {
                    let some: Vec<_> = g.iter().enumerate().filter(|(i, _)| s >> i.min(&2) & 1 == 1).map(|x| *x.1).collect();
                    (0..RELABELLINGS).map(|r| build(&kind(<$c as TestCell>::NAME), &some, r)).collect::<Vec<_>>()
                })
                .collect();
            lattices.sort_by_key(|l| (l.cells.clone(), l.vertices.clone()));
            lattices.dedup();
            let len: u32 = $len;
            let seq = |i: u64| {
                let mut g = Dig(i);
                let l = g.next(lattices.len() as u64);
                (l, (0..len).map(|_| *g.pick(&OPS)).collect::<Vec<_>>())
            };
            ctx.suite(
                &format!("moving meshes of {}", stringify!($c)),
                lattices.len() as u64 * pow(OPS.len() as u64, len),
                |i| format!("{:?}", seq(i)),
                |i| {
                    let (l, ops) = seq(i);
                    moved::<$c>(&lattices[l], &ops)
                },
            );
        )*};
    }
    let l = ctx.tier(4, 5);
    moves!(
        Tri3d2Connectivity, l; Tri3d3Connectivity, l; Quad4d2Connectivity, l; Tet4Connectivity, l - 1; Hex8Connectivity, l - 1; Tri6d2Connectivity, l - 1;
        Quad9d2Connectivity, l - 1; Tet10Connectivity, l - 1; Tet20Connectivity, l - 1; Hex20Connectivity, l - 1; Hex27Connectivity, l - 1
    );

    // element conversions: every cell with vertices on a lattice
    let units = [1.0, 2f64.powi(-40), 2f64.powi(40)];
    let grid2: Vec<[f64; 2]> = (0..9).map(|i| [(i % 3) as f64 - 1.0, (i / 3) as f64 * 2.0 - 1.0]).collect();
    let p2 = |g: &mut Dig, u: f64| {
        let p = g.pick(&grid2);
        Point2::new(p[0] * u, p[1] * u)
    };
    ctx.suite("elements of higher order, triangles", 729 * 3, |i| format!("case {i}"), |i| {
        let mut g = Dig(i);
        let u = *g.pick(&units);
        let a = Tri3d2Element::from_vertices([p2(&mut g, u), p2(&mut g, u), p2(&mut g, u)]);
        for b in [Tri6d2Element::from(&a), Tri6d2Element::from(a)] {
            raised(&a, &b, "Tri6", b.vertices())?;
        }
        ensure!(Tri3d2Element::from(Triangle(*a.vertices())) == a, "the element of the triangle");
        Ok(Some(digest(&i)))
    });
    ctx.suite("elements of higher order, quadrilaterals", 6561 * 3, |i| format!("case {i}"), |i| {
        let mut g = Dig(i);
        let u = *g.pick(&units);
        let a = Quad4d2Element::from_vertices([p2(&mut g, u), p2(&mut g, u), p2(&mut g, u), p2(&mut g, u)]);
        for b in [Quad9d2Element::from(&a), Quad9d2Element::from(a)] {
            raised(&a, &b, "Quad9", b.vertices())?;
        }
        ensure!(Quad4d2Element::from(Quad2d(*a.vertices())) == a, "the element of the quadrilateral");
        Ok(Some(digest(&i)))
    });
    let corners: Vec<P> = (0..if thorough { 12 } else { 8 }).map(|i| [(i & 1) as f64 * 3.0, (i >> 1 & 1) as f64 + 0.5, (i >> 2) as f64 * 2.0 - 1.0]).collect();
    ctx.suite("elements of higher order, tetrahedra", pow(corners.len() as u64, 4) * 3, |i| format!("case {i}"), |i| {
        let mut g = Dig(i);
        let u = *g.pick(&units);
        let mut v = || {
            let p = g.pick(&corners);
            Point3::new(p[0] * u, p[1] * u, p[2] * u)
        };
        let a = Tet4Element::from_vertices([v(), v(), v(), v()]);
        let b = Tet10Element::from(&a);
        raised(&a, &b, "Tet10", b.vertices())?;
        let b = Tet20Element::from(&a);
        raised(&a, &b, "Tet20", b.vertices())?;
        Ok(Some(digest(&i)))
    });
    ctx.suite("segments and surface triangles", 729, |i| format!("case {i}"), |i| {
        let mut g = Dig(i);
        let (a, b) = (p2(&mut g, 1.0), p2(&mut g, 1.0));
        let s = LineSegment2d::from_end_points(a, b);
        for e in [Segment2d2Element::from(&s), Segment2d2Element::from(s.clone()), Segment2d2Element::from_vertices([a, b])] {
            ensure!(*e.vertices() == [a, b], "vertices of the element of {s:?}");
            ensure!(e.to_line_segment() == s && LineSegment2d::from(&e) == s, "the segment of {e:?}");
        }
        let e = Segment2d1Element::from_interval([a.x, b.y]);
        ensure!(*e.vertices() == [Point1::new(a.x), Point1::new(b.y)], "vertices of the interval {e:?}");
        let lift = |p: Point2<f64>, z: f64| Point3::new(p.x, p.y, z);
        let t = Triangle([lift(a, 0.5), lift(b, -2.0), lift(p2(&mut g, 1.0), 7.0)]);
        let e = Tri3d3Element::from(t);
        ensure!(*e.vertices() == t.0 && Triangle::from(&e) == t, "the element of {t:?}");
        Ok(Some(digest(&i)))
    });
    ctx.finish()
}
