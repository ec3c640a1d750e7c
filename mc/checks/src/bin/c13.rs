//! C13: mesh refinement.
use checks::cells::*;
use checks::families::*;
use fenris::allocators::DimAllocator;
use fenris::connectivity::*;
use fenris::mesh::refinement::*;
use fenris::mesh::{Mesh2d, TriangleMesh2d};
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, Point2, RealField, Vector2};
use hk::*;
use std::collections::{BTreeMap, BTreeSet};

type P = [i64; 2];
/// The unit of length, for this thread.
thread_local!(static UNIT: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) });
/// Positions are integers times 64 (in units), so several halvings are exact.
fn key(p: &Point2<f64>) -> Result<P, String> {
    let p = p / UNIT.get();
    ensure!(p.x.fract() == 0.0 && p.y.fract() == 0.0, "vertex at {p:?}");
    Ok([p.x as i64, p.y as i64])
}

fn rot(t: [P; 3]) -> [P; 3] {
    let i = (0..3).min_by_key(|i| t[*i]).unwrap();
    [t[i], t[(i + 1) % 3], t[(i + 2) % 3]]
}

fn mid(a: P, b: P) -> P {
    [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2]
}

fn children(t: [P; 3]) -> [[P; 3]; 4] {
    let [a, b, c] = t;
    let (d, e, f) = (mid(a, b), mid(b, c), mid(c, a));
    [[a, d, f], [d, b, e], [f, e, c], [d, e, f]]
}

fn tri_keys(m: &TriangleMesh2d<f64>) -> Result<Vec<[P; 3]>, String> {
    let mut out = vec![];
    for c in m.connectivity() {
        let mut t = [[0; 2]; 3];
        for (k, v) in c.vertex_indices().iter().enumerate() {
            ensure!(*v < m.vertices().len(), "vertex {v} of {}", m.vertices().len());
            t[k] = key(&m.vertices()[*v])?;
        }
        out.push(rot(t));
    }
    out.sort();
    Ok(out)
}

/// Number of vertices a conforming refinement has: the used ones and one per edge.
fn expected_vertices(cells: &[Vec<usize>]) -> usize {
    let mut vs = BTreeSet::new();
    let mut es = BTreeSet::new();
    for c in cells {
        for i in 0..c.len() {
            let (a, b) = (c[i], c[(i + 1) % c.len()]);
            vs.insert(a);
            es.insert((a.min(b), a.max(b)));
        }
    }
    vs.len() + es.len()
}

/// No two new vertices may stand for the same old vertex or edge: an edge of the old mesh shared by two cells must be
/// shared by them after refinement as well, and edges that are not shared must stay apart.
fn edge_sharing(m: &TriangleMesh2d<f64>) -> BTreeMap<(usize, usize), usize> {
    let mut n = BTreeMap::new();
    for c in m.connectivity() {
        for i in 0..3 {
            let (a, b) = (c.0[i], c.0[(i + 1) % 3]);
            *n.entry((a.min(b), a.max(b))).or_default() += 1;
        }
    }
    n
}

fn check_once(m: &TriangleMesh2d<f64>, r: &TriangleMesh2d<f64>) -> Result<(), String> {
    let cells: Vec<Vec<usize>> = m.connectivity().iter().map(|c| c.0.to_vec()).collect();
    ensure_eq!(r.connectivity().len(), 4 * cells.len(), "number of cells");
    let mut want = vec![];
    for c in &cells {
        let t: Vec<P> = c.iter().map(|v| key(&m.vertices()[*v])).collect::<Result<_, _>>()?;
        want.extend(children([t[0], t[1], t[2]]).map(rot));
    }
    want.sort();
    let got = tri_keys(r)?;
    if got != want {
        let bad = got.iter().find(|t| !want.contains(t)).or(want.iter().find(|t| !got.contains(t)));
        return Err(format!("the cells are not the four children of each cell (for instance {bad:?})"));
    }
    ensure_eq!(r.vertices().len(), expected_vertices(&cells), "number of vertices");
    let used: BTreeSet<usize> = r.connectivity().iter().flat_map(|c| c.0).collect();
    ensure_eq!(used.len(), r.vertices().len(), "used vertices, of all");
    // Sharing: an old edge shared by k cells gives two new edges, each shared by k cells; inner edges by 2 (per cell).
    let mut old: Vec<usize> = edge_sharing(m).into_values().flat_map(|k| [k, k]).collect();
    if m.connectivity().iter().collect::<std::collections::HashSet<_>>().len() == cells.len() && distinct_sets(&cells) {
        old.extend(std::iter::repeat(2).take(3 * cells.len()));
        old.sort();
        let mut new: Vec<usize> = edge_sharing(r).into_values().collect();
        new.sort();
        ensure_eq!(new, old, "how many cells share the edges");
    }
    Ok(())
}

fn distinct_sets(cells: &[Vec<usize>]) -> bool {
    let s: BTreeSet<BTreeSet<usize>> = cells.iter().map(|c| c.iter().copied().collect()).collect();
    s.len() == cells.len()
}

fn check(m: &TriangleMesh2d<f64>, depth: usize) -> Verdict {
    let v = check_in(m, depth)?;
    for e in [-40, 40] {
        UNIT.set(2f64.powi(e));
        let vs = m.vertices().iter().map(|p| p * UNIT.get()).collect();
        let r = check_in(&TriangleMesh2d::from_vertices_and_connectivity(vs, m.connectivity().to_vec()), 1);
        UNIT.set(1.0);
        r.map_err(|m| format!("in units of 2^{e}: {m}"))?;
    }
    Ok(v)
}
fn check_in(m: &TriangleMesh2d<f64>, depth: usize) -> Verdict {
    let before = m.clone();
    let mut step = m.clone();
    for k in 0..=depth {
        let rep = refine_uniformly_repeat(m, k);
        if k == 0 {
            ensure!(rep == *m, "refining zero times changes the mesh");
        } else {
            let next = refine_uniformly(&step);
            check_once(&step, &next).map_err(|e| format!("level {k}: {e}"))?;
            ensure_eq!(tri_keys(&rep)?, tri_keys(&next)?, "cells after refining {k} times at once");
            ensure_eq!(rep.vertices().len(), next.vertices().len(), "vertices after refining {k} times at once");
            step = next;
        }
    }
    ensure!(*m == before, "the input mesh has changed");
    Ok(if m.connectivity().is_empty() { None } else { Some(digest(&format!("{m:?}"))) })
}

// A user-defined scheme with three kinds of vertices and a number of children that depends on the cell: checks the
// general driver (labels shared between cells, ordering of labels within a child).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum L {
    V(usize),
    E(usize, usize),
    C(Vec<usize>),
}
impl VertexRepresentation for L {
    fn construct_vertex<T: RealField, D: DimName>(&self, all: &[OPoint<T, D>]) -> OPoint<T, D>
    where
        DefaultAllocator: DimAllocator<T, D>,
    {
        let avg = |v: &[usize]| {
            let mut s = all[v[0]].coords.clone();
            for i in &v[1..] {
                s += &all[*i].coords;
            }
            OPoint::from(s / T::from_usize(v.len()).unwrap())
        };
        match self {
            L::V(i) => all[*i].clone(),
            L::E(a, b) => avg(&[*a, *b]),
            L::C(v) => avg(v),
        }
    }
}
#[derive(Clone, Copy)]
struct Scheme(usize);
impl RefineConnectivity<Quad4d2Connectivity> for Scheme {
    type Intermediate = [L; 4];
    type OutputConnectivity = Quad4d2Connectivity;
    type VertexLabel = L;
    fn populate_refined_connectivity(&self, c: &Quad4d2Connectivity, out: &mut Vec<[L; 4]>) {
        let v = c.0;
        let e = |i: usize, j: usize| L::E(v[i].min(v[j]), v[i].max(v[j]));
        match self.0 {
            // drops the cell
            0 => {}
            // keeps it
            1 => out.push(v.map(L::V)),
            // drops cells that contain vertex 0, splits the others
            _ if self.0 == 3 && v.contains(&0) => {}
            _ => {
                let m = {
                    let mut s = v.to_vec();
                    s.sort();
                    L::C(s)
                };
                for i in 0..4 {
                    out.push([L::V(v[i]), e(i, (i + 1) % 4), m.clone(), e((i + 3) % 4, i)]);
                }
            }
        }
    }
    fn populate_vertex_labels(&self, x: &[L; 4], labels: &mut Vec<L>) {
        labels.extend(x.iter().cloned());
    }
    fn construct_output_connectivity(&self, _: &[L; 4], v: &[usize]) -> Result<Quad4d2Connectivity, InvalidVertexCount> {
        Ok(Quad4d2Connectivity(v.try_into().map_err(|_| InvalidVertexCount)?))
    }
}

fn check_scheme(l: &Lattice, s: usize) -> Verdict {
    let m: Mesh2d<f64, Quad4d2Connectivity> = typed::<Quad4d2Connectivity>(l, |v| v.map(|x| 64.0 * x as f64));
    let r = refine_mesh(&m, Scheme(s));
    let mut inter = vec![];
    for c in m.connectivity() {
        Scheme(s).populate_refined_connectivity(c, &mut inter);
    }
    ensure_eq!(r.connectivity().len(), inter.len(), "number of cells");
    let mut ids: BTreeMap<String, usize> = BTreeMap::new();
    let mut back: BTreeMap<usize, String> = BTreeMap::new();
    for (c, x) in r.connectivity().iter().zip(&inter) {
        for (v, l) in c.0.iter().zip(x) {
            let name = format!("{l:?}");
            ensure!(*v < r.vertices().len(), "vertex {v} of {}", r.vertices().len());
            ensure_eq!(*ids.entry(name.clone()).or_insert(*v), *v, "number of the vertex {name}");
            ensure_eq!(back.entry(*v).or_insert(name.clone()), &name, "meaning of vertex {v}");
            let want: Point2<f64> = l.construct_vertex(m.vertices());
            ensure!((r.vertices()[*v] - want).norm() <= 1e-9, "vertex {name} is at {:?} instead of {want:?}", r.vertices()[*v]);
        }
    }
    ensure_eq!(back.len(), r.vertices().len(), "vertices that stand for something, of all");
    Ok(if inter.is_empty() { None } else { Some(digest(&(l, s))) })
}

fn main() {
    let ctx = Ctx::new(
        "C13",
        Level::Exploration,
        "every subset of the triangles of small grids in every local and four vertex numberings, every list of up to three triangles on few vertices, every lattice position of a pair of triangles; up to three refinements",
    );
    let sym = Shape::Tri.symmetries();
    let base = grid(Shape::Tri, if ctx.thorough { [3, 2, 1] } else { [2, 2, 1] });
    let k = kind("Tri3");
    let n = base.len();
    let rl = RELABELLINGS as u64;
    let of = |i: u64| {
        let mut d = Dig(i);
        let r = d.next(rl);
        let (a, b, c) = (d.next(3), d.next(3), d.next(2));
        let mask = d.next(1 << n);
        let cells: Vec<Affine> = (0..n)
            .filter(|i| mask >> i & 1 == 1)
            .map(|i| if c == 0 { base[i].after(&sym[(a + i * b) % 3]) } else { flip(base[i].after(&sym[(a + i * b) % 3])) })
            .collect();
        build(&k, &cells, r)
    };
    ctx.suite("subsets of grids", rl * 18 << n, |i| format!("{:?}", of(i)), |i| {
        check(&typed::<Tri3d2Connectivity>(&of(i), |v| v.map(|x| 64.0 * x as f64)), if i % 7 == 0 { 2 } else { 1 })
    });
    // deeper
    let deep: Vec<u64> = (0..1u64 << n).collect();
    ctx.suite_over("repeated", &deep, |m| format!("{m:#b}"), |mask| {
        let cells: Vec<Affine> = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| base[i].after(&sym[i % 3])).collect();
        check(&typed::<Tri3d2Connectivity>(&build(&k, &cells, 2), |v| v.map(|x| 64.0 * x as f64)), 3)
    });
    // many levels
    let levels = ctx.tier(7usize, 8);
    ctx.suite("many levels", 3 * 2, |i| format!("case {i}"), |i| {
        let cells: Vec<Affine> = (0..1 + i as usize % 2).map(|j| base[j].after(&sym[i as usize / 2])).collect();
        check_in(&typed::<Tri3d2Connectivity>(&build(&k, &cells, 2), |v| v.map(|x| 4096.0 * x as f64)), levels - i as usize % 2)
    });
    // every number of triangles: strips, also with the cells in another order
    let most = ctx.tier(300u64, 1200);
    ctx.suite("every number of triangles", most * 2, |i| format!("{} triangles, order {}", i / 2, i % 2), |i| {
        let n = i as usize / 2;
        let vs = (0..n + 2).map(|j| Point2::new(64.0 * (j / 2) as f64, 64.0 * (j % 2) as f64)).collect();
        let mut cells: Vec<Tri3d2Connectivity> =
            (0..n).map(|j| Tri3d2Connectivity(if j % 2 == 0 { [j, j + 2, j + 1] } else { [j, j + 1, j + 2] })).collect();
        if i % 2 == 1 {
            // every other cell first
            cells = (0..n).step_by(2).chain((1..n).step_by(2)).map(|j| cells[j].clone()).collect();
        }
        check_in(&TriangleMesh2d::from_vertices_and_connectivity(vs, cells), 1)
    });
    let nl = LARGE_NUMBERS.len() as u64;
    ctx.suite("large vertex numbers", nl << n, |i| format!("numbering {}, cells {:#b}", i % nl, i / nl), |i| {
        let cells: Vec<Affine> = (0..n).filter(|k| (i / nl) >> k & 1 == 1).map(|i| base[i].after(&sym[i % 3])).collect();
        check_in(&typed::<Tri3d2Connectivity>(&build(&k, &cells, LARGE_NUMBERS.start + (i % nl) as usize), |v| v.map(|x| 64.0 * x as f64)), 1)
    });
    // vertex numbers of two digits
    let orders = [vec![0, 1, 2], vec![2, 1, 0], vec![1, 2, 0]];
    let two: Vec<(usize, Vec<Vec<usize>>)> =
        NUMBER_BASES.iter().flat_map(|b| two_digit_cells(3, 3, *b, &orders[..if *b > 20_000 { 1 } else { ctx.tier(2, 3) }]).into_iter().map(|c| (*b, c))).collect();
    ctx.suite_over("two-digit vertex numbers", &two, |c| format!("{c:?}"), |(b, cells)| {
        let at = [[1, 0], [3, 64], [64, 7], [70, 80], [-13, 5], [31, -40]];
        let mut vs = vec![Point2::new(-5000.0, 3.0); b + 3];
        for (i, x) in (0..3).chain(*b..b + 3).zip(at) {
            vs[i] = Point2::new(16.0 * x[0] as f64, 16.0 * x[1] as f64);
        }
        check_in(&TriangleMesh2d::from_vertices_and_connectivity(vs, cells.iter().map(|c| Tri3d2Connectivity::make(c)).collect()), 1)
    });
    // abstract incidence, with vertices in general position and with coinciding vertices
    let nv = ctx.tier(4usize, 5);
    let tris: Vec<Vec<usize>> = injective_sequences(nv, 3).into_iter().filter(|s| s.len() == 3).collect();
    let m = tris.len() as u64;
    let pos = [[1, 0], [3, 64], [64, 7], [70, 80], [-13, 5]];
    let slit = [[0, 0], [64, 0], [0, 0], [64, 0], [0, 64]];
    let of = |i: u64| {
        let mut d = Dig(i);
        let p = d.next(2);
        let c = d.next(4);
        let cells: Vec<Tri3d2Connectivity> = (0..c).map(|_| Tri3d2Connectivity::make(d.pick(&tris))).collect();
        let ps = if p == 0 { pos } else { slit };
        TriangleMesh2d::from_vertices_and_connectivity(
            ps[..nv].iter().map(|p| Point2::new(16.0 * p[0] as f64, 16.0 * p[1] as f64)).collect(),
            cells,
        )
    };
    ctx.suite("arbitrary incidence", 8 * pow(m, 3), |i| format!("{:?}", of(i)), |i| check(&of(i), 1));
    // lattice positions
    let of = |i: u64| {
        let mut d = Dig(i);
        let vs = (0..4).map(|_| Point2::from(Vector2::new(16.0 * (d.next(4) as f64 - 1.0), 16.0 * (d.next(3) as f64)))).collect();
        TriangleMesh2d::from_vertices_and_connectivity(vs, vec![Tri3d2Connectivity([0, 1, 2]), Tri3d2Connectivity([3, 2, 1])])
    };
    ctx.suite("lattice positions", pow(12, 4), |i| format!("{:?}", of(i).vertices()), |i| check(&of(i), 1));

    // general driver
    let qk = kind("Quad4");
    let qs = Shape::Quad.symmetries();
    let qb = grid(Shape::Quad, [3, 2, 1]);
    let of = |i: u64| {
        let mut d = Dig(i);
        let s = d.next(4);
        let r = d.next(rl);
        let (a, b) = (d.next(4), d.next(4));
        let mask = d.next(64);
        let cells: Vec<Affine> = (0..6).filter(|i| mask >> i & 1 == 1).map(|i| qb[i].after(&qs[(a + b * i) % 4])).collect();
        (build(&qk, &cells, r), s)
    };
    ctx.suite("user-defined schemes", 4 * rl * 16 * 64, |i| format!("{:?}", of(i)), |i| {
        let (l, s) = of(i);
        check_scheme(&l, s)
    });
    ctx.assume("triangles are the only cell type with a built-in refinement; other cell types through user-defined schemes");
    ctx.finish()
}

fn flip(a: Affine) -> Affine {
    Affine { o: a.o, cols: [a.cols[1], a.cols[0], a.cols[2]] }
}
