//! C14: conversions between mesh types.
use checks::cells::*;
use checks::families::*;
use fenris::allocators::DimAllocator;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::geometry::polymesh::{PolyMesh, PolyMesh3d};
use fenris::geometry::Quad2d;
use fenris::mesh::*;
use fenris::nalgebra::{DefaultAllocator, Point2};
use hk::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::convert::TryFrom;
use std::sync::Arc;

type W = Vec<(usize, i64)>;

/// Shape function weights of a lattice point (of the linear cell), times 6^dim, by local corner.
fn weights(shape: Shape, x: I3) -> Vec<i64> {
    let x = x.map(|a| a as i64);
    match shape {
        Shape::Seg => vec![6 - x[0], x[0]],
        Shape::Tri => vec![6 - x[0] - x[1], x[0], x[1]],
        Shape::Tet => vec![6 - x[0] - x[1] - x[2], x[0], x[1], x[2]],
        Shape::Quad | Shape::Hex => shape
            .corners()
            .iter()
            .map(|c| (0..shape.dim()).map(|k| if c[k] == 6 { x[k] } else { 6 - x[k] }).product())
            .collect(),
    }
}
fn one(shape: Shape) -> i64 {
    match shape {
        Shape::Quad => 36,
        Shape::Hex => 216,
        _ => 6,
    }
}

const MODES: u64 = 3;
/// The second placement again, in very small and very large units.
const TINY: u64 = 11;
const HUGE: u64 = 21;
// The unit of length in this thread: positions are read and written in units.
thread_local!(static UNIT: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) });
fn choose_unit(mode: u64) {
    UNIT.set(2f64.powi([0, -40, 40][mode as usize / 10]));
}
/// Ways to place lattice points: as they are, sheared, and every vertex moved on its own.
fn place(mode: u64, v: I3) -> [f64; 3] {
    place_in_units(mode % 10, v).map(|x| x * UNIT.get())
}
fn place_in_units(mode: u64, v: I3) -> [f64; 3] {
    let x = v.map(|a| a as f64);
    match mode {
        0 => x,
        1 => [0.7 * x[0] - 0.2 * x[1] + 0.1 * x[2] + 3.0, 0.3 * x[0] + 1.1 * x[1] - 5.0, 0.2 * x[0] - 0.1 * x[1] + 0.9 * x[2]],
        2 => std::array::from_fn(|k| x[k] + (((v[0] * 7 + v[1] * 11 + v[2] * 13 + 5 * k as i32) % 17) as f64 - 8.0) / 9.7),
        _ => {
            // a projective map: planar faces stay planar
            let w = 40.0 + x[0] + 2.0 * x[1] - x[2];
            [40.0 * x[0] / w, 35.0 * x[1] / w, (45.0 * x[2] + x[0]) / w]
        }
    }
}

fn pos<C: TestCell>(m: &Mesh<f64, C::Dim, C>, v: usize) -> Result<[f64; 3], String>
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
{
    ensure!(v < m.vertices().len(), "a cell refers to vertex {v} of {}", m.vertices().len());
    let p = &m.vertices()[v];
    Ok(std::array::from_fn(|k| if k < p.len() { p[k] / UNIT.get() } else { 0.0 }))
}

fn close(a: [f64; 3], b: [f64; 3]) -> bool {
    (0..3).all(|k| (a[k] - b[k]).abs() <= 1e-11)
}

/// `new` must be `old` with more nodes.
fn check_raise<A: TestCell, B: TestCell<Dim = A::Dim>>(old: &Mesh<f64, A::Dim, A>, new: &Mesh<f64, A::Dim, B>, may_keep_unused: bool) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, A::Dim>,
{
    let k = B::kind();
    let nc = k.shape.corners().len();
    ensure_eq!(new.connectivity().len(), old.connectivity().len(), "number of cells");
    let mut index_of: HashMap<W, usize> = HashMap::new();
    let mut key_of: HashMap<usize, W> = HashMap::new();
    let w: Vec<Vec<i64>> = k.nodes.iter().map(|x| weights(k.shape, *x)).collect();
    for (ci, (c, d)) in old.connectivity().iter().zip(new.connectivity()).enumerate() {
        ensure_eq!(d.vertex_indices().len(), k.nodes.len(), "nodes of cell {ci}");
        for (j, v) in d.vertex_indices().iter().enumerate() {
            let mut key: W = (0..nc).filter(|i| w[j][*i] != 0).map(|i| (c.vertex_indices()[i], w[j][i])).collect();
            key.sort();
            if let Some(u) = index_of.get(&key) {
                ensure_eq!(u, v, "cell {ci}, node {j}: the same node has two numbers, first");
            }
            if let Some(q) = key_of.get(v) {
                ensure!(*q == key, "cell {ci}: node {j} (parents {key:?}) shares its number {v} with the node with parents {q:?}");
            }
            let p = pos(new, *v)?;
            if key.len() == 1 {
                ensure!(p == pos(old, key[0].0)?, "vertex {} was moved to {p:?}", key[0].0);
            } else {
                let mut want = [0.0; 3];
                for (i, wi) in &key {
                    let q = pos(old, *i)?;
                    for r in 0..3 {
                        want[r] += q[r] * *wi as f64 / one(k.shape) as f64;
                    }
                }
                ensure!(close(p, want), "cell {ci}, node {j} is at {p:?}, not at {want:?}");
            }
            index_of.insert(key.clone(), *v);
            key_of.insert(*v, key);
        }
    }
    let used: HashSet<usize> = old.connectivity().iter().flat_map(|c| c.vertex_indices().to_vec()).collect();
    let unused = old.vertices().len() - used.len();
    let n = new.vertices().len();
    ensure!(
        n >= index_of.len() && n <= index_of.len() + if may_keep_unused { unused } else { 0 },
        "{n} vertices for {} nodes ({unused} vertices were unused before)",
        index_of.len()
    );
    let mut sig: Vec<(usize, W)> = key_of.into_iter().collect();
    sig.sort();
    Ok(Some(digest(&sig)))
}

/// Back to the corners: the same cells, corner by corner.
fn check_lower<A: TestCell, B: TestCell<Dim = A::Dim>>(old: &Mesh<f64, A::Dim, A>, new: &Mesh<f64, A::Dim, B>, compact: bool) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, A::Dim>,
{
    ensure_eq!(new.connectivity().len(), old.connectivity().len(), "number of cells");
    let mut map = BTreeMap::new();
    let mut back = BTreeMap::new();
    for (ci, (c, d)) in old.connectivity().iter().zip(new.connectivity()).enumerate() {
        for (i, v) in d.vertex_indices().iter().enumerate() {
            let u = c.vertex_indices()[i];
            ensure!(pos(new, *v)? == pos(old, u)?, "cell {ci}, corner {i} moved");
            ensure!(*map.entry(u).or_insert(*v) == *v && *back.entry(*v).or_insert(u) == u, "cell {ci}, corner {i}: sharing changed");
        }
    }
    if compact {
        ensure_eq!(new.vertices().len(), back.len(), "vertices, for so many used ones");
    }
    Ok(Some(digest(&map.len())))
}

/// Subsets of a grid in rotated local numberings; `seconds` bounds the different relative rotations.
fn family(shape: Shape, g: [usize; 3], max_cells: usize, seconds: usize) -> Vec<Vec<Affine>> {
    let sym = shape.symmetries();
    let base = grid(shape, g);
    let n = base.len();
    let mut out = vec![];
    for mask in 0..1u64 << n {
        if mask.count_ones() as usize > max_cells && mask != (1 << n) - 1 {
            continue;
        }
        let sel: Vec<Affine> = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| base[i]).collect();
        let (aa, bb) = match sel.len() {
            0 => (1, 1),
            1 => (sym.len(), 1),
            2 => (sym.len(), sym.len()),
            _ => (sym.len(), seconds),
        };
        for a in 0..aa {
            for b in 0..bb {
                let mut cells: Vec<Affine> = sel.iter().enumerate().map(|(i, c)| c.after(&sym[(a + i * b) % sym.len()])).collect();
                if b % 2 == 1 {
                    cells.reverse();
                }
                out.push(cells);
            }
        }
    }
    out
}

fn meshes<A: TestCell>(ctx: &Arc<Ctx>, name: &str, fam: &[Vec<Affine>], modes: &[u64], f: impl Fn(&Lattice, &Mesh<f64, A::Dim, A>) -> Verdict + Sync + Send + 'static)
where
    DefaultAllocator: DimAllocator<f64, A::Dim>,
{
    let k = A::kind();
    let (rl, nm) = (RELABELLINGS as u64, modes.len() as u64);
    let f = Arc::new(f);
    let (f2, k2) = (f.clone(), k.clone());
    let fam = fam.to_vec();
    let fam2 = fam.clone();
    let modes = modes.to_vec();
    let modes2 = modes.clone();
    ctx.suite(
        name,
        fam.len() as u64 * rl * nm,
        move |i| format!("placement {}, relabelling {} of {:?}", modes2[(i % nm) as usize], i / nm % rl, fam2[(i / nm / rl) as usize]),
        move |i| {
            let mut d = Dig(i);
            let mode = *d.pick(&modes);
            let r = d.next(rl) as usize;
            let l = build(&k, &fam[d.0 as usize], r);
            choose_unit(mode);
            f(&l, &typed::<A>(&l, |v| place(mode, v)))
        },
    );
    // large vertex numbers
    let k = &k2;
    let base = grid(k.shape, if k.shape.dim() == 3 { [1 + (k.shape == Shape::Hex) as usize, 1, 1] } else { [2, 1, 1] });
    let sym = k.shape.symmetries();
    let (n, ln) = (base.len(), LARGE_NUMBERS.len() as u64);
    ctx.suite(
        &format!("{name}, large vertex numbers"),
        ln << n,
        |i| format!("numbering {}, cells {:#b}", i % ln, i / ln),
        |i| {
            let cells: Vec<Affine> = (0..n).filter(|j| (i / ln) >> j & 1 == 1).map(|j| base[j].after(&sym[j % sym.len()])).collect();
            let l = build(&k2, &cells, LARGE_NUMBERS.start + (i % ln) as usize);
            choose_unit(0);
            f2(&l, &typed::<A>(&l, |v| place(0, v)))
        },
    );
}

/// Any list of cells on a few vertices.
fn abstract_lists<A: TestCell>(ctx: &Arc<Ctx>, name: &str, nv: usize, cells: usize, f: impl Fn(&Mesh<f64, A::Dim, A>) -> Verdict + Sync + Send + 'static)
where
    DefaultAllocator: DimAllocator<f64, A::Dim>,
{
    let n = A::kind().nodes.len();
    let all: Vec<Vec<usize>> = injective_sequences(nv, n).into_iter().filter(|s| s.len() == n).collect();
    let m = all.len() as u64;
    let mut starts = vec![];
    let mut total = 0;
    for c in 0..=cells {
        starts.push(total);
        total += pow(m, c as u32);
    }
    let of = move |i: u64| {
        let c = starts.iter().rposition(|s| *s <= i).unwrap();
        let mut d = Dig(i - starts[c]);
        Lattice {
            vertices: (0..nv as i32).map(|i| [3 * i, 2 * i * i, (i * i * i) % 5]).collect(),
            cells: (0..c).map(|_| d.pick(&all).clone()).collect(),
        }
    };
    let of2 = of.clone();
    ctx.suite(name, total, move |i| format!("{:?}", of2(i).cells), move |i| {
        choose_unit(0);
        f(&typed::<A>(&of(i), |v| place(0, v)))
    });
}

/// Pairs of cells with vertex numbers of two digits.
fn two_digits<A: TestCell>(ctx: &Arc<Ctx>, name: &str, h: usize, all: Vec<(usize, Vec<Vec<usize>>)>, f: impl Fn(&Mesh<f64, A::Dim, A>) -> Verdict + Sync + Send + 'static)
where
    DefaultAllocator: DimAllocator<f64, A::Dim>,
{
    ctx.suite_over(&format!("{name}: two-digit vertex numbers"), &all, |c| format!("{c:?}"), |(b, cells)| {
        let mut vertices = vec![[-1000, 3, 7]; b + h];
        for (i, k) in (0..h).chain(*b..b + h).zip(0i32..) {
            vertices[i] = [3 * k, 2 * k * k, (k * k * k) % 5];
        }
        choose_unit(0);
        f(&typed::<A>(&Lattice { vertices, cells: cells.clone() }, |v| place(0, v)))
    });
}

fn sub(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    std::array::from_fn(|k| a[k] - b[k])
}
fn det3(a: [f64; 3], b: [f64; 3], c: [f64; 3]) -> f64 {
    a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])
}
fn tet_volume(p: [[f64; 3]; 4]) -> f64 {
    det3(sub(p[1], p[0]), sub(p[2], p[0]), sub(p[3], p[0])) / 6.0
}

/// Faces of the linear cells as lists of local corners, counter-clockwise from outside, from the reference geometry.
fn face_cycles(shape: Shape) -> Vec<Vec<usize>> {
    let c = shape.corners();
    shape
        .faces()
        .iter()
        .map(|(n, off)| {
            let on: Vec<usize> = (0..c.len()).filter(|i| (0..3).map(|r| n[r] * c[*i][r]).sum::<i32>() == *off).collect();
            if shape.dim() < 3 {
                return on;
            }
            // every permutation that is a positively oriented cycle along edges
            let first = on[0];
            let mut best = None;
            for p in permutations(on.len()) {
                let q: Vec<usize> = p.iter().map(|i| on[*i]).collect();
                if q[0] != first {
                    continue;
                }
                let m = q.len();
                let ok = (0..m).all(|j| {
                    let d = |a: usize, b: usize| -> [f64; 3] { std::array::from_fn(|r| (c[b][r] - c[a][r]) as f64) };
                    let (e1, e2) = (d(q[j], q[(j + 1) % m]), d(q[(j + 1) % m], q[(j + 2) % m]));
                    det3(e1, e2, n.map(|x| x as f64)) > 0.0
                });
                if ok {
                    assert!(best.is_none());
                    best = Some(q);
                }
            }
            best.unwrap()
        })
        .collect()
}

fn cyc(v: &[usize]) -> Vec<usize> {
    let i = (0..v.len()).min_by_key(|i| v[*i]).unwrap();
    (0..v.len()).map(|j| v[(i + j) % v.len()]).collect()
}

/// Polygonal mesh of a mesh of linear cells.
fn check_poly<A: TestCell>(m: &Mesh<f64, A::Dim, A>) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, A::Dim>,
{
    let shape = A::kind().shape;
    let p = PolyMesh::from(m);
    ensure!(p.vertices() == m.vertices(), "the vertices changed");
    ensure_eq!(p.num_cells(), m.connectivity().len(), "number of cells");
    let cycles = face_cycles(shape);
    let mut seen: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
    for (ci, c) in m.connectivity().iter().enumerate() {
        let fs = p.get_cell_connectivity(ci).ok_or("missing cell")?;
        ensure_eq!(fs.len(), cycles.len(), "faces of cell {ci}");
        let want: BTreeMap<BTreeSet<usize>, Vec<usize>> = cycles
            .iter()
            .map(|cy| {
                let v: Vec<usize> = cy.iter().map(|i| c.vertex_indices()[*i]).collect();
                (v.iter().copied().collect(), v)
            })
            .collect();
        let mut got = BTreeSet::new();
        for f in fs {
            let v = p.get_face_connectivity(*f).ok_or("missing face")?;
            let set: BTreeSet<usize> = v.iter().copied().collect();
            let Some(w) = want.get(&set) else { return Err(format!("cell {ci} has the face {v:?}")) };
            ensure_eq!(v.len(), w.len(), "vertices of a face");
            if !seen.contains_key(&set) && v.len() > 2 {
                ensure_eq!(cyc(v), cyc(w), "order of the vertices of a face of cell {ci}");
            } else if v.len() > 2 {
                let mut r = w.clone();
                r.reverse();
                ensure!(cyc(v) == cyc(w) || cyc(v) == cyc(&r), "a face is not a cycle of edges: {v:?}");
            }
            ensure!(*seen.entry(set.clone()).or_insert(*f) == *f, "the face {v:?} was created twice");
            ensure!(got.insert(set), "cell {ci} has a face twice");
        }
        ensure_eq!(got.len(), want.len(), "different faces of cell {ci}");
    }
    ensure_eq!(p.num_faces(), seen.len(), "number of faces");
    Ok(Some(digest(&seen)))
}

fn check_tets_of_poly(m: &Tet4Mesh<f64>) -> Verdict {
    let p = PolyMesh3d::from(m);
    let t = Tet4Mesh::try_from(&p).map_err(|e| format!("conversion refused: {e}"))?;
    ensure!(t.vertices() == m.vertices(), "the vertices changed");
    ensure_eq!(t.connectivity().len(), m.connectivity().len(), "number of cells");
    for (ci, (c, d)) in m.connectivity().iter().zip(t.connectivity()).enumerate() {
        let s = |c: &Tet4Connectivity| c.0.iter().copied().collect::<BTreeSet<_>>();
        ensure_eq!(s(d), s(c), "vertices of cell {ci}");
        let vol = |c: &Tet4Connectivity| tet_volume(c.0.map(|v| std::array::from_fn(|k| m.vertices()[v][k] / UNIT.get())));
        let (a, b) = (vol(c), vol(d));
        ensure!((a.abs() - b).abs() <= 1e-9, "cell {ci} has volume {b}, it had {a}");
    }
    Ok(Some(digest(&t.connectivity().iter().map(|c| c.0).collect::<Vec<_>>())))
}

/// Hexahedra with planar faces into tetrahedra.
fn check_hex_tets(m: &HexMesh<f64>) -> Verdict {
    let t = Tet4Mesh::from(m);
    ensure!(t.vertices() == m.vertices(), "the vertices changed");
    let at = |v: usize| -> [f64; 3] { std::array::from_fn(|k| m.vertices()[v][k] / UNIT.get()) };
    let sets: Vec<BTreeSet<usize>> = m.connectivity().iter().map(|c| c.0.iter().copied().collect()).collect();
    let mut vol = vec![0.0; sets.len()];
    let mut faces: BTreeMap<Vec<usize>, Vec<bool>> = BTreeMap::new();
    for (ti, c) in t.connectivity().iter().enumerate() {
        ensure!(c.0.iter().all(|v| *v < m.vertices().len()), "tetrahedron {ti} refers to a missing vertex");
        let v = tet_volume(c.0.map(at));
        ensure!(v > 1e-6, "tetrahedron {ti} has volume {v}");
        let owners: Vec<usize> = (0..sets.len()).filter(|h| c.0.iter().all(|x| sets[*h].contains(x))).collect();
        ensure_eq!(owners.len(), 1, "hexahedra that contain tetrahedron {ti}");
        vol[owners[0]] += v;
        for cy in face_cycles(Shape::Tet) {
            let f: Vec<usize> = cy.iter().map(|i| c.0[*i]).collect();
            let g = cyc(&f);
            let mut s = g.clone();
            s.sort();
            let e = faces.entry(s.clone()).or_default();
            e.push(s == g);
            ensure!(e.len() <= 2 && (e.len() < 2 || e[0] != e[1]), "the triangle {s:?} is used by {} tetrahedra or from the same side", e.len());
        }
    }
    let cycles = face_cycles(Shape::Hex);
    let mut quads: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
    for (h, c) in m.connectivity().iter().enumerate() {
        // volume by pyramids over the (planar) faces
        let ctr: [f64; 3] = std::array::from_fn(|k| c.0.iter().map(|v| at(*v)[k]).sum::<f64>() / 8.0);
        let mut want = 0.0;
        for cy in &cycles {
            let q: Vec<[f64; 3]> = cy.iter().map(|i| at(c.0[*i])).collect();
            want += tet_volume([ctr, q[0], q[1], q[2]]).abs() + tet_volume([ctr, q[0], q[2], q[3]]).abs();
            *quads.entry(cy.iter().map(|i| c.0[*i]).collect()).or_default() += 1;
        }
        ensure!((vol[h] - want).abs() <= 1e-8, "the tetrahedra of cell {h} have volume {}, it has {want}", vol[h]);
    }
    let boundary: Vec<&BTreeSet<usize>> = quads.iter().filter(|(_, n)| **n == 1).map(|(q, _)| q).collect();
    let mut on = vec![0; boundary.len()];
    for (f, u) in &faces {
        if u.len() == 1 {
            let b = boundary.iter().position(|q| f.iter().all(|v| q.contains(v)));
            let Some(b) = b else { return Err(format!("the triangle {f:?} is exposed but not on the boundary")) };
            on[b] += 1;
        }
    }
    ensure!(on.iter().all(|n| *n == 2), "boundary quadrilaterals are covered by {on:?} triangles");
    Ok(Some(digest(&faces)))
}

fn shoelace(p: &[Point2<f64>]) -> f64 {
    (0..p.len()).map(|i| p[i].x * p[(i + 1) % p.len()].y - p[i].y * p[(i + 1) % p.len()].x).sum::<f64>() / 2.0
}

fn orient(a: [i32; 2], b: [i32; 2], c: [i32; 2]) -> i32 {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}
fn within(a: [i32; 2], b: [i32; 2], p: [i32; 2]) -> bool {
    orient(a, b, p) == 0 && (0..2).all(|k| p[k] >= a[k].min(b[k]) && p[k] <= a[k].max(b[k]))
}
fn segments_meet(a: [i32; 2], b: [i32; 2], c: [i32; 2], d: [i32; 2]) -> bool {
    let s = |x: i32| x.signum();
    (s(orient(a, b, c)) * s(orient(a, b, d)) < 0 && s(orient(c, d, a)) * s(orient(c, d, b)) < 0)
        || within(a, b, c)
        || within(a, b, d)
        || within(c, d, a)
        || within(c, d, b)
}
/// Simple quadrilaterals in counter-clockwise order on an n x n lattice (straight corners allowed).
fn simple_quads(n: usize) -> Vec<[[i32; 2]; 4]> {
    let pts: Vec<[i32; 2]> = (0..n * n).map(|i| [(i % n) as i32, (i / n) as i32]).collect();
    let mut out = vec![];
    for s in injective_sequences_of_four(pts.len()) {
        let q: [[i32; 2]; 4] = std::array::from_fn(|k| pts[s[k]]);
        let area2: i32 = (0..4).map(|i| q[i][0] * q[(i + 1) % 4][1] - q[i][1] * q[(i + 1) % 4][0]).sum();
        let folded = (0..4).any(|i| {
            let (a, b, c) = (q[i], q[(i + 1) % 4], q[(i + 2) % 4]);
            orient(a, b, c) == 0 && (within(a, b, c) || within(b, c, a))
        });
        if area2 > 0 && !folded && !segments_meet(q[0], q[1], q[2], q[3]) && !segments_meet(q[1], q[2], q[3], q[0]) {
            out.push(q);
        }
    }
    out
}
fn injective_sequences_of_four(n: usize) -> Vec<[usize; 4]> {
    let mut out = vec![];
    for a in 0..n {
        for b in 0..n {
            for c in 0..n {
                for d in 0..n {
                    if a != b && a != c && a != d && b != c && b != d && c != d {
                        out.push([a, b, c, d]);
                    }
                }
            }
        }
    }
    out
}

fn check_split(pts: &[[i32; 2]], quads: &[[usize; 4]]) -> Verdict {
    for e in [-40, 40] {
        check_split_in(pts, quads, 2f64.powi(e)).map_err(|m| format!("in units of 2^{e}: {m}"))?;
    }
    check_split_in(pts, quads, 1.0)
}
fn check_split_in(pts: &[[i32; 2]], quads: &[[usize; 4]], u: f64) -> Verdict {
    let vs: Vec<Point2<f64>> = pts.iter().map(|p| Point2::new(u * p[0] as f64, u * p[1] as f64)).collect();
    let m = QuadMesh2d::from_vertices_and_connectivity(vs.clone(), quads.iter().map(|q| Quad4d2Connectivity(*q)).collect());
    let t = m.split_into_triangles();
    ensure!(t.vertices() == &vs[..], "the vertices changed");
    ensure_eq!(t.connectivity().len(), 2 * quads.len(), "number of triangles");
    for (qi, q) in quads.iter().enumerate() {
        let p = q.map(|v| pts[v]);
        // is there a corner that is straight?
        let straight = (0..4).any(|i| orient(p[i], p[(i + 1) % 4], p[(i + 2) % 4]) == 0);
        let mut sum = 0;
        let mut both = vec![];
        for tri in &t.connectivity()[2 * qi..2 * qi + 2] {
            ensure!(tri.0.iter().all(|v| q.contains(v)), "triangle {:?} of quadrilateral {q:?}", tri.0);
            let [a, b, c] = tri.0.map(|v| pts[v]);
            let o = orient(a, b, c);
            ensure!(o > 0 || (straight && o == 0), "quadrilateral {p:?} is split into {:?}, which has twice the area {o}", [a, b, c]);
            sum += o;
            both.push(tri.0);
        }
        let area2: i32 = (0..4).map(|i| p[i][0] * p[(i + 1) % 4][1] - p[i][1] * p[(i + 1) % 4][0]).sum();
        ensure_eq!(sum, area2, "twice the area of the triangles of {p:?}");
        let all: BTreeSet<usize> = both.concat().into_iter().collect();
        ensure_eq!(all.len(), 4, "corners of {p:?} used");
        let quad = Quad2d(p.map(|x| Point2::new(u * x[0] as f64, u * x[1] as f64)));
        ensure!((quad.area() / u / u - area2 as f64 / 2.0).abs() < 1e-12, "area of {p:?} is {}", quad.area());
        ensure!(((shoelace(&quad.0) - quad.area()) / u / u).abs() < 1e-12, "area of {p:?}");
        let reflex = (0..4).find(|i| orient(p[(i + 3) % 4], p[*i], p[(i + 1) % 4]) < 0);
        ensure_eq!(quad.concave_corner(), reflex, "concave corner of {p:?}");
    }
    Ok(Some(digest(&t.connectivity().iter().map(|c| c.0).collect::<Vec<_>>())))
}

/// Element-level conversions: nodes where the geometry map puts them.
fn check_element(from: &str, to: &str, corners: &[[f64; 3]], nodes: &[[f64; 3]], k: &Kind) -> Verdict {
    ensure_eq!(nodes.len(), k.nodes.len(), "{from} to {to}: number of nodes");
    for (j, x) in k.nodes.iter().enumerate() {
        let w = weights(k.shape, *x);
        let want: [f64; 3] = std::array::from_fn(|r| (0..corners.len()).map(|i| corners[i][r] * w[i] as f64 / one(k.shape) as f64).sum());
        ensure!(close(nodes[j], want), "{from} to {to}: node {j} at {:?}, not {want:?}", nodes[j]);
    }
    Ok(Some(digest(&format!("{nodes:?}"))))
}

fn main() {
    let ctx = Ctx::new(
        "C14",
        Level::Exploration,
        "every subset of the cells of small grids in every local numbering, four vertex numberings and several placements, every list of cells on few vertices, every simple lattice quadrilateral",
    );
    let t = ctx.thorough;
    let tri = family(Shape::Tri, [2, 2, 1], 8, ctx.tier(2, 3));
    let quad = family(Shape::Quad, if t { [3, 2, 1] } else { [2, 2, 1] }, 9, 4);
    let tet = family(Shape::Tet, [1, 1, 1], 6, ctx.tier(3, 12));
    let tet2 = family(Shape::Tet, [2, 1, 1], ctx.tier(2, 3), ctx.tier(1, 2));
    let hex = family(Shape::Hex, [2, 2, 1], 4, ctx.tier(3, 24));
    let hex2 = family(Shape::Hex, [2, 2, 2], ctx.tier(2, 8), ctx.tier(1, 2));
    let modes: Vec<u64> = (0..MODES).chain([TINY, HUGE]).collect();

    meshes::<Tri3d2Connectivity>(&ctx, "Tri3 to Tri6", &tri, &modes, |_, m| check_raise(m, &Mesh2d::<f64, Tri6d2Connectivity>::from(m.clone()), true));
    meshes::<Quad4d2Connectivity>(&ctx, "Quad4 to Quad9", &quad, &modes, |_, m| {
        check_raise(m, &Mesh2d::<f64, Quad9d2Connectivity>::from(m.clone()), true)
    });
    for (n, fam) in [("a box", &tet), ("two boxes", &tet2)] {
        meshes::<Tet4Connectivity>(&ctx, &format!("Tet4 to Tet10 and back, {n}"), fam, &modes, |_, m| {
            let r: Tet10Mesh<f64> = m.into();
            let d = check_raise(m, &r, false)?;
            let back: Tet4Mesh<f64> = (&r).into();
            check_lower(m, &back, true)?;
            Ok(d)
        });
        meshes::<Tet4Connectivity>(&ctx, &format!("Tet4 to Tet20, {n}"), fam, &modes, |_, m| {
            let r: Tet20Mesh<f64> = m.into();
            check_raise(m, &r, false)
        });
        meshes::<Tet4Connectivity>(&ctx, &format!("Tet4 to polyhedra and back, {n}"), fam, &[0, 1, TINY, HUGE], |_, m| {
            check_poly(m)?;
            check_tets_of_poly(m)
        });
    }
    for (n, fam) in [("a layer", &hex), ("a cube", &hex2)] {
        meshes::<Hex8Connectivity>(&ctx, &format!("Hex8 to Hex20, {n}"), fam, &modes, |_, m| {
            let r: Hex20Mesh<f64> = m.into();
            check_raise(m, &r, false)
        });
        meshes::<Hex8Connectivity>(&ctx, &format!("Hex8 to Hex27, {n}"), fam, &modes, |_, m| {
            let r: Hex27Mesh<f64> = m.into();
            check_raise(m, &r, false)
        });
        meshes::<Hex8Connectivity>(&ctx, &format!("Hex8 to Tet4, {n}"), fam, &[0, 1, 3, TINY, HUGE], |_, m| check_hex_tets(m));
        meshes::<Hex8Connectivity>(&ctx, &format!("Hex8 to polyhedra, {n}"), fam, &[0], |_, m| {
            let d = check_poly(m)?;
            if !m.connectivity().is_empty() {
                ensure!(Tet4Mesh::try_from(&PolyMesh3d::from(m)).is_err(), "hexahedra were taken for tetrahedra");
            }
            Ok(d)
        });
    }
    meshes::<Tri3d2Connectivity>(&ctx, "Tri3 to polygons", &tri, &[0], |_, m| check_poly(m));
    meshes::<Quad4d2Connectivity>(&ctx, "Quad4 to polygons", &quad, &[0], |_, m| check_poly(m));

    abstract_lists::<Tri3d2Connectivity>(&ctx, "Tri3 to Tri6: arbitrary incidence", ctx.tier(4, 5), 3, |m| {
        check_raise(m, &Mesh2d::<f64, Tri6d2Connectivity>::from(m.clone()), true)
    });
    abstract_lists::<Quad4d2Connectivity>(&ctx, "Quad4 to Quad9: abstract pairs", 5, 2, |m| {
        // the node in the middle belongs to the cell, so cells on the same vertices are left out
        let s: BTreeSet<BTreeSet<usize>> = m.connectivity().iter().map(|c| c.0.into_iter().collect()).collect();
        if s.len() < m.connectivity().len() {
            return Ok(None);
        }
        check_raise(m, &Mesh2d::<f64, Quad9d2Connectivity>::from(m.clone()), true)
    });
    abstract_lists::<Tet4Connectivity>(&ctx, "Tet4 to Tet10 and Tet20: arbitrary incidence", ctx.tier(5, 6), 2, |m| {
        let r: Tet10Mesh<f64> = m.into();
        check_raise(m, &r, false)?;
        let r: Tet20Mesh<f64> = m.into();
        check_raise(m, &r, false)
    });
    abstract_lists::<Tet4Connectivity>(&ctx, "Tet4 to polyhedra: arbitrary incidence", 5, 2, |m| check_poly(m));

    let pairs = |n: usize, h: usize, orders: &[Vec<usize>]| -> Vec<(usize, Vec<Vec<usize>>)> {
        NUMBER_BASES.iter().flat_map(|b| two_digit_cells(n, h, *b, if *b > 20_000 { &orders[..1] } else { orders }).into_iter().map(|c| (*b, c))).collect()
    };
    two_digits::<Tri3d2Connectivity>(&ctx, "Tri3 to Tri6", 3, pairs(3, 3, &[vec![0, 1, 2], vec![2, 0, 1]]), |m| {
        check_raise(m, &Mesh2d::<f64, Tri6d2Connectivity>::from(m.clone()), true)
    });
    let four = [vec![0, 1, 2, 3], vec![0, 2, 1, 3]];
    two_digits::<Quad4d2Connectivity>(&ctx, "Quad4 to Quad9", 4, pairs(4, 4, &four).into_iter().filter(|(_, c)| !c[0].iter().all(|x| c[1].contains(x)) && (ctx.thorough || !c[0].iter().any(|x| c[1].contains(x)))).collect(), |m| {
        check_raise(m, &Mesh2d::<f64, Quad9d2Connectivity>::from(m.clone()), true)
    });
    two_digits::<Tet4Connectivity>(&ctx, "Tet4 to Tet10 and Tet20", 4, pairs(4, 4, &four[..1]).into_iter().filter(|(_, c)| ctx.thorough || !c[0].iter().any(|x| c[1].contains(x))).collect(), |m| {
        let r: Tet10Mesh<f64> = m.into();
        check_raise(m, &r, false)?;
        let r: Tet20Mesh<f64> = m.into();
        check_raise(m, &r, false)?;
        check_poly(m)
    });
    let halves: Vec<Vec<usize>> = (0..256usize).filter(|s| s.count_ones() == 4).map(|s| (0..8).filter(|i| s >> i & 1 == 1).collect()).collect();
    let mut hexes: Vec<(usize, Vec<Vec<usize>>)> = vec![];
    for b in NUMBER_BASES {
        for l in &halves {
            for r in &halves {
                if if ctx.thorough { b < 20_000 || l == r } else { l == r || (b == 31 || b == 256) && l[0] == 0 && r[0] == 0 } {
                    let pick = |c: bool| -> Vec<usize> { (0..8).filter(|i| l.contains(i) == c).chain((0..8).filter(|i| r.contains(i) == c).map(|i| b + i)).collect() };
                    hexes.push((b, vec![pick(true), pick(false)]));
                }
            }
        }
    }
    two_digits::<Hex8Connectivity>(&ctx, "Hex8 to Hex20 and Hex27", 8, hexes, |m| {
        let r: Hex20Mesh<f64> = m.into();
        check_raise(m, &r, false)?;
        let r: Hex27Mesh<f64> = m.into();
        check_raise(m, &r, false)
    });

    // two hexahedra with any of their corners in common
    let sym = Shape::Hex.symmetries();
    let mut hexes: Vec<(usize, Vec<Vec<usize>>)> = vec![];
    for k in 0..sym.len() {
        let corners = Shape::Hex.corners();
        let to: Vec<usize> = corners.iter().map(|x| corners.iter().position(|y| *y == sym[k].at(*x)).unwrap()).collect();
        for mask in 0..256usize {
            hexes.push((8, vec![(0..8).collect(), (0..8).map(|i| if mask >> i & 1 == 1 { to[i] } else { 8 + i }).collect()]));
        }
    }
    two_digits::<Hex8Connectivity>(&ctx, "Hex8 to Hex20 and Hex27: common corners", 8, hexes, |m| {
        let r: Hex20Mesh<f64> = m.into();
        check_raise(m, &r, false)?;
        let r: Hex27Mesh<f64> = m.into();
        check_raise(m, &r, false)?;
        check_poly(m)
    });

    let quads = simple_quads(ctx.tier(4, 5));
    ctx.suite_over("quadrilaterals into triangles", &quads, |q| format!("{q:?}"), |q| check_split(q, &[[0, 1, 2, 3]]));
    let small: Vec<_> = simple_quads(3);
    let ns = small.len() as u64;
    let small2 = small.clone();
    ctx.suite(
        "meshes of two quadrilaterals into triangles",
        ns * ns,
        move |i| format!("{:?} {:?}", small2[(i % ns) as usize], small2[(i / ns) as usize]),
        move |i| {
            let (a, b) = (small[(i % ns) as usize], small[(i / ns) as usize]);
            let pts: Vec<[i32; 2]> = (0..9).map(|i| [i % 3, i / 3]).collect();
            let ix = |q: [[i32; 2]; 4]| q.map(|p| (p[0] + 3 * p[1]) as usize);
            check_split(&pts, &[ix(a), ix(b)])
        },
    );

    // single elements
    let perturb: Vec<u64> = (0..pow(3, 8)).collect();
    ctx.suite_over("elements", &perturb, |i| format!("perturbation {i}"), |i| {
        let make = |s: Shape| -> Vec<[f64; 3]> {
            let mut d = Dig(*i);
            s.corners()
                .iter()
                .map(|c| {
                    let x = d.next(3) as f64;
                    [c[0] as f64 + 0.5 * x, c[1] as f64 - 0.25 * x, c[2] as f64 + 0.125 * x]
                })
                .map(|p| if s.dim() < 3 { [p[0], p[1], 0.0] } else { p })
                .collect()
        };
        let p2 = |v: &[f64; 3]| Point2::new(v[0], v[1]);
        let p3 = |v: &[f64; 3]| fenris::nalgebra::Point3::new(v[0], v[1], v[2]);
        let out2 = |v: &[Point2<f64>]| v.iter().map(|p| [p.x, p.y, 0.0]).collect::<Vec<_>>();
        let out3 = |v: &[fenris::nalgebra::Point3<f64>]| v.iter().map(|p| [p.x, p.y, p.z]).collect::<Vec<_>>();
        let c = make(Shape::Tri);
        let e = Tri3d2Element::from_vertices([p2(&c[0]), p2(&c[1]), p2(&c[2])]);
        check_element("Tri3", "Tri6", &c, &out2(Tri6d2Element::from(&e).vertices()), &kind("Tri6"))?;
        check_element("Tri3", "Tri6", &c, &out2(Tri6d2Element::from(e).vertices()), &kind("Tri6"))?;
        let c = make(Shape::Quad);
        let e = Quad4d2Element::from_vertices([p2(&c[0]), p2(&c[1]), p2(&c[2]), p2(&c[3])]);
        check_element("Quad4", "Quad9", &c, &out2(Quad9d2Element::from(&e).vertices()), &kind("Quad9"))?;
        check_element("Quad4", "Quad9", &c, &out2(Quad9d2Element::from(e).vertices()), &kind("Quad9"))?;
        let c = make(Shape::Tet);
        let e = Tet4Element::from_vertices([p3(&c[0]), p3(&c[1]), p3(&c[2]), p3(&c[3])]);
        check_element("Tet4", "Tet10", &c, &out3(Tet10Element::from(&e).vertices()), &kind("Tet10"))?;
        check_element("Tet4", "Tet20", &c, &out3(Tet20Element::from(&e).vertices()), &kind("Tet20"))
    });
    // connectivities back to the corners
    ctx.suite("connectivities to corners", 3, |i| format!("{i}"), |i| {
        let v: Vec<usize> = (0..20).map(|x| (7 * x + 3 + i as usize) % 20).collect();
        ensure_eq!(Quad4d2Connectivity::from(&Quad9d2Connectivity::make(&v[..9])).0[..], v[..4], "Quad9 to Quad4");
        ensure_eq!(Tri3d2Connectivity::from(&Tri6d2Connectivity::make(&v[..6])).0[..], v[..3], "Tri6 to Tri3");
        ensure_eq!(Tet4Connectivity::from(&Tet10Connectivity::make(&v[..10])).0[..], v[..4], "Tet10 to Tet4");
        ensure_eq!(Tet4Connectivity::from(&Tet20Connectivity::make(&v[..20])).0[..], v[..4], "Tet20 to Tet4");
        Ok(Some(i))
    });
    ctx.assume("positions are compared with tolerance 1e-11 for coordinates up to 50; hexahedra that are cut into tetrahedra have planar faces");
    ctx.finish()
}
