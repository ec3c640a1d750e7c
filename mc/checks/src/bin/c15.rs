//! C15: procedural meshes.
use checks::cells::{Affine, Shape};
use checks::poly;
use fenris::connectivity::Connectivity;
use fenris::geometry::sdf::*;
use fenris::geometry::{AxisAlignedBoundingBox2d, BoundedGeometry};
use fenris::mesh::procedural::*;
use fenris::mesh::*;
use fenris::nalgebra::{Point2, Point3, Vector2, U2};
use hk::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// Half grid coordinates of a point, if it is on the (half) grid.
fn key(p: &[f64], origin: &[f64], h: f64) -> Result<Vec<i64>, String> {
    let mut out = vec![];
    for k in 0..p.len() {
        let x = (p[k] - origin[k]) / h * 2.0;
        let r = x.round();
        ensure!((x - r).abs() < 1e-6, "vertex {p:?} is not on the grid of size {h} from {origin:?}");
        out.push(r as i64);
    }
    Ok(out)
}

fn keys(ps: &[Vec<f64>], origin: &[f64], h: f64) -> Result<Vec<Vec<i64>>, String> {
    let out: Vec<Vec<i64>> = ps.iter().map(|p| key(p, origin, h)).collect::<Result<_, _>>()?;
    let distinct: HashSet<&Vec<i64>> = out.iter().collect();
    ensure_eq!(distinct.len(), out.len(), "distinct vertices");
    Ok(out)
}

fn used(cells: &[Vec<usize>], n: usize) -> Result<(), String> {
    let s: BTreeSet<usize> = cells.iter().flatten().copied().collect();
    ensure!(s.iter().all(|v| *v < n), "a cell refers to a missing vertex");
    ensure_eq!(s.len(), n, "used vertices, of all");
    Ok(())
}

/// The cells must be the boxes of a grid of `n` boxes, each once, in an admissible local numbering.
fn check_boxes(shape: Shape, k: &[Vec<i64>], cells: &[Vec<usize>], n: &[usize]) -> Verdict {
    let total: usize = n.iter().product();
    ensure_eq!(cells.len(), total, "number of cells");
    let nv: usize = if total == 0 { 0 } else { n.iter().map(|x| x + 1).product() };
    ensure_eq!(k.len(), nv, "number of vertices");
    used(cells, k.len())?;
    let sym = shape.symmetries();
    let corners = shape.corners();
    let mut seen = BTreeSet::new();
    for (ci, c) in cells.iter().enumerate() {
        let p: Vec<&Vec<i64>> = c.iter().map(|v| &k[*v]).collect();
        let lo: Vec<i64> = (0..n.len()).map(|r| p.iter().map(|q| q[r]).min().unwrap()).collect();
        ensure!((0..n.len()).all(|r| lo[r] % 2 == 0 && lo[r] >= 0 && lo[r] < 2 * n[r] as i64), "cell {ci} at {lo:?}");
        let ok = sym.iter().any(|s: &Affine| {
            (0..corners.len()).all(|i| {
                let x = s.at(corners[i]);
                (0..n.len()).all(|r| lo[r] + x[r] as i64 / 3 == p[i][r])
            })
        });
        ensure!(ok, "the corners of cell {ci} are {p:?}, which is not a positively oriented box of the grid");
        ensure!(seen.insert(lo), "cell {ci} repeats another cell");
    }
    Ok(Some(digest(&seen)))
}

fn coords2(m: &[Point2<f64>]) -> Vec<Vec<f64>> {
    m.iter().map(|p| vec![p.x, p.y]).collect()
}
fn coords3(m: &[Point3<f64>]) -> Vec<Vec<f64>> {
    m.iter().map(|p| vec![p.x, p.y, p.z]).collect()
}
fn conn<C: Connectivity>(c: &[C]) -> Vec<Vec<usize>> {
    c.iter().map(|c| c.vertex_indices().to_vec()).collect()
}

fn det(v: &[Vec<i64>]) -> i64 {
    match v.len() {
        2 => v[0][0] * v[1][1] - v[0][1] * v[1][0],
        _ => {
            v[0][0] * (v[1][1] * v[2][2] - v[1][2] * v[2][1]) - v[1][0] * (v[0][1] * v[2][2] - v[0][2] * v[2][1])
                + v[2][0] * (v[0][1] * v[1][2] - v[0][2] * v[1][1])
        }
    }
}

/// Simplices that fill the box [0, 2n] (in half grid coordinates) and conform.
fn check_simplices(k: &[Vec<i64>], cells: &[Vec<usize>], n: &[usize]) -> Verdict {
    let d = n.len();
    let total: usize = n.iter().product();
    if total == 0 {
        ensure!(k.is_empty() && cells.is_empty(), "a mesh without cells was requested");
        return Ok(Some(0));
    }
    used(cells, k.len())?;
    let mut vol = 0;
    let mut faces: BTreeMap<Vec<usize>, Vec<bool>> = BTreeMap::new();
    for (ci, c) in cells.iter().enumerate() {
        ensure_eq!(c.len(), d + 1, "vertices of a cell");
        let e: Vec<Vec<i64>> = (1..=d).map(|i| (0..d).map(|r| k[c[i]][r] - k[c[0]][r]).collect()).collect();
        let v = det(&e);
        ensure!(v > 0, "cell {ci} with vertices {:?} has volume {v}", c.iter().map(|v| &k[*v]).collect::<Vec<_>>());
        vol += v;
        for a in c {
            for b in c {
                let d2: i64 = (0..d).map(|r| (k[*a][r] - k[*b][r]).pow(2)).sum();
                ensure!(d2 <= 8, "cell {ci} extends beyond the resolution");
            }
        }
        for i in 0..=d {
            let mut f: Vec<usize> = (0..=d).filter(|j| *j != i).map(|j| c[j]).collect();
            // parity of the induced orientation
            let mut even = i % 2 == 0;
            for a in 0..f.len() {
                for b in 0..a {
                    if f[b] > f[a] {
                        even = !even;
                    }
                }
            }
            f.sort();
            let s = faces.entry(f.clone()).or_default();
            s.push(even);
            ensure!(s.len() < 3 && (s.len() < 2 || s[0] != s[1]), "the face {f:?} of cell {ci} is not shared properly");
        }
    }
    let factor = if d == 2 { 2 } else { 6 };
    ensure_eq!(vol, factor * (1i64 << d) * total as i64, "total volume (scaled)");
    for v in k {
        ensure!((0..d).all(|r| v[r] >= 0 && v[r] <= 2 * n[r] as i64), "vertex {v:?} outside of the box");
    }
    for (f, s) in &faces {
        if s.len() == 1 {
            let on = (0..d).any(|r| [0, 2 * n[r] as i64].iter().any(|x| f.iter().all(|v| k[*v][r] == *x)));
            ensure!(on, "the face {:?} is exposed in the interior", f.iter().map(|v| &k[*v]).collect::<Vec<_>>());
        }
    }
    let have: HashSet<&Vec<i64>> = k.iter().collect();
    let mut g = vec![0i64; d];
    'grid: loop {
        ensure!(have.contains(&g), "the grid point {g:?} is not a vertex");
        for r in 0..d {
            g[r] += 2;
            if g[r] <= 2 * n[r] as i64 {
                continue 'grid;
            }
            g[r] = 0;
        }
        break;
    }
    Ok(Some(digest(&faces)))
}

/// A shape given by its sign at the vertices of a grid.
struct Voxels {
    bounds: AxisAlignedBoundingBox2d<f64>,
    origin: Vec<f64>,
    h: f64,
    nx: i64,
    inside: u64,
    on_boundary: bool,
    unit: f64,
}
impl BoundedGeometry<f64> for Voxels {
    type Dimension = U2;
    fn bounding_box(&self) -> AxisAlignedBoundingBox2d<f64> {
        self.bounds.clone()
    }
}
impl SignedDistanceFunction2d<f64> for Voxels {
    fn eval(&self, x: &Point2<f64>) -> f64 {
        let k = key(&[x.x, x.y], &self.origin, self.h).unwrap();
        let bit = k[0] / 2 + (self.nx + 1) * (k[1] / 2);
        if self.inside >> bit & 1 == 0 {
            0.5 * self.unit
        } else if self.on_boundary {
            0.0
        } else {
            -0.5 * self.unit
        }
    }
    fn gradient(&self, _: &Point2<f64>) -> Option<Vector2<f64>> {
        None
    }
}

fn lower(ps: &[Vec<f64>]) -> Vec<f64> {
    (0..2).map(|r| ps.iter().map(|p| p[r]).fold(f64::INFINITY, f64::min)).collect()
}

/// The grid that covers a box; returns origin, cell size and number of cells.
fn check_cover(b: &AxisAlignedBoundingBox2d<f64>, max_h: f64, m: &QuadMesh2d<f64>) -> Result<(Vec<f64>, f64, [usize; 2]), String> {
    ensure!(!m.connectivity().is_empty(), "no cells");
    let c = coords2(m.vertices());
    let o = lower(&c);
    let q = &m.connectivity()[0];
    let x: Vec<f64> = q.0.iter().map(|v| c[*v][0]).collect();
    let h = x.iter().cloned().fold(f64::NEG_INFINITY, f64::max) - x.iter().cloned().fold(f64::INFINITY, f64::min);
    ensure!(h > 0.0 && h <= max_h * (1.0 + 1e-9), "cells have size {h}, at most {max_h} was asked for");
    let k = keys(&c, &o, h)?;
    let n: [usize; 2] = std::array::from_fn(|r| k.iter().map(|x| x[r]).max().unwrap() as usize / 2);
    check_boxes(Shape::Quad, &k, &conn(m.connectivity()), &n)?;
    for r in 0..2 {
        let (lo, hi) = (o[r], o[r] + h * n[r] as f64);
        let ext = b.max()[r] - b.min()[r];
        ensure!(lo <= b.min()[r] && hi >= b.max()[r], "[{lo}, {hi}] does not cover the box along axis {r}");
        ensure!(hi - lo <= 1.03 * ext + h * (1.0 + 1e-6), "[{lo}, {hi}] is much larger than the box along axis {r}");
    }
    Ok((o, h, n))
}

/// Voxelisation of a shape: the cells of the covering grid with a corner in the shape.
fn check_voxels<S: BoundedSdf<f64>>(sdf: &S, max_h: f64) -> Result<(u64, QuadMesh2d<f64>), String> {
    let full = voxelize_bounding_box_2d(&sdf.bounding_box(), max_h);
    let (o, h, _) = check_cover(&sdf.bounding_box(), max_h, &full)?;
    let m = voxelize_sdf_2d(sdf, max_h);
    let kf = keys(&coords2(full.vertices()), &o, h)?;
    let km = keys(&coords2(m.vertices()), &o, h)?;
    used(&conn(m.connectivity()), km.len())?;
    let norm = |k: &Vec<Vec<i64>>, c: &[usize]| -> Vec<Vec<i64>> {
        let p: Vec<Vec<i64>> = c.iter().map(|v| k[*v].clone()).collect();
        let i = (0..4).min_by_key(|i| p[*i].clone()).unwrap();
        (0..4).map(|j| p[(i + j) % 4].clone()).collect()
    };
    let mut want = vec![];
    for c in full.connectivity() {
        if c.0.iter().any(|v| sdf.eval(&full.vertices()[*v]) <= 0.0) {
            want.push(norm(&kf, &c.0));
        }
    }
    let mut got: Vec<_> = m.connectivity().iter().map(|c| norm(&km, &c.0)).collect();
    want.sort();
    got.sort();
    if want != got {
        let odd = got.iter().find(|c| !want.contains(c)).map(|c| format!("kept {c:?}"));
        let odd = odd.or(want.iter().find(|c| !got.contains(c)).map(|c| format!("lost {c:?}")));
        return Err(format!("{} cells kept, {} selected by the shape: {}", got.len(), want.len(), odd.unwrap_or("duplicates".into())));
    }
    Ok((digest(&got), m))
}

/// Vertices outside of the shape move onto its boundary, all others stay.
fn check_moved<S: SignedDistanceFunction2d<f64>>(sdf: &S, before: &[Point2<f64>], after: &[Point2<f64>], union: bool, tol: f64) -> Result<(), String> {
    ensure_eq!(after.len(), before.len(), "number of vertices");
    for (a, b) in before.iter().zip(after) {
        let phi = sdf.eval(a);
        let psi = sdf.eval(b);
        if phi <= 0.0 {
            ensure!(a == b, "the vertex {a:?} in the shape was moved to {b:?}");
        } else {
            ensure!(psi <= tol && (union || psi >= -tol), "the vertex {a:?} was moved to {b:?}, at distance {psi}");
            ensure!((b - a).norm() <= phi * 1.001 + tol, "the vertex {a:?} was moved to {b:?}, farther than its distance {phi}");
        }
    }
    Ok(())
}

fn check_shape<S: BoundedSdf<f64>>(sdf: &S, max_h: f64, union: bool) -> Verdict {
    let (d, m) = check_voxels(sdf, max_h)?;
    let tol = 1e-3 * max_h;
    let q = approximate_quad_mesh_for_sdf_2d(sdf, max_h);
    ensure!(q.connectivity() == m.connectivity(), "cells of the approximating mesh");
    check_moved(sdf, m.vertices(), q.vertices(), union, tol)?;
    let t = approximate_triangle_mesh_for_sdf_2d(sdf, max_h);
    let tri = m.split_into_triangles();
    let keep: Vec<usize> =
        (0..tri.connectivity().len()).filter(|i| tri.connectivity()[*i].0.iter().any(|v| sdf.eval(&tri.vertices()[*v]) <= 0.0)).collect();
    let tri = tri.keep_cells(&keep);
    ensure!(t.connectivity() == tri.connectivity(), "cells of the approximating triangle mesh");
    check_moved(sdf, tri.vertices(), t.vertices(), union, tol)?;
    Ok(Some(d))
}

fn main() {
    let ctx = Ctx::new(
        "C15",
        Level::Exploration,
        "every combination of unit counts and cells per unit up to a bound with several unit lengths and offsets, every sign pattern on a small voxel grid, every shape of a parameter grid",
    );
    let units = [1.0, (-40f64).exp2(), 40f64.exp2()];
    let lengths = [1.0, 0.5, 3.0, 1.0 / 3.0, 0.1, 1e3];
    let offsets = [[0.0, 1.0], [0.0, 0.0], [-3.25, 2.5], [0.1, -0.7]];
    let m = ctx.tier(5u64, 7);
    ctx.suite(
        "rectangular quadrilateral meshes",
        m * m * m * 6 * 4 * 3,
        |i| format!("parameters {i}"),
        move |i| {
            let mut d = Dig(i);
            let unit = *d.pick(&units);
            let (ux, uy, c) = (d.next(m) as usize, d.next(m) as usize, d.next(m) as usize);
            let (len, tl) = (*d.pick(&lengths) * unit, d.pick(&offsets).map(|x| x * unit));
            let q = create_rectangular_uniform_quad_mesh_2d(len, ux, uy, c, &Vector2::new(tl[0], tl[1]));
            let n = [ux * c, uy * c];
            let h = len / c.max(1) as f64;
            let o = [tl[0], tl[1] - len * uy as f64];
            let k = keys(&coords2(q.vertices()), &o, h)?;
            let d1 = check_boxes(Shape::Quad, &k, &conn(q.connectivity()), &n)?;
            let t = q.split_into_triangles();
            let k = keys(&coords2(t.vertices()), &o, h)?;
            check_simplices(&k, &conn(t.connectivity()), &n)?;
            Ok(d1)
        },
    );
    ctx.suite("unit squares and boxes", ctx.tier(8, 14), |c| format!("{c} cells"), |c| {
        let n = c as usize;
        let h = 1.0 / n.max(1) as f64;
        let q: QuadMesh2d<f64> = create_unit_square_uniform_quad_mesh_2d(n);
        check_boxes(Shape::Quad, &keys(&coords2(q.vertices()), &[0.0; 2], h)?, &conn(q.connectivity()), &[n, n])?;
        let t: TriangleMesh2d<f64> = create_unit_square_uniform_tri_mesh_2d(n);
        check_simplices(&keys(&coords2(t.vertices()), &[0.0; 2], h)?, &conn(t.connectivity()), &[n, n])?;
        ensure_eq!(t.connectivity().len(), 2 * n * n, "triangles");
        let x: HexMesh<f64> = create_unit_box_uniform_hex_mesh_3d(n);
        check_boxes(Shape::Hex, &keys(&coords3(x.vertices()), &[0.0; 3], h)?, &conn(x.connectivity()), &[n, n, n])?;
        let t: Tet4Mesh<f64> = create_unit_box_uniform_tet_mesh_3d(n);
        check_simplices(&keys(&coords3(t.vertices()), &[0.0; 3], h)?, &conn(t.connectivity()), &[n, n, n])
    });
    // numbers of vertices beyond 2^8 and 2^16, in one direction or in all
    let large = [(300, 1), (1, 300), (70_000, 1), (1, 70_000), (270, 260)];
    ctx.suite("large rectangular meshes", 5 * 3, |i| format!("parameters {i}"), move |i| {
        let mut d = Dig(i);
        let (ux, uy) = *d.pick(&large);
        let c = [1usize, 2, 3][d.next(3) as usize];
        let (ux, uy) = if ux > 1000 || uy > 1000 { (ux, uy) } else { ((ux as usize).div_ceil(c), (uy as usize).div_ceil(c)) };
        let len = c as f64 * 0.25;
        let q = create_rectangular_uniform_quad_mesh_2d(len, ux, uy, c, &Vector2::new(0.0, 0.0));
        let n = [ux * c, uy * c];
        let o = [0.0, -len * uy as f64];
        let d1 = check_boxes(Shape::Quad, &keys(&coords2(q.vertices()), &o, 0.25)?, &conn(q.connectivity()), &n)?;
        let t = q.split_into_triangles();
        check_simplices(&keys(&coords2(t.vertices()), &o, 0.25)?, &conn(t.connectivity()), &n)?;
        Ok(d1)
    });
    let large3 = [[20, 1, 20], [1, 300, 1], [1, 1, 300], [300, 1, 1], [2, 1, 150], [270, 270, 1], [45, 40, 42], [1, 1, 20_000]];
    ctx.suite("large boxes of hexahedra and tetrahedra", ctx.tier(7, 8), |i| format!("parameters {i}"), move |i| {
        let u = large3[i as usize];
        let x = create_rectangular_uniform_hex_mesh(0.25, u[0], u[1], u[2], 1);
        let d1 = check_boxes(Shape::Hex, &keys(&coords3(x.vertices()), &[0.0; 3], 0.25)?, &conn(x.connectivity()), &u)?;
        let t = create_rectangular_uniform_tet_mesh(0.25, u[0], u[1], u[2], 1);
        check_simplices(&keys(&coords3(t.vertices()), &[0.0; 3], 0.25)?, &conn(t.connectivity()), &u)?;
        Ok(d1)
    });
    let m3 = ctx.tier(4u64, 5);
    ctx.suite(
        "boxes of hexahedra and tetrahedra",
        m3.pow(4) * 6 * 3,
        |i| format!("parameters {i}"),
        move |i| {
            let mut d = Dig(i);
            let u: Vec<usize> = (0..3).map(|_| d.next(m3) as usize).collect();
            let c = d.next(m3.min(4)) as usize;
            let len = *d.pick(&lengths) * *d.pick(&units);
            let n: Vec<usize> = u.iter().map(|x| x * c).collect();
            let h = len / c.max(1) as f64;
            let x = create_rectangular_uniform_hex_mesh(len, u[0], u[1], u[2], c);
            let d1 = check_boxes(Shape::Hex, &keys(&coords3(x.vertices()), &[0.0; 3], h)?, &conn(x.connectivity()), &n)?;
            let t = create_rectangular_uniform_tet_mesh(len, u[0], u[1], u[2], c);
            check_simplices(&keys(&coords3(t.vertices()), &[0.0; 3], h)?, &conn(t.connectivity()), &n)?;
            Ok(d1)
        },
    );
    let ext = [0.25, 1.0, 1.7, 3.0];
    let sizes = [0.1, 0.25, 0.3, 0.5, 1.0, 4.0];
    ctx.suite("covering grids", 4 * 4 * 4 * 6 * 3, |i| format!("parameters {i}"), move |i| {
        let mut d = Dig(i);
        let u = *d.pick(&units);
        let (ex, ey, o, h) = (u * d.pick(&ext), u * d.pick(&ext), d.pick(&offsets).map(|x| x * u), u * d.pick(&sizes));
        let b = AxisAlignedBoundingBox2d::new(Point2::new(o[0], o[1]), Point2::new(o[0] + ex, o[1] + ey));
        let m = voxelize_bounding_box_2d(&b, h);
        let (_, _, n) = check_cover(&b, h, &m)?;
        Ok(Some(digest(&n)))
    });
    // long boxes, of every number of cells to a direction, just under and just over
    let over = [-1e-2, -1e-3, -1e-6, 0.0, 1e-6, 1e-3, 1e-2, 0.5];
    let top = ctx.tier(90u64, 300);
    ctx.suite("covering grids of every length", top * 8 * 2 * 2, |i| format!("parameters {i}"), move |i| {
        let mut d = Dig(i);
        let n = d.next(top) as f64 + 1.0;
        let e = (n + d.pick(&over)) * 0.25;
        let swap = d.bit();
        let other = *d.pick(&[0.3, 0.75]);
        let (ex, ey) = if swap { (other, e) } else { (e, other) };
        let b = AxisAlignedBoundingBox2d::new(Point2::new(0.4, -1.25), Point2::new(0.4 + ex, -1.25 + ey));
        let m = voxelize_bounding_box_2d(&b, 0.25);
        let (_, _, n) = check_cover(&b, 0.25, &m)?;
        Ok(Some(digest(&n)))
    });
    let long = [[70.0, 0.6], [0.6, 70.0], [20.0, 20.0], [17_000.0, 0.3], [0.3, 17_000.0]];
    ctx.suite("large shapes", ctx.tier(3, 5) * 2, |i| format!("parameters {i}"), move |i| {
        let e = long[i as usize / 2];
        let aabb = AxisAlignedBoundingBox2d::new(Point2::new(-1.0, -2.0), Point2::new(e[0] - 1.0, e[1] - 2.0));
        let m = voxelize_bounding_box_2d(&aabb, 0.25);
        let (_, _, n) = check_cover(&aabb, 0.25, &m)?;
        if i % 2 == 0 && e[0].max(e[1]) < 1000.0 {
            check_shape(&SdfAxisAlignedBox { aabb }, 0.25, false)?;
        }
        Ok(Some(digest(&n)))
    });
    // all sign patterns
    let boxes = [([2.0, 1.0], 1.1), ([2.0, 2.0], 1.1), ([3.0, 2.0], 1.1), ([4.0, 3.0], 1.1)];
    let boxes = &boxes[..ctx.tier(3, 4)];
    for (((e, h), u), at) in boxes.iter().flat_map(|b| units.map(|u| (b, u))).zip(0..) {
        if at % 3 != 0 && at >= 9 {
            continue;
        }
        let b = AxisAlignedBoundingBox2d::new(Point2::new(-0.5 * u, 0.25 * u), Point2::new((-0.5 + e[0]) * u, (0.25 + e[1]) * u));
        let h = *h * u;
        let grid = voxelize_bounding_box_2d(&b, h);
        let Ok((o, hh, n)) = check_cover(&b, h, &grid) else { continue };
        let verts = ((n[0] + 1) * (n[1] + 1)) as u32;
        ctx.suite(&format!("all shapes on {} x {} cells in units of {u:.1e}", n[0], n[1]), 2u64 << verts.min(20), |i| format!("signs {:b}", i / 2), move |i| {
            let v = Voxels { bounds: b.clone(), origin: o.clone(), h: hh, nx: n[0] as i64, inside: i / 2, on_boundary: i % 2 == 1, unit: u };
            let (d, _) = check_voxels(&v, h)?;
            Ok(Some(d))
        });
    }
    let centers = [[0.0, 0.0], [0.3, -0.2], [-1.1, 2.0]];
    let radii = [0.2, 0.75, 1.0];
    let hs = [0.07, 0.2, 0.5, 1.5];
    ctx.suite("circles", 3 * 3 * 4 * 3, |i| format!("parameters {i}"), move |i| {
        let mut d = Dig(i);
        let u = *d.pick(&units);
        let (c, r, h) = (d.pick(&centers).map(|x| x * u), u * d.pick(&radii), u * d.pick(&hs));
        check_shape(&SdfCircle { radius: r, center: Vector2::new(c[0], c[1]) }, h, false)
    });
    ctx.suite("boxes", 3 * 4 * 4 * 4 * 3, |i| format!("parameters {i}"), move |i| {
        let mut d = Dig(i);
        let u = *d.pick(&units);
        let (c, ex, ey, h) = (d.pick(&centers).map(|x| x * u), u * d.pick(&ext), u * d.pick(&ext), u * d.pick(&hs));
        let aabb = AxisAlignedBoundingBox2d::new(Point2::new(c[0], c[1]), Point2::new(c[0] + ex, c[1] + ey));
        check_shape(&SdfAxisAlignedBox { aabb }, h, false)
    });
    ctx.suite("unions", 3 * 3 * 3 * 3 * 4 * 3, |i| format!("parameters {i}"), move |i| {
        let mut d = Dig(i);
        let u = *d.pick(&units);
        let (c, r) = (d.pick(&centers).map(|x| x * u), u * d.pick(&radii));
        let (c2, r2, h) = (d.pick(&centers).map(|x| x * u), u * d.pick(&radii), u * d.pick(&hs));
        let aabb = AxisAlignedBoundingBox2d::new(Point2::new(c2[0], c2[1]), Point2::new(c2[0] + r2, c2[1] + 2.0 * r2));
        check_shape(&SdfCircle { radius: r, center: Vector2::new(c[0], c[1]) }.union(SdfAxisAlignedBox { aabb }), h, true)
    });
    ctx.suite("spheres", 3 * 3 * ctx.tier(5, 7), |i| format!("parameters {i}"), move |i| {
        let mut d = Dig(i);
        let r = *d.pick(&[1.0, 0.5, 2.0]);
        let u = *d.pick(&units);
        let n = d.0 as usize + 1;
        let c = [0.5, -1.0, 2.0];
        let s = create_simple_stupid_sphere(&(Point3::new(c[0], c[1], c[2]) * u), r * u, n);
        let mut planes: Vec<poly::Plane> = vec![];
        for k in 0..3 {
            for sg in [-1.0, 1.0] {
                let mut v = [0.0; 3];
                v[k] = sg;
                planes.push((v, r + sg * c[k]));
            }
        }
        for i in 0..n {
            for j in 0..n {
                let (t, p) = (std::f64::consts::PI * i as f64 / n as f64, 2.0 * std::f64::consts::PI * j as f64 / n as f64);
                let v = [t.sin() * p.cos(), t.sin() * p.sin(), t.cos()];
                planes.push((v, r + poly::dot(v, c)));
            }
        }
        ensure_eq!(s.num_cells(), 1, "number of cells");
        let pts: Vec<[f64; 3]> = s.vertices().iter().map(|p| [p.x / u, p.y / u, p.z / u]).collect();
        poly::same_hull(&planes, &pts, 1e-7)?;
        let want = poly::volume(&planes, 1e-7);
        let have = s.compute_volume() / u.powi(3);
        ensure!((have - want).abs() < 1e-5 * want, "volume {have}, not {want} (units of {u})");
        Ok(Some(digest(&pts.len())))
    });
    // spheres with more cuts: the exact body is the intersection of distinct half-spaces tangent to one ball,
    // so every vertex lies in all of them and every one of them carries a face
    ctx.suite("spheres with many cuts", ctx.tier(8, 16) * 3, |i| format!("parameters {i}"), move |i| {
        let mut d = Dig(i);
        let u = *d.pick(&units);
        let n = d.0 as usize + 6;
        let (r, c) = (1.5, [0.5, -1.0, 2.0]);
        let s = create_simple_stupid_sphere(&(Point3::new(c[0], c[1], c[2]) * u), r * u, n);
        ensure_eq!(s.num_cells(), 1, "number of cells");
        let pts: Vec<[f64; 3]> = s.vertices().iter().map(|p| [p.x / u - c[0], p.y / u - c[1], p.z / u - c[2]]).collect();
        let mut dirs = vec![];
        for k in 0..3 {
            for sg in [-1.0, 1.0] {
                let mut v = [0.0; 3];
                v[k] = sg;
                dirs.push(v);
            }
        }
        for i in 0..n {
            for j in 0..n {
                let (t, p) = (std::f64::consts::PI * i as f64 / n as f64, 2.0 * std::f64::consts::PI * j as f64 / n as f64);
                dirs.push([t.sin() * p.cos(), t.sin() * p.sin(), t.cos()]);
            }
        }
        for v in &dirs {
            let far = pts.iter().map(|p| poly::dot(*v, *p)).fold(f64::NEG_INFINITY, f64::max);
            ensure!((far - r).abs() < 1e-6, "the body reaches {far} in the direction {v:?}, not {r} (units of {u})");
            let on = pts.iter().filter(|p| (poly::dot(*v, **p) - r).abs() < 1e-6).count();
            ensure!(on >= 3, "{on} vertices on the plane tangent at {v:?}");
        }
        // closed, and of at least the volume of the ball
        let ball = 4.0 / 3.0 * std::f64::consts::PI * r * r * r;
        let v = s.compute_volume() / u.powi(3);
        ensure!(v > ball && v < 1.25 * ball, "volume {v}, with a ball of {ball} inscribed (units of {u})");
        Ok(Some(digest(&pts.len())))
    });
    ctx.assume("grid positions are recognised up to 1e-6 of the cell size; boxes to be covered have positive extents");
    ctx.finish()
}
