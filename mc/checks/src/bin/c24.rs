//! C24: clipping and splitting polygons and polyhedral meshes.
use checks::geo::{area2, cross, dot, is_convex, is_simple, orient3, perp, sub, P2, P3};
use checks::poly;
use fenris::geometry::polymesh::{PolyMesh, PolyMesh3d};
use fenris::geometry::*;
use fenris::nalgebra::{Point2, Point3, Unit, Vector2, Vector3};
use fenris_nested_vec::NestedVec;
use hk::*;
use std::collections::{BTreeMap, BTreeSet};

/// From lattice to real coordinates. One of them is exact, the other has rounding everywhere.
#[derive(Clone, Copy, Debug)]
struct Scale(f64, f64);
/// The others are very small and very large.
const SCALES: [Scale; 4] = [Scale(0.5, 0.0), Scale(0.3, -0.7), Scale(1.0 / (1u64 << 40) as f64, 0.0), Scale(0.3 * (1u64 << 40) as f64, -0.7 * (1u64 << 40) as f64)];
const NS: u64 = SCALES.len() as u64;
impl Scale {
    fn x(self, k: i64) -> f64 {
        self.0 * k as f64 + self.1
    }
    fn back(self, x: f64) -> f64 {
        (x - self.1) / self.0
    }
    fn p2(self, p: P2) -> Point2<f64> {
        Point2::new(self.x(p[0]), self.x(p[1]))
    }
    fn p3(self, p: P3) -> Point3<f64> {
        Point3::new(self.x(p[0]), self.x(p[1]), self.x(p[2]))
    }
    fn b2(self, p: &Point2<f64>) -> [f64; 2] {
        [self.back(p.x), self.back(p.y)]
    }
    fn b3(self, p: &Point3<f64>) -> [f64; 3] {
        [self.back(p.x), self.back(p.y), self.back(p.z)]
    }
}
const TOL: f64 = 1e-9;

// ---------------------------------------------------------------- exact reference in the plane

/// n.x <= c
type H2 = (P2, i64);

fn edges_of(p: &[P2]) -> Vec<H2> {
    let mut out = vec![];
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        let n = [b[1] - a[1], a[0] - b[0]];
        out.push((n, dot(n, a)));
    }
    if p.len() == 2 {
        // end points of a segment
        let d = sub(p[1], p[0]);
        out.push((d, dot(d, p[1])));
        out.push((d.map(|x| -x), -dot(d, p[0])));
    }
    out
}

/// Extreme points (and possibly others) of a bounded intersection of half-planes, exactly enumerated.
fn corners(hs: &[H2]) -> Vec<[f64; 2]> {
    let mut seen: BTreeSet<(i64, i64, i64)> = BTreeSet::new();
    for i in 0..hs.len() {
        for j in 0..i {
            let (a, b) = (hs[i], hs[j]);
            let mut d = perp(a.0, b.0);
            if d == 0 {
                continue;
            }
            let mut x = a.1 * b.0[1] - b.1 * a.0[1];
            let mut y = a.0[0] * b.1 - b.0[0] * a.1;
            if d < 0 {
                (x, y, d) = (-x, -y, -d);
            }
            if hs.iter().all(|(n, c)| n[0] * x + n[1] * y <= c * d) {
                fn gcd(a: i64, b: i64) -> i64 {
                    if b == 0 {
                        a.abs()
                    } else {
                        gcd(b, a % b)
                    }
                }
                let g = gcd(gcd(x, y), d);
                seen.insert((x / g, y / g, d / g));
            }
        }
    }
    seen.into_iter().map(|(x, y, d)| [x as f64 / d as f64, y as f64 / d as f64]).collect()
}
/// Area of the convex hull of the corners of a convex set.
fn hull_area(v: &[[f64; 2]]) -> f64 {
    if v.len() < 3 {
        return 0.0;
    }
    let c = [v.iter().map(|p| p[0]).sum::<f64>() / v.len() as f64, v.iter().map(|p| p[1]).sum::<f64>() / v.len() as f64];
    let mut v: Vec<[f64; 2]> = v.iter().map(|p| [p[0] - c[0], p[1] - c[1]]).collect();
    v.sort_by(|a, b| a[1].atan2(a[0]).partial_cmp(&b[1].atan2(b[0])).unwrap());
    shoelace(&v)
}
fn shoelace(v: &[[f64; 2]]) -> f64 {
    let Some(o) = v.first() else { return 0.0 };
    let r: Vec<[f64; 2]> = v.iter().map(|p| [p[0] - o[0], p[1] - o[1]]).collect();
    (0..r.len()).map(|i| r[i][0] * r[(i + 1) % r.len()][1] - r[i][1] * r[(i + 1) % r.len()][0]).sum::<f64>() / 2.0
}

/// Is the counter-clockwise polygon `out` (in lattice coordinates) the intersection of the half-planes?
/// `closed`: where the intersection is a point or a segment, it must be there as well.
fn same_set(hs: &[H2], out: &[[f64; 2]], closed: bool) -> Result<(usize, f64), String> {
    let want = corners(hs);
    let area = hull_area(&want);
    for p in out {
        if !p.iter().all(|x| x.is_finite()) {
            return Err(format!("vertex {p:?}"));
        }
        for (n, c) in hs {
            let len = (dot(*n, *n) as f64).sqrt();
            if n[0] as f64 * p[0] + n[1] as f64 * p[1] > *c as f64 + TOL * len {
                return Err(format!("vertex {p:?} is outside of {n:?} <= {c}: {out:?}"));
            }
        }
    }
    if want.is_empty() {
        ensure!(out.is_empty(), "nothing is left, but the result is {out:?}");
    }
    if area > TOL || closed {
        // the corners may include points within an edge of a polygon with straight corners
        for w in &want {
            let n = out.len();
            let near = (0..n).any(|i| {
                let (a, b) = (out[i], out[(i + 1) % n]);
                let e = [b[0] - a[0], b[1] - a[1]];
                let l = e[0] * e[0] + e[1] * e[1];
                let t = if l > 0.0 { (((w[0] - a[0]) * e[0] + (w[1] - a[1]) * e[1]) / l).clamp(0.0, 1.0) } else { 0.0 };
                let d = [w[0] - a[0] - t * e[0], w[1] - a[1] - t * e[1]];
                d[0] * d[0] + d[1] * d[1] <= 1e-16
            });
            ensure!(near, "the corner {w:?} is missing in {out:?}");
        }
    }
    let got = shoelace(out);
    ensure!((got - area).abs() <= TOL * (1.0 + area), "signed area is {got}, should be {area}: {out:?}");
    for i in 0..out.len() {
        let (a, b, c) = (out[i], out[(i + 1) % out.len()], out[(i + 2) % out.len()]);
        let turn = (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]);
        ensure!(turn >= -TOL, "the result is not convex at {b:?}: {out:?}");
    }
    Ok((want.len(), area))
}

fn convex(sc: Scale, p: &[P2]) -> ConvexPolygon<f64> {
    ConvexPolygon::from_vertices(p.iter().map(|v| sc.p2(*v)).collect())
}
fn plain(sc: Scale, p: &ConvexPolygon<f64>) -> Vec<[f64; 2]> {
    p.vertices().iter().map(|v| sc.b2(v)).collect()
}
fn half_plane(sc: Scale, x: P2, n: P2) -> HalfPlane<f64> {
    HalfPlane::from_point_and_normal(sc.p2(x), Unit::new_normalize(Vector2::new(n[0] as f64, n[1] as f64)))
}

/// The polygon's constraints; none of a polygon means the empty set.
fn constraints(p: &[P2]) -> Vec<H2> {
    match p.len() {
        0 => vec![([0, 0], -1), ([1, 0], 0), ([0, 1], 0)],
        1 => vec![([1, 0], p[0][0]), ([-1, 0], -p[0][0]), ([0, 1], p[0][1]), ([0, -1], -p[0][1])],
        _ => edges_of(p),
    }
}

fn check_fan(sc: Scale, q: &ConvexPolygon<f64>) -> Result<(), String> {
    // triangles of the fan tile: counter-clockwise triangles in the polygon whose areas add up
    let tris = q.triangulate_into_vec();
    ensure_eq!(tris, q.triangulate().collect::<Vec<_>>(), "triangulations");
    let area = shoelace(&plain(sc, q));
    let unit = sc.0 * sc.0;
    let mut sum = 0.0;
    for t in &tris {
        ensure!(t.signed_area() / unit >= -TOL, "a triangle of the fan is clockwise: {t:?}");
        ensure!(t.0.iter().all(|v| q.vertices().contains(v)), "a triangle has a corner that is none of the polygon: {t:?}");
        sum += t.area() / unit;
    }
    ensure!((sum - area).abs() <= TOL * (1.0 + area), "areas of triangles add up to {sum} instead of {area}");
    // the general forms
    let s = SimplePolygon2d::from(q.clone());
    ensure_eq!(s.vertices(), q.vertices(), "converted polygon");
    ensure_eq!(s.assume_convex().triangulate(), tris, "triangulation of a convex simple polygon");
    let v = q.vertices();
    if v.len() > 2 {
        let mid = v.iter().fold(Vector2::zeros(), |a, p| a + p.coords) / v.len() as f64;
        for x in [Point2::from(mid), v[1]] {
            let t = s.assume_convex().triangulate_at_point(&x);
            ensure_eq!(t.len(), v.len(), "number of triangles at a point");
            let sum: f64 = t.iter().map(|t| t.signed_area() / unit).sum();
            ensure!(t.iter().all(|t| t.signed_area() / unit >= -TOL && t.0[0] == x), "triangles at {x:?}: {t:?}");
            ensure!((sum - area).abs() <= TOL * (1.0 + area), "areas of triangles at {x:?} add up to {sum} instead of {area}");
        }
    }
    Ok(())
}

fn clip_by_half_plane(sc: Scale, p: &[P2], x: P2, n: P2) -> Verdict {
    if n == [0, 0] {
        return Ok(None);
    }
    let h = half_plane(sc, x, n);
    let q = convex(sc, p).intersect_halfplane(&h);
    let mut hs = constraints(p);
    hs.push((n, dot(n, x)));
    let closed = sc.1 == 0.0 && n.contains(&0);
    let (k, area) = same_set(&hs, &plain(sc, &q), closed)?;
    check_fan(sc, &q)?;
    // what is cut away is what the complement keeps
    let r = convex(sc, p).intersect_halfplane(&h.complement());
    let mut co = constraints(p);
    co.push((n.map(|x| -x), -dot(n, x)));
    same_set(&co, &plain(sc, &r), closed)?;
    Ok(Some(digest(&(k, (area * 1e6) as i64, q.vertices().len()))))
}

/// A sequence of half-planes, each cutting what the ones before have left.
fn clip_chain(sc: Scale, p: &[P2], hs: &[(P2, P2)]) -> Verdict {
    let mut q = convex(sc, p);
    let mut all = constraints(p);
    let mut d = vec![];
    for (x, n) in hs {
        q = q.intersect_halfplane(&half_plane(sc, *x, *n));
        all.push((*n, dot(*n, *x)));
        let (k, area) = same_set(&all, &plain(sc, &q), false)?;
        d.push((k, (area * 1e6) as i64));
    }
    check_fan(sc, &q)?;
    Ok(Some(digest(&d)))
}

fn polygon_pair(sc: Scale, a: &[P2], b: &[P2]) -> Verdict {
    let (p, q) = (convex(sc, a), convex(sc, b));
    let mut hs = constraints(a);
    hs.extend(constraints(b));
    let (k, area) = same_set(&hs, &plain(sc, &p.intersect_polygon(&q)), false)?;
    Ok(Some(digest(&(k, (area * 1e6) as i64))))
}

/// All polygons of k lattice points that are convex and counter-clockwise, from every starting vertex or from one.
fn convex_polygons(n: i64, k: usize, rotations: bool) -> Vec<Vec<P2>> {
    let pts: Vec<P2> = (0..n * n).map(|i| [2 * (i % n), 2 * (i / n)]).collect();
    let mut out = vec![];
    fn rec(pts: &[P2], k: usize, rotations: bool, cur: &mut Vec<usize>, out: &mut Vec<Vec<P2>>) {
        if cur.len() == k {
            let p: Vec<P2> = cur.iter().map(|i| pts[*i]).collect();
            if is_convex(&p) {
                out.push(p);
            }
            return;
        }
        for i in 0..pts.len() {
            if cur.contains(&i) || (!rotations && cur.first().is_some_and(|f| i < *f)) {
                continue;
            }
            if cur.len() >= 2 && checks::geo::orient(pts[cur[cur.len() - 2]], pts[cur[cur.len() - 1]], pts[i]) < 0 {
                continue;
            }
            cur.push(i);
            rec(pts, k, rotations, cur, out);
            cur.pop();
        }
    }
    rec(&pts, k, rotations, &mut vec![], &mut out);
    out
}

/// Every line with the given normal through lattice points of a box, both directions.
fn lattice_half_planes(normals: &[P2], reach: (i64, i64), step: i64) -> Vec<(P2, P2)> {
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for n in normals {
        for x in (reach.0..=reach.1).step_by(step as usize) {
            for y in (reach.0..=reach.1).step_by(step as usize) {
                if seen.insert((*n, dot(*n, [x, y]))) {
                    out.push(([x, y], *n));
                }
            }
        }
    }
    out
}
const AXES2: [P2; 8] = [[1, 0], [0, 1], [-1, 0], [0, -1], [1, 1], [-1, 1], [1, -1], [-1, -1]];
const NORMALS2: [P2; 16] =
    [[1, 0], [0, 1], [-1, 0], [0, -1], [1, 1], [-1, 1], [1, -1], [-1, -1], [1, 2], [2, 1], [-1, 2], [2, -1], [1, -2], [-2, 1], [-1, -2], [-2, -1]];

// ---------------------------------------------------------------- polygons in space

/// A plane polygon o + x u + y v, cut by a half-space.
fn clip_polygon3(sc: Scale, p: &[P2], frame: [P3; 2], x: P3, n: P3) -> Verdict {
    let [u, v] = frame;
    let at = |q: P2| -> P3 { std::array::from_fn(|k| q[0] * u[k] + q[1] * v[k]) };
    let s = SimplePolygon3d::from_vertices(p.iter().map(|q| sc.p3(at(*q))).collect());
    let nv = cross(u, v);
    let len = (dot(nv, nv) as f64).sqrt();
    // area vector of the polygon itself
    let unit = sc.0 * sc.0;
    let full = area2(p) as f64 / 2.0;
    let av = s.area_vector();
    for k in 0..3 {
        ensure!((av[k] / unit - full * nv[k] as f64).abs() <= TOL * (1.0 + full.abs() * len), "area vector {av:?}, should be {full} times {nv:?}");
    }
    ensure!((s.area() / unit - full.abs() * len).abs() <= TOL * (1.0 + full.abs() * len), "area {}", s.area());
    let h = HalfSpace::from_point_and_normal(sc.p3(x), Unit::new_normalize(Vector3::new(n[0] as f64, n[1] as f64, n[2] as f64)));
    let r = s.intersect_half_space(&h);
    // the half-space is a half-plane in the coordinates of the polygon
    let (m, c) = ([dot(n, u), dot(n, v)], dot(n, x));
    let mut out = vec![];
    for q in r.vertices() {
        let q = sc.b3(q);
        let off = q[0] * nv[0] as f64 + q[1] * nv[1] as f64 + q[2] * nv[2] as f64;
        ensure!(off.abs() <= TOL * len, "vertex {q:?} is not in the plane of the polygon");
        // coordinates in the frame
        let (f, g): (Vec<f64>, Vec<f64>) = (u.iter().map(|x| *x as f64).collect(), v.iter().map(|x| *x as f64).collect());
        let d = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>();
        let (uu, uv, vv) = (d(&f, &f), d(&f, &g), d(&g, &g));
        let (qu, qv) = (d(&q, &f), d(&q, &g));
        let det = uu * vv - uv * uv;
        out.push([(qu * vv - qv * uv) / det, (qv * uu - qu * uv) / det]);
    }
    let dg;
    if m == [0, 0] {
        // parallel: all or nothing
        if 0 < c {
            ensure_eq!(r, s, "polygon within the half-space");
        } else if 0 > c {
            ensure!(r.vertices().is_empty(), "a polygon outside of the half-space becomes {out:?}");
        } else if sc.1 == 0.0 && n.iter().filter(|x| **x != 0).count() == 1 {
            ensure_eq!(r, s, "polygon on the surface of the half-space");
        }
        dg = digest(&c.signum());
    } else if is_convex(p) {
        let mut hs = constraints(p);
        hs.push((m, c));
        let (k, area) = same_set(&hs, &out, false)?;
        for (a, b, c) in r.assume_convex().triangulate().iter().map(|t| (t.0[0], t.0[1], t.0[2])) {
            let w = (b - a).cross(&(c - a)) / unit;
            ensure!(w.dot(&Vector3::new(nv[0] as f64, nv[1] as f64, nv[2] as f64)) >= -TOL, "a triangle of the fan is turned over");
        }
        let fan: f64 = r.assume_convex().triangulate().iter().map(|t| t.area() / unit).sum();
        ensure!((fan - r.area() / unit).abs() <= TOL * (1.0 + fan), "areas of triangles add up to {fan} instead of {}", r.area());
        dg = digest(&(k, (area * 1e6) as i64));
    } else {
        // the signed area is additive: that of the triangles of a fan, each cut exactly
        let mut area = 0.0;
        for i in 1..p.len() - 1 {
            let mut t = vec![p[0], p[i], p[i + 1]];
            let s = area2(&t).signum();
            if s == 0 {
                continue;
            }
            if s < 0 {
                t.swap(1, 2);
            }
            let mut hs = constraints(&t);
            hs.push((m, c));
            area += s as f64 * hull_area(&corners(&hs));
        }
        ensure!((shoelace(&out) - area).abs() <= TOL * (1.0 + area.abs()), "signed area is {}, should be {area}: {out:?}", shoelace(&out));
        for q in &out {
            ensure!(m[0] as f64 * q[0] + m[1] as f64 * q[1] <= c as f64 + TOL * 10.0, "vertex {q:?} is outside of the half-space");
        }
        for q in p {
            if dot(m, *q) < c {
                ensure!(out.iter().any(|o| (o[0] - q[0] as f64).abs() + (o[1] - q[1] as f64).abs() < 1e-8), "the corner {q:?} is missing");
            }
        }
        dg = digest(&((area * 1e6) as i64));
    }
    Ok(Some(dg))
}

// ---------------------------------------------------------------- polyhedral meshes

#[derive(Clone, Debug)]
struct Body {
    name: String,
    v: Vec<P3>,
    faces: Vec<Vec<usize>>,
    cells: Vec<Vec<usize>>,
}
/// n.x <= c for each face of a cell, the normals pointing out of it.
fn cell_planes(b: &Body, cell: usize) -> Vec<(P3, i64)> {
    let vs: BTreeSet<usize> = b.cells[cell].iter().flat_map(|f| b.faces[*f].iter().copied()).collect();
    b.cells[cell]
        .iter()
        .map(|f| {
            let f = &b.faces[*f];
            let mut n = cross(sub(b.v[f[1]], b.v[f[0]]), sub(b.v[f[2]], b.v[f[0]]));
            let mut c = dot(n, b.v[f[0]]);
            let side: i64 = vs.iter().map(|v| (dot(n, b.v[*v]) - c).signum()).sum();
            if side > 0 {
                n = n.map(|x| -x);
                c = -c;
            }
            assert!(vs.iter().all(|v| dot(n, b.v[*v]) <= c), "harness: cell {cell} of {} is not convex", b.name);
            assert!(f.iter().all(|v| dot(n, b.v[*v]) == c), "harness: a face of {} is not plane", b.name);
            (n, c)
        })
        .collect()
}
fn float_planes(p: &[(P3, i64)]) -> Vec<poly::Plane> {
    // of unit length, for the tolerances of the oracle
    p.iter()
        .map(|(n, c)| {
            let l = (dot(*n, *n) as f64).sqrt();
            (n.map(|x| x as f64 / l), *c as f64 / l)
        })
        .collect()
}
fn build(sc: Scale, b: &Body) -> PolyMesh3d<f64> {
    PolyMesh3d::from_poly_data(b.v.iter().map(|p| sc.p3(*p)).collect(), NestedVec::from(&b.faces), NestedVec::from(&b.cells))
}
fn face_area(pts: &[[f64; 3]]) -> f64 {
    let mut a = [0.0; 3];
    for i in 1..pts.len().saturating_sub(1) {
        a = poly::add(a, poly::cross(poly::sub(pts[i], pts[0]), poly::sub(pts[i + 1], pts[0])));
    }
    poly::norm(a) / 2.0
}
/// Is the part of a face (in its plane) within the other half-spaces of positive area?
fn on_plane_area(plane: &(P3, i64), all: &[poly::Plane]) -> bool {
    let [p] = float_planes(&[*plane])[..] else { unreachable!() };
    let vs: Vec<[f64; 3]> = poly::vertices(all, 1e-9).into_iter().filter(|v| (poly::dot(p.0, *v) - p.1).abs() < 1e-8).collect();
    vs.len() >= 3
        && (2..vs.len()).any(|k| (1..k).any(|j| poly::norm(poly::cross(poly::sub(vs[k], vs[0]), poly::sub(vs[j], vs[0]))) > 1e-7))
}

/// Judge a clipped mesh: `extra` are the half-spaces that were applied to the body.
fn judge(sc: Scale, b: &Body, extra: &[(P3, i64)], got: &PolyMesh3d<f64>) -> Verdict {
    let fx = float_planes(extra);
    let planes: Vec<Vec<poly::Plane>> = (0..b.cells.len())
        .map(|c| {
            let mut p = float_planes(&cell_planes(b, c));
            p.extend(&fx);
            p
        })
        .collect();
    let vols: Vec<f64> = planes.iter().map(|p| poly::volume(p, 1e-9)).collect();
    let touch: Vec<bool> = planes.iter().map(|p| !poly::vertices(p, 1e-9).is_empty()).collect();
    let v: Vec<[f64; 3]> = got.vertices().iter().map(|p| sc.b3(p)).collect();
    ensure!(v.iter().flatten().all(|x| x.is_finite()), "a vertex is not finite");
    let faces: Vec<Vec<usize>> = got.face_connectivity_iter().map(|f| f.to_vec()).collect();
    let cells: Vec<Vec<usize>> = got.cell_connectivity_iter().map(|f| f.to_vec()).collect();
    // every cell is a closed polyhedron with plane faces
    let mut origin: Vec<(usize, usize)> = vec![]; // (input cell, output cell) of those with a volume
    let mut next = 0;
    let mut flat = 0;
    for (k, c) in cells.iter().enumerate() {
        ensure!(c.iter().collect::<BTreeSet<_>>().len() == c.len(), "cell {k} has a face twice: {c:?}");
        let mut uses: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        let mut pts: BTreeSet<usize> = BTreeSet::new();
        let mut few = false;
        for f in c {
            let f = &faces[*f];
            few |= f.len() < 3;
            for i in 0..f.len() {
                let (x, y) = (f[i], f[(i + 1) % f.len()]);
                *uses.entry((x.min(y), x.max(y))).or_default() += 1;
                pts.insert(x);
            }
        }
        let center = poly::scale(pts.iter().fold([0.0; 3], |a, p| poly::add(a, v[*p])), 1.0 / pts.len() as f64);
        let mut vol = 0.0;
        for f in c {
            let f = &faces[*f];
            for i in 1..f.len().saturating_sub(1) {
                vol += poly::det3(poly::sub(v[f[0]], center), poly::sub(v[f[i]], center), poly::sub(v[f[i + 1]], center)).abs() / 6.0;
            }
        }
        // rounding may tear what is left of a cell without thickness that is cut once more
        if vol > 1e-9 || extra.len() < 2 {
            ensure!(!few, "a face of fewer than three vertices in cell {k}");
            ensure!(uses.values().all(|n| *n == 2), "cell {k} is not closed: uses of its edges {uses:?}");
        }
        if vol <= 1e-9 {
            flat += 1;
            let hull: Vec<[f64; 3]> = pts.iter().map(|p| v[*p]).collect();
            let home = (0..planes.len()).any(|i| touch[i] && hull.iter().all(|p| planes[i].iter().all(|(n, c)| poly::dot(*n, *p) <= c + 1e-9)));
            ensure!(home, "the flat cell {k} is part of no intersection");
            continue;
        }
        while next < vols.len() && vols[next] <= 1e-9 {
            next += 1;
        }
        ensure!(next < vols.len(), "more cells with a volume than there should be");
        ensure!((vol - vols[next]).abs() <= 1e-8 * (1.0 + vol), "volume of what is left of cell {next} is {vol}, should be {}", vols[next]);
        let hull: Vec<[f64; 3]> = pts.iter().map(|p| v[*p]).collect();
        poly::same_hull(&planes[next], &hull, 1e-9).map_err(|e| format!("cell {next}: {e}"))?;
        // each face lies on one of the planes
        for f in c {
            let fv: Vec<[f64; 3]> = faces[*f].iter().map(|i| v[*i]).collect();
            ensure!(planes[next].iter().any(|(n, c)| fv.iter().all(|p| (poly::dot(*n, *p) - c).abs() <= 1e-8)), "a face of cell {next} lies on none of the planes: {fv:?}");
        }
        origin.push((next, k));
        next += 1;
    }
    ensure!(vols[next.min(vols.len())..].iter().all(|x| *x <= 1e-9), "cell {next} is missing, its volume should be {vols:?}");
    ensure!(flat <= vols.iter().zip(&touch).filter(|(v, t)| **v <= 1e-9 && **t).count(), "{flat} flat cells, more than there are contacts");
    let total: f64 = vols.iter().sum();
    let unit = sc.0 * sc.0 * sc.0;
    ensure!((got.compute_volume() / unit - total).abs() <= 1e-8 * (1.0 + total), "total volume is {}, should be {total}", got.compute_volume() / unit);
    // cells stay connected through what is left of their common faces
    let mut shared = 0;
    for (i, k) in &origin {
        for (j, l) in &origin {
            if i >= j {
                continue;
            }
            let common: Vec<usize> = b.cells[*i].iter().copied().filter(|f| b.cells[*j].contains(f)).collect();
            let out: Vec<usize> = cells[*k].iter().copied().filter(|f| cells[*l].contains(f)).collect();
            for f in common {
                let at = b.cells[*i].iter().position(|g| *g == f).unwrap();
                if on_plane_area(&cell_planes(b, *i)[at], &planes[*i]) {
                    ensure_eq!(out.len(), 1, "faces between what is left of cells {i} and {j}");
                    shared += 1;
                }
            }
            ensure!(out.len() <= 1, "cells {i} and {j} share {} faces", out.len());
        }
    }
    let bf = got.find_boundary_faces();
    for f in 0..faces.len() {
        let n = cells.iter().filter(|c| c.contains(&f)).count();
        ensure_eq!(bf.contains(&f), n <= 1, "face {f} of {n} cells is on the boundary");
        ensure!(n <= 2, "face {f} belongs to {n} cells");
    }
    // every vertex and face is used
    ensure!(faces.iter().flatten().collect::<BTreeSet<_>>().len() == v.len(), "unused vertices are left");
    Ok(Some(digest(&((total * 1e6) as i64, shared, flat, cells.len()))))
}

fn half_space(sc: Scale, x: P3, n: P3) -> HalfSpace<f64> {
    HalfSpace::from_point_and_normal(sc.p3(x), Unit::new_normalize(Vector3::new(n[0] as f64, n[1] as f64, n[2] as f64)))
}
fn clip_mesh(sc: Scale, b: &Body, hs: &[(P3, P3)]) -> Verdict {
    let mut m = build(sc, b);
    let mut all = vec![];
    let mut d = vec![];
    for (x, n) in hs {
        m = m.intersect_half_space(&half_space(sc, *x, *n));
        all.push((*n, dot(*n, *x)));
        d.push(judge(sc, b, &all, &m)?);
    }
    Ok(Some(digest(&d)))
}
/// The part within and the part without a half-space make up the whole.
fn clip_both(sc: Scale, b: &Body, x: P3, n: P3) -> Verdict {
    let m = build(sc, b);
    let h = half_space(sc, x, n);
    let a = m.intersect_half_space(&h);
    let d = judge(sc, b, &[(n, dot(n, x))], &a)?;
    let e = m.intersect_half_space(&h.complement());
    let f = judge(sc, b, &[(n.map(|x| -x), -dot(n, x))], &e)?;
    // both together
    let both = PolyMesh3d::concatenate([&a, &e]);
    let unit = sc.0.powi(3);
    ensure!((both.compute_volume() - m.compute_volume()).abs() / unit <= 1e2 * TOL, "the parts have volume {} instead of {}", both.compute_volume(), m.compute_volume());
    let tri = a.triangulate().map_err(|e| format!("no triangulation: {e}"))?;
    ensure!((tri.compute_volume() - a.compute_volume()).abs() / unit <= 1e2 * TOL, "triangulated volume {} instead of {}", tri.compute_volume(), a.compute_volume());
    Ok(Some(digest(&(d, f))))
}

const TET: [&[usize]; 4] = [&[0, 1, 2], &[0, 3, 1], &[0, 2, 3], &[1, 3, 2]];
const HEX: [&[usize]; 6] = [&[0, 3, 2, 1], &[0, 1, 5, 4], &[1, 2, 6, 5], &[2, 3, 7, 6], &[3, 0, 4, 7], &[4, 5, 6, 7]];
/// A mesh of cells given by their faces' vertices, with faces of neighbours merged.
fn body(name: &str, v: &[P3], cells: &[Vec<Vec<usize>>]) -> Body {
    let mut faces: Vec<Vec<usize>> = vec![];
    let mut out = vec![];
    for c in cells {
        let mut l = vec![];
        for f in c {
            let key = |f: &[usize]| f.iter().copied().collect::<BTreeSet<_>>();
            let i = faces.iter().position(|g| key(g) == key(f)).unwrap_or_else(|| {
                faces.push(f.clone());
                faces.len() - 1
            });
            l.push(i);
        }
        out.push(l);
    }
    Body { name: name.into(), v: v.to_vec(), faces, cells: out }
}
fn cell(kind: &[&[usize]], v: &[usize]) -> Vec<Vec<usize>> {
    kind.iter().map(|f| f.iter().map(|i| v[*i]).collect()).collect()
}
const PYR: [&[usize]; 5] = [&[0, 3, 2, 1], &[0, 1, 4], &[1, 2, 4], &[2, 3, 4], &[3, 0, 4]];
const PRISM: [&[usize]; 5] = [&[0, 2, 1], &[3, 4, 5], &[0, 1, 4, 3], &[1, 2, 5, 4], &[2, 0, 3, 5]];
const OCT: [&[usize]; 8] = [&[0, 2, 3], &[0, 3, 4], &[0, 4, 5], &[0, 5, 2], &[1, 3, 2], &[1, 4, 3], &[1, 5, 4], &[1, 2, 5]];

fn cube(o: P3, s: i64) -> Vec<P3> {
    [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]].iter().map(|c: &P3| std::array::from_fn(|k| o[k] + s * c[k])).collect()
}
fn bodies() -> Vec<Body> {
    let unit = cube([0, 0, 0], 2);
    let big = cube([0, 0, 0], 4);
    let mut out = vec![
        body("cube", &big, &[cell(&HEX, &[0, 1, 2, 3, 4, 5, 6, 7])]),
        body("tetrahedron", &[[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4]], &[cell(&TET, &[0, 1, 2, 3])]),
        body("pyramid", &[[0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0], [2, 2, 4]], &[cell(&PYR, &[0, 1, 2, 3, 4])]),
        body("prism", &[[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4], [4, 0, 4], [0, 4, 4]], &[cell(&PRISM, &[0, 1, 2, 3, 4, 5])]),
        body("octahedron", &[[2, 2, 4], [2, 2, 0], [0, 2, 2], [2, 0, 2], [4, 2, 2], [2, 4, 2]], &[cell(&OCT, &[0, 1, 2, 3, 4, 5])]),
        body("skew box", &cube([0, 0, 0], 2).iter().map(|p| [p[0] + p[2], p[1] + p[0], p[2]]).collect::<Vec<_>>(), &[cell(&HEX, &[0, 1, 2, 3, 4, 5, 6, 7])]),
        body(
            "frustum",
            &[[0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0], [1, 1, 2], [3, 1, 2], [3, 3, 2], [1, 3, 2]],
            &[cell(&HEX, &[0, 1, 2, 3, 4, 5, 6, 7])],
        ),
    ];
    // several cells
    let two: Vec<P3> = unit.iter().copied().chain([[4, 0, 0], [4, 2, 0], [4, 0, 2], [4, 2, 2]]).collect();
    out.push(body("two cubes", &two, &[cell(&HEX, &[0, 1, 2, 3, 4, 5, 6, 7]), cell(&HEX, &[1, 8, 9, 2, 5, 10, 11, 6])]));
    out.push(body(
        "two tetrahedra",
        &[[0, 0, 0], [4, 0, 0], [0, 4, 0], [0, 0, 4], [4, 4, 4]],
        &[cell(&TET, &[0, 1, 2, 3]), cell(&TET, &[1, 2, 3, 4])],
    ));
    // a cube around its diagonal
    let tets = [[0, 1, 2, 6], [0, 2, 3, 6], [0, 3, 7, 6], [0, 7, 4, 6], [0, 4, 5, 6], [0, 5, 1, 6]];
    out.push(body("cube of six tetrahedra", &big, &tets.map(|t| cell(&TET, &t))));
    let tets = [[0, 1, 2, 5], [0, 2, 3, 7], [0, 4, 5, 7], [2, 5, 6, 7], [0, 2, 5, 7]];
    out.push(body("cube of five tetrahedra", &big, &tets.map(|t| cell(&TET, &t))));
    let roof: Vec<P3> = big.iter().copied().chain([[2, 2, 6]]).collect();
    out.push(body("house", &roof, &[cell(&HEX, &[0, 1, 2, 3, 4, 5, 6, 7]), cell(&PYR, &[4, 5, 6, 7, 8])]));
    // touching along an edge only, and at a vertex only
    out.push(body("cubes at an edge", &[unit.clone(), cube([2, 2, 0], 2)].concat(), &[cell(&HEX, &[0, 1, 2, 3, 4, 5, 6, 7]), cell(&HEX, &[8, 9, 10, 11, 12, 13, 14, 15])]));
    for b in &out {
        for c in 0..b.cells.len() {
            cell_planes(b, c);
        }
    }
    out
}
/// All tetrahedra of the corners of a box.
fn tetrahedra() -> Vec<Body> {
    let pts: Vec<P3> = (0..18).map(|i| [i % 3 * 2, i / 3 % 3 * 2, i / 9 * 2]).collect();
    let mut out = vec![];
    for a in 0..pts.len() {
        for b in 0..a {
            for c in 0..b {
                for d in 0..c {
                    let t = [pts[a], pts[b], pts[c], pts[d]];
                    if orient3(t[0], t[1], t[2], t[3]) != 0 {
                        out.push(body(&format!("{t:?}"), &t, &[cell(&TET, &[0, 1, 2, 3])]));
                    }
                }
            }
        }
    }
    out
}
/// All planes through lattice points with the given normals that come near the box.
fn lattice_half_spaces(normals: &[P3], reach: (i64, i64), step: usize) -> Vec<(P3, P3)> {
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for n in normals {
        for x in (reach.0..=reach.1).step_by(step) {
            for y in (reach.0..=reach.1).step_by(step) {
                for z in (reach.0..=reach.1).step_by(step) {
                    if seen.insert((*n, dot(*n, [x, y, z]))) {
                        out.push(([x, y, z], *n));
                    }
                }
            }
        }
    }
    out
}
fn normals3(kinds: &[usize]) -> Vec<P3> {
    let mut out = vec![];
    for i in 0..27 {
        let n: P3 = [i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1];
        if kinds.contains(&n.iter().filter(|x| **x != 0).count()) {
            out.push(n);
        }
    }
    if kinds.contains(&4) {
        for p in permutations(3) {
            for s in 0..4 {
                let b = [if s & 1 > 0 { -1 } else { 1 }, if s & 2 > 0 { -2 } else { 2 }, 0];
                out.push(std::array::from_fn(|k| b[p[k]]));
            }
        }
    }
    out
}

/// Intersection with a tetrahedron or a hexahedron.
fn clip_polyhedron(sc: Scale, b: &Body, v: &[P3]) -> Verdict {
    let m = build(sc, b);
    let other = if v.len() == 4 {
        if orient3(v[0], v[1], v[2], v[3]) <= 0 {
            return Ok(None);
        }
        body("other", v, &[cell(&TET, &[0, 1, 2, 3])])
    } else {
        body("other", v, &[cell(&HEX, &[0, 1, 2, 3, 4, 5, 6, 7])])
    };
    let planes = cell_planes(&other, 0);
    let p: Vec<Point3<f64>> = v.iter().map(|p| sc.p3(*p)).collect();
    let got = if p.len() == 4 {
        m.intersect_convex_polyhedron(&Tetrahedron::from_vertices([p[0], p[1], p[2], p[3]]))
    } else {
        m.intersect_convex_polyhedron(&Hexahedron::from_vertices(std::array::from_fn(|i| p[i])))
    };
    judge(sc, b, &planes, &got)
}

// ---------------------------------------------------------------- triangulation

/// The vertices in another order: tetrahedra that tile each cell, and match across common faces.
fn triangulated(sc: Scale, b: &Body, perm: &[usize], turn: usize) -> Verdict {
    // vertex i is stored at perm[i]
    let mut c = b.clone();
    for (i, p) in perm.iter().enumerate() {
        c.v[*p] = b.v[i];
    }
    for (k, f) in c.faces.iter_mut().enumerate() {
        for x in f.iter_mut() {
            *x = perm[*x];
        }
        let n = f.len();
        f.rotate_left((turn + k) % n);
        if (turn >> 2) + k & 1 == 1 {
            f.reverse();
        }
    }
    let m = build(sc, &c);
    let t = m.triangulate().map_err(|e| format!("no triangulation: {e}"))?;
    ensure_eq!(t.vertices(), m.vertices(), "vertices");
    let faces: Vec<Vec<usize>> = t.face_connectivity_iter().map(|f| f.to_vec()).collect();
    let mut uses = vec![0; faces.len()];
    let mut rest: Vec<f64> = (0..b.cells.len()).map(|k| poly::volume(&float_planes(&cell_planes(b, k)), 1e-9)).collect();
    let mut pieces = vec![];
    for tet in t.cell_connectivity_iter() {
        ensure_eq!(tet.len(), 4, "faces of a tetrahedron");
        let vs: BTreeSet<usize> = tet.iter().flat_map(|f| faces[*f].iter().copied()).collect();
        ensure!(vs.len() == 4 && tet.iter().all(|f| faces[*f].len() == 3), "a tetrahedron with vertices {vs:?}");
        ensure!(tet.iter().map(|f| faces[*f].iter().copied().collect::<BTreeSet<_>>()).collect::<BTreeSet<_>>().len() == 4, "a tetrahedron with a face twice");
        for f in tet {
            uses[*f] += 1;
        }
        let p: Vec<P3> = vs.iter().map(|i| c.v[*i]).collect();
        let vol = orient3(p[0], p[1], p[2], p[3]).abs() as f64 / 6.0;
        ensure!(vol > 0.0, "a flat tetrahedron {p:?}");
        // it belongs to one of the cells
        let home: Vec<usize> = (0..b.cells.len()).filter(|k| cell_planes(b, *k).iter().all(|(n, d)| p.iter().all(|x| dot(*n, *x) <= *d))).collect();
        ensure_eq!(home.len(), 1, "cells containing the tetrahedron {p:?}");
        rest[home[0]] -= vol;
        pieces.push((home[0], p));
    }
    ensure!(rest.iter().all(|r| r.abs() < 1e-8), "volumes of tetrahedra do not add up: {rest:?} of the cells is left");
    // a triangle within belongs to two tetrahedra, one on the boundary to one of them
    let mut distinct = BTreeSet::new();
    for (k, f) in faces.iter().enumerate() {
        ensure!(distinct.insert(f.iter().copied().collect::<BTreeSet<_>>()), "face {f:?} twice");
        let homes: Vec<bool> = (0..b.cells.len())
            .flat_map(|c| cell_planes(b, c).into_iter().enumerate().map(move |(i, p)| (b.cells[c][i], p)))
            .filter(|(_, (n, d))| f.iter().all(|x| dot(*n, c.v[*x]) == *d))
            .map(|(orig, _)| b.cells.iter().filter(|c| c.contains(&orig)).count() == 1)
            .collect();
        // a triangle in the plane of a boundary face of its cell
        let boundary = homes.iter().any(|x| *x) && {
            let vs: BTreeSet<usize> = f.iter().copied().collect();
            c.faces.iter().enumerate().any(|(i, g)| vs.iter().all(|v| g.contains(v)) && c.cells.iter().filter(|c| c.contains(&i)).count() == 1)
        };
        ensure_eq!(uses[k], if boundary { 1 } else { 2 }, "tetrahedra at the triangle {f:?}");
    }
    pieces.sort();
    Ok(Some(digest(&pieces)))
}

// ---------------------------------------------------------------- book-keeping of faces and cells

fn small_mesh(faces: &[Vec<usize>], cells: &[Vec<usize>]) -> PolyMesh3d<f64> {
    mesh_of(4, faces, cells)
}
fn mesh_of(nv: usize, faces: &[Vec<usize>], cells: &[Vec<usize>]) -> PolyMesh3d<f64> {
    let v: Vec<Point3<f64>> = (0..nv).map(|i| Point3::new(i as f64, ((i * i) % 1009) as f64 + 0.5, -((i % 64) as f64))).collect();
    PolyMesh::from_poly_data(v, NestedVec::from(&faces.to_vec()), NestedVec::from(&cells.to_vec()))
}
fn faces_of(m: &PolyMesh3d<f64>) -> Vec<Vec<usize>> {
    m.face_connectivity_iter().map(|f| f.to_vec()).collect()
}
fn cells_of(m: &PolyMesh3d<f64>) -> Vec<Vec<usize>> {
    m.cell_connectivity_iter().map(|f| f.to_vec()).collect()
}
fn book(nv: usize, faces: &[Vec<usize>], cells: &[Vec<usize>]) -> Verdict {
    let m = mesh_of(nv, faces, cells);
    ensure_eq!((m.num_faces(), m.num_cells()), (faces.len(), cells.len()), "counts");
    ensure!(m.get_face(faces.len()).is_none() && m.get_cell_connectivity(cells.len()).is_none() && m.get_face_connectivity(faces.len()).is_none(), "entries beyond the end");
    for (i, f) in faces.iter().enumerate() {
        ensure_eq!(m.face_vertices(i).copied().collect::<Vec<_>>(), f.iter().map(|v| m.vertices()[*v]).collect::<Vec<_>>(), "vertices of face {i}");
        let g = m.get_face(i).ok_or("no face")?;
        ensure_eq!((0..g.num_vertices()).map(|k| g.get_vertex(k).unwrap()).collect::<Vec<_>>(), m.face_vertices(i).copied().collect::<Vec<_>>(), "vertices of face view {i}");
        ensure!(g.get_vertex(f.len()).is_none(), "vertex beyond the end of a face");
    }
    // which cells a face belongs to
    let fc = m.compute_face_cell_connectivity();
    ensure_eq!(fc.len(), faces.len(), "faces with cells");
    let mut boundary = vec![];
    for i in 0..faces.len() {
        let mut want = vec![];
        for (k, c) in cells.iter().enumerate() {
            for f in c {
                if *f == i {
                    want.push(k);
                }
            }
        }
        ensure_eq!(fc.get(i).unwrap().to_vec(), want, "cells of face {i}");
        if want.len() <= 1 {
            boundary.push(i);
        }
    }
    ensure_eq!(m.find_boundary_faces(), boundary, "boundary faces");
    // merging equal faces
    let mut d = m.clone();
    d.dedup_faces();
    let set = |f: &[usize]| {
        let mut f = f.to_vec();
        f.sort();
        f
    };
    let mut first: Vec<Vec<usize>> = vec![];
    for f in faces {
        if !first.iter().any(|g| set(g) == set(f)) {
            first.push(f.clone());
        }
    }
    ensure_eq!(faces_of(&d), first, "faces after merging");
    let want: Vec<Vec<usize>> = cells.iter().map(|c| c.iter().map(|f| first.iter().position(|g| set(g) == set(&faces[*f])).unwrap()).collect()).collect();
    ensure_eq!(cells_of(&d), want, "cells after merging");
    ensure_eq!(d.vertices(), m.vertices(), "vertices after merging");
    // part of the cells, in any order and more than once
    let keeps: Vec<Vec<usize>> = match cells.len() {
        0 => vec![vec![]],
        1 => vec![vec![], vec![0], vec![0, 0]],
        n if n > 2 => vec![vec![], vec![n - 1], vec![0, n - 1], (0..n).collect(), (0..n).rev().collect(), (0..n).step_by(2).collect()],
        _ => vec![vec![], vec![0], vec![1], vec![0, 1], vec![1, 0], vec![1, 1], vec![0, 1, 0]],
    };
    for keep in keeps {
        let k = m.keep_cells(&keep);
        let fs: BTreeSet<usize> = keep.iter().flat_map(|c| cells[*c].iter().copied()).collect();
        let vs: BTreeSet<usize> = fs.iter().flat_map(|f| faces[*f].iter().copied()).collect();
        let (fs, vs): (Vec<usize>, Vec<usize>) = (fs.into_iter().collect(), vs.into_iter().collect());
        ensure_eq!(k.vertices(), vs.iter().map(|v| m.vertices()[*v]).collect::<Vec<_>>(), "vertices of cells {keep:?}");
        ensure_eq!(faces_of(&k), fs.iter().map(|f| faces[*f].iter().map(|v| vs.iter().position(|w| w == v).unwrap()).collect::<Vec<_>>()).collect::<Vec<_>>(), "faces of cells {keep:?}");
        ensure_eq!(cells_of(&k), keep.iter().map(|c| cells[*c].iter().map(|f| fs.iter().position(|g| g == f).unwrap()).collect::<Vec<_>>()).collect::<Vec<_>>(), "cells {keep:?}");
    }
    ensure!(no_panic(|| m.keep_cells(&[cells.len()])).is_err(), "a cell that does not exist is kept");
    // several meshes into one
    let other = small_mesh(&[vec![3, 2, 1], vec![0, 1, 2]], &[vec![1, 0], vec![]]);
    for parts in [vec![], vec![&m], vec![&m, &other], vec![&other, &m, &m], vec![&other, &m, &other]] {
        let all = PolyMesh3d::concatenate(parts.iter().copied());
        let (mut v, mut f, mut c) = (vec![], vec![], vec![]);
        for p in &parts {
            let (ov, of) = (v.len(), f.len());
            v.extend(p.vertices().iter().copied());
            f.extend(faces_of(p).into_iter().map(|x| x.into_iter().map(|i| i + ov).collect::<Vec<_>>()));
            c.extend(cells_of(p).into_iter().map(|x| x.into_iter().map(|i| i + of).collect::<Vec<_>>()));
        }
        ensure!(all.vertices() == v && faces_of(&all) == f && cells_of(&all) == c, "{} meshes in one: {all:?}", parts.len());
    }
    let t = Vector3::new(1.5, -2.0, 0.25);
    let moved = m.clone().translated(&t);
    ensure!(moved.vertices().iter().zip(m.vertices()).all(|(a, b)| *a == b + t) && faces_of(&moved) == faces && cells_of(&moved) == cells, "translated mesh {moved:?}");
    // midpoints of edges
    for n in 0..3 {
        let mut s = m.clone();
        s.split_edges_n_times(n);
        ensure_eq!(cells_of(&s), cells, "cells after splitting edges");
        ensure_eq!(&s.vertices()[..nv], m.vertices(), "vertices after splitting edges");
        let mut uses: BTreeSet<(usize, usize)> = BTreeSet::new();
        for f in faces {
            for i in 0..f.len() {
                let (a, b) = (f[i], f[(i + 1) % f.len()]);
                uses.insert((a.min(b), a.max(b)));
            }
        }
        let parts = 1 << n;
        ensure_eq!(s.vertices().len(), nv + uses.len() * (parts - 1), "number of vertices after splitting {} edges {n} times", uses.len());
        for (f, g) in faces.iter().zip(faces_of(&s)) {
            ensure_eq!(g.len(), f.len() * parts, "vertices of a split face");
            for (i, x) in g.iter().enumerate() {
                let (a, b) = (m.vertices()[f[i / parts]], m.vertices()[f[(i / parts + 1) % f.len()]]);
                let want = a + (b - a) * ((i % parts) as f64 / parts as f64);
                ensure!((s.vertices()[*x] - want).norm() < 1e-12, "vertex {i} of a split face is {:?} instead of {want:?}", s.vertices()[*x]);
                if i % parts == 0 {
                    ensure_eq!(*x, f[i / parts], "corner of a split face");
                }
            }
        }
    }
    Ok(Some(digest(&(faces, cells))))
}

fn main() {
    let ctx = Ctx::new(
        "C24",
        Level::Exploration,
        "every clip and every split of every small lattice polygon, polyhedron and polyhedral mesh is the exact point set, enumerated from its half-spaces",
    );
    ctx.assume("results are compared as point sets with a tolerance of 1e-9 lattice steps; where an intersection has no area (or volume), it may also be dropped, unless one axis-parallel half-plane with exact coordinates cuts a polygon");
    ctx.assume("the orientation of faces of polyhedral meshes is not judged: a face is shared by two cells");
    let th = ctx.thorough;
    // polygons
    let mut small: Vec<Vec<P2>> = vec![vec![]];
    let pts: Vec<P2> = (0..9).map(|i| [2 * (i % 3), 2 * (i / 3)]).collect();
    for a in &pts {
        small.push(vec![*a]);
        for b in &pts {
            if a != b {
                small.push(vec![*a, *b]);
            }
        }
    }
    let n = 3;
    let mut polys: Vec<Vec<P2>> = (3..=ctx.tier(5, 6)).flat_map(|k| convex_polygons(n, k, true)).collect();
    polys.extend(small.iter().cloned());
    let hs = lattice_half_planes(&NORMALS2, (-1, 5), 1);
    println!("{} polygons, {} half-planes", polys.len(), hs.len());
    let (np, nh) = (polys.len() as u64, hs.len() as u64);
    let one = |i: u64| {
        let mut g = Dig(i);
        (SCALES[g.next(NS) as usize], g.next(np) as usize, g.next(nh) as usize)
    };
    ctx.suite(
        "polygon by half-plane",
        NS * np * nh,
        |i| {
            let (s, p, h) = one(i);
            format!("{s:?} {:?} by {:?}", polys[p], hs[h])
        },
        |i| {
            let (s, p, h) = one(i);
            clip_by_half_plane(s, &polys[p], hs[h].0, hs[h].1)
        },
    );
    if th {
        let polys: Vec<Vec<P2>> = (3..=6).flat_map(|k| convex_polygons(4, k, false)).collect();
        let hs = lattice_half_planes(&NORMALS2, (-1, 7), 1);
        println!("{} larger polygons, {} half-planes", polys.len(), hs.len());
        let (np, nh) = (polys.len() as u64, hs.len() as u64);
        let one = |i: u64| {
            let mut g = Dig(i);
            (SCALES[g.next(NS) as usize], g.next(np) as usize, g.next(nh) as usize)
        };
        ctx.suite(
            "larger polygon by half-plane",
            NS * np * nh,
            |i| {
                let (s, p, h) = one(i);
                format!("{s:?} {:?} by {:?}", polys[p], hs[h])
            },
            |i| {
                let (s, p, h) = one(i);
                clip_by_half_plane(s, &polys[p], hs[h].0, hs[h].1)
            },
        );
    }
    // chains
    let still: Vec<Vec<P2>> = (3..=ctx.tier(4, 6)).flat_map(|k| convex_polygons(3, k, false)).collect();
    let chain_hs = lattice_half_planes(if th { &NORMALS2 } else { &AXES2 }, (0, 4), 1);
    let (np, nh) = (still.len() as u64, chain_hs.len() as u64);
    println!("{np} polygons, {nh} half-planes in chains");
    let one = |i: u64| {
        let mut g = Dig(i);
        (SCALES[g.next(NS) as usize], g.next(np) as usize, [g.next(nh) as usize, g.next(nh) as usize])
    };
    ctx.suite(
        "polygon by two half-planes",
        NS * np * nh * nh,
        |i| {
            let (s, p, h) = one(i);
            format!("{s:?} {:?} by {:?}", still[p], h.map(|h| chain_hs[h]))
        },
        |i| {
            let (s, p, h) = one(i);
            clip_chain(s, &still[p], &h.map(|h| chain_hs[h]))
        },
    );
    if th {
        let few = lattice_half_planes(&AXES2, (0, 4), 2);
        let nf = few.len() as u64;
        let one = |i: u64| {
            let mut g = Dig(i);
            (SCALES[g.next(NS) as usize], g.next(np) as usize, [g.next(nf) as usize, g.next(nf) as usize, g.next(nf) as usize])
        };
        ctx.suite(
            "polygon by three half-planes",
            NS * np * nf * nf * nf,
            |i| {
                let (s, p, h) = one(i);
                format!("{s:?} {:?} by {:?}", still[p], h.map(|h| few[h]))
            },
            |i| {
                let (s, p, h) = one(i);
                clip_chain(s, &still[p], &h.map(|h| few[h]))
            },
        );
    }
    // pairs, the second one from every starting vertex; segments and nothing included, on either side
    let size = ctx.tier(3, 4);
    let mut left: Vec<Vec<P2>> = (3..=ctx.tier(5, 4)).flat_map(|k| convex_polygons(size, k, false)).collect();
    let mut right: Vec<Vec<P2>> = (3..=4).flat_map(|k| convex_polygons(size, k, !th)).collect();
    for s in small.iter().filter(|p| p.len() != 1) {
        left.push(s.clone());
        right.push(s.clone());
    }
    let (nl, nr) = (left.len() as u64, right.len() as u64);
    println!("{nl} x {nr} pairs of polygons");
    let one = |i: u64| {
        let mut g = Dig(i);
        (SCALES[g.next(NS) as usize], g.next(nl) as usize, g.next(nr) as usize)
    };
    ctx.suite(
        "polygon by polygon",
        NS * nl * nr,
        |i| {
            let (s, p, h) = one(i);
            format!("{s:?} {:?} by {:?}", left[p], right[h])
        },
        |i| {
            let (s, p, h) = one(i);
            if left[p].len() == 2 && right[h].len() == 2 {
                return Ok(None); // two segments are no polygons
            }
            polygon_pair(s, &left[p], &right[h])
        },
    );
    // polygons in space
    let frames: Vec<[P3; 2]> = vec![
        [[1, 0, 0], [0, 1, 0]],
        [[0, 0, 1], [1, 0, 0]],
        [[1, 0, 0], [0, 1, 1]],
        [[1, 1, 0], [0, 1, 1]],
        [[1, 0, -1], [0, 2, 1]],
    ];
    let mut shapes: Vec<Vec<P2>> = vec![];
    for k in 3..=ctx.tier(4u32, 5) {
        for i in 0..9u64.pow(k) {
            let mut g = Dig(i);
            let p: Vec<P2> = (0..k).map(|_| *g.pick(&pts)).collect();
            let first = p[0];
            if p.iter().all(|q| (q[1], q[0]) >= (first[1], first[0])) && is_simple(&p) {
                shapes.push(p);
            }
        }
    }
    let hs3 = lattice_half_spaces(&normals3(if th { &[1, 2, 3, 4] } else { &[1, 2, 3] }), (-1, 5), 1);
    let (np, nf, nh) = (shapes.len() as u64, frames.len() as u64, hs3.len() as u64);
    println!("{np} simple polygons, {nh} half-spaces");
    let one = |i: u64| {
        let mut g = Dig(i);
        (SCALES[g.next(NS) as usize], g.next(np) as usize, g.next(nf) as usize, g.next(nh) as usize)
    };
    ctx.suite(
        "polygon in space by half-space",
        NS * np * nf * nh,
        |i| {
            let (s, p, f, h) = one(i);
            format!("{s:?} {:?} in {:?} by {:?}", shapes[p], frames[f], hs3[h])
        },
        |i| {
            let (s, p, f, h) = one(i);
            clip_polygon3(s, &shapes[p], frames[f], hs3[h].0, hs3[h].1)
        },
    );
    // polyhedra
    let bs = bodies();
    let mut all = bs.clone();
    all.extend(tetrahedra().into_iter().step_by(ctx.tier(7, 1)));
    let hs3 = lattice_half_spaces(&normals3(&[1, 2, 3, 4]), (-1, 5), 1);
    let (nb, nh) = (all.len() as u64, hs3.len() as u64);
    println!("{nb} bodies, {nh} half-spaces");
    let one = |i: u64| {
        let mut g = Dig(i);
        (SCALES[g.next(NS) as usize], g.next(nb) as usize, g.next(nh) as usize)
    };
    ctx.suite(
        "polyhedra by half-space",
        NS * nb * nh,
        |i| {
            let (s, b, h) = one(i);
            format!("{s:?} {} by {:?}", all[b].name, hs3[h])
        },
        |i| {
            let (s, b, h) = one(i);
            clip_both(s, &all[b], hs3[h].0, hs3[h].1)
        },
    );
    let hs3 = lattice_half_spaces(&normals3(if th { &[1, 2, 3] } else { &[1, 3] }), (0, 4), ctx.tier(2, 1));
    let (nb, nh) = (bs.len() as u64, hs3.len() as u64);
    println!("{nb} bodies, {nh} half-spaces in chains");
    let one = |i: u64| {
        let mut g = Dig(i);
        (SCALES[g.next(NS) as usize], g.next(nb) as usize, [g.next(nh) as usize, g.next(nh) as usize])
    };
    ctx.suite(
        "polyhedra by two half-spaces",
        NS * nb * nh * nh,
        |i| {
            let (s, b, h) = one(i);
            format!("{s:?} {} by {:?}", bs[b].name, h.map(|h| hs3[h]))
        },
        |i| {
            let (s, b, h) = one(i);
            clip_mesh(s, &bs[b], &h.map(|h| hs3[h]))
        },
    );
    if th {
        let few = lattice_half_spaces(&normals3(&[1, 3]), (0, 4), 2);
        let nf = few.len() as u64;
        let one = |i: u64| {
            let mut g = Dig(i);
            (SCALES[g.next(NS) as usize], g.next(nb) as usize, [g.next(nf) as usize, g.next(nf) as usize, g.next(nf) as usize])
        };
        ctx.suite(
            "polyhedra by three half-spaces",
            NS * nb * nf * nf * nf,
            |i| {
                let (s, b, h) = one(i);
                format!("{s:?} {} by {:?}", bs[b].name, h.map(|h| few[h]))
            },
            |i| {
                let (s, b, h) = one(i);
                clip_mesh(s, &bs[b], &h.map(|h| few[h]))
            },
        );
    }
    // with other polyhedra
    let tets: Vec<Vec<P3>> = {
        let pts: Vec<P3> = (0..8).map(|i| [i % 2 * 4, i / 2 % 2 * 4, i / 4 * 4]).chain([[2, 2, 2], [1, 2, 3], [2, 2, -2], [6, 2, 2]]).collect();
        let mut out = vec![];
        for i in 0..pow(12, 4) {
            let mut g = Dig(i);
            let t: Vec<P3> = (0..4).map(|_| *g.pick(&pts)).collect();
            // one even order of each
            if orient3(t[0], t[1], t[2], t[3]) > 0 && t[0] < t[1] && t[0] < t[2] && t[0] < t[3] && (th || t[1] < t[2] && t[1] < t[3]) {
                out.push(t);
            }
        }
        let boxes: &[(P3, P3)] = &[([0, 0, 0], [4, 4, 4]), ([1, 1, 1], [2, 2, 2]), ([-1, 1, 1], [6, 2, 2]), ([2, 2, 2], [4, 4, 4]), ([4, 0, 0], [2, 2, 2]), ([4, 4, 4], [1, 1, 1]), ([5, 5, 5], [1, 1, 1]), ([0, 0, 2], [4, 2, 3]), ([-2, -2, -2], [8, 8, 8])];
        for (o, s) in boxes {
            for shear in 0..3 {
                out.push(cube([0, 0, 0], 1).iter().map(|c| std::array::from_fn(|k| o[k] + s[k] * c[k] + if shear > 0 && k == 0 { (shear * 2 - 3) * c[2] } else { 0 })).collect());
            }
        }
        out
    };
    let nt = tets.len() as u64;
    println!("{nt} other polyhedra");
    let one = |i: u64| {
        let mut g = Dig(i);
        (SCALES[g.next(NS) as usize], g.next(nb) as usize, g.next(nt) as usize)
    };
    ctx.suite(
        "polyhedra by polyhedron",
        NS * nb * nt,
        |i| {
            let (s, b, h) = one(i);
            format!("{s:?} {} by {:?}", bs[b].name, tets[h])
        },
        |i| {
            let (s, b, h) = one(i);
            clip_polyhedron(s, &bs[b], &tets[h])
        },
    );
    // triangulation with vertices in every order
    for b in &bs {
        if b.name == "cubes at an edge" {
            continue;
        }
        let n = b.v.len();
        let perms: Vec<Vec<usize>> = if n <= ctx.tier(6, 8) {
            permutations(n)
        } else {
            // every choice of the first three in front of the others
            let mut out = vec![];
            for i in 0..pow(n as u64, 3) {
                let mut g = Dig(i);
                let first: Vec<usize> = (0..3).map(|_| g.next(n as u64) as usize).collect();
                if first.iter().collect::<BTreeSet<_>>().len() == 3 {
                    let mut order = first.clone();
                    order.extend((0..n).filter(|x| !first.contains(x)));
                    let mut p = vec![0; n];
                    for (i, x) in order.iter().enumerate() {
                        p[*x] = i;
                    }
                    out.push(p);
                }
            }
            out
        };
        let np = perms.len() as u64;
        ctx.suite(
            &format!("triangulation of {}", b.name),
            NS * np * 8,
            |i| {
                let mut g = Dig(i);
                format!("{:?}, order {:?}, turned by {}", g.pick(&SCALES), g.pick(&perms), g.next(8))
            },
            |i| {
                let mut g = Dig(i);
                triangulated(*g.pick(&SCALES), b, g.pick(&perms), g.next(8) as usize)
            },
        );
    }
    // book-keeping
    let words: Vec<Vec<usize>> = vec![vec![0, 1, 2], vec![1, 2, 0], vec![2, 1, 0], vec![0, 1, 3], vec![3, 1, 2], vec![0, 1, 2, 3], vec![0, 2, 1, 3], vec![3, 0]];
    let nf = ctx.tier(3u32, 4);
    let w = words.len() as u64 + 1;
    let sub = 1u64 << nf;
    ctx.suite(
        "faces and cells",
        pow(w, nf) * (sub + 1) * (sub + 1),
        |i| format!("{i}"),
        |i| {
            let mut g = Dig(i);
            let digits: Vec<u64> = (0..nf).map(|_| g.next(w) as u64).collect();
            // the number w - 1 ends the list
            let faces: Vec<Vec<usize>> = digits.iter().take_while(|d| **d != w - 1).map(|d| words[*d as usize].clone()).collect();
            if digits[faces.len()..].iter().any(|d| *d != w - 1) {
                return Ok(None);
            }
            let mut cells = vec![];
            for k in 0..2 {
                let m = g.next(sub + 1) as u64;
                if m == sub {
                    continue;
                }
                let mut c: Vec<usize> = (0..nf as usize).filter(|f| m >> f & 1 == 1).collect();
                if k == 1 {
                    c.reverse();
                }
                if c.iter().any(|f| *f >= faces.len()) {
                    return Ok(None);
                }
                cells.push(c);
            }
            book(4, &faces, &cells)
        },
    );
    // sizes one at a time
    let top = ctx.tier(40u64, 150);
    ctx.suite("faces of every number of vertices", (top - 2) * 2, |i| format!("{i}"), |i| {
        let n = (i / 2) as usize + 3;
        let ring: Vec<usize> = (0..n).map(|k| if i % 2 == 0 { k } else { k * 2 % n + k * 2 / n * (n % 2 == 0) as usize }).collect();
        let mut turned = ring.clone();
        turned.rotate_left(n / 2);
        let back: Vec<usize> = ring.iter().rev().copied().collect();
        let mut swapped = ring.clone();
        swapped.swap(n / 2, n - 1);
        // all but one vertex in common, at either end
        let (mut other, mut first) = (ring.clone(), ring.clone());
        other[n - 1] = n;
        first[0] = n;
        book(n + 2, &[ring, turned, other, back, first, swapped, vec![0, 1, n]], &[vec![0, 2, 4], vec![5, 3], vec![6, 1]])
    });
    let top = ctx.tier(300u64, 600);
    ctx.suite("every number of cells at a face", top, |i| format!("{i}"), |i| {
        let n = i as usize + 1;
        let faces: Vec<Vec<usize>> = std::iter::once(vec![0, 1, 2]).chain((0..n).map(|k| vec![0, 1, k + 3])).collect();
        let cells: Vec<Vec<usize>> = (0..n).map(|k| if k % 2 == 0 { vec![0, k + 1] } else { vec![k + 1, 0, k] }).collect();
        book(n + 3, &faces, &cells)
    });
    ctx.suite("every number of faces of a cell", top, |i| format!("{i}"), |i| {
        let n = i as usize + 1;
        // each face three times, the second time turned over
        let faces: Vec<Vec<usize>> = (0..n).map(|k| (k / 3, k % 3)).map(|(k, w)| if w == 1 { vec![k + 2, k, k + 1] } else { vec![k, k + 1, k + 2] }).collect();
        book(n / 3 + 4, &faces, &[(0..n).collect(), (0..n).rev().step_by(2).collect()])
    });
    ctx.suite("vertex numbers beyond two bytes", 12, |i| format!("{i}"), |i| {
        // numbers that agree in their lower bits
        let far = [255usize, 256, 65535, 65536][(i / 3) as usize];
        let step = [far, far + 1, 2 * far][(i % 3) as usize];
        book(2 * step + 3, &[vec![0, 1, 2], vec![step, step + 1, step + 2], vec![0, step + 1, 2], vec![2 * step, 2 * step + 1, 0], vec![2, step, 1]], &[vec![0, 1, 2], vec![3, 4, 1]])
    });
    let sides: Vec<usize> = (3..=ctx.tier(32, 60)).chain(ctx.tier(vec![64, 65, 100], vec![63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 200, 256, 257])).collect();
    ctx.suite(
        "prisms of every number of sides",
        sides.len() as u64 * 8 * NS,
        |i| format!("{i}"),
        |i| {
            let mut g = Dig(i);
            let sc = *g.pick(&SCALES);
            let way = g.next(8);
            let n = sides[g.0 as usize];
            // edges in the order of their slopes, and one that closes the polygon
            let gcd = |mut a: i64, mut b: i64| {
                while b != 0 {
                    (a, b) = (b, a % b);
                }
                a.abs()
            };
            let mut e: Vec<P2> = vec![];
            for r in 1..20i64 {
                for a in 1..=r {
                    for b in -r..=r {
                        if a.max(b.abs()) == r && gcd(a, b) == 1 && e.len() < n - 1 {
                            e.push([a, b]);
                        }
                    }
                }
            }
            e.sort_by(|x, y| (x[1] * y[0]).cmp(&(y[1] * x[0])));
            let mut ring: Vec<P2> = vec![[0, 0]];
            for e in &e {
                let l = *ring.last().unwrap();
                ring.push([l[0] + e[0], l[1] + e[1]]);
            }
            // two prisms, one on top of the other
            let v: Vec<P3> = [0, 2, 6].iter().flat_map(|z| ring.iter().map(move |p| [p[0], p[1], *z])).collect();
            let layer = |z: usize| -> Vec<Vec<usize>> {
                let at = |k: usize, up: usize| (z + up) * n + k % n;
                let mut f = vec![(0..n).rev().map(|k| at(k, 0)).collect::<Vec<_>>(), (0..n).map(|k| at(k, 1)).collect()];
                f.extend((0..n).map(|k| vec![at(k, 0), at(k + 1, 0), at(k + 1, 1), at(k, 1)]));
                f
            };
            let b = body(&format!("two prisms of {n} sides"), &v, &[layer(0), layer(1)]);
            let mid = ring[n / 2];
            let last = ring[n - 1];
            match way {
                // through both prisms, along their common face, and obliquely
                0 => clip_both(sc, &b, [mid[0], mid[1], 0], [1, 0, 0]),
                1 => clip_both(sc, &b, [0, 0, 4], [0, 0, 1]),
                2 => clip_both(sc, &b, [0, 0, 2], [0, 0, -1]),
                3 => clip_both(sc, &b, [mid[0], mid[1], 2], [1, -1, 1]),
                // along a diagonal
                4 => clip_both(sc, &b, [0, 0, 0], [last[1] - mid[1], mid[0] - last[0], 0]),
                5 => triangulated(sc, &b, &(0..3 * n).collect::<Vec<_>>(), 1),
                6 => triangulated(sc, &b, &(0..3 * n).rev().collect::<Vec<_>>(), 4),
                _ => {
                    // the smallest number in the middle of the wide faces
                    let perm: Vec<usize> = (0..3 * n).map(|k| (k + 3 * n / 2) % (3 * n)).collect();
                    triangulated(sc, &b, &perm, 6)
                }
            }
        },
    );
    ctx.suite("indices out of range", 16, |i| format!("{i}"), |i| {
        // a mesh that refers to what does not exist is refused
        let (f, c) = (i as usize % 4 + 2, i as usize / 4);
        let ok = f < 4 && c < 1;
        let r = no_panic(|| small_mesh(&[vec![0, 1, f]], &[vec![c]]));
        ensure_eq!(r.is_ok(), ok, "mesh with vertex {f} of 4 and face {c} of 1");
        Ok(Some(digest(&(f, c))))
    });
    ctx.finish()
}
