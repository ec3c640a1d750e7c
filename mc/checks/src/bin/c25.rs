//! C25: distances, closest points, containment and intersections of primitives.
use checks::geo::*;
use fenris::geometry::util::{compute_orthonormal_vectors_3d, slices_are_equal_shift_invariant};
use fenris::geometry::*;
use fenris::nalgebra::{Point2, Point3, Unit, UnitVector3, Vector2, Vector3};
use hk::*;
use std::convert::TryFrom;

/// From lattice to real coordinates. One of them is exact, the other has rounding everywhere.
#[derive(Clone, Copy, Debug)]
struct Scale(f64, f64);
const SCALES: [Scale; 2] = [Scale(0.5, 0.0), Scale(0.3, -0.7)];
/// Exponent of the unit of length: all questions are also asked about figures that are very small or very large.
static UNIT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
fn unit() -> f64 {
    2f64.powi(UNIT.load(std::sync::atomic::Ordering::Relaxed))
}
/// A length, an area, in units.
fn len(x: f64) -> f64 {
    x / unit()
}
fn sq(x: f64) -> f64 {
    x / unit() / unit()
}
impl Scale {
    fn x(self, k: i64) -> f64 {
        (self.0 * k as f64 + self.1) * unit()
    }
    fn p2(self, p: P2) -> Point2<f64> {
        Point2::new(self.x(p[0]), self.x(p[1]))
    }
    fn p3(self, p: P3) -> Point3<f64> {
        Point3::new(self.x(p[0]), self.x(p[1]), self.x(p[2]))
    }
}
/// In units.
fn v2(p: &Point2<f64>) -> V3 {
    [len(p.x), len(p.y), 0.0]
}
fn v3(p: &Point3<f64>) -> V3 {
    [len(p.x), len(p.y), len(p.z)]
}
const TOL: f64 = 1e-9;
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= TOL * (1.0 + b.abs())
}
fn gap(a: V3, b: V3) -> f64 {
    fnorm(fsub(a, b))
}
fn lp2(g: &mut Dig, n: u64, step: i64) -> P2 {
    [g.next(n) as i64 * step, g.next(n) as i64 * step]
}
fn lp3(g: &mut Dig, n: u64, step: i64) -> P3 {
    [g.next(n) as i64 * step, g.next(n) as i64 * step, g.next(n) as i64 * step]
}

// ---------------------------------------------------------------- segments and lines

fn segment_point(sc: Scale, a: P3, b: P3, q: P3) -> Verdict {
    let (ra, rb, rq) = (sc.p3(a), sc.p3(b), sc.p3(q));
    let s = LineSegment3d::from_end_points(ra, rb);
    let best = near_segment(v3(&rq), v3(&ra), v3(&rb));
    let c = s.closest_point(&rq);
    ensure!(gap(v3(&c), best) <= TOL, "closest point is {c:?}, should be {best:?}");
    let t = s.closest_point_parametric(&rq);
    ensure!((0.0..=1.0).contains(&t), "parameter {t} is not on the segment");
    ensure!(gap(v3(&s.point_from_parameter(t)), v3(&c)) <= TOL, "closest point and its parameter {t} disagree");
    ensure!(near(len(s.length()), gap(v3(&ra), v3(&rb))), "length is {}", s.length());
    ensure!(gap(v3(&s.midpoint()), [len(ra.x + rb.x) / 2.0, len(ra.y + rb.y) / 2.0, len(ra.z + rb.z) / 2.0]) <= TOL, "midpoint {:?}", s.midpoint());
    ensure!(s.reverse().start() == s.end() && s.reverse().end() == s.start(), "reversed: {:?}", s.reverse());
    let d = dot(sub(b, a), sub(q, a)).signum();
    if a != b {
        // the line's projection is orthogonal
        for l in [s.to_line(), Line3d::from_point_through_point(ra, &rb)] {
            let p = l.project_point(&rq);
            let (e, r) = (fsub(v3(&rb), v3(&ra)), fsub(v3(&rq), v3(&p)));
            ensure!(fdot(e, r).abs() <= TOL, "projection {p:?} on the line is not orthogonal");
            ensure!(fnorm(fcross(e, fsub(v3(&p), v3(&ra)))) <= TOL, "projection {p:?} is not on the line");
            ensure!(gap(v3(&l.point_from_parameter(l.project_point_parametric(&rq))), v3(&p)) <= TOL, "projection and its parameter disagree");
            ensure!(near(l.tangent().norm(), 1.0) && l.tangent().dot(l.dir()) > 0.0, "tangent {:?}", l.tangent());
        }
    }
    // the plane case: the same in two dimensions
    let (pa, pb, pq) = (Point2::new(ra.x, ra.y), Point2::new(rb.x, rb.y), Point2::new(rq.x, rq.y));
    let s = LineSegment2d::from_end_points(pa, pb);
    let c = s.closest_point(&pq);
    ensure!(gap(v2(&c), near_segment(v2(&pq), v2(&pa), v2(&pb))) <= TOL, "closest point in the plane is {c:?}");
    let n = s.normal_dir();
    let e = pb - pa;
    ensure!(sq(n.dot(&e)).abs() <= TOL && near(sq(e.x * n.y - e.y * n.x), sq(-e.norm_squared())), "normal {n:?} does not point right");
    Ok(Some(digest(&(d, best.map(|x| (x * 1e6).round() as i64)))))
}

fn segment_plane(sc: Scale, a: P3, b: P3, x: P3, n: P3) -> Verdict {
    if n == [0; 3] {
        return Ok(None);
    }
    let (ra, rb, rx) = (sc.p3(a), sc.p3(b), sc.p3(x));
    let plane = Plane::from_point_and_normal(rx, Unit::new_normalize(Vector3::new(n[0] as f64, n[1] as f64, n[2] as f64)));
    let s = LineSegment3d::from_end_points(ra, rb);
    let (da, db) = (dot(n, sub(a, x)), dot(n, sub(b, x)));
    // the distance of the end points decides, when both are on the same side
    let t = s.closest_point_to_plane_parametric(&plane);
    ensure!((0.0..=1.0).contains(&t), "parameter {t} is not on the segment");
    let got = ((1.0 - t) * da as f64 + t * db as f64).abs();
    let want = if da.signum() * db.signum() <= 0 { 0 } else { da.abs().min(db.abs()) };
    ensure!((got - want as f64).abs() <= TOL, "the closest point to the plane (at {t}) is {got} off, the closest is {want}");
    let c = s.closest_point_to_plane(&plane);
    ensure!(gap(v3(&c), v3(&s.point_from_parameter(t))) <= TOL, "closest point {c:?} is not at its parameter");
    let hit = s.intersect_plane_parametric(&plane);
    if da.signum() * db.signum() > 0 {
        ensure!(hit.is_none(), "a segment on one side meets the plane at {hit:?}");
    } else if da != db {
        let want = da as f64 / (da - db) as f64;
        let clear = da.signum() * db.signum() < 0;
        ensure!(hit.map_or(!clear, |t| near(t, want)), "the segment meets the plane at {hit:?}, should be {want}");
    }
    // planes and half-spaces
    let h = HalfSpace::from_plane(&plane);
    let sd = h.signed_distance_to_point(&ra);
    let nn = (dot(n, n) as f64).sqrt();
    ensure!(near(len(sd), sc.0 * da as f64 / nn), "signed distance to the half-space is {sd}");
    if da != 0 {
        ensure_eq!(h.contains_point(&ra), da < 0, "half-space contains the point");
        ensure_eq!(h.complement().contains_point(&ra), da > 0, "complement contains the point");
        ensure_eq!(HalfSpace::from_plane(&plane.flipped()).contains_point(&ra), da > 0, "flipped half-space contains the point");
    }
    ensure!(near(h.normal().norm(), 1.0), "normal of length {}", h.normal().norm());
    ensure_eq!(h.plane(), plane, "plane of a half-space");
    for w in [plane.compute_tangent_vectors(), plane.flipped().compute_tangent_vectors()] {
        ensure!(
            near(w[0].norm(), 1.0) && near(w[1].norm(), 1.0) && w[0].dot(&w[1]).abs() <= TOL && w.iter().all(|t| t.dot(plane.normal()).abs() <= TOL),
            "tangents {w:?} of {plane:?}"
        );
    }
    Ok(Some(digest(&(da, db, n))))
}

/// Exact parameters of the crossing of two lines: numerators and the denominator.
fn line_crossing(a: P2, b: P2, c: P2, d: P2) -> Option<(i64, i64, i64)> {
    let (e, f) = (sub(b, a), sub(d, c));
    let den = perp(e, f);
    (den != 0).then(|| (perp(sub(c, a), f), perp(sub(c, a), e), den))
}
fn segment_segment(sc: Scale, p: [P2; 4]) -> Verdict {
    let r = p.map(|x| sc.p2(x));
    let (s, o) = (LineSegment2d::from_end_points(r[0], r[1]), LineSegment2d::from_end_points(r[2], r[3]));
    let hit = s.intersect_segment_parametric(&o);
    let lines = s.to_line().intersect_line_parametric(&o.to_line());
    let meet = segments_meet(p[0], p[1], p[2], p[3]);
    // rounding may make nearly parallel lines of parallel ones
    if !meet && (sc.1 == 0.0 || line_crossing(p[0], p[1], p[2], p[3]).is_some()) {
        ensure!(hit.is_none(), "segments that are apart meet at {hit:?}");
    }
    if let Some((t, u, den)) = line_crossing(p[0], p[1], p[2], p[3]) {
        let (t, u) = (t as f64 / den as f64, u as f64 / den as f64);
        let l = lines.ok_or("lines that cross do not meet")?;
        ensure!(near(l.0, t) && near(l.1, u), "lines meet at {l:?}, should be {:?}", (t, u));
        let x = s.to_line().intersect(&o.to_line()).ok_or("lines that cross do not meet")?;
        ensure!(gap(v2(&x), v2(&s.point_from_parameter(t))) <= TOL, "lines meet at {x:?}");
        ensure!(s.intersect_line_parametric(&o.to_line()).map_or(false, |x| near(x, t)), "segment and line");
        if segments_cross(p[0], p[1], p[2], p[3]) {
            ensure!(hit.map_or(false, |x| near(x, t)), "segments that cross meet at {hit:?}, should be {t}");
        } else if let Some(x) = hit {
            ensure!(near(x, t), "segments that touch meet at {x}, should be {t}");
        }
    }
    Ok(Some(digest(&(meet, hit.map(|t| (t * 1e6).round() as i64)))))
}

/// A segment on the axes or diagonals, and a point whose foot is 2^-j of the length beside one of its ends: exact in
/// floating point, unless the figure is moved.
fn near_end(sc: Scale, d: usize, which: usize, j: usize, dist: usize) -> Verdict {
    if sc.1 != 0.0 {
        return Ok(None);
    }
    let dir = [[1.0, 0.0], [1.0, 1.0], [0.0, 1.0], [-1.0, 1.0], [-1.0, 0.0], [-1.0, -1.0], [0.0, -1.0], [1.0, -1.0]][d];
    let (len, h) = (sc.0 * unit(), 0.5f64.powi(j as i32));
    let t = [h, -h, 1.0 - h, 1.0 + h][which];
    let want = t.clamp(0.0, 1.0);
    let at = |t: f64, s: f64| Point2::new(len * (dir[0] * t - dir[1] * s), len * (dir[1] * t + dir[0] * s));
    let s = LineSegment2d::from_end_points(at(0.0, 0.0), at(1.0, 0.0));
    // a point on the segment's line, or one to its left
    let q = at(t, dist as f64);
    let got = s.closest_point_parametric(&q);
    // the coordinates of the point itself are rounded
    let tol = 64.0 * f64::EPSILON;
    ensure!((got - want).abs() <= tol && (0.0..=1.0).contains(&got), "closest parameter {got}, should be {want}");
    let p = s.closest_point(&q);
    ensure!(gap(v2(&p), v2(&at(want, 0.0))) <= tol * len, "closest point {p:?}");
    ensure!((s.to_line().project_point_parametric(&q) - t).abs() <= tol * t.abs().max(1.0), "parameter on the line");
    // the half-plane behind the foot, and the one before it
    for sign in [1.0, -1.0] {
        let n = Unit::new_normalize(Vector2::new(sign * dir[0], sign * dir[1]));
        let got = s.intersect_half_plane_parametric(&HalfPlane::from_point_and_normal(q, n));
        let (lo, hi) = if sign > 0.0 { (0.0, t.min(1.0)) } else { (t.max(0.0), 1.0) };
        // an end as near as rounding reaches may be on either side
        if lo > hi + tol {
            ensure!(got.is_none(), "the half-plane is beside the segment, but they meet at {got:?}");
        } else if lo + tol < hi {
            ensure!(got.map_or(false, |g| (g[0] - lo).abs() <= tol && (g[1] - hi).abs() <= tol), "part {got:?} should be {:?}", (lo, hi));
        }
    }
    // a segment across the line at the foot
    let o = LineSegment2d::from_end_points(at(t, -0.5), at(t, 0.5));
    let hit = s.intersect_segment_parametric(&o);
    let back = o.intersect_segment_parametric(&s);
    if t < -tol || t > 1.0 + tol {
        ensure!(hit.is_none() && back.is_none(), "segments that are apart meet at {hit:?} and {back:?}");
    } else if t > tol && t < 1.0 - tol {
        ensure!(hit.map_or(false, |x| (x - t).abs() <= tol) && back.map_or(false, |x| (x - 0.5).abs() <= tol), "segments that cross meet at {hit:?} and {back:?}");
    }
    Ok(Some(digest(&(d, which, j, dist))))
}

fn segment_half_plane(sc: Scale, a: P2, b: P2, x: P2, n: P2) -> Verdict {
    if n == [0, 0] {
        return Ok(None);
    }
    let (ra, rb) = (sc.p2(a), sc.p2(b));
    let s = LineSegment2d::from_end_points(ra, rb);
    let h = HalfPlane::from_point_and_normal(sc.p2(x), Unit::new_normalize(Vector2::new(n[0] as f64, n[1] as f64)));
    let (da, db) = (dot(n, sub(a, x)), dot(n, sub(b, x)));
    // the contained part, in parameters
    let cut = |d: i64, e: i64| d as f64 / (d - e) as f64;
    let want = match (da <= 0, db <= 0) {
        (true, true) => Some((0.0, 1.0)),
        (false, false) => None,
        (true, false) => Some((0.0, cut(da, db))),
        (false, true) => Some((cut(da, db), 1.0)),
    };
    let boundary = da == 0 || db == 0;
    let got = s.intersect_half_plane_parametric(&h);
    let part = s.intersect_half_plane(&h);
    ensure_eq!(part.is_some(), got.is_some(), "parametric and plain result");
    if let (Some(p), Some(t)) = (&part, got) {
        ensure!(t[0] <= t[1] && t[0] >= 0.0 && t[1] <= 1.0, "parameters {t:?}");
        ensure!(gap(v2(p.start()), v2(&s.point_from_parameter(t[0]))) <= TOL && gap(v2(p.end()), v2(&s.point_from_parameter(t[1]))) <= TOL, "part {p:?} of {t:?}");
    }
    let ok = match (want, got) {
        (None, None) => true,
        (Some(w), Some(g)) => near(g[0], w.0) && near(g[1], w.1),
        // an end point on the boundary may be on either side of it
        (Some(w), None) => boundary && w.1 - w.0 == 0.0,
        (None, Some(_)) => false,
    };
    // along the boundary line, rounding may place any part of it on either side
    ensure!(ok || (da == 0 && db == 0 && sc.1 != 0.0), "part of the segment in the half-plane is {got:?}, should be {want:?}");
    // the surface of the half-plane is its boundary line
    let l = h.surface();
    ensure!(len(l.dir().dot(h.normal())).abs() <= TOL && len(h.signed_distance_to_point(l.point())).abs() <= TOL, "surface {l:?}");
    Ok(Some(digest(&(da, db, got.is_some()))))
}

fn segment_disk(sc: Scale, a: P2, b: P2, c: P2, r: i64) -> Verdict {
    let s = LineSegment2d::from_end_points(sc.p2(a), sc.p2(b));
    let disk = Disk::from_center_and_radius(sc.p2(c), sc.0 * r as f64 * unit());
    ensure!(disk.center() == &sc.p2(c) && disk.radius() == sc.0 * r as f64 * unit(), "disk {disk:?}");
    if a == b {
        // a point has no direction
        return Ok(None);
    }
    let (d, m) = (sub(b, a), sub(a, c));
    let (qa, qb, qc) = (dot(d, d), 2 * dot(d, m), dot(m, m) - r * r);
    let disc = qb * qb - 4 * qa * qc;
    let line = s.to_line().intersect_disk_parametric(&disk);
    let got = s.intersect_disk_parametric(&disk);
    let part = s.intersect_disk(&disk);
    ensure_eq!(part.is_some(), got.is_some(), "parametric and plain result");
    if disc < 0 {
        ensure!(line.is_none() && got.is_none(), "apart, but the line meets the disk at {line:?}, the segment at {got:?}");
        return Ok(Some(1));
    }
    let root = (disc as f64).sqrt();
    let (t1, t2) = ((-qb as f64 - root) / (2 * qa) as f64, (-qb as f64 + root) / (2 * qa) as f64);
    // square roots of rounding errors, when the line is tangent
    let tol = if disc == 0 { 1e-6 } else { TOL };
    let close = |x: [f64; 2], a: f64, b: f64| (x[0] - a).abs() <= tol && (x[1] - b).abs() <= tol;
    ensure!(line.map_or(disc == 0, |x| close(x, t1, t2)), "the line meets the disk at {line:?}, should be {:?}", (t1, t2));
    let chord = s.to_line().intersect_disk(&disk);
    ensure_eq!(chord.is_some(), line.is_some(), "line and disk");
    if let (Some(c), Some(l)) = (chord, line) {
        ensure!(gap(v2(c.start()), v2(&s.point_from_parameter(l[0]))) <= TOL && gap(v2(c.end()), v2(&s.point_from_parameter(l[1]))) <= TOL, "chord {c:?}");
    }
    // the ends of the segment decide exactly whether the disk is beyond them
    let inside = |p: P2| dot(sub(p, c), sub(p, c)) <= r * r;
    let closest_inside = t2 >= 0.0 && t1 <= 1.0;
    let touch = disc == 0 || (t2.abs() < 1e-6) || ((t1 - 1.0).abs() < 1e-6);
    match got {
        None => ensure!(!closest_inside || touch, "the segment does not meet the disk, but should at {:?}", (t1, t2)),
        Some(x) => {
            ensure!(closest_inside || touch, "the segment meets the disk at {x:?}, but the disk is beyond its ends: {:?}", (t1, t2));
            ensure!(close(x, t1.clamp(0.0, 1.0), t2.clamp(0.0, 1.0)), "the segment meets the disk at {x:?}, should be {:?} within the segment", (t1, t2));
            let p = part.unwrap();
            ensure!(gap(v2(p.start()), v2(&s.point_from_parameter(x[0]))) <= TOL && gap(v2(p.end()), v2(&s.point_from_parameter(x[1]))) <= TOL, "part {p:?}");
        }
    }
    ensure!(!(inside(a) && inside(b)) || got.map_or(true, |x| close(x, 0.0, 1.0)), "a segment within the disk is cut to {got:?}");
    Ok(Some(digest(&(disc.signum(), got.map(|x| x.map(|t| (t * 1e6).round() as i64))))))
}

// ---------------------------------------------------------------- plane figures

fn sign_ok(sd: f64, side: i32, dist: f64) -> Result<(), String> {
    ensure!(near(len(sd.abs()), dist), "signed distance is {sd}, the distance is {dist}");
    if side != 0 {
        ensure!(sd * side as f64 <= 0.0 && sd != 0.0, "signed distance is {sd} for a point {}", if side > 0 { "inside" } else { "outside" });
    }
    Ok(())
}
fn triangle_2d(sc: Scale, t: [P2; 3]) -> Verdict {
    let area = orient(t[0], t[1], t[2]);
    let tri = Triangle(t.map(|p| sc.p2(p)));
    let real = area as f64 * sc.0 * sc.0 / 2.0;
    ensure!(near(sq(tri.signed_area()), real) && near(sq(tri.area()), real.abs()), "area {} and {}", tri.signed_area(), tri.area());
    let c = tri.centroid();
    ensure!(gap(v2(&c), [0, 1].iter().fold([0.0; 3], |mut acc, &k| { acc[k] = (0..3).map(|i| len(tri.0[i][k])).sum::<f64>() / 3.0; acc })) <= TOL, "centroid {c:?}");
    let sides = tri.sides();
    for i in 0..3 {
        ensure_eq!(sides[i], tri.0[(i + 1) % 3] - tri.0[i], "side {i}");
        let e = tri.edge(i);
        ensure!(e.start() == &tri.0[i] && e.end() == &tri.0[(i + 1) % 3], "edge {i}");
    }
    if area != 0 {
        ensure_eq!(tri.orientation(), if area > 0 { Orientation::Counterclockwise } else { Orientation::Clockwise }, "orientation");
    }
    let o = predicates::orient2d_inexact(&tri.0[0], &tri.0[1], &tri.0[2]);
    ensure!(near(sq(o), 2.0 * real), "orientation predicate {o}");
    if area <= 0 {
        return Ok(Some(digest(&area)));
    }
    let poly = ConvexPolygon::from(tri);
    let mut out = vec![];
    for x in -2..9 {
        for y in -2..9 {
            let q = sc.p2([x, y]);
            let side = locate(&t, [x, y]);
            let dists: Vec<f64> = (0..3).map(|i| gap(v2(&q), near_segment(v2(&q), v2(&tri.0[i]), v2(&tri.0[(i + 1) % 3])))).collect();
            let dist = dists.iter().copied().fold(f64::INFINITY, f64::min);
            let at = |e: String| format!("at {:?}: {e}", [x, y]);
            let r = tri.query_signed_distance(&q).ok_or_else(|| at("no signed distance".into()))?;
            sign_ok(r.signed_distance, side, dist).map_err(at)?;
            ensure!(near(gap(v2(&r.point), v2(&q)), dist), "at {:?}: closest point {:?} is not the closest", [x, y], r.point);
            ensure!(r.feature_id < 3 && near(dists[r.feature_id], dist), "at {:?}: closest edge {}", [x, y], r.feature_id);
            let d = tri.distance(&q);
            ensure!(near(len(d), if side >= 0 { 0.0 } else { dist }), "at {:?}: distance {d}", [x, y]);
            if side != 0 {
                ensure_eq!(poly.contains_point(&q), side > 0, "at {:?}: polygon contains the point", [x, y]);
            }
            out.push(side);
        }
    }
    Ok(Some(digest(&(area, out))))
}
/// The `k`-th sequence of lattice points, if it is a simple polygon.
fn simple(k: u64, m: usize, n: u64) -> Option<Vec<P2>> {
    let mut g = Dig(k);
    let p: Vec<P2> = (0..m).map(|_| lp2(&mut g, n, 2)).collect();
    is_simple(&p).then_some(p)
}
fn polygon(sc: Scale, p: &[P2], reach: i64) -> Verdict {
    let pts: Vec<P2> = (-2..reach).flat_map(|x| (-2..reach).map(move |y| [x, y])).collect();
    polygon_at(sc, p, &pts)
}
fn polygon_at(sc: Scale, p: &[P2], pts: &[P2]) -> Verdict {
    let area = area2(p);
    let poly = SimplePolygon2d::from_vertices(p.iter().map(|x| sc.p2(*x)).collect());
    let real = area as f64 * sc.0 * sc.0 / 2.0;
    ensure!(near(sq(poly.signed_area()), real) && near(sq(Polygon2d::area(&poly)), real.abs()), "area {} and {}", poly.signed_area(), Polygon2d::area(&poly));
    ensure_eq!(poly.orientation(), if area > 0 { Orientation::Counterclockwise } else { Orientation::Clockwise }, "orientation");
    let edges: Vec<_> = poly.edge_iter().collect();
    ensure_eq!(edges.len(), p.len(), "number of edges");
    ensure_eq!(Polygon2d::num_edges(&poly), p.len(), "number of edges");
    for (i, e) in edges.iter().enumerate() {
        ensure!(e.start() == &sc.p2(p[i]) && e.end() == &sc.p2(p[(i + 1) % p.len()]), "edge {i} is {e:?}");
        ensure_eq!(poly.get_edge(i), Some(e.clone()), "edge {i}");
    }
    ensure!(poly.get_edge(p.len()).is_none(), "one edge too many");
    if area < 0 {
        return Ok(Some(digest(&area)));
    }
    let n = p.len();
    let convex = is_convex(p);
    let quad = (n == 4).then(|| Quad2d(std::array::from_fn(|i| sc.p2(p[i]))));
    let hull = convex.then(|| ConvexPolygon::from_vertices(poly.vertices().to_vec()));
    // rounding decides whether a corner of 180 degrees is concave
    let flat = sc.1 != 0.0 && (0..n).any(|i| orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) == 0);
    if let Some(q) = quad {
        ensure!(near(sq(q.area()), real), "area of the quad is {}", q.area());
        let (t, u) = q.split_into_triangles();
        ensure!(near(sq(t.signed_area() + u.signed_area()), real) && sq(t.signed_area()) > -TOL && sq(u.signed_area()) > -TOL, "triangles {t:?} and {u:?} of the quad");
    }
    if let (Some(q), false) = (quad, flat) {
        ensure_eq!(q.concave_corner().is_some(), !convex, "concave corner");
        ensure_eq!(ConvexPolygon::try_from(q).is_ok(), convex, "made a convex polygon of the quad");
        if let Ok(c) = ConvexPolygon::try_from(q) {
            ensure_eq!(c.vertices(), &q.0[..], "vertices of the convex polygon of a quad");
        }
    }
    let mut out = vec![];
    for &[x, y] in pts {
        let q = sc.p2([x, y]);
        let side = locate(p, [x, y]);
        let dists: Vec<f64> = edges.iter().map(|e| gap(v2(&q), near_segment(v2(&q), v2(e.start()), v2(e.end())))).collect();
        let dist = dists.iter().copied().fold(f64::INFINITY, f64::min);
        let at = |e: String| format!("at {:?}: {e}", [x, y]);
        let c = poly.closest_edge(&q).ok_or_else(|| at("no closest edge".into()))?;
        sign_ok(c.signed_distance, side, dist).map_err(at)?;
        ensure!(c.edge_index < n && near(dists[c.edge_index], dist), "at {:?}: edge {} is not the closest", [x, y], c.edge_index);
        ensure!(near(gap(v2(&c.edge_point), v2(&q)), dist), "at {:?}: {:?} is not the closest point", [x, y], c.edge_point);
        ensure!(
            gap(v2(&edges[c.edge_index].point_from_parameter(c.edge_parameter)), v2(&c.edge_point)) <= TOL,
            "at {:?}: edge parameter {} and edge point disagree",
            [x, y],
            c.edge_parameter
        );
        let want = if side >= 0 { 0.0 } else { dist };
        ensure!(near(len(poly.distance(&q)), want), "at {:?}: distance {}", [x, y], poly.distance(&q));
        if let Some(quad) = &quad {
            ensure!(near(len(quad.distance(&q)), want), "at {:?}: distance to the quad {}", [x, y], quad.distance(&q));
        }
        if let (Some(h), true) = (&hull, side != 0) {
            ensure_eq!(h.contains_point(&q), side > 0, "at {:?}: convex polygon contains the point", [x, y]);
        }
        out.push(side);
    }
    Ok(Some(digest(&(area, out))))
}
/// A convex polygon of m sides, its vertices on a parabola, starting with any of them; and points in and around it.
fn parabola(m: usize, start: usize) -> (Vec<P2>, Vec<P2>) {
    let at = |k: i64| [k, k * (k - 1) / 2];
    let p = (0..m).map(|k| at(((k + start) % m) as i64)).collect();
    let m = m as i64;
    let mut q = vec![[-1, -1], [-1, 3], [m, 0], [m + 1, at(m)[1] + 1]];
    for k in [0, 1, m / 3, m / 2, m - 2, m - 1] {
        let [x, y] = at(k);
        q.extend([[x, y], [x, y - 1], [x, y + 2], [x, x * (m - 2) / 2 + 1]]);
    }
    (p, q)
}
/// A polygon of m sides, m - 2 of them the teeth of a comb, starting with any of its vertices; and points in and around it.
fn comb(m: usize, start: usize) -> (Vec<P2>, Vec<P2>) {
    let w = m as i64 - 3;
    let at = |k: i64| if k < 2 { [k * w, 0] } else { [w + 2 - k, if k % 2 == 0 { 1 } else { 4 }] };
    let p = (0..m).map(|k| at(((k + start) % m) as i64)).collect();
    let q = [-2, 0, 1, 2, w / 2, w / 2 + 1, w - 1, w, w + 2].into_iter().flat_map(|x| (-1..6).map(move |y| [x, y])).collect();
    (p, q)
}
/// A polygon and all segments between points of a lattice around it.
fn polygon_segments(sc: Scale, p: &[P2], lo: i64, hi: i64) -> Verdict {
    let pts: Vec<P2> = (lo..hi).flat_map(|x| (lo..hi).map(move |y| [x, y])).collect();
    polygon_segments_at(sc, p, &pts)
}
fn polygon_segments_at(sc: Scale, p: &[P2], pts: &[P2]) -> Verdict {
    if area2(p) <= 0 {
        return Ok(None);
    }
    let n = p.len();
    let poly = SimplePolygon2d::from_vertices(p.iter().map(|x| sc.p2(*x)).collect());
    let hull = is_convex(p).then(|| ConvexPolygon::from_vertices(poly.vertices().to_vec()));
    let (mut yes, mut no) = (0u64, 0u64);
    for &a in pts {
        for &b in pts {
            let s = LineSegment2d::from_end_points(sc.p2(a), sc.p2(b));
            let got = poly.intersects_segment(&s);
            let e = |i: usize| (p[i], p[(i + 1) % n]);
            let sure = locate(p, a) > 0 || locate(p, b) > 0 || (0..n).any(|i| segments_cross(a, b, e(i).0, e(i).1));
            let along = sc.1 != 0.0 && (0..n).any(|i| line_crossing(a, b, e(i).0, e(i).1).is_none());
            let never = !along && locate(p, a) < 0 && locate(p, b) < 0 && !(0..n).any(|i| segments_meet(a, b, e(i).0, e(i).1));
            ensure!(!(sure && !got), "the segment {a:?} {b:?} meets the polygon, but this was not found");
            ensure!(!(never && got), "the segment {a:?} {b:?} was found to meet the polygon, but does not");
            yes += sure as u64;
            no += never as u64;
            // clipping by a convex polygon
            if let Some(h) = &hull {
                if a == b {
                    continue;
                }
                let (mut t, mut flat) = ((0.0f64, 1.0f64), false);
                for i in 0..n {
                    let (u, v) = e(i);
                    let (da, db) = (orient(u, v, a), orient(u, v, b));
                    if da == 0 && db == 0 {
                        flat = true;
                    }
                    if da < 0 && db < 0 {
                        t = (1.0, 0.0);
                    } else if da < 0 {
                        t.0 = t.0.max(da as f64 / (da - db) as f64);
                    } else if db < 0 {
                        t.1 = t.1.min(da as f64 / (da - db) as f64);
                    }
                }
                let part = s.intersect_polygon(h);
                match part {
                    None => ensure!(t.1 <= t.0 + TOL || flat, "the part of {a:?} {b:?} in the polygon is {t:?}, but none was found"),
                    Some(c) => {
                        ensure!(t.1 >= t.0 - TOL, "{a:?} {b:?} is outside of the polygon, but {c:?} was found");
                        // along an edge, rounding may cut off more
                        let line = s.to_line();
                        let (c0, c1) = (line.project_point_parametric(c.start()), line.project_point_parametric(c.end()));
                        let within = flat && c0 >= t.0 - TOL && c0 <= c1 + TOL && c1 <= t.1 + TOL;
                        let (w0, w1) = if within { (c0, c1) } else { t };
                        ensure!(
                            gap(v2(c.start()), v2(&s.point_from_parameter(w0))) <= 1e-7 && gap(v2(c.end()), v2(&s.point_from_parameter(w1))) <= 1e-7,
                            "the part of {a:?} {b:?} in the polygon is {c:?}, should be {t:?}"
                        );
                    }
                }
            }
        }
    }
    Ok(Some(digest(&(yes, no))))
}

// ---------------------------------------------------------------- figures in space

fn closest_on_polygon<'a>(p: &impl ConvexPolygon3d<'a, f64>, rv: &[V3], q: &Point3<f64>) -> Result<f64, String> {
    let want = near_polygon(v3(q), rv);
    let dist = gap(want, v3(q));
    let c = p.closest_point(q);
    ensure!(near(len(c.distance), dist), "distance is {}, should be {dist}", c.distance);
    ensure!(gap(v3(&c.closest_point), want) <= 1e-7, "closest point is {:?}, should be {want:?}", c.closest_point);
    Ok(dist)
}
fn face_3d(sc: Scale, v: &[P3], reach: (i64, i64)) -> Verdict {
    let rv: Vec<V3> = v.iter().map(|p| v3(&sc.p3(*p))).collect();
    let n = cross(sub(v[1], v[0]), sub(v[2], v[0]));
    let area: V3 = {
        let mut a = [0i64; 3];
        for i in 1..v.len() - 1 {
            let c = cross(sub(v[i], v[0]), sub(v[i + 1], v[0]));
            a = std::array::from_fn(|k| a[k] + c[k]);
        }
        a.map(|x| x as f64 * sc.0 * sc.0 / 2.0)
    };
    let tri = (v.len() == 3).then(|| Triangle([0, 1, 2].map(|i| sc.p3(v[i]))));
    let quad = (v.len() == 4).then(|| Quad3d::from_vertices([0, 1, 2, 3].map(|i| sc.p3(v[i]))));
    let (av, nv, h, p) = match (&tri, &quad) {
        (Some(t), _) => (t.compute_area_vector(), t.compute_normal(), t.compute_half_space(), t.compute_plane()),
        (_, Some(q)) => (q.compute_area_vector(), q.compute_normal(), q.compute_half_space(), q.compute_plane()),
        _ => unreachable!(),
    };
    let (h, p) = (h.ok_or("no half-space")?, p.ok_or("no plane")?);
    let arr = |x: &Vector3<f64>| [x.x, x.y, x.z];
    let arr2 = |x: &Vector3<f64>| [sq(x.x), sq(x.y), sq(x.z)];
    ensure!(gap(arr2(&av), area) <= TOL, "area vector {av:?}");
    ensure!(gap(arr(&nv), area.map(|x| x / fnorm(area))) <= TOL, "normal {nv:?}");
    ensure!(gap(arr(p.normal()), arr(&nv)) <= TOL && gap(arr(h.normal()), arr(&-nv)) <= TOL, "plane {p:?} or half-space {h:?}");
    if let Some(t) = &tri {
        ensure!(near(sq(t.area()), fnorm(area)) && gap(arr(&t.normal()), arr(&nv)) <= TOL && gap(arr2(&t.normal_dir()), area.map(|x| 2.0 * x)) <= TOL, "triangle's area or normal");
    }
    let mut out = vec![];
    for x in reach.0..reach.1 {
        for y in reach.0..reach.1 {
            for z in reach.0..reach.1 {
                let q = sc.p3([x, y, z]);
                let at = |e: String| format!("at {:?}: {e}", [x, y, z]);
                let side = dot(n, sub([x, y, z], v[0])).signum();
                let d = match (&tri, &quad) {
                    (Some(t), _) => {
                        let d = closest_on_polygon(t, &rv, &q).map_err(at)?;
                        ensure!(near(len(t.distance(&q)), d), "at {:?}: distance {}", [x, y, z], t.distance(&q));
                        let o = t.point_orientation(&q);
                        if side != 0 {
                            ensure_eq!(o, if side > 0 { OrientationTestResult::Positive } else { OrientationTestResult::Negative }, "at {:?}: orientation", [x, y, z]);
                        }
                        d
                    }
                    (_, Some(f)) => closest_on_polygon(f, &rv, &q).map_err(at)?,
                    _ => unreachable!(),
                };
                if side != 0 {
                    ensure_eq!(h.contains_point(&q), side > 0, "at {:?}: half-space contains the point", [x, y, z]);
                }
                out.push((d * 1e6).round() as i64);
            }
        }
    }
    Ok(Some(digest(&out)))
}

/// A convex polyhedron given by its corners and faces; faces in any orientation.
struct Solid {
    v: Vec<P3>,
    /// corners of each face, and the outward plane n.x <= c (times a factor)
    faces: Vec<(Vec<usize>, P3, i64)>,
}
fn solid(v: &[P3], faces: &[&[usize]]) -> Option<Solid> {
    let mut out = vec![];
    for f in faces {
        let mut n = cross(sub(v[f[1]], v[f[0]]), sub(v[f[2]], v[f[0]]));
        let mut c = dot(n, v[f[0]]);
        if n == [0; 3] || f.iter().any(|i| dot(n, v[*i]) != c) {
            return None;
        }
        let s: Vec<i64> = (0..v.len()).filter(|i| !f.contains(i)).map(|i| dot(n, v[i]) - c).collect();
        if s.iter().all(|x| *x > 0) {
            n = n.map(|x| -x);
            c = -c;
        } else if !s.iter().all(|x| *x < 0) {
            return None;
        }
        out.push((f.to_vec(), n, c));
    }
    Some(Solid { v: v.to_vec(), faces: out })
}
impl Solid {
    fn side(&self, q: P3) -> i32 {
        self.faces.iter().map(|(_, n, c)| (c - dot(*n, q)).signum() as i32).min().unwrap()
    }
    /// Six times the volume.
    fn volume6(&self) -> i64 {
        let o = self.v[0];
        self.faces
            .iter()
            .map(|(f, _, _)| (1..f.len() - 1).map(|i| orient3(self.v[f[0]], self.v[f[i]], self.v[f[i + 1]], o)).sum::<i64>().abs())
            .sum()
    }
}
const TET_FACES: [&[usize]; 4] = [&[0, 1, 2], &[0, 1, 3], &[0, 2, 3], &[1, 2, 3]];
const HEX_FACES: [&[usize]; 6] = [&[0, 1, 2, 3], &[0, 1, 5, 4], &[1, 2, 6, 5], &[2, 3, 7, 6], &[3, 0, 4, 7], &[4, 5, 6, 7]];

fn polyhedron<'a, P: ConvexPolyhedron<'a, f64> + Distance<f64, Point3<f64>>>(p: &'a P, s: &Solid, sc: Scale, reach: (i64, i64)) -> Verdict {
    let vol = s.volume6() as f64 * sc.0.powi(3) / 6.0;
    ensure!(near(len(sq(p.compute_volume())), vol), "volume is {}, should be {vol}", p.compute_volume());
    let rv: Vec<V3> = s.v.iter().map(|x| v3(&sc.p3(*x))).collect();
    let faces: Vec<Vec<V3>> = s.faces.iter().map(|(f, _, _)| f.iter().map(|i| rv[*i]).collect()).collect();
    ensure_eq!(p.num_faces(), faces.len(), "number of faces");
    // each face is one of the faces, each once
    let mut seen = vec![0; faces.len()];
    for i in 0..p.num_faces() {
        let f = p.get_face(i).ok_or("a face is missing")?;
        let mut got: Vec<V3> = (0..f.num_vertices()).map(|j| v3(&f.get_vertex(j).unwrap())).collect();
        got.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let k = faces
            .iter()
            .position(|w| {
                let mut w = w.clone();
                w.sort_by(|a, b| a.partial_cmp(b).unwrap());
                w == got
            })
            .ok_or(format!("face {i} is no face of the polyhedron: {got:?}"))?;
        seen[k] += 1;
    }
    ensure!(seen.iter().all(|x| *x == 1), "faces are repeated: {seen:?}");
    ensure!(p.get_face(faces.len()).is_none(), "one face too many");
    let mut out = vec![];
    for x in reach.0..reach.1 {
        for y in reach.0..reach.1 {
            for z in reach.0..reach.1 {
                let l = [x, y, z];
                let q = sc.p3(l);
                let side = s.side(l);
                let dist = faces.iter().map(|f| gap(near_polygon(v3(&q), f), v3(&q))).fold(f64::INFINITY, f64::min);
                let r = p.compute_signed_distance(&q);
                sign_ok(r.signed_distance, side, dist).map_err(|e| format!("at {l:?}: {e}"))?;
                ensure!(near(gap(v3(&r.point), v3(&q)), dist), "at {l:?}: {:?} is not the closest point", r.point);
                let f = p.get_face(r.feature_id).ok_or(format!("at {l:?}: closest face is {}", r.feature_id))?;
                ensure!(near(len(f.closest_point(&q).distance), dist), "at {l:?}: face {} is not the closest", r.feature_id);
                let want = if side >= 0 { 0.0 } else { dist };
                ensure!(near(len(p.distance(&q)), want), "at {l:?}: distance is {}, should be {want}", p.distance(&q));
                if side != 0 {
                    ensure_eq!(p.contains_point(&q), side > 0, "at {l:?}: contains the point");
                }
                out.push(side);
            }
        }
    }
    Ok(Some(digest(&out)))
}
fn tetrahedron(sc: Scale, v: [P3; 4], reach: (i64, i64)) -> Verdict {
    if orient3(v[0], v[1], v[2], v[3]) <= 0 {
        return Ok(None);
    }
    let s = solid(&v, &TET_FACES).ok_or("harness: no tetrahedron")?;
    polyhedron(&Tetrahedron::from_vertices(v.map(|p| sc.p3(p))), &s, sc, reach)
}
fn hexahedron(sc: Scale, v: [P3; 8], reach: (i64, i64)) -> Verdict {
    // positively oriented, with plane faces, convex
    if orient3(v[0], v[1], v[3], v[4]) <= 0 {
        return Ok(None);
    }
    let Some(s) = solid(&v, &HEX_FACES) else { return Ok(None) };
    let h = Hexahedron::from_vertices(v.map(|p| sc.p3(p)));
    for q in [[0, 0, 0], [9, 1, 3]] {
        let q = sc.p3(q);
        ensure!(h.query_signed_distance(&q).map(|r| r.signed_distance) == Some(h.compute_signed_distance(&q).signed_distance), "signed distance queries disagree");
    }
    polyhedron(&h, &s, sc, reach)
}

// ---------------------------------------------------------------- solid angles

/// Signed solid angle by the angles between the planes through the point (Girard), positive when the triangle's
/// normal points away from the point.
fn solid_angle(t: [P3; 3], q: P3) -> Option<f64> {
    let d = t.map(|p| sub(p, q));
    let side = orient3(t[0], t[1], t[2], q);
    if side == 0 {
        // in the plane: nothing is seen, unless the point is on the triangle
        let n = cross(sub(t[1], t[0]), sub(t[2], t[0]));
        let on = (0..3).all(|i| dot(n, cross(sub(t[(i + 1) % 3], t[i]), sub(q, t[i]))) >= 0);
        return (!on).then_some(0.0);
    }
    let mut sum = -std::f64::consts::PI;
    for i in 0..3 {
        let (a, b, c) = (d[i], d[(i + 1) % 3], d[(i + 2) % 3]);
        let (u, v) = (cross(a, b), cross(a, c));
        let cosine = dot(u, v) as f64 / ((dot(u, u) as f64).sqrt() * (dot(v, v) as f64).sqrt());
        sum += cosine.clamp(-1.0, 1.0).acos();
    }
    Some(if side < 0 { sum } else { -sum })
}
fn one_angle(sc: Scale, t: [P3; 3], reach: (i64, i64)) -> Verdict {
    if cross(sub(t[1], t[0]), sub(t[2], t[0])) == [0; 3] {
        return Ok(None);
    }
    let tri = Triangle(t.map(|p| sc.p3(p)));
    let mut out = vec![];
    for x in reach.0..reach.1 {
        for y in reach.0..reach.1 {
            for z in reach.0..reach.1 {
                let Some(want) = solid_angle(t, [x, y, z]) else { continue };
                let got = tri.compute_solid_angle(&sc.p3([x, y, z]));
                ensure!((got - want).abs() <= 1e-6, "at {:?}: solid angle is {got}, should be {want}", [x, y, z]);
                out.push((want * 1e6) as i64);
            }
        }
    }
    Ok(Some(digest(&out)))
}
/// Closed surfaces made of outward triangles, from convex solids with every choice of diagonals.
fn winding(sc: Scale, solids: &[Solid], diagonals: u64, flip: bool, reach: (i64, i64)) -> Verdict {
    let mut g = Dig(diagonals);
    let mut tris: Vec<[P3; 3]> = vec![];
    for s in solids {
        for (f, n, _) in &s.faces {
            let mut f = f.clone();
            if dot(cross(sub(s.v[f[1]], s.v[f[0]]), sub(s.v[f[2]], s.v[f[0]])), *n) < 0 {
                f.reverse();
            }
            if f.len() == 4 && g.bit() {
                f.rotate_left(1);
            }
            for i in 1..f.len() - 1 {
                let k = [f[0], f[i], f[i + 1]];
                let mut t = k.map(|j| s.v[j]);
                if flip {
                    t.swap(1, 2);
                }
                tris.push(t);
            }
        }
    }
    let real: Vec<Triangle3d<f64>> = tris.iter().map(|t| Triangle(t.map(|p| sc.p3(p)))).collect();
    ensure_eq!(compute_winding_number_for_triangles_3d(Vec::new(), &sc.p3([0, 0, 0])), 0.0, "winding number of nothing");
    let mut out = vec![];
    for x in reach.0..reach.1 {
        for y in reach.0..reach.1 {
            for z in reach.0..reach.1 {
                let sides: Vec<i32> = solids.iter().map(|s| s.side([x, y, z])).collect();
                if sides.contains(&0) {
                    continue;
                }
                let want = sides.iter().filter(|s| **s > 0).count() as f64 * if flip { -1.0 } else { 1.0 };
                let got = compute_winding_number_for_triangles_3d(real.iter().copied(), &sc.p3([x, y, z]));
                ensure!((got - want).abs() <= 1e-6, "at {:?}: winding number is {got}, should be {want}", [x, y, z]);
                out.push(want as i64);
            }
        }
    }
    Ok(Some(digest(&(out, tris.len()))))
}
fn cuboid(a: P3, s: P3) -> Solid {
    let v: [P3; 8] = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]].map(|c| std::array::from_fn(|k| a[k] + c[k] * s[k]));
    solid(&v, &HEX_FACES).expect("a cuboid")
}
fn octahedron() -> Solid {
    let v = [[0, 0, 0], [4, 0, 0], [2, 2, 2], [2, -2, 2], [2, 2, -2], [2, -2, -2]];
    // vertices 0 and 1 are opposite, the others form a square 2 3 5 4
    solid(&v, &[&[0, 2, 3], &[0, 3, 5], &[0, 5, 4], &[0, 4, 2], &[1, 2, 3], &[1, 3, 5], &[1, 5, 4], &[1, 4, 2]]).expect("an octahedron")
}

fn main() {
    let ctx = Ctx::new("C25", Level::Exploration, "distinct vectors of answers (distances, sides, parameters) compared with reference geometry");
    ctx.assume("where a query is exactly on a boundary, either side is accepted: fenris documents that its predicates are not exact");
    for exp in [0, -40, 40] {
        UNIT.store(exp, std::sync::atomic::Ordering::Relaxed);
        figures(&ctx, if exp == 0 { String::new() } else { format!(" in units of 2^{exp}") }, ctx.thorough && exp == 0);
    }
    UNIT.store(0, std::sync::atomic::Ordering::Relaxed);
    helpers(&ctx);
    ctx.suite("reference cells", 1, |_| String::new(), |_| {
        let p = |c: [i32; 3]| Point3::from(c.map(|c| (c / 3 - 1) as f64));
        let hex: Vec<_> = checks::cells::Shape::Hex.corners().into_iter().map(p).collect();
        let tet: Vec<_> = checks::cells::Shape::Tet.corners().into_iter().map(p).collect();
        ensure!(Hexahedron::reference() == Hexahedron::from_vertices(std::array::from_fn(|i| hex[i])), "the reference hexahedron is {:?}", Hexahedron::<f64>::reference());
        ensure!(Tetrahedron::reference() == Tetrahedron::from_vertices(std::array::from_fn(|i| tet[i])), "the reference tetrahedron is {:?}", Tetrahedron::<f64>::reference());
        Ok(Some(1))
    });
    ctx.finish()
}

fn figures(ctx: &std::sync::Arc<Ctx>, units: String, th: bool) {
    macro_rules! run {
        ($name:expr, $n:expr, $dec:expr, $f:expr) => {{
            let dec = $dec;
            let dec2 = dec.clone();
            ctx.suite(
                &format!("{}{units}", $name),
                2 * $n,
                move |i| format!("{:?}", (SCALES[(i % 2) as usize], dec2(i / 2))),
                move |i| $f(SCALES[(i % 2) as usize], dec(i / 2)),
            )
        }};
    }
    let n = 3;
    let w = if th { 11 } else { 7 };
    run!("points and segments", pow(n, 6) * w * w * w, move |i: u64| { let mut g = Dig(i); (lp3(&mut g, n, 2), lp3(&mut g, n, 2), lp3(&mut g, w, 1).map(|x| x - 2)) }, |sc, (a, b, q)| segment_point(sc, a, b, q));
    run!("feet near the ends of segments", 8 * 4 * 52 * 2, move |i: u64| { let mut g = Dig(i); (g.next(8), g.next(4), g.next(52), g.next(2)) }, |sc, (d, which, j, dist)| near_end(sc, d, which, j, dist));
    let m = if th { 3 } else { 2 };
    run!(
        "segments and planes",
        pow(m, 9) * 125,
        move |i: u64| { let mut g = Dig(i); (lp3(&mut g, m, 1), lp3(&mut g, m, 2), lp3(&mut g, m, 1), lp3(&mut g, 5, 1).map(|x| x - 2)) },
        |sc, (a, b, x, n)| segment_plane(sc, a, b, x, n)
    );
    let n = if th { 6 } else { 4 };
    run!("pairs of segments", pow(n, 8), move |i: u64| { let mut g = Dig(i); [0; 4].map(|_| lp2(&mut g, n, 1)) }, segment_segment);
    run!(
        "segments and half-planes",
        pow(n, 4) * 9 * 49,
        move |i: u64| { let mut g = Dig(i); (lp2(&mut g, n, 1), lp2(&mut g, n, 1), lp2(&mut g, 3, 1), lp2(&mut g, 7, 1).map(|x| x - 3)) },
        |sc, (a, b, x, n)| segment_half_plane(sc, a, b, x, n)
    );
    let n = if th { 7 } else { 5 };
    run!(
        "segments and disks",
        pow(n, 4) * 9 * 6,
        move |i: u64| { let mut g = Dig(i); (lp2(&mut g, n, 1), lp2(&mut g, n, 1), lp2(&mut g, 3, 2), g.next(6) as i64) },
        |sc, (a, b, c, r)| segment_disk(sc, a, b, c, r)
    );
    let n = if th { 5 } else { 4 };
    run!("triangles in the plane", pow(n, 6), move |i: u64| { let mut g = Dig(i); [0; 3].map(|_| lp2(&mut g, n, 2)) }, triangle_2d);
    for m in 3..=if th { 6usize } else { 5 } {
        let n = if m == 4 || (m == 5 && th) { 4 } else { 3 };
        run!(&format!("polygons of {m}"), pow(n, 2 * m as u32), move |i: u64| simple(i, m, n), |sc, p: Option<Vec<P2>>| match p {
            Some(p) => polygon(sc, &p, 2 * n as i64 + 2),
            None => Ok(None),
        });
    }
    for m in 3..=5usize {
        let (lo, hi) = if th && m < 5 { (-2, 8) } else { (-1, 6) };
        run!(&format!("polygons of {m} and segments"), pow(3, 2 * m as u32), move |i: u64| simple(i, m, 3), move |sc, p: Option<Vec<P2>>| match p {
            Some(p) => polygon_segments(sc, &p, lo, hi),
            None => Ok(None),
        });
    }
    let ring: Vec<(usize, usize)> = (6..=if th { 130usize } else { 70 }).flat_map(|m| (0..if m <= 14 { m } else { 2 }).map(move |k| (m, k))).collect();
    let rings = ring.len() as u64;
    run!("polygons of many sides", 2 * rings, { let ring = ring.clone(); move |i: u64| (i % 2, ring[(i / 2) as usize]) }, |sc, (which, (m, start))| {
        let (p, pts) = if which == 0 { parabola(m, start) } else { comb(m, start) };
        let back: Vec<P2> = p.iter().rev().copied().collect();
        polygon_segments_at(sc, &p, &pts)?;
        polygon_at(sc, &back, &pts)?;
        polygon_at(sc, &p, &pts)
    });
    let n = 3;
    run!("triangles in space", pow(n, 9), move |i: u64| { let mut g = Dig(i); [0; 3].map(|_| lp3(&mut g, n, 2)) }, move |sc, v: [P3; 3]| {
        if cross(sub(v[1], v[0]), sub(v[2], v[0])) == [0; 3] {
            return Ok(None);
        }
        face_3d(sc, &v, (-2, if th { 7 } else { 5 }))
    });
    // plane quads: images of convex lattice quads (3 by 3) under lattice maps of the plane into space
    let maps = 3;
    run!(
        "quads in space",
        pow(3, 8) * pow(maps, 6),
        move |i: u64| {
            let mut g = Dig(i);
            let p = [0; 4].map(|_| lp2(&mut g, 3, 1));
            let (u, w) = (lp3(&mut g, maps, 1), lp3(&mut g, maps, 1));
            (p, u, w)
        },
        |sc, (p, u, w): ([P2; 4], P3, P3)| {
            let strict = (0..4).all(|i| orient(p[i], p[(i + 1) % 4], p[(i + 2) % 4]) > 0);
            if !is_convex(&p) || !(strict || p[0] == [0, 0]) || cross(u, w) == [0; 3] {
                return Ok(None);
            }
            face_3d(sc, &p.map(|q| std::array::from_fn(|k| q[0] * u[k] + q[1] * w[k])), (-1, 5))
        }
    );
    run!(
        "tetrahedra",
        if th { pow(27, 4) } else { pow(8, 4) },
        move |i: u64| {
            let mut g = Dig(i);
            let v: [P3; 4] = [0; 4].map(|_| if th { lp3(&mut g, 3, 2) } else { lp3(&mut g, 2, 2) });
            v
        },
        move |sc, v| tetrahedron(sc, v, if th { (-2, 7) } else { (-1, 5) })
    );
    // hexahedra: parallelepipeds, and frusta with a scaled top, in all orientations
    let base: [P3; 8] = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]];
    let entries: &[i64] = if th { &[-1, 0, 1] } else { &[0, 1] };
    let ne = entries.len() as u64;
    run!(
        "hexahedra",
        pow(ne, 9) * 4,
        move |i: u64| {
            let mut g = Dig(i);
            let cols: [P3; 3] = [0; 3].map(|_| [0; 3].map(|_| *g.pick(entries)));
            let taper = g.next(4);
            let v: [P3; 8] = base.map(|c| {
                // frustum: the top is half as wide, in one direction or in both
                let mut c = c.map(|x| 2 * x);
                if c[2] > 0 {
                    if taper & 1 > 0 {
                        c[0] /= 2;
                    }
                    if taper & 2 > 0 {
                        c[1] /= 2;
                    }
                }
                std::array::from_fn(|k| cols[0][k] * c[0] + cols[1][k] * c[1] + cols[2][k] * c[2])
            });
            v
        },
        move |sc, v| hexahedron(sc, v, if th { (-3, 5) } else { (-1, 5) })
    );
    run!("solid angles", pow(n, 9), move |i: u64| { let mut g = Dig(i); [0; 3].map(|_| lp3(&mut g, n, 2)) }, move |sc, t| one_angle(sc, t, (-2, if th { 7 } else { 5 })));
    run!(
        "winding numbers",
        (1 + 1 + 64 + pow(2, 12) + 64) * 2,
        move |i: u64| (i % 2 == 1, i / 2),
        move |sc, (flip, k): (bool, u64)| {
            let tet = solid(&[[0, 0, 0], [4, 0, 0], [0, 4, 0], [1, 1, 5]], &TET_FACES).unwrap();
            let two = pow(2, 12);
            match k {
                0 => winding(sc, &[tet], 0, flip, (-1, 6)),
                1 => winding(sc, &[octahedron()], 0, flip, (-3, 6)),
                2..=65 => winding(sc, &[cuboid([0, 0, 0], [4, 2, 4])], k - 2, flip, (-1, 6)),
                // two boxes with a common face: the inner faces cancel only if they are seen from both sides
                k if k < 66 + two => winding(sc, &[cuboid([0, 0, 0], [2, 4, 4]), cuboid([2, 0, 0], [2, 2, 2])], k - 66, flip, (-1, 6)),
                // one within the other: counted twice
                k => winding(sc, &[cuboid([0, 0, 0], [4, 4, 4]), octahedron()], (k - 66 - two) % 64, flip, (-3, 6)),
            }
        }
    );
}

fn helpers(ctx: &std::sync::Arc<Ctx>) {
    let dirs = ctx.tier(9u64, 15);
    ctx.suite("orthonormal bases", pow(dirs, 3), move |i| format!("{:?}", lp3(&mut Dig(i), dirs, 1)), move |i| {
        let d = lp3(&mut Dig(i), dirs, 1).map(|x| (x - dirs as i64 / 2) as f64);
        if d == [0.0; 3] {
            return Ok(None);
        }
        let mut seen = vec![];
        // negative zeros included
        for s in 0..8 {
            let d: Vec<f64> = (0..3).map(|k| if s >> k & 1 == 1 && d[k] == 0.0 { -0.0 } else { d[k] }).collect();
            let u: UnitVector3<f64> = Unit::new_normalize(Vector3::new(d[0], d[1], d[2]));
            let [a, b] = compute_orthonormal_vectors_3d(&u);
            ensure!(near(a.norm(), 1.0) && near(b.norm(), 1.0), "lengths {} {}", a.norm(), b.norm());
            ensure!(a.dot(&b).abs() <= TOL && a.dot(&u).abs() <= TOL && b.dot(&u).abs() <= TOL, "{a:?} {b:?} {u:?} are not orthogonal");
            seen.push(a.cross(&b).dot(&u) > 0.0);
        }
        Ok(Some(digest(&seen)))
    });
    let k = ctx.tier(4u32, 5);
    ctx.suite("cyclic comparison", pow(pow(3, k + 1), 2), move |i| format!("{i}"), move |i| {
        let mut g = Dig(i);
        let mut word = || {
            let n = g.next(3u64.pow(k + 1)) as u64;
            // the first digit is the length, the others the letters
            let mut d = Dig(n);
            let len = (d.next(3) + k as usize).saturating_sub(2);
            (0..len).map(|_| d.next(3)).collect::<Vec<_>>()
        };
        let (a, b) = (word(), word());
        let want = a.len() == b.len() && (a.is_empty() || (0..a.len()).any(|s| (0..a.len()).all(|j| a[(j + s) % a.len()] == b[j])));
        ensure_eq!(slices_are_equal_shift_invariant(&a, &b, |x, y| x == y), want, "cyclic equality of {a:?} and {b:?}");
        Ok(Some(digest(&(want, a.len()))))
    });
}
