//! C26: bounding boxes and signed distance functions.
use fenris::connectivity::*;
use fenris::geometry::sdf::*;
use fenris::geometry::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, OVector, Point2, Point3, Vector2, U1, U2, U3, U4};
use fenris::Real;
use hk::*;

/// The unit of length of the running suites, a power of two: nothing may depend on it.
static UNIT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
fn unit() -> f64 {
    2f64.powi(UNIT.load(std::sync::atomic::Ordering::Relaxed))
}
/// Lattice number `k` as a coordinate: dyadic, so that the exact answers are representable.
fn co(k: i64) -> f64 {
    (k as f64 * 0.25 - 0.5) * unit()
}
fn real<T: Real>(x: f64) -> T {
    T::from_f64(x).unwrap()
}
fn pt<T: Real, D: DimName>(x: &[i64]) -> OPoint<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    OPoint::from(OVector::<T, D>::from_fn(|i, _| real(co(x[i]))))
}
/// Back to the lattice; `None` when it is not a lattice point.
fn lat<T: Real, D: DimName>(p: &OPoint<T, D>) -> Option<Vec<i64>>
where
    DefaultAllocator: Allocator<T, D>,
{
    p.coords
        .iter()
        .map(|x| {
            let k = (fenris::nalgebra::try_convert::<T, f64>(*x).unwrap() / unit() + 0.5) * 4.0;
            (k == k.round()).then_some(k as i64)
        })
        .collect()
}
type LBox = (Vec<i64>, Vec<i64>);
fn lbox<T: Real, D: DimName>(b: &AxisAlignedBoundingBox<T, D>) -> Option<LBox>
where
    DefaultAllocator: Allocator<T, D>,
{
    Some((lat(b.min())?, lat(b.max())?))
}
fn make<T: Real, D: DimName>(b: &LBox) -> AxisAlignedBoundingBox<T, D>
where
    DefaultAllocator: Allocator<T, D>,
{
    AxisAlignedBoundingBox::new(pt(&b.0), pt(&b.1))
}
fn f<T: Real>(x: T) -> f64 {
    fenris::nalgebra::try_convert(x).unwrap()
}

fn lpoint(g: &mut Dig, d: usize, n: u64, step: i64) -> Vec<i64> {
    (0..d).map(|_| g.next(n) as i64 * step).collect()
}
/// Intervals `[a, b]` over the lattice `0..n` with the given step, degenerate ones included.
fn interval(g: &mut Dig, n: u64, step: i64) -> (i64, i64) {
    let mut k = g.next(n * (n + 1) / 2) as u64;
    let mut a = 0;
    while k >= n - a {
        k -= n - a;
        a += 1;
    }
    (a as i64 * step, (a + k) as i64 * step)
}
fn any_box(g: &mut Dig, d: usize, n: u64, step: i64) -> LBox {
    (0..d).map(|_| interval(g, n, step)).unzip()
}
fn boxes(d: usize, n: u64) -> u64 {
    pow(n * (n + 1) / 2, d as u32)
}

// ---------------------------------------------------------------- boxes

fn from_points<T: Real, D: DimName>(points: &[Vec<i64>]) -> Verdict
where
    DefaultAllocator: Allocator<T, D>,
{
    let ps: Vec<OPoint<T, D>> = points.iter().map(|p| pt(p)).collect();
    let got = AxisAlignedBoundingBox::from_points(&ps);
    if points.is_empty() {
        ensure!(got.is_none(), "a box of no points");
        return Ok(Some(0));
    }
    let want: LBox = (0..D::dim())
        .map(|i| (points.iter().map(|p| p[i]).min().unwrap(), points.iter().map(|p| p[i]).max().unwrap()))
        .unzip();
    let got = got.ok_or("no box of some points")?;
    ensure_eq!(lbox(&got), Some(want.clone()), "box of points");
    for p in &ps {
        ensure!(got.contains_point(p), "the box does not contain {p:?}");
    }
    if points.len() == 1 {
        ensure_eq!(AxisAlignedBoundingBox::from(ps[0].clone()), got, "box of one point");
    }
    ensure_eq!(got.bounding_box(), got, "bounding box of a box");
    Ok(Some(digest(&want)))
}
fn pairs<T: Real, D: DimName>(a: &LBox, b: &LBox) -> Verdict
where
    DefaultAllocator: Allocator<T, D>,
{
    let (x, y) = (make::<T, D>(a), make::<T, D>(b));
    let d = D::dim();
    let hull: LBox = (0..d).map(|i| (a.0[i].min(b.0[i]), a.1[i].max(b.1[i]))).unzip();
    ensure_eq!(lbox(&x.enclose(&y)), Some(hull.clone()), "enclosing box");
    let meet = (0..d).all(|i| a.0[i].max(b.0[i]) <= a.1[i].min(b.1[i]));
    ensure_eq!(x.intersects(&y), meet, "boxes intersect");
    Ok(Some(digest(&(hull, meet))))
}
fn queries<T: Real, D: DimName>(b: &LBox, q: &[i64]) -> Verdict
where
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D>,
{
    let (x, p) = (make::<T, D>(b), pt::<T, D>(q));
    let d = D::dim();
    let inside = (0..d).all(|i| b.0[i] <= q[i] && q[i] <= b.1[i]);
    ensure_eq!(x.contains_point(&p), inside, "contains the point");
    let near: Vec<i64> = (0..d).map(|i| q[i].clamp(b.0[i], b.1[i])).collect();
    let near2: i64 = (0..d).map(|i| (q[i] - near[i]).pow(2)).sum();
    ensure_eq!(lat(&x.closest_point_to(&p)), Some(near), "closest point");
    ensure_eq!(f(x.dist2_to(&p)), near2 as f64 / 16.0 * unit() * unit(), "squared distance");
    let close = |a: f64, b: f64| (a / unit() - b).abs() <= 1e-6 * (1.0 + b.abs());
    ensure!(close(f(x.dist_to(&p)), (near2 as f64).sqrt() / 4.0), "distance is {}", x.dist_to(&p));
    // the furthest point is a corner
    let far2: i64 = (0..d).map(|i| (q[i] - b.0[i]).pow(2).max((q[i] - b.1[i]).pow(2))).sum();
    let far = lat(&x.furthest_point_to(&p)).ok_or("the furthest point is not a corner")?;
    ensure!((0..d).all(|i| far[i] == b.0[i] || far[i] == b.1[i]), "the furthest point {far:?} is not a corner");
    ensure_eq!((0..d).map(|i| (q[i] - far[i]).pow(2)).sum::<i64>(), far2, "squared distance of the furthest point");
    ensure_eq!(f(x.max_dist2_to(&p)), far2 as f64 / 16.0 * unit() * unit(), "largest squared distance");
    ensure!(close(f(x.max_dist_to(&p)), (far2 as f64).sqrt() / 4.0), "largest distance is {}", x.max_dist_to(&p));
    Ok(Some(digest(&(near2, far2, inside))))
}
/// What needs no product of lengths.
fn containment<D: DimName>(b: &LBox, q: &[i64]) -> Verdict
where
    DefaultAllocator: Allocator<f64, D> + Allocator<usize, D>,
{
    let (x, p) = (make::<f64, D>(b), pt::<f64, D>(q));
    let d = D::dim();
    let inside = (0..d).all(|i| b.0[i] <= q[i] && q[i] <= b.1[i]);
    ensure_eq!(x.contains_point(&p), inside, "contains the point");
    let near: Vec<i64> = (0..d).map(|i| q[i].clamp(b.0[i], b.1[i])).collect();
    ensure_eq!(lat(&x.closest_point_to(&p)), Some(near.clone()), "closest point");
    let far = lat(&x.furthest_point_to(&p)).ok_or("the furthest point is not a corner")?;
    for i in 0..d {
        ensure_eq!((q[i] - far[i]).abs(), (q[i] - b.0[i]).abs().max((q[i] - b.1[i]).abs()), "furthest point along axis {i}");
    }
    Ok(Some(digest(&(inside, near, far))))
}
fn sizes<T: Real, D: DimName>(b: &LBox) -> Verdict
where
    DefaultAllocator: Allocator<T, D> + Allocator<usize, D>,
{
    let x = make::<T, D>(b);
    let d = D::dim();
    let ext: Vec<f64> = (0..d).map(|i| (b.1[i] - b.0[i]) as f64 / 4.0 * unit()).collect();
    ensure_eq!(x.extents().iter().map(|e| f(*e)).collect::<Vec<_>>(), ext, "extents");
    ensure_eq!(f(x.max_extent()), ext.iter().copied().fold(0.0, f64::max), "largest extent");
    let mid: Vec<f64> = (0..d).map(|i| (co(b.0[i]) + co(b.1[i])) / 2.0).collect();
    ensure_eq!(x.center().coords.iter().map(|e| f(*e)).collect::<Vec<_>>(), mid, "centre");
    // corners: every choice of ends once
    let mut got: Vec<Vec<i64>> = vec![];
    for c in x.corners_iter() {
        got.push(lat(&c).ok_or("a corner is off")?);
    }
    let mut want: Vec<Vec<i64>> = (0..1usize << d)
        .map(|m| (0..d).map(|i| if m >> i & 1 == 0 { b.0[i] } else { b.1[i] }).collect())
        .collect();
    got.sort();
    want.sort();
    ensure_eq!(got, want, "corners");
    for s in [0.0, 0.25, 0.5, 1.0, 2.0, 3.0] {
        let y = x.uniformly_scale(real(s));
        for i in 0..d {
            ensure_eq!((f(y.min()[i]), f(y.max()[i])), (mid[i] - s * ext[i] / 2.0, mid[i] + s * ext[i] / 2.0), "scaled by {s}, axis {i}");
        }
    }
    ensure!(no_panic(|| x.uniformly_scale(real(-0.5))).is_err(), "scaled by a negative number");
    for r in [-0.5, -0.25, 0.0, 0.25, 1.5] {
        let r = r * unit();
        let fits = ext.iter().all(|e| e + 2.0 * r >= 0.0);
        match no_panic(|| x.grow_uniformly(real(r))) {
            Err(_) => ensure!(!fits, "growing by {r} panicked"),
            Ok(y) => {
                ensure!(fits, "shrinking by {r} beyond the size of the box gave {y:?}");
                for i in 0..d {
                    ensure_eq!((f(y.min()[i]), f(y.max()[i])), (co(b.0[i]) - r, co(b.1[i]) + r), "grown by {r}, axis {i}");
                }
            }
        }
    }
    // reversed ends are refused
    for i in 0..d {
        if b.0[i] < b.1[i] {
            let (mut lo, mut hi) = b.clone();
            std::mem::swap(&mut lo[i], &mut hi[i]);
            ensure!(no_panic(|| make::<T, D>(&(lo, hi))).is_err(), "a box with min > max on axis {i} was made");
        }
    }
    Ok(Some(digest(b)))
}

// ---------------------------------------------------------------- boxes of geometries

fn hull(points: &[Vec<i64>]) -> Option<LBox> {
    let d = points.first()?.len();
    Some((0..d).map(|i| (points.iter().map(|p| p[i]).min().unwrap(), points.iter().map(|p| p[i]).max().unwrap())).unzip())
}
fn geometries(d: usize, points: &[Vec<i64>]) -> Verdict {
    let want = hull(points);
    let n = points.len();
    if d == 2 {
        let p: Vec<Point2<f64>> = points.iter().map(|x| pt(x)).collect();
        if n == 3 {
            ensure_eq!(lbox(&Triangle([p[0], p[1], p[2]]).bounding_box()), want, "box of a triangle");
            let m = Mesh::from_vertices_and_connectivity([&[pt(&[99, -99])], &p[..]].concat(), vec![Tri3d2Connectivity([3, 1, 2])]);
            ensure_eq!(lbox(&m.bounding_box()), want, "box of a mesh with an unused vertex");
        }
        if n == 4 {
            ensure_eq!(lbox(&Quad2d([p[0], p[1], p[2], p[3]]).bounding_box()), want, "box of a quad");
            let m = Mesh::from_vertices_and_connectivity(p.clone(), vec![Tri3d2Connectivity([0, 1, 2]), Tri3d2Connectivity([2, 3, 0])]);
            ensure_eq!(lbox(&m.bounding_box()), want, "box of a mesh");
        }
        ensure_eq!(lbox(&SimplePolygon2d::from_vertices(p).bounding_box()), want, "box of a polygon");
    } else {
        let p: Vec<Point3<f64>> = points.iter().map(|x| pt(x)).collect();
        if n == 3 {
            ensure_eq!(lbox(&Triangle([p[0], p[1], p[2]]).bounding_box()), want, "box of a triangle");
        }
        if n == 4 {
            ensure_eq!(lbox(&Tetrahedron::from_vertices([p[0], p[1], p[2], p[3]]).bounding_box()), want, "box of a tetrahedron");
            let m = Mesh::from_vertices_and_connectivity([&p[..], &[pt(&[99, -99, 7])]].concat(), vec![Tet4Connectivity([2, 0, 1, 3])]);
            ensure_eq!(lbox(&m.bounding_box()), want, "box of a mesh");
            // a hexahedron with each of the points at two of its corners
            for shift in 0..4 {
                let h = Hexahedron::from_vertices(std::array::from_fn(|i| p[(i * 3 + i / 4 + shift) % 4]));
                ensure_eq!(lbox(&h.bounding_box()), want, "box of a hexahedron");
            }
        }
        ensure_eq!(lbox(&SimplePolygon3d::from_vertices(p).bounding_box()), want, "box of a polygon");
    }
    Ok(Some(digest(&(want, n))))
}

// ---------------------------------------------------------------- distance functions

#[derive(Clone, Copy, Debug)]
enum Shape {
    /// centre, radius
    Circle([i64; 2], i64),
    Rect([i64; 2], [i64; 2]),
}
/// One of the real primitives, of either kind.
#[derive(Clone)]
enum Prim<T: Real> {
    C(SdfCircle<T>),
    R(SdfAxisAlignedBox<T>),
}
impl<T: Real> SignedDistanceFunction2d<T> for Prim<T> {
    fn eval(&self, x: &Point2<T>) -> T {
        match self {
            Prim::C(s) => s.eval(x),
            Prim::R(s) => s.eval(x),
        }
    }
    fn gradient(&self, x: &Point2<T>) -> Option<Vector2<T>> {
        match self {
            Prim::C(s) => s.gradient(x),
            Prim::R(s) => s.gradient(x),
        }
    }
}
impl<T: Real> BoundedGeometry<T> for Prim<T> {
    type Dimension = U2;
    fn bounding_box(&self) -> AxisAlignedBoundingBox2d<T> {
        match self {
            Prim::C(s) => s.bounding_box(),
            Prim::R(s) => s.bounding_box(),
        }
    }
}
impl Shape {
    fn real<T: Real>(self) -> Prim<T> {
        match self {
            Shape::Circle(c, r) => Prim::C(SdfCircle { center: pt::<T, U2>(&c).coords, radius: real(r as f64 / 4.0 * unit()) }),
            Shape::Rect(a, b) => Prim::R(SdfAxisAlignedBox { aabb: AxisAlignedBoundingBox::new(pt(&a), pt(&b)) }),
        }
    }
    /// Exact sign, value, and the gradient where there is one.
    fn at(self, q: [i64; 2]) -> (i64, f64, Option<[f64; 2]>) {
        match self {
            Shape::Circle(c, r) => {
                let v = [q[0] - c[0], q[1] - c[1]];
                let n2 = v[0] * v[0] + v[1] * v[1];
                let n = (n2 as f64).sqrt();
                ((n2 - r * r).signum(), (n - r as f64) / 4.0, (n2 > 0).then(|| v.map(|x| x as f64 / n)))
            }
            Shape::Rect(a, b) => {
                let near = [q[0].clamp(a[0], b[0]), q[1].clamp(a[1], b[1])];
                let v = [q[0] - near[0], q[1] - near[1]];
                let n2 = v[0] * v[0] + v[1] * v[1];
                if n2 > 0 {
                    let n = (n2 as f64).sqrt();
                    return (1, n / 4.0, Some(v.map(|x| x as f64 / n)));
                }
                let sides = [(q[0] - a[0], [-1.0, 0.0]), (b[0] - q[0], [1.0, 0.0]), (q[1] - a[1], [0.0, -1.0]), (b[1] - q[1], [0.0, 1.0])];
                let m = sides.iter().map(|s| s.0).min().unwrap();
                let mut closest = sides.iter().filter(|s| s.0 == m);
                let first = closest.next().unwrap();
                let g = closest.next().is_none().then_some(first.1);
                (if m > 0 { -1 } else { 0 }, -(m as f64) / 4.0, g)
            }
        }
    }
    fn pick(g: &mut Dig, n: u64) -> Shape {
        // circles of every small radius (points included) and boxes of every small size (degenerate included)
        if g.bit() {
            Shape::Circle([2 * g.next(n) as i64, 2 * g.next(n) as i64], [0, 1, 2, 4, 5][g.next(5)])
        } else {
            let a = [2 * g.next(n) as i64, 2 * g.next(n) as i64];
            let k = g.next(5);
            let s = [[0, 0], [2, 0], [0, 4], [2, 2], [4, 2]][k];
            Shape::Rect(a, [a[0] + s[0], a[1] + s[1]])
        }
    }
}
fn shapes(n: u64) -> u64 {
    2 * n * n * 5
}

/// The value must be the smallest of the parts', and the gradient that of a smallest part.
fn judge<T: Real, S: SignedDistanceFunction2d<T> + BoundedGeometry<T, Dimension = U2>>(s: &S, parts: &[Shape], q: [i64; 2]) -> Verdict {
    let single = std::mem::size_of::<T>() == 4;
    let (tol, gtol) = if single { (1e-5, 1e-3) } else { (1e-12, 1e-6) };
    let x = pt::<T, U2>(&q);
    let at: Vec<_> = parts.iter().map(|p| p.at(q)).collect();
    let (sign, want) = (at.iter().map(|a| a.0).min().unwrap(), at.iter().map(|a| a.1).fold(f64::INFINITY, f64::min));
    let got = f(s.eval(&x)) / unit();
    ensure!((got - want).abs() <= tol, "distance is {got}, should be {want}");
    if sign != 0 {
        ensure!(got * sign as f64 > 0.0, "distance is {got}, should have sign {sign}");
    }
    let b = s.bounding_box();
    ensure!(sign > 0 || b.contains_point(&x), "a point of the shape is outside of the bounding box {b:?}");
    // the gradient, away from points where it changes
    let low: Vec<_> = at.iter().filter(|a| a.1 <= want + 1e-3).collect();
    match s.gradient(&x) {
        None => ensure!(low.iter().any(|a| a.2.is_none()), "no gradient where there is one"),
        Some(g) => {
            let g = [f(g.x), f(g.y)];
            let n = (g[0] * g[0] + g[1] * g[1]).sqrt();
            ensure!((n - 1.0).abs() < 1e-4, "the gradient {g:?} is not a unit vector");
            if low.iter().all(|a| a.2.is_some()) && (low.len() == 1 || sign != 0) {
                let ok = low.iter().any(|a| {
                    let w = a.2.unwrap();
                    (g[0] - w[0]).abs() <= gtol && (g[1] - w[1]).abs() <= gtol
                });
                ensure!(ok, "the gradient is {g:?}, should be one of {:?}", low.iter().map(|a| a.2).collect::<Vec<_>>());
            }
        }
    }
    Ok(Some(digest(&(sign, want.to_bits(), parts.len()))))
}
fn expression<T: Real>(parts: &[Shape], nesting: usize, n: i64) -> Verdict {
    let r: Vec<Prim<T>> = parts.iter().map(|p| p.real()).collect();
    let u = |i: usize, j: usize| r[i].clone().union(r[j].clone());
    let mut out = vec![];
    for qx in -3..n {
        for qy in -3..n {
            let q = [qx, qy];
            let v = match (parts.len(), nesting) {
                (1, _) => judge(&r[0], parts, q),
                (2, _) => judge(&u(0, 1), parts, q),
                (3, 0) => judge(&u(0, 1).union(r[2].clone()), parts, q),
                (3, _) => judge(&r[0].clone().union(u(1, 2)), parts, q),
                (4, 0) => judge(&u(0, 1).union(u(2, 3)), parts, q),
                (4, 1) => judge(&u(0, 1).union(r[2].clone()).union(r[3].clone()), parts, q),
                _ => judge(&r[0].clone().union(r[1].clone().union(u(2, 3))), parts, q),
            };
            out.push(v.map_err(|e| format!("at {q:?}: {e}"))?);
        }
    }
    Ok(Some(digest(&out)))
}

fn main() {
    let ctx = Ctx::new("C26", Level::Exploration, "distinct answers (boxes, distances, signs) among the cases compared with exact ones");
    for exp in [0, -40, 40] {
        UNIT.store(exp, std::sync::atomic::Ordering::Relaxed);
        let tag = if exp == 0 { String::new() } else { format!(" in units of 2^{exp}") };
        macro_rules! dims {
            ($t:ty, $name:expr, [$(($d:ident, $pn:expr, $pk:expr, $bn:expr, $qn:expr, $sn:expr)),*]) => {$({
                let d = $d::dim();
                let t = |s: &str| format!("{s} {} {}{tag}", $name, stringify!($d));
                let (pn, pk, bn, qn, sn): (u64, u32, u64, u64, u64) = ($pn, $pk, $bn, $qn, $sn);
                let total: u64 = (0..=pk).map(|k| pow(pow(pn, d as u32), k)).sum();
                let seq = move |i: u64| {
                    let (mut i, mut k) = (i, 0);
                    while i >= pow(pow(pn, d as u32), k) {
                        i -= pow(pow(pn, d as u32), k);
                        k += 1;
                    }
                    let mut g = Dig(i);
                    (0..k).map(|_| lpoint(&mut g, d, pn, 3)).collect::<Vec<_>>()
                };
                ctx.suite(&t("points"), total, move |i| format!("{:?}", seq(i)), move |i| from_points::<$t, $d>(&seq(i)));
                let two = move |i: u64| { let mut g = Dig(i); (any_box(&mut g, d, bn, 1), any_box(&mut g, d, bn, 1)) };
                ctx.suite(&t("pairs"), boxes(d, bn) * boxes(d, bn), move |i| format!("{:?}", two(i)), move |i| { let (a, b) = two(i); pairs::<$t, $d>(&a, &b) });
                let q = move |i: u64| {
                    let mut g = Dig(i);
                    (any_box(&mut g, d, qn, 2), lpoint(&mut g, d, 2 * qn + 3, 1).iter().map(|x| x - 2).collect::<Vec<_>>())
                };
                ctx.suite(&t("queries"), boxes(d, qn) * pow(2 * qn + 3, d as u32), move |i| format!("{:?}", q(i)), move |i| { let (b, p) = q(i); queries::<$t, $d>(&b, &p) });
                let one = move |i: u64| any_box(&mut Dig(i), d, sn, 1);
                ctx.suite(&t("sizes"), boxes(d, sn), move |i| format!("{:?}", one(i)), move |i| sizes::<$t, $d>(&one(i)));
            })*};
        }
        if ctx.thorough {
            dims!(f64, "f64", [(U1, 9, 4, 12, 12, 12), (U2, 4, 4, 6, 6, 8), (U3, 3, 3, 4, 4, 5), (U4, 2, 3, 2, 3, 3)]);
            dims!(f32, "f32", [(U1, 9, 3, 9, 9, 9), (U2, 4, 3, 5, 6, 8), (U3, 3, 3, 3, 4, 5), (U4, 2, 3, 2, 2, 3)]);
        } else {
            dims!(f64, "f64", [(U1, 7, 4, 8, 8, 8), (U2, 3, 4, 5, 5, 6), (U3, 2, 4, 3, 3, 4), (U4, 2, 2, 2, 2, 2)]);
            dims!(f32, "f32", [(U1, 7, 3, 8, 8, 8), (U2, 3, 3, 4, 5, 6), (U3, 2, 3, 2, 3, 4), (U4, 2, 2, 2, 2, 2)]);
        }
        for (d, n, k) in [(2, ctx.tier(3u64, 4), ctx.tier(4u32, 4)), (3, 2u64, ctx.tier(4u32, 5))] {
            let total: u64 = (1..=k).map(|j| pow(pow(n, d as u32), j)).sum();
            let seq = move |i: u64| {
                let (mut i, mut j) = (i, 1);
                while i >= pow(pow(n, d as u32), j) {
                    i -= pow(pow(n, d as u32), j);
                    j += 1;
                }
                let mut g = Dig(i);
                (0..j).map(|_| lpoint(&mut g, d, n, 3)).collect::<Vec<_>>()
            };
            ctx.suite(&format!("geometries {d}d{tag}"), total, move |i| format!("{:?}", seq(i)), move |i| geometries(d, &seq(i)));
        }
        ctx.suite(&format!("a mesh without cells{tag}"), 1, |_| String::new(), |_| {
            let m = Mesh::<f64, U2, Tri3d2Connectivity>::from_vertices_and_connectivity(vec![pt(&[9, 9])], vec![]);
            let b = m.bounding_box();
            ensure!(b.min() == b.max(), "box of no cells is {b:?}");
            Ok(Some(0))
        });
        let top = ctx.tier(1200u64, 3000);
        ctx.suite(&format!("meshes of every number of cells{tag}"), top * 3, |i| format!("case {i}"), move |i| {
            let (n, way) = (i as i64 / 3 + 1, i % 3);
            let mut v = vec![];
            for k in 0..n + 2 {
                // a zig-zag that takes its extreme values at different places
                let k = [k, n + 1 - k, (k * 7) % (n + 2)][way as usize];
                v.push(pt::<f64, U2>(&[k * 3 - n, (k * k) % 29 - k]));
            }
            // vertices that belong to no cell
            v.push(pt(&[5 * n + 9, -5 * n - 9]));
            v.insert(0, pt(&[-5 * n - 9, 5 * n + 9]));
            let cells: Vec<_> = (0..n as usize).map(|k| Tri3d2Connectivity([k + 1, k + 2, k + 3])).collect();
            let used = &v[1..n as usize + 3];
            let ext = |d: usize| used.iter().fold((f64::MAX, f64::MIN), |(a, b), p| (a.min(p[d]), b.max(p[d])));
            let b = Mesh::<f64, U2, _>::from_vertices_and_connectivity(v.clone(), cells).bounding_box();
            let p = AxisAlignedBoundingBox::from_points(used).unwrap();
            for d in 0..2 {
                ensure_eq!((b.min()[d], b.max()[d]), ext(d), "extent of the mesh along axis {d}");
                ensure_eq!((p.min()[d], p.max()[d]), ext(d), "extent of the points along axis {d}");
            }
            Ok(Some(i))
        });
        // units in which the squares of lengths are not numbers any more
        for exp in if exp == 0 { vec![-1000, -540, 540, 1000] } else { vec![] } {
            UNIT.store(exp, std::sync::atomic::Ordering::Relaxed);
            let (n2, n3) = (ctx.tier(4, 5), ctx.tier(2u64, 3));
            ctx.suite(&format!("containment in units of 2^{exp}"), boxes(2, n2) * pow(2 * n2 + 3, 2), |i| format!("case {i}"), move |i| {
                let mut g = Dig(i);
                containment::<U2>(&any_box(&mut g, 2, n2, 2), &lpoint(&mut g, 2, 2 * n2 + 3, 1).iter().map(|x| x - 2).collect::<Vec<_>>())
            });
            ctx.suite(&format!("containment in 3d in units of 2^{exp}"), boxes(3, n3) * pow(2 * n3 + 3, 3), |i| format!("case {i}"), move |i| {
                let mut g = Dig(i);
                containment::<U3>(&any_box(&mut g, 3, n3, 2), &lpoint(&mut g, 3, 2 * n3 + 3, 1).iter().map(|x| x - 2).collect::<Vec<_>>())
            });
            let two = move |i: u64| {
                let mut g = Dig(i);
                (any_box(&mut g, 2, n2, 1), any_box(&mut g, 2, n2, 1))
            };
            ctx.suite(&format!("pairs in units of 2^{exp}"), boxes(2, n2) * boxes(2, n2), move |i| format!("{:?}", two(i)), move |i| {
                let (a, b) = two(i);
                pairs::<f64, U2>(&a, &b)
            });
            ctx.suite(&format!("sizes in units of 2^{exp}"), boxes(2, n2), move |i| format!("case {i}"), move |i| sizes::<f64, U2>(&any_box(&mut Dig(i), 2, n2, 1)));
            UNIT.store(0, std::sync::atomic::Ordering::Relaxed);
        }
        // distance functions
        for parts in 1..=4usize {
            let n = match parts {
                1 => 4,
                2 => ctx.tier(2, 3),
                3 => ctx.tier(1, 2),
                _ => 1,
            };
            let variants = [1, 1, 1, 2, 3][parts];
            let decode = move |i: u64| {
                let mut g = Dig(i);
                let nesting = g.next(variants);
                let single = g.bit();
                let mut p: Vec<Shape> = (0..parts).map(|_| Shape::pick(&mut g, n)).collect();
                if n == 1 {
                    // otherwise all in the same place
                    for (k, s) in p.iter_mut().enumerate() {
                        let o = [[0, 0], [3, 1], [1, 5], [4, 4]][k];
                        *s = match *s {
                            Shape::Circle(c, r) => Shape::Circle([c[0] + o[0], c[1] + o[1]], r),
                            Shape::Rect(a, b) => Shape::Rect([a[0] + o[0], a[1] + o[1]], [b[0] + o[0], b[1] + o[1]]),
                        };
                    }
                }
                (p, nesting, single)
            };
            ctx.suite(
                &format!("distance functions of {parts}{tag}"),
                pow(shapes(n), parts as u32) * 2 * variants,
                move |i| format!("{:?}", decode(i)),
                move |i| {
                    let (p, nesting, single) = decode(i);
                    if single {
                        expression::<f32>(&p, nesting, 2 * n as i64 + 6)
                    } else {
                        expression::<f64>(&p, nesting, 2 * n as i64 + 6)
                    }
                },
            );
        }
    }
    ctx.finish()
}
