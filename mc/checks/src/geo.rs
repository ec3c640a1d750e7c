//! Reference geometry on integer lattices: exact predicates, and plain floating point distances.
pub type P2 = [i64; 2];
pub type P3 = [i64; 3];

pub fn sub<const D: usize>(a: [i64; D], b: [i64; D]) -> [i64; D] {
    std::array::from_fn(|i| a[i] - b[i])
}
pub fn dot<const D: usize>(a: [i64; D], b: [i64; D]) -> i64 {
    (0..D).map(|i| a[i] * b[i]).sum()
}
pub fn perp(a: P2, b: P2) -> i64 {
    a[0] * b[1] - a[1] * b[0]
}
pub fn cross(a: P3, b: P3) -> P3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
/// Twice the signed area of a triangle.
pub fn orient(a: P2, b: P2, c: P2) -> i64 {
    perp(sub(b, a), sub(c, a))
}
/// Six times the signed volume of a tetrahedron.
pub fn orient3(a: P3, b: P3, c: P3, d: P3) -> i64 {
    dot(cross(sub(b, a), sub(c, a)), sub(d, a))
}
/// Is `p` on the closed segment?
pub fn on_segment(p: P2, a: P2, b: P2) -> bool {
    orient(a, b, p) == 0 && dot(sub(p, a), sub(p, b)) <= 0
}
/// Do two closed segments meet?
pub fn segments_meet(a: P2, b: P2, c: P2, d: P2) -> bool {
    let s = |x: i64| x.signum();
    let (p, q, r, t) = (s(orient(a, b, c)), s(orient(a, b, d)), s(orient(c, d, a)), s(orient(c, d, b)));
    (p * q < 0 && r * t < 0) || on_segment(c, a, b) || on_segment(d, a, b) || on_segment(a, c, d) || on_segment(b, c, d)
}
/// Do they cross, each through the inside of the other?
pub fn segments_cross(a: P2, b: P2, c: P2, d: P2) -> bool {
    let s = |x: i64| x.signum();
    s(orient(a, b, c)) * s(orient(a, b, d)) < 0 && s(orient(c, d, a)) * s(orient(c, d, b)) < 0
}
/// Twice the signed area.
pub fn area2(p: &[P2]) -> i64 {
    (0..p.len()).map(|i| perp(p[i], p[(i + 1) % p.len()])).sum()
}
/// A polygon whose edges meet at common vertices only.
pub fn is_simple(p: &[P2]) -> bool {
    let n = p.len();
    let e = |i: usize| (p[i % n], p[(i + 1) % n]);
    for i in 0..n {
        if p[i] == p[(i + 1) % n] {
            return false;
        }
        for j in i + 1..n {
            let ((a, b), (c, d)) = (e(i), e(j));
            let shared = if j == i + 1 {
                Some((b, a, d))
            } else if i == 0 && j == n - 1 {
                Some((a, b, c))
            } else {
                None
            };
            match shared {
                // neighbours must not fold back onto each other
                Some((v, x, y)) => {
                    if orient(x, v, y) == 0 && dot(sub(x, v), sub(y, v)) > 0 {
                        return false;
                    }
                }
                None => {
                    if segments_meet(a, b, c, d) {
                        return false;
                    }
                }
            }
        }
    }
    n >= 3
}
/// Convex and counter-clockwise, corners of 180 degrees allowed.
pub fn is_convex(p: &[P2]) -> bool {
    let n = p.len();
    is_simple(p) && area2(p) > 0 && (0..n).all(|i| orient(p[i], p[(i + 1) % n], p[(i + 2) % n]) >= 0)
}
/// +1 inside, 0 on the boundary, -1 outside of a simple polygon.
pub fn locate(p: &[P2], q: P2) -> i32 {
    let n = p.len();
    let mut w = 0;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        if on_segment(q, a, b) {
            return 0;
        }
        if (a[1] <= q[1]) != (b[1] <= q[1]) {
            let left = orient(a, b, q) > 0;
            if a[1] <= q[1] && left {
                w += 1;
            } else if a[1] > q[1] && !left {
                w -= 1;
            }
        }
    }
    if w == 0 {
        -1
    } else {
        1
    }
}

// ---------------------------------------------------------------- floating point

pub type V3 = [f64; 3];
pub fn fsub(a: V3, b: V3) -> V3 {
    std::array::from_fn(|i| a[i] - b[i])
}
pub fn fdot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn fcross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn fnorm(a: V3) -> f64 {
    fdot(a, a).sqrt()
}
pub fn axpy(a: V3, t: f64, d: V3) -> V3 {
    std::array::from_fn(|i| a[i] + t * d[i])
}
/// Closest point of a segment.
pub fn near_segment(p: V3, a: V3, b: V3) -> V3 {
    let d = fsub(b, a);
    let l = fdot(d, d);
    let t = if l == 0.0 { 0.0 } else { (fdot(fsub(p, a), d) / l).clamp(0.0, 1.0) };
    axpy(a, t, d)
}
/// Closest point of a triangle, by cases over its face and edges.
pub fn near_triangle(p: V3, t: [V3; 3]) -> V3 {
    let n = fcross(fsub(t[1], t[0]), fsub(t[2], t[0]));
    let nn = fdot(n, n);
    let mut best = near_segment(p, t[0], t[1]);
    for i in 1..3 {
        let c = near_segment(p, t[i], t[(i + 1) % 3]);
        if fnorm(fsub(p, c)) < fnorm(fsub(p, best)) {
            best = c;
        }
    }
    if nn > 0.0 {
        let q = axpy(p, -fdot(n, fsub(p, t[0])) / nn, n);
        if (0..3).all(|i| fdot(n, fcross(fsub(t[(i + 1) % 3], t[i]), fsub(q, t[i]))) >= 0.0) && fnorm(fsub(p, q)) < fnorm(fsub(p, best)) {
            best = q;
        }
    }
    best
}
/// Closest point of a convex polygon.
pub fn near_polygon(p: V3, v: &[V3]) -> V3 {
    let mut best = v[0];
    for i in 1..v.len() - 1 {
        let c = near_triangle(p, [v[0], v[i], v[i + 1]]);
        if fnorm(fsub(p, c)) < fnorm(fsub(p, best)) {
            best = c;
        }
    }
    best
}
