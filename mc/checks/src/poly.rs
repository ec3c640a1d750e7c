//! Convex polyhedra given by planes n.x <= c, brute force.
pub type V3 = [f64; 3];
pub type Plane = (V3, f64);

pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn sub(a: V3, b: V3) -> V3 {
    std::array::from_fn(|k| a[k] - b[k])
}
pub fn add(a: V3, b: V3) -> V3 {
    std::array::from_fn(|k| a[k] + b[k])
}
pub fn scale(a: V3, s: f64) -> V3 {
    a.map(|x| x * s)
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn norm(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn det3(a: V3, b: V3, c: V3) -> f64 {
    dot(cross(a, b), c)
}
pub fn unit(a: V3) -> V3 {
    scale(a, 1.0 / norm(a))
}

/// Vertices of the intersection of half-spaces (feasible intersections of three planes).
pub fn vertices(planes: &[Plane], tol: f64) -> Vec<V3> {
    let mut out: Vec<V3> = vec![];
    for i in 0..planes.len() {
        for j in 0..i {
            for k in 0..j {
                let (a, b, c) = (planes[i], planes[j], planes[k]);
                let d = det3(a.0, b.0, c.0);
                if d.abs() < 1e-9 {
                    continue;
                }
                let p = scale(
                    add(add(scale(cross(b.0, c.0), a.1), scale(cross(c.0, a.0), b.1)), scale(cross(a.0, b.0), c.1)),
                    1.0 / d,
                );
                if planes.iter().all(|(n, c)| dot(*n, p) <= c + tol) && !out.iter().any(|q| norm(sub(*q, p)) <= 10.0 * tol) {
                    out.push(p);
                }
            }
        }
    }
    out
}

/// Volume of the convex polytope with the given faces, each a set of vertices on one of the planes.
pub fn volume(planes: &[Plane], tol: f64) -> f64 {
    let vs = vertices(planes, tol);
    if vs.len() < 4 {
        return 0.0;
    }
    let c = scale(vs.iter().fold([0.0; 3], |a, b| add(a, *b)), 1.0 / vs.len() as f64);
    let mut done: Vec<Plane> = vec![];
    let mut vol = 0.0;
    for &(n, off) in planes {
        let l = norm(n);
        let (n, off) = (scale(n, 1.0 / l), off / l);
        if done.iter().any(|(m, o)| norm(sub(*m, n)) < 1e-9 && (o - off).abs() < 10.0 * tol) {
            continue;
        }
        done.push((n, off));
        let on: Vec<V3> = vs.iter().copied().filter(|v| (dot(n, *v) - off).abs() <= 10.0 * tol).collect();
        if on.len() < 3 {
            continue;
        }
        let fc = scale(on.iter().fold([0.0; 3], |a, b| add(a, *b)), 1.0 / on.len() as f64);
        let u = unit(sub(on[0], fc));
        let w = cross(n, u);
        let mut ang: Vec<(f64, V3)> = on.iter().map(|p| (dot(sub(*p, fc), w).atan2(dot(sub(*p, fc), u)), *p)).collect();
        ang.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        for i in 0..ang.len() {
            let (p, q) = (ang[i].1, ang[(i + 1) % ang.len()].1);
            vol += det3(sub(p, c), sub(q, c), sub(fc, c)).abs() / 6.0;
        }
    }
    vol
}

/// Is p in the convex hull of three or fewer dimensions spanned by `vs`? Decided by the brute force planes of the caller;
/// here: every vertex of the polytope is among the points, and every point is feasible.
pub fn same_hull(planes: &[Plane], points: &[V3], tol: f64) -> Result<(), String> {
    for p in points {
        for (n, c) in planes {
            if dot(*n, *p) > c + tol * norm(*n) {
                return Err(format!("the point {p:?} lies outside of {n:?}.x <= {c}"));
            }
        }
    }
    for v in vertices(planes, tol) {
        if !points.iter().any(|p| norm(sub(*p, v)) <= 100.0 * tol) {
            return Err(format!("the corner {v:?} is missing"));
        }
    }
    Ok(())
}
