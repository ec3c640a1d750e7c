//! Brute-force distances of points to simplices (in f64, small coordinates), by enumeration of their faces.
pub type P = [f64; 3];

fn sub(a: P, b: P) -> P {
    std::array::from_fn(|k| a[k] - b[k])
}
fn dot(a: P, b: P) -> f64 {
    (0..3).map(|k| a[k] * b[k]).sum()
}

/// Squared distance from p to the convex hull of the vertices and the closest point: the best among all subsets of
/// affinely independent vertices whose closest point has nonnegative barycentric coordinates.
pub fn hull(p: P, v: &[P]) -> (f64, P) {
    let n = v.len();
    let mut best = (f64::INFINITY, [0.0; 3]);
    for mask in 1u32..1 << n {
        let ix: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
        if ix.len() > 4 {
            continue;
        }
        let o = v[ix[0]];
        let e: Vec<P> = ix[1..].iter().map(|i| sub(v[*i], o)).collect();
        let m = e.len();
        // normal equations
        let mut a = vec![vec![0.0; m + 1]; m];
        for r in 0..m {
            for c in 0..m {
                a[r][c] = dot(e[r], e[c]);
            }
            a[r][m] = dot(e[r], sub(p, o));
        }
        let scale = e.iter().map(|x| dot(*x, *x)).fold(0.0, f64::max);
        let mut ok = true;
        for c in 0..m {
            let q = (c..m).max_by(|x, y| a[*x][c].abs().total_cmp(&a[*y][c].abs())).unwrap();
            a.swap(c, q);
            if a[c][c].abs() <= 1e-9 * scale {
                ok = false;
                break;
            }
            let f = 1.0 / a[c][c];
            a[c].iter_mut().for_each(|x| *x *= f);
            let row = a[c].clone();
            for r in 0..m {
                if r != c {
                    let f = a[r][c];
                    a[r].iter_mut().zip(&row).for_each(|(x, y)| *x -= f * y);
                }
            }
        }
        if !ok {
            continue; // affinely dependent: the closest point is also in a smaller subset
        }
        let t: Vec<f64> = a.iter().map(|r| r[m]).collect();
        if t.iter().any(|x| *x < -1e-12) || t.iter().sum::<f64>() > 1.0 + 1e-12 {
            continue;
        }
        let mut c = o;
        for (w, e) in t.iter().zip(&e) {
            for k in 0..3 {
                c[k] += w * e[k];
            }
        }
        let d = sub(p, c);
        let d2 = dot(d, d);
        if d2 < best.0 {
            best = (d2, c);
        }
    }
    best
}
