//! C23: matrix and vector helpers.
use fenris::assembly::global::gather_global_to_local;
use fenris::connectivity::Tri3d2Connectivity;
use fenris::geometry::util::{compute_orthonormal_vectors_3d, slices_are_equal_shift_invariant};
use fenris::mesh::Mesh;
use fenris::nalgebra::*;
use fenris::util::*;
use hk::*;
use nalgebra_sparse::{CooMatrix, CsrMatrix};

/// Eigenvalues of a symmetric matrix by cyclic Jacobi rotations, ascending.
fn jacobi(mut a: Vec<Vec<f64>>) -> Vec<f64> {
    let n = a.len();
    for _ in 0..40 {
        for p in 0..n {
            for q in p + 1..n {
                if a[p][q] == 0.0 {
                    continue;
                }
                let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
                let t = if th == 0.0 { 1.0 } else { th.signum() / (th.abs() + (th * th + 1.0).sqrt()) };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = c * x - s * y;
                    a[k][q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = c * x - s * y;
                    a[q][k] = s * x + c * y;
                }
            }
        }
    }
    let mut e: Vec<f64> = (0..n).map(|i| a[i][i]).collect();
    e.sort_by(f64::total_cmp);
    e
}

fn det<const D: usize>(m: &SMatrix<f64, D, D>) -> f64 {
    let a = |i: usize, j: usize| m[(i, j)];
    match D {
        1 => a(0, 0),
        2 => a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0),
        _ => {
            a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0))
                + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0))
        }
    }
}

fn singular<const D: usize>(m: &SMatrix<f64, D, D>) -> Vec<f64> {
    let g = (0..D).map(|i| (0..D).map(|j| (0..D).map(|k| m[(k, i)] * m[(k, j)]).sum()).collect()).collect();
    jacobi(g).into_iter().map(|x: f64| x.max(0.0).sqrt()).collect()
}

fn lattice<const D: usize>(i: u64, vals: &[f64]) -> SMatrix<f64, D, D> {
    let mut d = Dig(i);
    SMatrix::from_fn(|_, _| *d.pick(vals))
}

macro_rules! svd_case {
    ($name:ident, $d:literal, $dim:ty) => {
        fn $name(a: SMatrix<f64, $d, $d>) -> Verdict {
            let scale = a.norm().max(1e-300);
            let (u, s, vt) = rotation_svd::<f64, $dim>(&a);
            let id = SMatrix::<f64, $d, $d>::identity();
            for (n, m) in [("U", &u), ("V", &vt)] {
                ensure!((m.transpose() * m - id).norm() < 1e-12, "{n} is not orthogonal: {m}");
                ensure!((det(m) - 1.0).abs() < 1e-12, "{n} is not a rotation: {m}");
            }
            let back = u * SMatrix::<f64, $d, $d>::from_diagonal(&s) * vt;
            ensure!((back - a).norm() <= 1e-9 * scale, "U S V^T = {back}");
            let mut got: Vec<f64> = s.iter().map(|x| x.abs() / scale).collect();
            got.sort_by(f64::total_cmp);
            let want = singular(&(a / scale));
            for (g, w) in got.iter().zip(&want) {
                ensure!((g - w).abs() < 1e-7, "singular values {got:?}, expected {want:?}");
            }
            // at most one entry is negative, and it is the smallest one
            let neg: Vec<f64> = s.iter().copied().filter(|x| *x < -1e-9 * scale).collect();
            ensure!(neg.len() <= 1, "more than one negative entry: {s}");
            if let Some(n) = neg.first() {
                ensure!(s.iter().all(|x| x.abs() >= n.abs() - 1e-9 * scale), "the negative entry is not the smallest: {s}");
            }
            Ok(if scale < 1e-200 { None } else { Some(digest(&format!("{a}"))) })
        }
    };
}
svd_case!(svd1, 1, U1);
svd_case!(svd2, 2, U2);
svd_case!(svd3, 3, U3);

macro_rules! eig_case {
    ($name:ident, $d:literal) => {
        fn $name(m: SMatrix<f64, $d, $d>) -> Verdict {
            // entries above the diagonal define the matrix
            let a = SMatrix::<f64, $d, $d>::from_fn(|i, j| if i <= j { m[(i, j)] } else { m[(j, i)] });
            let e = jacobi((0..$d).map(|i| (0..$d).map(|j| a[(i, j)]).collect()).collect());
            let tol = 1e-11 * a.norm().max(1e-300);
            let dynamic = DMatrix::from_fn($d, $d, |i, j| a[(i, j)]);
            for (lo, (lo2, hi)) in [
                (min_eigenvalue_symmetric(&a), min_max_symmetric_eigenvalues(&a)),
                (min_eigenvalue_symmetric(&dynamic), min_max_symmetric_eigenvalues(&dynamic)),
            ] {
                ensure!((lo - e[0]).abs() < tol && (lo2 - e[0]).abs() < tol, "smallest eigenvalue {lo} / {lo2}, expected {e:?}");
                ensure!((hi - e[$d - 1]).abs() < tol, "largest eigenvalue {hi}, expected {e:?}");
            }
            let amin = e.iter().fold(f64::INFINITY, |s, x| s.min(x.abs()));
            let amax = e.iter().fold(0.0f64, |s, x| s.max(x.abs()));
            if amin < 1e-6 * amax || amax == 0.0 {
                return Ok(None);
            }
            for c in [condition_number_symmetric(&a), condition_number_symmetric(&dynamic)] {
                ensure!((c - amax / amin).abs() < 1e-8 * c, "condition number {c}, expected {} for eigenvalues {e:?}", amax / amin);
            }
            Ok(Some(digest(&format!("{a}"))))
        }
    };
}
eig_case!(eig1, 1);
eig_case!(eig2, 2);
eig_case!(eig3, 3);

/// The rotations of the cube, and those halfway between the identity and them.
fn rotations() -> Vec<UnitQuaternion<f64>> {
    let mut out: Vec<UnitQuaternion<f64>> = vec![];
    for i in 0..81u64 {
        let mut d = Dig(i);
        let v = Vector4::from_fn(|_, _| [0.0, 1.0, -1.0][d.next(3)]);
        if v == Vector4::zeros() {
            continue;
        }
        let q = UnitQuaternion::from_quaternion(Quaternion::from_vector(Vector4::new(v[0], v[1], v[2], v[3])));
        if out.iter().all(|p| p.angle_to(&q) > 1e-6) {
            out.push(q);
        }
    }
    out
}

fn main() {
    let ctx = Ctx::new(
        "C23",
        Level::Exploration,
        "each helper's result has the defining property of what it computes, or equals a direct loop",
    );
    let vals: Vec<f64> = ctx.tier(vec![0.0, 1.0, -1.0], vec![0.0, 1.0, -1.0, 2.0]);
    let v2 = [0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 1e-3];
    for (k, scale) in [1.0, 1e6, 1e-6, 1e-12, 1e12, 1e-60].into_iter().enumerate() {
        let v = vals.clone();
        let w = vals.clone();
        if k % 2 == 0 || ctx.thorough {
            ctx.suite(&format!("rotation SVD in 3D, scale {scale:e}"), pow(v.len() as u64, 9), move |i| format!("{}", lattice::<3>(i, &w) * scale), move |i| svd3(lattice::<3>(i, &v) * scale));
        }
        ctx.suite(&format!("rotation SVD in 2D, scale {scale:e}"), pow(7, 4), move |i| format!("{}", lattice::<2>(i, &v2) * scale), move |i| svd2(lattice::<2>(i, &v2) * scale));
        ctx.suite(&format!("rotation SVD in 1D, scale {scale:e}"), 7, move |i| format!("{}", v2[i as usize]), move |i| svd1(lattice::<1>(i, &v2) * scale));
    }
    // general (non-integer) matrices with prescribed singular values
    let rots = rotations();
    let nr = rots.len() as u64;
    let sing = [0.0, 0.5, 1.0, -1.0, 3.0];
    let gen = |i: u64| {
        let mut d = Dig(i);
        let u = d.pick(&rots).to_rotation_matrix();
        let v = d.pick(&rots).to_rotation_matrix();
        let s = Matrix3::from_diagonal(&Vector3::from_fn(|_, _| *d.pick(&sing)));
        u.matrix() * s * v.matrix()
    };
    ctx.suite("rotation SVD of rotated diagonal matrices", nr * nr * 125, |i| format!("{}", gen(i)), |i| svd3(gen(i)));
    let e3 = [0.0, 1.0, -1.0, 2.0, -3.0];
    let units = [1.0, 1099511627776.0, 1.0 / 1099511627776.0, 1e-60];
    ctx.suite("eigenvalues and condition numbers, 3x3", pow(5, 6) * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let unit = *d.pick(&units);
        let mut m = Matrix3::zeros();
        for a in 0..3 {
            for b in a..3 {
                m[(a, b)] = *d.pick(&e3);
            }
        }
        eig3(m * unit)
    });
    ctx.suite("eigenvalues and condition numbers, 2x2 and 1x1", pow(5, 3) * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let m = Matrix2::new(*d.pick(&e3), *d.pick(&e3), 0.0, *d.pick(&e3)) * *d.pick(&units);
        eig1(Matrix1::new(m[(0, 0)]))?;
        eig2(m)
    });
    // polar decomposition
    let stretch: Vec<f64> = vec![0.25, 1.0, 2.0, 4.0];
    let shear = [0.0, 1.0, -0.5];
    let per = pow(4, 3) * pow(3, 3);
    let guess_angles: Vec<f64> = ctx.tier(vec![0.0, 0.1, 0.4], vec![0.0, 0.05, 0.1, 0.2, 0.3, 0.4]);
    let axes = [Vector3::x(), Vector3::y(), Vector3::z(), Vector3::new(1.0, 1.0, 1.0), Vector3::new(-1.0, 2.0, 0.5)];
    let ng = (guess_angles.len() * axes.len()) as u64;
    let dec = |i: u64| {
        let mut d = Dig(i);
        let r = *d.pick(&rots);
        let a = *d.pick(&guess_angles);
        let ax = Unit::new_normalize(*d.pick(&axes));
        let s: [f64; 3] = std::array::from_fn(|_| *d.pick(&stretch));
        let h: [f64; 3] = std::array::from_fn(|_| *d.pick(&shear));
        // upper triangular with positive diagonal, rotated: every orientation preserving matrix is of this form
        let f = r.to_rotation_matrix().matrix() * Matrix3::new(s[0], h[0], h[1], 0.0, s[1], h[2], 0.0, 0.0, s[2]);
        // in any unit
        (f * units[(i % 4) as usize], a, ax)
    };
    ctx.suite(
        "polar decomposition",
        nr * ng * per,
        |i| {
            let (f, a, ax) = dec(i);
            format!("F = {f} guess off by {a} about {}", ax.into_inner().transpose())
        },
        |i| {
            let (f, a, ax) = dec(i);
            // the rotation of the polar decomposition by Newton's iteration X <- (X + X^-T)/2
            let mut x = f / f.norm();
            for _ in 0..60 {
                let inv = x.try_inverse().ok_or("singular")?;
                x = (x + inv.transpose()) * 0.5;
            }
            let exact = UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(x));
            let guess = exact * UnitQuaternion::from_axis_angle(&ax, a);
            let q = apd(&f, &guess, 60, 1e-10);
            ensure!((q.as_ref().norm() - 1.0).abs() < 1e-9, "not a unit quaternion: {q}");
            let r = *q.to_rotation_matrix().matrix();
            ensure!((r - x).norm() < 1e-6, "rotation {r}, expected {x}");
            let s = r.transpose() * f;
            ensure!((s - s.transpose()).norm() < 1e-6 * f.norm().max(1e-300), "R^T F is not symmetric");
            ensure_eq!(apd(&f, &guess, 0, 1e-10), guess, "no iterations were allowed");
            Ok(if a == 0.0 { None } else { Some(digest(&format!("{f}{a}{ax:?}"))) })
        },
    );
    // orthonormal frames
    let c = ctx.tier(3i64, 6);
    let side = (2 * c + 1) as u64;
    ctx.suite("orthonormal frames", side * side * side * 4, |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let mut p = || d.next(side) as i64 - c;
        let v = Vector3::new(p() as f64, p() as f64, p() as f64);
        let z = [1.0, 1e-8, 1e-160, -0.0][d.next(4)];
        let v = Vector3::new(v.x, v.y, v.z * z);
        if v.norm() == 0.0 {
            return Ok(None);
        }
        let n = UnitVector3::new_normalize(v);
        let [a, b] = compute_orthonormal_vectors_3d(&n);
        for (x, y, w) in [(a, a, 1.0), (b, b, 1.0), (a, b, 0.0), (a, n, 0.0), (b, n, 0.0)] {
            ensure!((x.dot(&y) - w).abs() < 1e-12, "frame of {}: {} and {}", n.transpose(), a.transpose(), b.transpose());
        }
        Ok(Some(digest(&format!("{n:?}"))))
    });
    // equality up to a cyclic shift
    let mut all: Vec<Vec<usize>> = vec![];
    for (letters, lens) in [(2, 0..8u32), (3, 1..5)] {
        for len in lens {
            for j in 0..pow(letters, len) {
                let mut d = Dig(j);
                all.push((0..len).map(|_| d.next(letters)).collect());
            }
        }
    }
    let n = all.len();
    ctx.suite("equality up to a shift", (n * n) as u64, |i| format!("{:?} and {:?}", all[i as usize % n], all[i as usize / n]), |i| {
        let (x, y) = (&all[i as usize % n], &all[i as usize / n]);
        let want = x.len() == y.len()
            && (x.is_empty() || (0..x.len()).any(|s| { let mut z = x.clone(); z.rotate_left(s); z == *y }));
        ensure_eq!(slices_are_equal_shift_invariant(x, y, |a, b| a == b), want, "{x:?} and {y:?}");
        Ok(Some(digest(&(x, y))))
    });
    // small dense products
    ctx.suite("diagonal scaling and cross product matrices", pow(5, 6), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let mut p = || [0.0, 1.0, -1.0, 2.0, -0.5][d.next(5)];
        let (x, y) = (Vector3::new(p(), p(), p()), Vector3::new(p(), p(), p()));
        let w = Vector3::new(x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]);
        ensure_eq!(cross_product_matrix(&x) * y, w, "cross product of {x} and {y}");
        let m = Matrix3x2::new(y[0], y[1], y[2], x[0], x[1], x[2]);
        ensure_eq!(diag_left_mul(&x, &m), Matrix3x2::from_fn(|r, c| x[r] * m[(r, c)]), "diagonal product");
        Ok(Some(digest(&format!("{x}{y}"))))
    });
    // gathering and interpolating
    fn interp<const S: usize, const D: usize>(nodes: &[usize], n: usize) -> Verdict
    where
        Const<S>: fenris::SmallDim + DimName,
        Const<D>: fenris::SmallDim + DimName,
        DefaultAllocator: fenris::allocators::BiDimAllocator<f64, Const<D>, Const<S>>
            + fenris::allocators::DimAllocator<f64, Const<S>>
            + allocator::Allocator<f64, Const<S>, Buffer = ArrayStorage<f64, S, 1>>
            + allocator::Allocator<f64, Const<D>, Buffer = ArrayStorage<f64, D, 1>>
            + allocator::Allocator<f64, Const<D>, Const<S>, Buffer = ArrayStorage<f64, D, S>>,
    {
        let u = DVector::from_fn(S * n, |i, _| ((i * i + 3) % 11) as f64 - 4.0);
        let mut want = vec![];
        for &k in nodes {
            for s in 0..S {
                want.push(u[S * k + s]);
            }
        }
        let g = extract_by_node_index::<f64, Const<S>>(u.as_slice(), nodes);
        ensure_eq!(g.as_slice(), &want[..], "extract_by_node_index");
        let mut local = DVector::from_element(S * nodes.len(), f64::NAN);
        gather_global_to_local(&u, &mut local, nodes, S);
        ensure_eq!(local.as_slice(), &want[..], "gather_global_to_local");
        let m = nodes.len();
        let basis = DVector::from_fn(m, |i, _| (i as f64 + 1.0) * 0.5);
        let grads = DVector::from_fn(D * m, |i, _| ((i * 7 + 1) % 5) as f64 - 2.0);
        let v = compute_interpolation::<f64, Const<S>>(&local, &basis);
        let dv = compute_interpolation_gradient::<f64, Const<S>, Const<D>>(&local, &grads);
        for s in 0..S {
            let w: f64 = (0..m).map(|i| local[S * i + s] * basis[i]).sum();
            ensure_eq!(v[s], w, "interpolated component {s}");
            for d in 0..D {
                let w: f64 = (0..m).map(|i| local[S * i + s] * grads[D * i + d]).sum();
                ensure_eq!(dv[(d, s)], w, "gradient entry {d}, {s}");
            }
        }
        let pts: Vec<Point<f64, D>> = nodes.iter().map(|k| Point::from(SVector::from_fn(|d, _| (k * D + d) as f64))).collect();
        let f = global_vector_from_point_fn(&pts, |p: &Point<f64, D>| SVector::<f64, S>::from_fn(|s, _| p[D - 1] * 10.0 + s as f64));
        let w: Vec<f64> = pts.iter().flat_map(|p| (0..S).map(move |s| p[D - 1] * 10.0 + s as f64)).collect();
        ensure_eq!(f.as_slice(), &w[..], "global vector");
        Ok(Some(digest(&(nodes, S, D))))
    }
    let lists: Vec<Vec<usize>> = (0..5u32)
        .flat_map(|len| (0..pow(5, len)).map(move |j| { let mut d = Dig(j); (0..len).map(|_| d.next(5)).collect() }))
        .collect();
    ctx.suite_over("gathering and interpolation", &lists, |l| format!("{l:?}"), |l| {
        interp::<1, 1>(l, 5)?;
        interp::<1, 3>(l, 5)?;
        interp::<2, 1>(l, 5)?;
        interp::<2, 2>(l, 5)?;
        interp::<2, 3>(l, 5)?;
        interp::<3, 2>(l, 5)?;
        interp::<3, 3>(l, 5)
    });
    // more nodes than fit one byte, or two
    let large = [(300, 40), (70_000, 40), (300, 300), (70_000, 300), (3, 300), (70_000, 66_000)];
    ctx.suite_over("gathering and interpolation, large", &large, |l| format!("{l:?}"), |(n, k)| {
        let l: Vec<usize> = (0..*k).map(|i| (n - 1 + i * 257 - i / 7) % n).collect();
        interp::<1, 1>(&l, *n)?;
        interp::<1, 3>(&l, *n)?;
        interp::<2, 2>(&l, *n)?;
        interp::<2, 3>(&l, *n)?;
        interp::<3, 3>(&l, *n)
    });
    // matrix files
    let dir = std::env::temp_dir().join(format!("mc-c23-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let numbers = [0.0, 1.0, -1.5, 1.0 / 3.0, 1e300, -4e-310, 123456789.123];
    let parse_mm = |path: &std::path::Path| -> Result<(usize, usize, Vec<(usize, usize, f64)>), String> {
        let s = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let mut l = s.lines();
        ensure_eq!(l.next(), Some("%%MatrixMarket matrix coordinate real general"), "header");
        let head: Vec<usize> = l.next().ok_or("no sizes")?.split(' ').map(|x| x.parse().unwrap()).collect();
        ensure_eq!(head.len(), 3, "sizes");
        let mut t = vec![];
        for line in l {
            let w: Vec<&str> = line.split(' ').collect();
            ensure_eq!(w.len(), 3, "line {line}");
            let p = |x: &str| x.parse::<usize>().map_err(|e| e.to_string());
            let (i, j) = (p(w[0])?, p(w[1])?);
            ensure!(i >= 1 && i <= head[0] && j >= 1 && j <= head[1], "index out of range in {line}");
            t.push((i - 1, j - 1, w[2].parse().map_err(|_| format!("number {}", w[2]))?));
        }
        ensure_eq!(t.len(), head[2], "number of entries");
        t.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
        Ok((head[0], head[1], t))
    };
    let mut shapes: Vec<(usize, usize)> = (0..4).flat_map(|r| (0..4).map(move |c| (r, c))).collect();
    shapes.extend([(300, 2), (2, 300), (1, 17), (17, 17)]);
    ctx.suite("matrix files", 20 * 49, |i| format!("{:?} {}", shapes[i as usize % 20], i / 20), |i| {
        let (r, c) = shapes[i as usize % 20];
        let k = i as usize / 20;
        let m = DMatrix::from_fn(r, c, |a, b| numbers[(a * 3 + b + k) % 7] * if (a + b + k / 7) % 3 == 0 { 1.0 } else { -2.0 });
        let path = dir.join(format!("dense{i}"));
        dump_matrix_to_file(&path, &m).map_err(|e| e.to_string())?;
        let s = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
        let rows: Vec<Vec<f64>> = s.lines().map(|l| l.split(' ').filter(|w| !w.is_empty()).map(|w| w.parse().unwrap()).collect()).collect();
        let want: Vec<Vec<f64>> = (0..r).map(|a| (0..c).map(|b| m[(a, b)]).collect()).collect();
        ensure_eq!(rows, want, "dense matrix file");
        let mut coo = CooMatrix::new(r, c);
        let mut t = vec![];
        for a in 0..r {
            for b in 0..c {
                if (a * c + b + k) % 3 != 0 {
                    coo.push(a, b, m[(a, b)]);
                    t.push((a, b, m[(a, b)]));
                }
            }
        }
        dump_csr_matrix_to_mm_file(&path, &CsrMatrix::from(&coo)).map_err(|e| e.to_string())?;
        ensure_eq!(parse_mm(&path)?, (r, c, t.clone()), "sparse matrix file");
        let _ = std::fs::remove_file(&path);
        Ok(if t.is_empty() { None } else { Some(digest(&(r, c, k))) })
    });
    let large = [(1200usize, 2usize), (2, 1200), (70_001, 1), (1, 70_001)];
    ctx.suite("large matrix files", 4, |i| format!("{:?}", large[i as usize]), |i| {
        let (r, c) = large[i as usize];
        let m = DMatrix::from_fn(r, c, |a, b| numbers[(a * 3 + b) % 7] + (a + b) as f64);
        let path = dir.join(format!("large{i}"));
        dump_matrix_to_file(&path, &m).map_err(|e| e.to_string())?;
        let s = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
        let rows: Vec<Vec<f64>> = s.lines().map(|l| l.split(' ').filter(|w| !w.is_empty()).map(|w| w.parse().unwrap()).collect()).collect();
        ensure!(rows == (0..r).map(|a| (0..c).map(|b| m[(a, b)]).collect::<Vec<f64>>()).collect::<Vec<_>>(), "dense matrix file");
        let mut coo = CooMatrix::new(r, c);
        let mut t = vec![];
        for (a, b) in (0..r).flat_map(|a| (0..c).map(move |b| (a, b))).filter(|(a, b)| (a + b) % 3 != 1) {
            coo.push(a, b, m[(a, b)]);
            t.push((a, b, m[(a, b)]));
        }
        dump_csr_matrix_to_mm_file(&path, &CsrMatrix::from(&coo)).map_err(|e| e.to_string())?;
        ensure!(parse_mm(&path)? == (r, c, t), "sparse matrix file");
        let _ = std::fs::remove_file(&path);
        Ok(Some(i))
    });
    // connectivity matrices of all meshes of two triangles over four nodes (and of other cells)
    let tris: Vec<[usize; 3]> = (0..64usize).map(|i| [i % 4, i / 4 % 4, i / 16]).filter(|t| t[0] != t[1] && t[1] != t[2] && t[0] != t[2]).collect();
    ctx.suite("connectivity matrix files", (tris.len() * tris.len() * 3) as u64, |i| format!("{i}"), |i| {
        let n = tris.len();
        let i = i as usize;
        let cells: Vec<[usize; 3]> = [tris[i % n], tris[i / n % n]][..(i / n / n).min(2)].to_vec();
        let verts = vec![Point2::new(0.0, 0.0); 5];
        let (a, b) = (dir.join(format!("node{i}")), dir.join(format!("elem{i}")));
        let mesh: Mesh<f64, U2, Tri3d2Connectivity> = Mesh::from_vertices_and_connectivity(verts, cells.iter().map(|c| Tri3d2Connectivity(*c)).collect());
        dump_mesh_connectivity_matrices(&a, &b, &mesh).map_err(|e| e.to_string())?;
        let mut nodes = vec![];
        let mut elems = vec![];
        for p in 0..5 {
            for q in 0..5 {
                if cells.iter().any(|c| c.contains(&p) && c.contains(&q)) {
                    nodes.push((p, q, 1.0));
                }
            }
        }
        for (e, c) in cells.iter().enumerate() {
            for q in 0..5 {
                if c.contains(&q) {
                    elems.push((e, q, 1.0));
                }
            }
        }
        ensure_eq!(parse_mm(&a)?, (5, 5, nodes), "node matrix");
        ensure_eq!(parse_mm(&b)?, (cells.len(), 5, elems), "element matrix");
        let _ = std::fs::remove_file(&a);
        let _ = std::fs::remove_file(&b);
        Ok(if cells.is_empty() { None } else { Some(digest(&cells)) })
    });
    let _ = std::fs::remove_dir_all(&dir);
    // reinterpretation of slices and references
    ctx.suite("reinterpreting slices", 8, |i| format!("{i}"), |i| {
        let x: Vec<f64> = (0..i).map(|k| k as f64).collect();
        ensure_eq!(try_transmute_slice::<f64, f64>(&x), Some(&x[..]), "same type");
        ensure_eq!(try_transmute_slice::<f64, u64>(&x), None, "another type");
        ensure_eq!(try_transmute_ref::<_, Vec<f64>>(&x), Some(&x), "same type");
        ensure!(try_transmute_ref::<_, Vec<u64>>(&x).is_none(), "another type");
        let mut y = x.clone();
        ensure!(try_transmute_ref_mut::<_, Vec<u64>>(&mut y).is_none(), "another type");
        try_transmute_ref_mut::<_, Vec<f64>>(&mut y).ok_or("same type")?.push(1.0);
        ensure_eq!(y.len(), x.len() + 1, "write through the reference");
        let (r, c) = (1 + i as usize % 3, 1 + i as usize / 3);
        let mut m = DMatrix::from_fn(r, c, |a, b| (10 * a + b) as f64);
        let copy = m.clone();
        ensure_eq!(coerce_col_major_slice(&m, Dyn(r), Dyn(c)).clone_owned(), copy, "view");
        coerce_col_major_slice_mut(&mut m, Dyn(r), Dyn(c))[(r - 1, c - 1)] = 77.0;
        ensure_eq!(m[(r - 1, c - 1)], 77.0, "write through the view");
        // views that are not contiguous, and wrong shapes, are refused
        ensure!(no_panic(|| coerce_col_major_slice(&m, Dyn(r + 1), Dyn(c)).len()).is_err(), "wrong shape accepted");
        ensure!(no_panic(|| coerce_col_major_slice(&m, Dyn(r), Dyn(c + 1)).len()).is_err(), "wrong shape accepted");
        if r > 1 {
            ensure!(no_panic(|| coerce_col_major_slice(&m.rows(0, r - 1), Dyn(r - 1), Dyn(c)).len()).is_err(), "a view with gaps was accepted");
            ensure!(no_panic(|| coerce_col_major_slice_mut(&mut m.rows_mut(0, r - 1), Dyn(r - 1), Dyn(c)).len()).is_err(), "a view with gaps was accepted");
        }
        Ok(Some(i))
    });
    ctx.finish()
}
