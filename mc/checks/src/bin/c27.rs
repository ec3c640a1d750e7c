//! C27: hyperelastic materials are consistent derivatives of their energies.
use fenris::allocators::DimAllocator;
use fenris::assembly::local::{Density, SourceFunction};
use fenris::assembly::operators::{EllipticContraction, EllipticEnergy, EllipticOperator};
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorView, DefaultAllocator, OMatrix, OPoint, OVector, U1, U2, U3};
use fenris::Symmetry;
use fenris_solid::materials::*;
use fenris_solid::*;
use hk::num::Q;
use hk::*;
use std::ops::{Add, Mul, Neg, Sub};

/// A number with two infinitesimals: value, d/ds, d/dt, d2/dsdt (exact first and mixed second derivatives).
#[derive(Clone, Copy, Debug)]
struct Hd(f64, f64, f64, f64);
impl Hd {
    fn c(x: f64) -> Hd {
        Hd(x, 0.0, 0.0, 0.0)
    }
    fn ln(self) -> Hd {
        let i = 1.0 / self.0;
        Hd(self.0.ln(), self.1 * i, self.2 * i, self.3 * i - self.1 * self.2 * i * i)
    }
}
impl Add for Hd {
    type Output = Hd;
    fn add(self, o: Hd) -> Hd {
        Hd(self.0 + o.0, self.1 + o.1, self.2 + o.2, self.3 + o.3)
    }
}
impl Sub for Hd {
    type Output = Hd;
    fn sub(self, o: Hd) -> Hd {
        self + -o
    }
}
impl Neg for Hd {
    type Output = Hd;
    fn neg(self) -> Hd {
        Hd(-self.0, -self.1, -self.2, -self.3)
    }
}
impl Mul for Hd {
    type Output = Hd;
    fn mul(self, o: Hd) -> Hd {
        Hd(self.0 * o.0, self.0 * o.1 + self.1 * o.0, self.0 * o.2 + self.2 * o.0, self.0 * o.3 + self.1 * o.2 + self.2 * o.1 + self.3 * o.0)
    }
}

type M = Vec<Vec<f64>>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mat {
    Linear,
    Neo,
    Stvk,
}
const MATS: [Mat; 3] = [Mat::Linear, Mat::Neo, Mat::Stvk];

fn det<T: Copy + Mul<Output = T> + Sub<Output = T> + Add<Output = T>>(f: &[Vec<T>]) -> T {
    match f.len() {
        1 => f[0][0],
        2 => f[0][0] * f[1][1] - f[0][1] * f[1][0],
        _ => {
            let m = |i: usize, j: usize, k: usize, l: usize| f[1][i] * f[2][j] - f[1][k] * f[2][l];
            f[0][0] * m(1, 2, 2, 1) - f[0][1] * m(0, 2, 2, 0) + f[0][2] * m(0, 1, 1, 0)
        }
    }
}
/// The documented energy densities. `None`: the energy is not finite (J <= 0).
fn energy(mat: Mat, f: &[Vec<Hd>], mu: f64, la: f64) -> Option<Hd> {
    let d = f.len();
    let (mu, half_la) = (Hd::c(mu), Hd::c(0.5 * la));
    let delta = |i: usize, j: usize| Hd::c(if i == j { 1.0 } else { 0.0 });
    let h = Hd::c(0.5);
    let ftf = |i: usize, j: usize| (0..d).fold(Hd::c(0.0), |a, k| a + f[k][i] * f[k][j]);
    let strain = |i: usize, j: usize| match mat {
        Mat::Linear => h * (f[i][j] + f[j][i]) - delta(i, j),
        _ => h * (ftf(i, j) - delta(i, j)),
    };
    let (mut sq, mut tr) = (Hd::c(0.0), Hd::c(0.0));
    for i in 0..d {
        tr = tr + strain(i, i);
        for j in 0..d {
            sq = sq + strain(i, j) * strain(i, j);
        }
    }
    if mat == Mat::Neo {
        let j = det(f);
        if j.0 <= 0.0 {
            return None;
        }
        // I_C - d = 2 tr E
        return Some(mu * tr - mu * j.ln() + half_la * j.ln() * j.ln());
    }
    Some(mu * sq + half_la * tr * tr)
}
/// (psi, P, dP/dF) with dP[i][k][j][m] = d P_ik / d F_jm
#[allow(clippy::type_complexity)]
fn derivatives(mat: Mat, f: &M, mu: f64, la: f64) -> Option<(f64, M, Vec<Vec<Vec<Vec<f64>>>>)> {
    let d = f.len();
    let mut psi = 0.0;
    let mut p = vec![vec![0.0; d]; d];
    let mut c = vec![vec![vec![vec![0.0; d]; d]; d]; d];
    for i in 0..d {
        for k in 0..d {
            for j in 0..d {
                for m in 0..d {
                    let mut hf: Vec<Vec<Hd>> = f.iter().map(|r| r.iter().map(|x| Hd::c(*x)).collect()).collect();
                    hf[i][k].1 += 1.0;
                    hf[j][m].2 += 1.0;
                    let e = energy(mat, &hf, mu, la)?;
                    psi = e.0;
                    p[i][k] = e.1;
                    c[i][k][j][m] = e.3;
                }
            }
        }
    }
    Some((psi, p, c))
}
fn norm2(f: &M) -> f64 {
    f.iter().flatten().map(|x| x * x).sum()
}
fn inv_norm2(f: &M) -> f64 {
    let d = f.len();
    let j = det(f);
    // |F^-1| <= |F|^(d-1) / |J|
    (norm2(f).powi(d as i32 - 1) / (j * j)).max(1.0)
}

/// Direction vectors: the axes, and two mixed ones.
fn directions(d: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = (0..d).map(|i| (0..d).map(|j| (i == j) as u8 as f64).collect()).collect();
    v.push((0..d).map(|j| 1.0 - 0.75 * j as f64).collect());
    v.push((0..d).map(|j| -0.5 + j as f64 * j as f64).collect());
    v
}
/// The last two are the third in another unit.
const LAME: [(f64, f64); 7] = [(1.0, 0.0), (0.0, 1.0), (2.5, 3.0), (0.5, -0.25), (4096.0, 0.5), (2.5 * 1099511627776.0, 3.0 * 1099511627776.0), (2.5 / 1099511627776.0, 3.0 / 1099511627776.0)];

/// Only the required methods: everything else is the default implementation of the trait.
struct Plain(Mat);
macro_rules! dispatch {
    ($mat:expr, $m:ident, $body:expr) => {
        match $mat {
            Mat::Linear => {
                let $m = LinearElasticMaterial;
                $body
            }
            Mat::Neo => {
                let $m = NeoHookeanMaterial;
                $body
            }
            Mat::Stvk => {
                let $m = StVKMaterial;
                $body
            }
        }
    };
}
impl<D: PhysicalDim> HyperelasticMaterial<f64, D> for Plain
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    type Parameters = LameParameters<f64>;
    fn compute_energy_density(&self, f: &OMatrix<f64, D, D>, p: &Self::Parameters) -> f64 {
        dispatch!(self.0, m, m.compute_energy_density(f, p))
    }
    fn compute_stress_tensor(&self, f: &OMatrix<f64, D, D>, p: &Self::Parameters) -> OMatrix<f64, D, D> {
        dispatch!(self.0, m, m.compute_stress_tensor(f, p))
    }
    fn compute_stress_contraction(&self, f: &OMatrix<f64, D, D>, a: &OVector<f64, D>, b: &OVector<f64, D>, p: &Self::Parameters) -> OMatrix<f64, D, D> {
        dispatch!(self.0, m, m.compute_stress_contraction(f, a, b, p))
    }
}

fn close(got: f64, want: f64, tol: f64, what: &str) -> Result<(), String> {
    ensure!((got - want).abs() <= tol, "{what}: {got}, expected {want} (tolerance {tol:e})");
    Ok(())
}

fn state<D: PhysicalDim>(mat: Mat, f: &M, lame: (f64, f64)) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let d = D::dim();
    let (mu, la) = lame;
    let par = LameParameters { mu, lambda: la };
    let ff = OMatrix::<f64, D, D>::from_fn(|i, j| f[i][j]);
    // entries are dyadic, so neither conversion rounds
    let ug = OMatrix::<f64, D, D>::from_fn(|i, j| f[j][i] - if i == j { 1.0 } else { 0.0 });
    ensure_eq!(deformation_gradient(&ug), ff, "deformation_gradient");
    ensure_eq!(u_grad_from_F(&ff), ug, "u_grad_from_F");

    let j = det(f);
    let want = derivatives(mat, f, mu, la);
    let n2 = norm2(f);
    let lj = if j > 0.0 { j.ln().abs() } else { 0.0 };
    let tol = 1e-12 * (mu.abs() + la.abs()) * match mat {
        Mat::Neo => (1.0 + lj) * (1.0 + lj) * (1.0 + if want.is_some() { inv_norm2(f) } else { 0.0 } + n2),
        _ => 4.0 * (1.0 + n2) * (1.0 + n2),
    };
    let dirs = directions(d);
    let vs: Vec<OVector<f64, D>> = dirs.iter().map(|v| OVector::<f64, D>::from_fn(|i, _| v[i])).collect();
    // the contraction of the directions ia, ib, at (r, c)
    let contraction = |ia: usize, ib: usize, r: usize, c: usize| -> Option<f64> {
        let w = want.as_ref()?;
        Some((0..d).flat_map(|k| (0..d).map(move |m| (k, m))).map(|(k, m)| dirs[ia][k] * w.2[r][k][c][m] * dirs[ib][m]).sum())
    };

    // energy
    macro_rules! with {
        ($m:ident, $body:expr) => {{
            dispatch!(mat, $m, $body);
            let $m = Plain(mat);
            $body
        }};
    }
    let mut out: Vec<u64> = vec![];
    with!(m, {
        let op = MaterialEllipticOperator::new(&m);
        ensure!(EllipticContraction::<f64, D>::symmetry(&op) == Symmetry::Symmetric, "a material operator is symmetric");
        for (what, e) in [
            ("energy", m.compute_energy_density(&ff, &par)),
            ("energy from the displacement gradient", m.compute_energy_density_du(&ug, &par)),
            ("energy of the operator", op.compute_energy(&ug, &par)),
        ] {
            match &want {
                Some(w) => close(e, w.0, tol, what)?,
                None => ensure!(e == f64::INFINITY, "{what} of an inverted state: {e}, expected infinity"),
            }
            out.push((e * 64.0) as i64 as u64);
        }
        // stress
        let g = op.compute_elliptic_operator(&ug, &par);
        for (what, p) in [
            ("stress", m.compute_stress_tensor(&ff, &par)),
            ("stress from the displacement gradient", m.compute_stress_tensor_du(&ug, &par)),
            ("transposed operator", op.compute_elliptic_operator_transpose(&ug, &par)),
            ("operator", g.transpose()),
        ] {
            for r in 0..d {
                for c in 0..d {
                    match &want {
                        Some(w) => close(p[(r, c)], w.1[r][c], tol, &format!("{what} at ({r}, {c})"))?,
                        None => ensure!(p[(r, c)].is_nan(), "{what} of an inverted state has an entry {}", p[(r, c)]),
                    }
                }
            }
        }
        // single contractions
        for (ia, a) in vs.iter().enumerate() {
            for (ib, b) in vs.iter().enumerate() {
                for (what, x) in [
                    ("contraction", m.compute_stress_contraction(&ff, a, b, &par)),
                    ("contraction from the displacement gradient", m.compute_stress_contraction_du(&ug, a, b, &par)),
                    ("contraction of the operator", op.contract(&ug, a, b, &par)),
                ] {
                    for r in 0..d {
                        for c in 0..d {
                            match contraction(ia, ib, r, c) {
                                Some(w) => close(x[(r, c)], w, 16.0 * tol, &format!("{what} of {a:?}, {b:?} at ({r}, {c})"))?,
                                None => ensure!(x[(r, c)].is_nan(), "{what} of an inverted state has an entry {}", x[(r, c)]),
                            }
                        }
                    }
                }
            }
        }
        // batched contractions: every number of vectors on either side, every way to get there
        for na in 0..=vs.len() {
            for nb in 0..=vs.len() {
                // the trait documents a panic for different lengths; the implementations accept them
                if na != nb && na + nb > 4 {
                    continue;
                }
                let stack = |n: usize| DVector::from_iterator(d * n, dirs[dirs.len() - n..].iter().flatten().copied());
                let (a, b) = (stack(na), stack(nb));
                for (way, alpha) in [(0, 1.0), (0, -0.5), (1, 2.0), (2, 0.25), (2, 0.0)] {
                    // a view into a larger matrix
                    let pre = |r: usize, c: usize| 0.25 * r as f64 - c as f64;
                    let mut big = DMatrix::from_fn(d * na + 2, d * nb + 1, pre);
                    {
                        let o: DMatrixViewMut<f64> = big.view_mut((1, 1), (d * na, d * nb));
                        let (a, b): (DVectorView<f64>, DVectorView<f64>) = ((&a).into(), (&b).into());
                        match way {
                            0 => m.accumulate_stress_contractions_into(o, alpha, &ff, a, b, &par),
                            1 => m.accumulate_stress_contractions_du_into(o, alpha, &ug, a, b, &par),
                            _ => op.accumulate_contractions_into(o, alpha, &ug, a, b, &par),
                        }
                    }
                    for r in 0..big.nrows() {
                        for c in 0..big.ncols() {
                            let got = big[(r, c)];
                            let inside = r >= 1 && r <= d * na && c >= 1;
                            if !inside {
                                ensure!(got == pre(r, c), "batched contraction wrote outside of its output, at ({r}, {c})");
                                continue;
                            }
                            let (bi, bj) = ((r - 1) / d, (c - 1) / d);
                            if bi > bj {
                                // below the diagonal: unspecified
                                continue;
                            }
                            let k = dirs.len();
                            match contraction(k - na + bi, k - nb + bj, (r - 1) % d, (c - 1) % d) {
                                Some(w) => close(
                                    got,
                                    pre(r, c) + alpha * w,
                                    32.0 * tol + 1e-13 * (1.0 + pre(r, c).abs()),
                                    &format!("batched contraction {bi}, {bj} of {na} by {nb} vectors (way {way}, alpha {alpha})"),
                                )?,
                                None => ensure!(got.is_nan(), "batched contraction of an inverted state has an entry {got}"),
                            }
                        }
                    }
                }
            }
        }
    });
    // log det
    let mut q: Vec<Vec<Q>> = vec![];
    for r in 0..d {
        q.push((0..d).map(|c| Q::of(f[r][c])).collect());
    }
    ensure_eq!(log_det_F(&ug.transpose()).is_some(), j > 0.0, "log_det_F exists");
    if let Some(l) = log_det_F(&ug.transpose()) {
        close(l, j.ln(), 1e-13 * (1.0 + lj) * (1.0 + inv_norm2(f)), "log_det_F")?;
    }
    Ok(Some(digest(&(mat as u8, d, out))))
}

/// F from lattice indices
fn lattice(case: u64, d: usize, values: &[f64]) -> M {
    let mut g = Dig(case);
    (0..d)
        .map(|i| (0..d).map(|j| if i == j { 1.0 } else { 0.0 } + g.pick(values)).collect())
        .collect()
}

/// log det of I + eps U against the series of the exact determinant.
fn logdet_small<D: PhysicalDim>(u: &M, eps: f64) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let d = D::dim();
    let m = OMatrix::<f64, D, D>::from_fn(|i, j| eps * u[i][j]);
    // gamma = eps tr + eps^2 (sum of principal minors) + eps^3 det, in exact arithmetic of small integers
    let tr: f64 = (0..d).map(|i| u[i][i]).sum();
    let mut minors = 0.0;
    for i in 0..d {
        for j in 0..i {
            minors += u[i][i] * u[j][j] - u[i][j] * u[j][i];
        }
    }
    let gamma = eps * (tr + eps * (minors + if d == 3 { eps * det(u) } else { 0.0 }));
    let got = log_det_F(&m).ok_or("log_det_F of a tiny displacement is None")?;
    let abs: f64 = u.iter().flatten().map(|x| x.abs()).sum::<f64>();
    // rounding errors are relative to the sum of the terms, not to 1
    let tol = 1e-14 * eps * abs * (1.0 + eps * abs) * (1.0 + eps * abs) * 4.0;
    close(got, gamma.ln_1p(), tol, "log_det_F of a tiny displacement")?;
    // the Neo-Hookean energy from the displacement gradient keeps that accuracy
    for (mu, la) in LAME {
        let par = LameParameters { mu, lambda: la };
        let sq: f64 = u.iter().flatten().map(|x| x * x).sum();
        let l = gamma.ln_1p();
        let want = mu * (eps * tr + 0.5 * eps * eps * sq) - mu * l + 0.5 * la * l * l;
        let e = NeoHookeanMaterial.compute_energy_density_du(&m.transpose(), &par);
        close(e, want, (mu.abs() + la.abs()) * tol * 4.0, "energy at a tiny displacement")?;
    }
    Ok(Some(digest(&(d, got.to_bits()))))
}

/// Rotations with rational entries: exactly orthogonal up to one rounding per entry.
fn rotations(d: usize) -> Vec<M> {
    let cs = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0), (0.6, 0.8), (0.8, -0.6), (-5.0 / 13.0, 12.0 / 13.0)];
    let plane = |i: usize, j: usize, (c, s): (f64, f64)| -> M {
        let mut m: M = (0..d).map(|a| (0..d).map(|b| (a == b) as u8 as f64).collect()).collect();
        m[i][i] = c;
        m[j][j] = c;
        m[i][j] = -s;
        m[j][i] = s;
        m
    };
    match d {
        1 => vec![vec![vec![1.0]]],
        2 => cs.iter().map(|r| plane(0, 1, *r)).collect(),
        _ => {
            let mut v = vec![];
            for a in cs {
                for b in [cs[0], cs[1], cs[4], cs[6]] {
                    for c in [cs[0], cs[3], cs[5]] {
                        v.push(mul(&mul(&plane(0, 1, a), &plane(1, 2, b)), &plane(0, 2, c)));
                    }
                }
            }
            v
        }
    }
}
/// The rotations that permute the axes.
fn signed_permutations(d: usize) -> Vec<M> {
    let mut out = vec![];
    let n = d.pow(d as u32);
    for p in 0..n {
        let p: Vec<usize> = (0..d).map(|i| p / d.pow(i as u32) % d).collect();
        if (0..d).any(|i| !p.contains(&i)) {
            continue;
        }
        for signs in 0..1 << d {
            let m: M = (0..d).map(|i| (0..d).map(|j| if p[i] != j { 0.0 } else if signs >> i & 1 == 1 { -1.0 } else { 1.0 }).collect()).collect();
            if det(&m) > 0.0 {
                out.push(m);
            }
        }
    }
    out
}
fn mul(a: &M, b: &M) -> M {
    let d = a.len();
    (0..d).map(|i| (0..d).map(|j| (0..d).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}

fn invariance<D: PhysicalDim>(f: &M, rot: &M, (mu, la): (f64, f64)) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let par = LameParameters { mu, lambda: la };
    let o = |m: &M| OMatrix::<f64, D, D>::from_fn(|i, j| m[i][j]);
    let (ff, rf, fr, r) = (o(f), o(&mul(rot, f)), o(&mul(f, rot)), o(rot));
    let j = det(f);
    let n2 = norm2(f);
    let mut out = vec![];
    for mat in [Mat::Neo, Mat::Stvk] {
        let m = Plain(mat);
        let e = m.compute_energy_density(&ff, &par);
        let p = m.compute_stress_tensor(&ff, &par);
        let tol = 1e-12 * (mu.abs() + la.abs()) * if mat == Mat::Neo { (1.0 + j.abs().ln().abs()).powi(2) * (1.0 + inv_norm2(f) + n2) } else { 4.0 * (1.0 + n2) * (1.0 + n2) };
        if mat == Mat::Neo && j <= 0.0 {
            if j < 0.0 {
                ensure!(m.compute_energy_density(&rf, &par) == f64::INFINITY, "energy of a rotated inverted state is finite");
            }
            continue;
        }
        close(m.compute_energy_density(&rf, &par), e, tol, &format!("{mat:?}: energy after a rotation of the world"))?;
        close(m.compute_energy_density(&fr, &par), e, tol, &format!("{mat:?}: energy after a rotation of the material (isotropy)"))?;
        let (p1, p2) = (m.compute_stress_tensor(&rf, &par), m.compute_stress_tensor(&fr, &par));
        let (w1, w2) = (&r * &p, &p * &r);
        for a in 0..D::dim() {
            for b in 0..D::dim() {
                close(p1[(a, b)], w1[(a, b)], 8.0 * tol, &format!("{mat:?}: stress after a rotation of the world"))?;
                close(p2[(a, b)], w2[(a, b)], 8.0 * tol, &format!("{mat:?}: stress after a rotation of the material"))?;
            }
        }
        out.push((e * 256.0) as i64);
    }
    // at rest, and at any rotation, there is neither energy nor stress; at rest exactly so
    let id = OMatrix::<f64, D, D>::identity();
    for mat in MATS {
        ensure!(Plain(mat).compute_energy_density(&id, &par) == 0.0, "{mat:?} has energy at rest");
        let p: OMatrix<f64, D, D> = Plain(mat).compute_stress_tensor(&id, &par);
        ensure!(p.iter().all(|x| *x == 0.0), "{mat:?} has stress at rest");
        if mat != Mat::Linear {
            close(Plain(mat).compute_energy_density(&r, &par), 0.0, 1e-13 * (mu.abs() + la.abs()), "energy of a rotation")?;
        }
    }
    Ok(Some(digest(&(D::dim(), out))))
}

fn gravity<D: PhysicalDim>(case: u64) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let mut g = Dig(case);
    let vals = [-9.75, 0.0, 2.5];
    let acc = OVector::<f64, D>::from_fn(|_, _| *g.pick(&vals));
    let rho = *g.pick(&[0.0, 1.0, 7.5]);
    let x = OPoint::<f64, D>::from(OVector::<f64, D>::from_fn(|_, _| *g.pick(&[-1.0, 2.0])));
    let s = GravitySource::from_acceleration(acc.clone());
    let f = s.evaluate(&x, &Density(rho));
    for i in 0..D::dim() {
        ensure!(f[i] == rho * acc[i], "gravity: component {i} is {}, expected {}", f[i], rho * acc[i]);
    }
    Ok(Some(digest(&(D::dim(), case))))
}

fn main() {
    let ctx = Ctx::new(
        "C27",
        Level::Exploration,
        "Every material, Lame pair and deformation gradient on a lattice; energies, stresses and contractions are compared with exact (hyper-dual) derivatives of the documented energies.",
    );
    ctx.assume("Lattice entries are dyadic so that F = I + grad u is formed without rounding; tolerances scale with the condition of F.");
    let q3: &[f64] = &[0.0, 0.5];
    let t3: &[f64] = &[-0.5, 0.0, 1.0];
    for (k, (d, values)) in [
        (1usize, ctx.tier(&[-1.5, -1.0, -0.875, -0.5, -0.25, 0.0, 0.125, 0.5, 1.0, 7.0][..], &[-1.5, -1.0, -0.9990234375, -0.875, -0.5, -0.25, 0.0, 0.125, 0.5, 1.0, 7.0, 1023.0][..])),
        (2, ctx.tier(&[-1.5, -0.5, 0.0, 0.25, 1.0][..], &[-2.0, -1.25, -0.875, -0.5, -0.125, 0.0, 0.25, 0.5, 1.0, 3.0][..])),
        (3, ctx.tier(q3, t3)),
        // inverted and compressed states in 3D
        (3, ctx.tier(&[-1.5, 0.25][..], &[-1.25, 0.0, 0.5][..])),
    ]
    .into_iter()
    .enumerate()
    {
        let n = pow(values.len() as u64, (d * d) as u32);
        let lames = if d == 3 { ctx.tier(2, LAME.len()) } else { LAME.len() } as u64;
        let total = n * 3 * lames;
        let split = move |case: u64| {
            let mut g = Dig(case);
            let mat = *g.pick(&MATS);
            let lame = LAME[(g.next(lames) + if lames == 2 { 2 } else { 0 }) % LAME.len()];
            (mat, lame, lattice(g.0, d, values))
        };
        ctx.suite(
            &format!("derivatives-{d}d-{k}"),
            total,
            move |c| format!("{:?}", split(c)),
            move |c| {
                let (mat, lame, f) = split(c);
                match d {
                    1 => state::<U1>(mat, &f, lame),
                    2 => state::<U2>(mat, &f, lame),
                    _ => state::<U3>(mat, &f, lame),
                }
            },
        );
        // frame invariance
        let rots = rotations(d);
        let nr = rots.len() as u64;
        let sub = if d == 3 && !ctx.thorough { 7 } else { 1 };
        let (r1, r2) = (rots.clone(), rots);
        let pickc = move |case: u64, rots: &[M]| {
            let mut g = Dig(case);
            let r = rots[g.next(nr)].clone();
            let lame = LAME[[2, 3, 5, 6][g.next(4)]];
            (r, lame, lattice(g.0 * sub, d, values))
        };
        ctx.suite(
            &format!("rotations-{d}d-{k}"),
            n.div_ceil(sub) * nr * 4,
            move |c| format!("{:?}", pickc(c, &r1)),
            move |c| {
                let (r, lame, f) = pickc(c, &r2);
                match d {
                    1 => invariance::<U1>(&f, &r, lame),
                    2 => invariance::<U2>(&f, &r, lame),
                    _ => invariance::<U3>(&f, &r, lame),
                }
            },
        );
    }
    // large stretches and compressions, with and without shear
    for d in 1..=3usize {
        let shear: &[f64] = if d == 3 { ctx.tier(&[0.5][..], &[0.0, 0.5][..]) } else { &[0.0, 0.5, -16.0] };
        let (ns, nl) = (shear.len() as u64, LAME.len() as u64);
        let split = move |case: u64| {
            let mut g = Dig(case);
            let mat = *g.pick(&MATS);
            let lame = LAME[g.next(nl)];
            let mut f = vec![vec![0.0; d]; d];
            for i in 0..d {
                // the determinant must stay well above the rounding error of 1 + tr + ...
                let small = if d == 3 { 1.0 / 1024.0 } else { 1.0 / 1048576.0 };
                f[i][i] = *g.pick(&[small, 0.125, 1.0, 8.0, 1048576.0]);
            }
            // one triangle, so that the determinant is exact
            for i in 0..d {
                for j in i + 1..d {
                    f[i][j] = *g.pick(shear);
                }
            }
            if g.next(2) == 1 {
                f = (0..d).map(|i| (0..d).map(|j| f[j][i]).collect()).collect();
            }
            (mat, lame, f)
        };
        ctx.suite(
            &format!("extreme-{d}d"),
            3 * nl * pow(5, d as u32) * pow(ns, (d * (d - 1) / 2) as u32) * 2,
            move |c| format!("{:?}", split(c)),
            move |c| {
                let (mat, lame, f) = split(c);
                match d {
                    1 => state::<U1>(mat, &f, lame),
                    2 => state::<U2>(mat, &f, lame),
                    _ => state::<U3>(mat, &f, lame),
                }
            },
        );
    }
    // tiny strains on top of rotations, and a collapse in one direction
    for d in 1..=3usize {
        let sp = signed_permutations(d);
        let vals: &'static [f64] = if d == 3 { &[-1.0, 2.0][..] } else { &[-3.0, -1.0, 0.0, 2.0] };
        let exps = [8, 16, 22, 27, 31, 36, 40];
        let (nsp, nv, sub) = (sp.len() as u64, pow(vals.len() as u64, (d * d) as u32), if d == 3 { ctx.tier(48, 4) } else { 1 });
        let split = move |case: u64, sp: &[M]| {
            let mut g = Dig(case);
            let mat = *g.pick(&MATS);
            let lame = LAME[[2, 3, 5, 6][g.next(4)]];
            let eps = 0.5f64.powi(*g.pick(&exps));
            let r = sp[g.next(nsp)].clone();
            let mut u = lattice(g.0 * sub, d, vals);
            for i in 0..d {
                for j in 0..d {
                    u[i][j] = eps * (u[i][j] - (i == j) as u8 as f64) + (i == j) as u8 as f64;
                }
            }
            (mat, lame, mul(&r, &u))
        };
        let sp2 = sp.clone();
        ctx.suite(
            &format!("strains-{d}d"),
            3 * 4 * exps.len() as u64 * nsp * nv.div_ceil(sub),
            move |c| format!("{:?}", split(c, &sp2)),
            move |c| {
                let (mat, lame, f) = split(c, &sp);
                match d {
                    1 => state::<U1>(mat, &f, lame),
                    2 => state::<U2>(mat, &f, lame),
                    _ => state::<U3>(mat, &f, lame),
                }
            },
        );
    }
    // tiny displacements
    let eps: Vec<f64> = [1, 10, 20, 27, 30, 40, 52, 60, 200].iter().map(|k| 0.5f64.powi(*k + 2)).collect();
    let ne = eps.len() as u64;
    for d in 1..=3usize {
        let values: &'static [f64] = if d == 3 { ctx.tier(&[-1.0, 2.0][..], &[-1.0, 0.0, 2.0][..]) } else { &[-3.0, -1.0, 0.0, 1.0, 2.0] };
        let (e1, e2) = (eps.clone(), eps.clone());
        let f = move |c: u64, eps: &[f64]| {
            let mut g = Dig(c);
            let e = *g.pick(eps);
            let u: M = (0..d).map(|_| (0..d).map(|_| *g.pick(values)).collect()).collect();
            (u, e)
        };
        ctx.suite(
            &format!("small-{d}d"),
            ne * pow(values.len() as u64, (d * d) as u32),
            move |c| format!("{:?}", f(c, &e1)),
            move |c| {
                let (u, e) = f(c, &e2);
                match d {
                    1 => logdet_small::<U1>(&u, e),
                    2 => logdet_small::<U2>(&u, e),
                    _ => logdet_small::<U3>(&u, e),
                }
            },
        );
        ctx.suite(
            &format!("gravity-{d}d"),
            pow(6, d as u32) * 3,
            |c| format!("{c}"),
            move |c| match d {
                1 => gravity::<U1>(c),
                2 => gravity::<U2>(c),
                _ => gravity::<U3>(c),
            },
        );
    }
    // Young's modulus and Poisson's ratio
    let young = [1.0, 2.5, 1e6, 2.1e11, 1e-9];
    let poisson = [-0.9990234375, -0.75, -0.25, 0.0, 0.2, 0.3, 0.45, 0.499, 0.4999, 0.499999];
    ctx.suite(
        "young-poisson",
        (young.len() * poisson.len()) as u64,
        move |c| {
            let mut g = Dig(c);
            format!("young {}, poisson {}", g.pick(&young), g.pick(&poisson))
        },
        move |c| {
            let mut g = Dig(c);
            let (e, nu) = (*g.pick(&young), *g.pick(&poisson));
            let p: LameParameters<f64> = YoungPoisson { young: e, poisson: nu }.into();
            // the defining relations: E = mu (3 lambda + 2 mu) / (lambda + mu), nu = lambda / (2 (lambda + mu))
            close(p.mu * (3.0 * p.lambda + 2.0 * p.mu), e * (p.lambda + p.mu), 1e-11 * e * (p.lambda.abs() + p.mu), "Young's modulus")?;
            close(p.lambda, 2.0 * nu * (p.lambda + p.mu), 1e-12 * (p.lambda.abs() + p.mu), "Poisson's ratio")?;
            // uniaxial stress: stretch by s along x with contraction -nu s across gives the stress E s, and none across
            let s = 0.0625;
            let f = OMatrix::<f64, U3, U3>::from_fn(|i, j| if i != j { 0.0 } else if i == 0 { 1.0 + s } else { 1.0 - nu * s });
            let t = LinearElasticMaterial.compute_stress_tensor(&f, &p);
            for i in 0..3 {
                close(t[(i, i)], if i == 0 { e * s } else { 0.0 }, 1e-10 * (e + p.lambda.abs()), "uniaxial stress")?;
            }
            ensure!(LameParameters::<f64>::default() == LameParameters { mu: 0.0, lambda: 0.0 }, "default parameters");
            Ok(Some(digest(&(p.mu.to_bits(), p.lambda.to_bits()))))
        },
    );
    ctx.finish()
}
