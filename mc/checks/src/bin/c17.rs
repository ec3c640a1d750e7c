//! C17: quadrature rules.
use checks::cells::{kind, Shape};
use checks::fem::{monomial, ref_integral, refp, Basis};
use fenris::assembly::local::QuadratureTable;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::{Point1, Point2, Point3};
use fenris::quadrature::subdivide::{subdivide_triangle, subdivide_univariate};
use fenris::quadrature::*;
use fenris_quadrature::{polyquad, tensor as rtensor, univariate as runi, Rule};
use hk::*;
use std::sync::Arc;

/// Legendre polynomials 0..=n at x.
fn legendre(n: usize, x: f64) -> Vec<f64> {
    let mut p = vec![1.0, x];
    for k in 1..n {
        let k1 = k as f64;
        let v = ((2.0 * k1 + 1.0) * x * p[k] - k1 * p[k - 1]) / (k1 + 1.0);
        p.push(v);
    }
    p.truncate(n + 1);
    p
}

/// Bernstein polynomials of degree n of barycentric coordinates.
fn bernstein(n: usize, bary: &[f64]) -> Vec<f64> {
    fn rec(n: usize, bary: &[f64], coef: f64, out: &mut Vec<f64>) {
        if bary.len() == 1 {
            out.push(coef * bary[0].powi(n as i32));
            return;
        }
        let mut binom = 1.0;
        for k in 0..=n {
            rec(n - k, &bary[1..], coef * binom * bary[0].powi(k as i32), out);
            binom = binom * (n - k) as f64 / (k + 1) as f64;
        }
    }
    let mut out = vec![];
    rec(n, bary, 1.0, &mut out);
    out
}

fn sum_rule<const D: usize>(r: &Rule<D>, f: impl Fn(&[f64; D]) -> Vec<f64>) -> Vec<f64> {
    let mut s: Vec<f64> = vec![];
    for (w, p) in r.0.iter().zip(&r.1) {
        let v = f(p);
        s.resize(v.len(), 0.0);
        for (a, b) in s.iter_mut().zip(v) {
            *a += w * b;
        }
    }
    s
}

fn expect(got: &[f64], want: impl Fn(usize) -> f64, tol: f64, what: &str) -> Result<(), String> {
    for (i, g) in got.iter().enumerate() {
        ensure!((g - want(i)).abs() <= tol, "{what}: test polynomial {i} is integrated to {g:e}, not {:e}", want(i));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dom {
    Tri,
    Quad,
    Tet,
    Hex,
    Prism,
    Pyramid,
}
use Dom::*;

fn inside(d: Dom, p: &[f64], tol: f64) -> bool {
    let cube = p.iter().all(|c| c.abs() <= 1.0 + tol);
    cube && match d {
        Quad | Hex => true,
        Tri | Prism => p[0] + p[1] <= tol,
        Tet => p[0] + p[1] + p[2] <= -1.0 + tol,
        Pyramid => p[0].abs() <= (1.0 - p[2]) / 2.0 + tol && p[1].abs() <= (1.0 - p[2]) / 2.0 + tol,
    }
}

/// The rule must integrate all polynomials of total degree s (a basis of them, well scaled).
fn strength<const D: usize>(d: Dom, r: &Rule<D>, s: usize, tol: f64) -> Result<(), String> {
    ensure_eq!(r.0.len(), r.1.len(), "weights and points");
    for p in &r.1 {
        ensure!(inside(d, &p[..], 1e-13), "the point {p:?} is outside of the domain");
    }
    match d {
        Tri => {
            let v = sum_rule(r, |p| bernstein(s, &[(p[0] + 1.0) / 2.0, (p[1] + 1.0) / 2.0, -(p[0] + p[1]) / 2.0]));
            let n = v.len() as f64;
            expect(&v, |_| 2.0 / n, tol / n.sqrt(), "Bernstein")
        }
        Tet => {
            let v = sum_rule(r, |p| {
                bernstein(s, &[(p[0] + 1.0) / 2.0, (p[1] + 1.0) / 2.0, (p[2] + 1.0) / 2.0, -(p[0] + p[1] + p[2] + 1.0) / 2.0])
            });
            let n = v.len() as f64;
            expect(&v, |_| 4.0 / 3.0 / n, tol / n.sqrt(), "Bernstein")
        }
        Quad => {
            let v = sum_rule(r, |p| {
                let (a, b) = (legendre(s, p[0]), legendre(s, p[1]));
                (0..=s).flat_map(|i| { let (a, b) = (&a, &b); (0..=s - i).map(move |j| a[i] * b[j]) }).collect()
            });
            expect(&v, |i| if i == 0 { 4.0 } else { 0.0 }, tol, "Legendre")
        }
        Hex => {
            let v = sum_rule(r, |p| {
                let (a, b, c) = (legendre(s, p[0]), legendre(s, p[1]), legendre(s, p[2]));
                let mut out = vec![];
                for i in 0..=s {
                    for j in 0..=s - i {
                        for k in 0..=s - i - j {
                            out.push(a[i] * b[j] * c[k]);
                        }
                    }
                }
                out
            });
            expect(&v, |i| if i == 0 { 8.0 } else { 0.0 }, tol, "Legendre")
        }
        Prism => {
            for k in 0..=s {
                let v = sum_rule(r, |p| {
                    let z = legendre(s, p[2])[k];
                    bernstein(s - k, &[(p[0] + 1.0) / 2.0, (p[1] + 1.0) / 2.0, -(p[0] + p[1]) / 2.0]).iter().map(|b| b * z).collect()
                });
                let n = v.len() as f64;
                expect(&v, |_| if k == 0 { 4.0 / n } else { 0.0 }, tol / n.sqrt(), &format!("degree {k} in z"))?;
            }
            Ok(())
        }
        Pyramid => {
            for c in 0..=s {
                for a in 0..=s - c {
                    for b in 0..=s - c - a {
                        let v = sum_rule(r, |p| {
                            vec![p[0].powi(a as i32) * p[1].powi(b as i32) * ((1.0 - p[2]) / 2.0).powi(c as i32)]
                        });
                        let w = if a % 2 == 1 || b % 2 == 1 { 0.0 } else { 8.0 / ((a + 1) * (b + 1) * (a + b + c + 3)) as f64 };
                        expect(&v, |_| w, tol, &format!("degrees {a} {b} {c}"))?;
                    }
                }
            }
            Ok(())
        }
    }
}

fn poly<const D: usize>(
    ctx: &Arc<Ctx>,
    d: Dom,
    f: fn(usize) -> Result<Rule<D>, fenris_quadrature::Error>,
    wrapped: impl Fn(usize) -> Result<(Vec<f64>, Vec<[f64; D]>), QuadratureError> + Sync,
    wrapped32: impl Fn(usize) -> Result<(Vec<f32>, Vec<[f32; D]>), QuadratureError> + Sync,
    least: usize,
) {
    let mut sizes: Vec<usize> = (0..ctx.tier(70, 300)).collect();
    sizes.extend([1 << 16, usize::MAX - 1, usize::MAX]);
    ctx.suite(&format!("{d:?} rules of every strength"), sizes.len() as u64, |i| format!("strength {}", sizes[i as usize]), |i| {
        let s = sizes[i as usize];
        match f(s) {
            Ok(r) => {
                strength(d, &r, s, 4e-14 * (2 + s) as f64)?;
                ensure!(!r.0.is_empty(), "an empty rule");
                ensure!(r.0.iter().all(|w| *w > 0.0), "a weight is not positive");
                if s > 0 {
                    let q = f(s - 1).map_err(|_| "a stronger rule is available, this one is not")?;
                    ensure!(q.0.len() <= r.0.len(), "the rule of strength {} has more points than that of strength {s}", s - 1);
                }
                let w = wrapped(s).map_err(|e| e.to_string())?;
                ensure!(w == r, "fenris gives another rule than fenris-quadrature");
                let w = wrapped32(s).map_err(|e| e.to_string())?;
                ensure!(w.0 == r.0.iter().map(|w| *w as f32).collect::<Vec<_>>(), "f32 weights");
                ensure!(w.1 == r.1.iter().map(|p| p.map(|c| c as f32)).collect::<Vec<_>>(), "f32 points");
                let v = fenris_quadrature::integrate(&r, |p| p[0] + 2.0 * p[D - 1] + 3.0);
                let want: f64 = r.0.iter().zip(&r.1).map(|(w, p)| w * (p[0] + 2.0 * p[D - 1] + 3.0)).sum();
                ensure!((v - want).abs() < 1e-12, "integrate gives {v}, not {want}");
                Ok(Some(digest(&r.0.iter().map(|w| w.to_bits()).collect::<Vec<_>>())))
            }
            Err(e) => {
                ensure!(s > least, "no rule of strength {s}");
                ensure!(e == fenris_quadrature::Error::NoRuleAvailable, "error {e:?}");
                ensure!(wrapped(s).is_err() && wrapped32(s).is_err(), "fenris offers a rule that fenris-quadrature refuses");
                Ok(None)
            }
        }
    });
}

fn univariate_degree(r: &Rule<1>, deg: usize, tol: f64) -> Result<(), String> {
    ensure_eq!(r.0.len(), r.1.len(), "weights and points");
    ensure!(r.1.iter().all(|p| p[0].abs() <= 1.0), "a point is outside of the interval");
    let v = sum_rule(r, |p| legendre(deg, p[0]));
    expect(&v, |i| if i == 0 { 2.0 } else { 0.0 }, tol, "Legendre")
}

fn arr1(q: QuadraturePair1d<f64>) -> Rule<1> {
    (q.0, q.1.into_iter().map(|p| [p.x]).collect())
}
fn arr2(q: QuadraturePair2d<f64>) -> Rule<2> {
    (q.0, q.1.into_iter().map(|p| [p.x, p.y]).collect())
}
fn arr3(q: QuadraturePair3d<f64>) -> Rule<3> {
    (q.0, q.1.into_iter().map(|p| [p.x, p.y, p.z]).collect())
}

/// Canonical rules: exactness for all products of basis functions (respectively of their derivatives).
fn canonical(name: &'static str, mass: Rule<3>, stiffness: Rule<3>) -> Verdict {
    let k = kind(name);
    let b = Basis::of(&k);
    let d = k.shape.dim();
    let n = b.coef.len();
    let dom = match k.shape {
        Shape::Tri => Tri,
        Shape::Quad => Quad,
        Shape::Tet => Tet,
        _ => Hex,
    };
    for r in [&mass, &stiffness] {
        ensure_eq!(r.0.len(), r.1.len(), "weights and points");
        for p in &r.1 {
            ensure!(inside(dom, &p[..d], 1e-13), "the point {p:?} is outside of the domain");
        }
    }
    let add = |x: [u32; 3], y: [u32; 3]| -> [u32; 3] { std::array::from_fn(|i| x[i] + y[i]) };
    let m = b.exps.len();
    // the integral of a product of two monomials
    let gram: Vec<Vec<f64>> = (0..m).map(|i| (0..m).map(|j| ref_integral(k.shape, add(b.exps[i], b.exps[j])).f()).collect()).collect();
    for i in 0..n {
        for j in 0..=i {
            let want: f64 = (0..m).map(|x| (0..m).map(|y| b.coef[i][x] * b.coef[j][y] * gram[x][y]).sum::<f64>()).sum();
            let got: f64 = mass.0.iter().zip(&mass.1).map(|(w, p)| { let v = b.value(*p); w * v[i] * v[j] }).sum();
            ensure!((got - want).abs() < 1e-11, "mass of {i} and {j}: {got}, not {want}");
        }
    }
    for x in 0..d {
        for y in 0..d {
            // integral of the product of derivatives of monomials
            let dg: Vec<Vec<f64>> = (0..m)
                .map(|i| {
                    (0..m)
                        .map(|j| {
                            let (mut e, mut f) = (b.exps[i], b.exps[j]);
                            let c = (e[x] * f[y]) as f64;
                            if c == 0.0 {
                                return 0.0;
                            }
                            e[x] -= 1;
                            f[y] -= 1;
                            c * ref_integral(k.shape, add(e, f)).f()
                        })
                        .collect()
                })
                .collect();
            let grads: Vec<Vec<[f64; 3]>> = stiffness.1.iter().map(|p| b.grad(*p)).collect();
            for i in 0..n {
                for j in 0..n {
                    let want: f64 = (0..m).map(|p| (0..m).map(|q| b.coef[i][p] * b.coef[j][q] * dg[p][q]).sum::<f64>()).sum();
                    let got: f64 = stiffness.0.iter().zip(&grads).map(|(w, g)| w * g[i][x] * g[j][y]).sum();
                    ensure!((got - want).abs() < 1e-11, "stiffness of {i} and {j} in directions {x} and {y}: {got}, not {want}");
                }
            }
        }
    }
    Ok(Some(digest(name)))
}

trait Lift {
    fn lift(self) -> Rule<3>;
}
impl Lift for QuadraturePair2d<f64> {
    fn lift(self) -> Rule<3> {
        (self.0, self.1.into_iter().map(|p| [p.x, p.y, 0.0]).collect())
    }
}
impl Lift for QuadraturePair3d<f64> {
    fn lift(self) -> Rule<3> {
        arr3(self)
    }
}

fn main() {
    let ctx = Ctx::new(
        "C17",
        Level::Exploration,
        "Every rule that can be requested (every strength from 0 to beyond the strongest rule, every number of points up to a bound, every element's canonical rules, every subdivision up to a bound), checked against a basis of all polynomials of the promised degree with known integrals.",
    );
    let w = |r: Result<QuadraturePair2d<f64>, QuadratureError>| r.map(arr2);
    let w3 = |r: Result<QuadraturePair3d<f64>, QuadratureError>| r.map(arr3);
    let s = |r: Result<QuadraturePair2d<f32>, QuadratureError>| r.map(|q| (q.0, q.1.into_iter().map(|p| [p.x, p.y]).collect()));
    let s3 = |r: Result<QuadraturePair3d<f32>, QuadratureError>| r.map(|q| (q.0, q.1.into_iter().map(|p| [p.x, p.y, p.z]).collect()));
    poly(&ctx, Tri, polyquad::triangle, move |n| w(total_order::triangle(n)), move |n| s(total_order::triangle(n)), 20);
    poly(&ctx, Quad, polyquad::quadrilateral, move |n| w(total_order::quadrilateral(n)), move |n| s(total_order::quadrilateral(n)), 21);
    poly(&ctx, Tet, polyquad::tetrahedron, move |n| w3(total_order::tetrahedron(n)), move |n| s3(total_order::tetrahedron(n)), 10);
    poly(&ctx, Hex, polyquad::hexahedron, move |n| w3(total_order::hexahedron(n)), move |n| s3(total_order::hexahedron(n)), 11);
    poly(&ctx, Prism, polyquad::prism, move |n| w3(total_order::prism(n)), move |n| s3(total_order::prism(n)), 10);
    poly(&ctx, Pyramid, polyquad::pyramid, move |n| w3(total_order::pyramid(n)), move |n| s3(total_order::pyramid(n)), 10);

    ctx.suite("Gauss rules", ctx.tier(400, 1500), |i| format!("{} points", i + 1), |i| {
        let n = i as usize + 1;
        let r = runi::gauss(n);
        ensure_eq!(r.0.len(), n, "number of points");
        univariate_degree(&r, 2 * n - 1, 1e-13 * (n + 4) as f64)?;
        ensure!(r.0.iter().all(|w| *w > 0.0), "a weight is not positive");
        let mut x: Vec<f64> = r.1.iter().map(|p| p[0]).collect();
        x.sort_by(f64::total_cmp);
        ensure!(x.windows(2).all(|w| w[0] < w[1]), "points coincide");
        ensure!(arr1(univariate::gauss(n)) == r, "fenris gives another rule than fenris-quadrature");
        Ok(Some(digest(&x.iter().map(|x| x.to_bits()).collect::<Vec<_>>())))
    });
    ctx.suite("Gauss-Lobatto rules", ctx.tier(1100, 3000), |i| format!("{i} points"), |i| {
        let n = i as usize;
        let offered = (2..=32).contains(&n) || [64, 128, 256, 512].contains(&n);
        let r = runi::try_gauss_lobatto(n);
        ensure_eq!(univariate::try_gauss_lobatto::<f64>(n).map(arr1), r, "the rule of fenris, and of fenris-quadrature");
        let Some(r) = r else {
            ensure!(!offered, "the documented rule with {n} points is not offered");
            return Ok(None);
        };
        ensure_eq!(r.0.len(), n, "number of points");
        ensure!(n >= 2, "a rule with {n} points");
        univariate_degree(&r, 2 * n - 3, 1e-13 * (n + 4) as f64)?;
        ensure!(r.1.iter().any(|p| p[0] == -1.0) && r.1.iter().any(|p| p[0] == 1.0), "the ends are not points of the rule");
        Ok(Some(digest(&r.1.iter().map(|x| x[0].to_bits()).collect::<Vec<_>>())))
    });
    ctx.suite("tensor rules on the quadrilateral", ctx.tier(48, 80), |i| format!("{} points per dimension", i + 1), |i| {
        let n = i as usize + 1;
        let r = rtensor::quadrilateral_gauss(n);
        ensure_eq!(r.0.len(), n * n, "number of points");
        ensure!(arr2(tensor::quadrilateral_gauss(n)) == r, "fenris gives another rule than fenris-quadrature");
        ensure!(r.1.len() == n * n && r.1.iter().all(|p| inside(Quad, &p[..], 0.0)), "a point is outside of the domain");
        let m = 2 * n;
        let v = sum_rule(&r, |p| {
            let (a, b) = (legendre(m - 1, p[0]), legendre(m - 1, p[1]));
            (0..m * m).map(|k| a[k % m] * b[k / m]).collect()
        });
        expect(&v, |k| if k == 0 { 4.0 } else { 0.0 }, 1e-13 * (n + 4) as f64, "Legendre")?;
        Ok(Some(digest(&n)))
    });
    ctx.suite("tensor rules on the hexahedron", ctx.tier(40, 72), |i| format!("{} points per dimension", i + 1), |i| {
        let n = i as usize + 1;
        let r = rtensor::hexahedron_gauss(n);
        ensure_eq!(r.0.len(), n * n * n, "number of points");
        ensure!(arr3(tensor::hexahedron_gauss(n)) == r, "fenris gives another rule than fenris-quadrature");
        ensure!(r.1.len() == n * n * n && r.1.iter().all(|p| inside(Hex, &p[..], 0.0)), "a point is outside of the domain");
        let m = 2 * n;
        // above twelve points per dimension: polynomials of low and of the highest degrees in each direction
        if n > 12 {
            let deg = [0, 1, 2, n - 1, n, m - 2, m - 1];
            let v = sum_rule(&r, |p| {
                let (a, b, c) = (legendre(m - 1, p[0]), legendre(m - 1, p[1]), legendre(m - 1, p[2]));
                (0..343).map(|k| a[deg[k % 7]] * b[deg[k / 7 % 7]] * c[deg[k / 49]]).collect()
            });
            expect(&v, |k| if k == 0 { 8.0 } else { 0.0 }, 1e-13 * (n + 4) as f64, "Legendre")?;
            return Ok(Some(digest(&n)));
        }
        let v = sum_rule(&r, |p| {
            let (a, b, c) = (legendre(m - 1, p[0]), legendre(m - 1, p[1]), legendre(m - 1, p[2]));
            (0..m * m * m).map(|k| a[k % m] * b[k / m % m] * c[k / m / m]).collect()
        });
        expect(&v, |k| if k == 0 { 8.0 } else { 0.0 }, 1e-13 * (n + 4) as f64, "Legendre")?;
        Ok(Some(digest(&n)))
    });

    // canonical rules
    macro_rules! canon {
        ($($n:expr, $e:ident, $c:ident, $p:ident);* $(;)?) => { $(
            ctx.suite(concat!("canonical rules of ", stringify!($e)), 1, |_| String::new(), |_| {
                let e = $e::<f64>::reference();
                let (m, s) = (e.canonical_mass_quadrature(), e.canonical_stiffness_quadrature());
                // the same rules for meshes
                let k = kind($n);
                let vs: Vec<$p<f64>> = k.nodes.iter().map(|x| { let r = refp(*x); let mut p = $p::origin(); for i in 0..k.shape.dim() { p[i] = r[i]; } p }).collect();
                let idx: Vec<usize> = (0..k.nodes.len()).collect();
                let mesh = Mesh::from_vertices_and_connectivity(vs, vec![$c(idx.try_into().unwrap())]);
                for (t, r) in [(mesh.canonical_mass_quadrature(), &m), (mesh.canonical_stiffness_quadrature(), &s)] {
                    let n = t.element_quadrature_size(0);
                    ensure_eq!(n, r.0.len(), "quadrature size of the mesh");
                    let (mut p, mut w) = (vec![$p::origin(); n], vec![0.0; n]);
                    t.populate_element_quadrature(0, &mut p, &mut w);
                    ensure!(w == r.0 && p == r.1, "the mesh has another rule than its elements");
                }
                canonical($n, m.lift(), s.lift())
            });
        )* };
    }
    canon!("Tri3", Tri3d2Element, Tri3d2Connectivity, Point2; "Tri6", Tri6d2Element, Tri6d2Connectivity, Point2;
        "Quad4", Quad4d2Element, Quad4d2Connectivity, Point2; "Quad9", Quad9d2Element, Quad9d2Connectivity, Point2;
        "Tet4", Tet4Element, Tet4Connectivity, Point3; "Tet10", Tet10Element, Tet10Connectivity, Point3;
        "Tet20", Tet20Element, Tet20Connectivity, Point3; "Hex8", Hex8Element, Hex8Connectivity, Point3;
        "Hex20", Hex20Element, Hex20Connectivity, Point3; "Hex27", Hex27Element, Hex27Connectivity, Point3);

    // subdivision
    let bases: Vec<(Rule<1>, usize)> = (1..=6)
        .map(|n| (runi::gauss(n), 2 * n - 1))
        .chain((2..=6).map(|n| (runi::try_gauss_lobatto(n).unwrap(), 2 * n - 3)))
        .chain([
            ((vec![2.0], vec![[-0.5]]), 0),
            ((vec![0.5, 1.5], vec![[-1.0], [1.0 / 3.0]]), 2),
            ((vec![1.5, -0.5, 1.0], vec![[0.25], [0.5], [-0.125]]), 1),
        ])
        .collect();
    let counts = |upto: usize, more: &[usize]| -> Vec<usize> { (1..=upto).chain(more.iter().copied().filter(|k| *k > upto)).collect() };
    let pieces = counts(ctx.tier(70, 200), &[100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000]);
    let (p2, max) = (pieces.clone(), pieces.len() as u64);
    ctx.suite("subdivided univariate rules", bases.len() as u64 * max, move |i| format!("base rule {}, {} pieces", i / max, p2[(i % max) as usize]), |i| {
        let ((bw, bp), deg) = &bases[(i / max) as usize];
        let n = pieces[(i % max) as usize];
        let pts: Vec<Point1<f64>> = bp.iter().map(|p| Point1::new(p[0])).collect();
        let r = arr1(subdivide_univariate((bw.clone(), pts.clone()), n));
        let r2 = arr1(subdivide_univariate(&(&bw[..], &pts[..]), n));
        ensure!(r == r2, "the result depends on how the rule is held");
        ensure_eq!(r.0.len(), n * bw.len(), "number of points");
        ensure!(r.1.iter().all(|p| p[0].abs() <= 1.0 + 1e-12), "a point is outside of the interval");
        let v = sum_rule(&r, |p| legendre(*deg, p[0]));
        expect(&v, |i| if i == 0 { 2.0 } else { 0.0 }, 1e-12, "Legendre")?;
        // the rule on every piece, as a set
        let mut want = vec![];
        for k in 0..n {
            for (w, p) in bw.iter().zip(bp) {
                want.push((-1.0 + (2.0 * k as f64 + 1.0 + p[0]) / n as f64, w / n as f64));
            }
        }
        let mut got: Vec<(f64, f64)> = r.1.iter().map(|p| p[0]).zip(r.0).collect();
        for (x, w) in want {
            let at = got.iter().position(|(y, v)| (x - y).abs() < 1e-12 && (w - v).abs() < 1e-13);
            let Some(at) = at else { return Err(format!("the point {x} with weight {w} is missing")) };
            got.swap_remove(at);
        }
        Ok(Some(digest(&(n, bw.len()))))
    });
    let mut tri: Vec<(Rule<2>, usize)> = (0..=ctx.tier(6, 12)).map(|s| (polyquad::triangle(s).unwrap(), s)).collect();
    tri.push(((vec![2.0], vec![[0.5, -0.75]]), 0));
    tri.push(((vec![2.0 / 3.0; 3], vec![[-1.0, -1.0], [1.0, -1.0], [-1.0, 1.0]]), 1));
    tri.push(((vec![0.5, 0.5, 1.0], vec![[-1.0 / 3.0, -1.0 / 3.0], [0.0, -1.0 / 3.0], [-0.5, -1.0 / 3.0]]), 1));
    let pieces = counts(ctx.tier(24, 40), &[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
    let (p2, max) = (pieces.clone(), pieces.len() as u64);
    ctx.suite("subdivided triangle rules", tri.len() as u64 * max, move |i| format!("base rule {}, {} subdivisions", i / max, p2[(i % max) as usize]), |i| {
        let ((bw, bp), deg) = &tri[(i / max) as usize];
        let n = pieces[(i % max) as usize];
        let pts: Vec<Point2<f64>> = bp.iter().map(|p| Point2::new(p[0], p[1])).collect();
        let r = arr2(subdivide_triangle((bw.clone(), pts.clone()), n));
        ensure_eq!(r.0.len(), n * n * bw.len(), "number of points");
        strength(Tri, &r, *deg, 1e-12 + 1e-13 * n as f64)?;
        // every subtriangle gets its share
        let h = 2.0 / n as f64;
        let mut cells = vec![0.0; n * n];
        if bp.iter().all(|p| p[0] > -0.9999 && p[1] > -0.9999 && p[0] + p[1] < -1e-4) {
            for (w, p) in r.0.iter().zip(&r.1) {
                let (a, b) = ((p[0] + 1.0) / h, (p[1] + 1.0) / h);
                cells[(a.floor() as usize).min(n - 1) * n + (b.floor() as usize).min(n - 1)] += w;
            }
            for a in 0..n {
                for b in 0..n {
                    let want = if a + b + 1 < n { h * h } else if a + b + 1 == n { h * h / 2.0 } else { 0.0 };
                    ensure!((cells[a * n + b] - want).abs() < 1e-12, "cell ({a}, {b}) has weight {}, not {want}", cells[a * n + b]);
                }
            }
        }
        Ok(Some(digest(&(n, i / max))))
    });

    // the quadrature trait
    ctx.suite("quadrature containers", ctx.tier(600, 3000), |i| format!("size {i}"), |i| {
        let n = i as usize;
        let w: Vec<f64> = (0..n).map(|k| (k as f64 - 3.0) * 0.5).collect();
        let p: Vec<Point3<f64>> = (0..n).map(|k| Point3::new(k as f64, 2.0 - k as f64, (k * k) as f64)).collect();
        let data: Vec<usize> = (0..n).map(|k| k * 7 + 1).collect();
        let f = |x: &Point3<f64>| x.x + 0.25 * x.y - 2.0 * x.z;
        let want: f64 = w.iter().zip(&p).map(|(w, p)| w * f(p)).sum();
        fn check<Q: Quadrature<f64, fenris::nalgebra::U3>>(q: &Q, w: &[f64], p: &[Point3<f64>], want: f64, f: impl Fn(&Point3<f64>) -> f64) -> Result<(), String> {
            ensure!(q.weights() == w && q.points() == p, "weights or points");
            ensure_eq!(q.data().len(), w.len(), "data");
            ensure!((q.integrate(&f) - want).abs() <= 1e-9 * (1.0 + want.abs()), "integrate: {} not {want}", q.integrate(&f));
            let parts = q.to_parts();
            ensure!(parts.weights == w && parts.points == p && parts.data.len() == w.len(), "parts");
            let it: Vec<(f64, Point3<f64>)> = q.iter().map(|(w, p, _)| (*w, *p)).collect();
            ensure!(it.len() == w.len() && it.iter().zip(w.iter().zip(p)).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1), "iteration");
            Ok(())
        }
        let pair = (w.clone(), p.clone());
        check(&pair, &w, &p, want, f)?;
        check(&&pair, &w, &p, want, f)?;
        check(&(&w, &p), &w, &p, want, f)?;
        let o: OwnedQuadratureParts<f64, fenris::nalgebra::U3, ()> = pair.clone().into();
        check(&o, &w, &p, want, f)?;
        let d = o.clone().with_data(data.clone());
        check(&d, &w, &p, want, f)?;
        ensure!(d.data() == &data[..] && d.to_parts().data == &data[..], "data");
        ensure!(d.iter().map(|(_, _, d)| *d).collect::<Vec<_>>() == data, "data by iteration");
        let nd = QuadratureParts { weights: w.clone(), points: p.clone(), data: NoData };
        check(&nd, &w, &p, want, f)?;
        Ok(Some(digest(&n)))
    });
    let _ = monomial([0; 3], [0.0; 3]);
    ctx.assume("integrals are compared up to rounding (relative to the size of the domain)");
    ctx.finish()
}
