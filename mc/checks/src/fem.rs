//! Exact nodal bases and geometry maps, derived from nothing but the node positions and the polynomial space.
use crate::cells::{kind, I3, Kind, Shape};
use hk::num::Q;

/// Reference coordinate of a lattice position.
pub fn refq(x: i32) -> Q {
    Q::new(x as i128 - 3, 3)
}
pub fn refp(x: I3) -> [f64; 3] {
    x.map(|c| refq(c).f())
}

/// The monomials that span the space of an element.
pub fn space(k: &Kind) -> Vec<[u32; 3]> {
    let d = k.shape.dim();
    let o = k.order as u32;
    let mut out = vec![];
    let lim = |i: usize| if i < d { o } else { 0 };
    for a in 0..=lim(0) {
        for b in 0..=lim(1) {
            for c in 0..=lim(2) {
                let e = [a, b, c];
                let ok = match (k.shape, k.name) {
                    (_, "Quad8") | (_, "Hex20") => e.iter().filter(|x| **x > 1).sum::<u32>() <= 2,
                    (Shape::Seg, _) | (Shape::Tri, _) | (Shape::Tet, _) => a + b + c <= o,
                    _ => true,
                };
                if ok {
                    out.push(e);
                }
            }
        }
    }
    out
}

fn powq(x: Q, e: u32) -> Q {
    (0..e).fold(Q::ONE, |a, _| a * x)
}

pub fn monomial(e: [u32; 3], x: [f64; 3]) -> f64 {
    (0..3).map(|k| x[k].powi(e[k] as i32)).product()
}
pub fn monomial_grad(e: [u32; 3], x: [f64; 3], k: usize) -> f64 {
    if e[k] == 0 {
        return 0.0;
    }
    let mut f = e;
    f[k] -= 1;
    e[k] as f64 * monomial(f, x)
}

#[derive(Clone, Debug)]
pub struct Basis {
    pub exps: Vec<[u32; 3]>,
    /// coef[i][m]: coefficient of monomial m in basis function i
    pub coef: Vec<Vec<f64>>,
}

impl Basis {
    pub fn of(k: &Kind) -> Basis {
        let exps = space(k);
        let n = k.nodes.len();
        assert_eq!(exps.len(), n, "the space of {} does not match its nodes", k.name);
        // A[i][m] = monomial m at node i;  C A^T = I
        let mut a: Vec<Vec<Q>> = (0..n)
            .map(|m| {
                let mut row: Vec<Q> = (0..n)
                    .map(|i| (0..3).fold(Q::ONE, |p, c| p * powq(if c < k.shape.dim() { refq(k.nodes[i][c]) } else { Q::ONE }, exps[m][c])))
                    .collect();
                row.extend((0..n).map(|j| if j == m { Q::ONE } else { Q::ZERO }));
                row
            })
            .collect();
        // rows m: sum_i A[m][i] * (inverse)[i][.]: the inverse's row i holds the coefficients of basis function i
        for c in 0..n {
            let p = (c..n).find(|r| a[*r][c].sgn() != 0).expect("nodes are unisolvent");
            a.swap(c, p);
            let inv = Q::ONE / a[c][c];
            for x in a[c].iter_mut() {
                *x = *x * inv;
            }
            let pivot = a[c].clone();
            for r in 0..n {
                if r != c && a[r][c].sgn() != 0 {
                    let f = a[r][c];
                    for (x, y) in a[r].iter_mut().zip(&pivot) {
                        *x = *x - f * *y;
                    }
                }
            }
        }
        let coef = (0..n).map(|i| (0..n).map(|m| a[i][n + m].f()).collect()).collect();
        Basis { exps, coef }
    }
    pub fn value(&self, x: [f64; 3]) -> Vec<f64> {
        let m: Vec<f64> = self.exps.iter().map(|e| monomial(*e, x)).collect();
        self.coef.iter().map(|c| c.iter().zip(&m).map(|(a, b)| a * b).sum()).collect()
    }
    pub fn grad(&self, x: [f64; 3]) -> Vec<[f64; 3]> {
        let m: Vec<[f64; 3]> = self.exps.iter().map(|e| std::array::from_fn(|k| monomial_grad(*e, x, k))).collect();
        self.coef
            .iter()
            .map(|c| std::array::from_fn(|k| c.iter().zip(&m).map(|(a, b)| a * b[k]).sum()))
            .collect()
    }
}

/// The geometry map of a cell: multilinear or affine in its corners.
#[derive(Clone, Debug)]
pub struct Geo {
    pub corners: Vec<[f64; 3]>,
    basis: Basis,
}

pub fn corner_kind(s: Shape) -> Kind {
    kind(match s {
        Shape::Seg => "Segment2",
        Shape::Tri => "Tri3",
        Shape::Quad => "Quad4",
        Shape::Tet => "Tet4",
        Shape::Hex => "Hex8",
    })
}

impl Geo {
    pub fn new(s: Shape, corners: Vec<[f64; 3]>) -> Geo {
        assert_eq!(s.corners().len(), corners.len());
        Geo { corners, basis: Basis::of(&corner_kind(s)) }
    }
    pub fn with(&self, corners: Vec<[f64; 3]>) -> Geo {
        assert_eq!(self.corners.len(), corners.len());
        Geo { corners, basis: self.basis.clone() }
    }
    pub fn map(&self, x: [f64; 3]) -> [f64; 3] {
        let v = self.basis.value(x);
        std::array::from_fn(|k| self.corners.iter().zip(&v).map(|(c, w)| c[k] * w).sum())
    }
    /// jac[c][r]: derivative of coordinate r with respect to reference coordinate c
    pub fn jac(&self, x: [f64; 3]) -> [[f64; 3]; 3] {
        let g = self.basis.grad(x);
        std::array::from_fn(|c| std::array::from_fn(|r| self.corners.iter().zip(&g).map(|(p, w)| p[r] * w[c]).sum()))
    }
    pub fn diameter(&self) -> f64 {
        let mut d = 0.0f64;
        for a in &self.corners {
            for b in &self.corners {
                d = d.max((0..3).map(|k| (a[k] - b[k]).powi(2)).sum::<f64>().sqrt());
            }
        }
        d
    }
}

/// Lattice points of a reference cell (closed), with `step` lattice units, reaching `out` units beyond its bounding box
/// if `all`.
pub fn lattice(s: Shape, lo: i32, hi: i32, step: i32, inside_only: bool) -> Vec<I3> {
    let d = s.dim();
    let mut out = vec![];
    let axis: Vec<i32> = (lo..=hi).step_by(step as usize).collect();
    let one = vec![3];
    for z in if d > 2 { &axis } else { &one } {
        for y in if d > 1 { &axis } else { &one } {
            for x in &axis {
                let p = [*x, *y, *z];
                let mut q = p;
                for k in d..3 {
                    q[k] = 0;
                }
                if !inside_only || s.faces().iter().all(|(n, c)| (0..3).map(|k| n[k] * q[k]).sum::<i32>() <= *c) {
                    out.push(p);
                }
            }
        }
    }
    out
}

/// Exact integral of a monomial over the reference cell.
pub fn ref_integral(s: Shape, e: [u32; 3]) -> Q {
    let d = s.dim();
    match s {
        Shape::Tri | Shape::Tet => {
            // x = 2 u - 1 per axis, unit simplex in u
            let fact = |n: u32| (1..=n as i128).product::<i128>();
            let binom = |n: u32, k: u32| fact(n) / fact(k) / fact(n - k);
            let mut sum = Q::ZERO;
            let top = |i: usize| if i < d { e[i] } else { 0 };
            for a in 0..=top(0) {
                for b in 0..=top(1) {
                    for c in 0..=top(2) {
                        let mut t = Q::ONE;
                        for (k, m) in [a, b, c].into_iter().enumerate().take(d) {
                            let sign = if (e[k] - m) % 2 == 0 { 1 } else { -1 };
                            t = t * Q::new(sign * binom(e[k], m) * (1i128 << m), 1);
                        }
                        let num = fact(a) * fact(b) * fact(c);
                        t = t * Q::new(num, fact(a + b + c + d as u32));
                        sum = sum + t;
                    }
                }
            }
            sum * Q::int(1 << d)
        }
        _ => (0..d).fold(Q::ONE, |p, k| p * if e[k] % 2 == 0 { Q::new(2, e[k] as i128 + 1) } else { Q::ZERO }),
    }
}
