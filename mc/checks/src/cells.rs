//! Reference descriptions of the cell types, written from the documented node orderings (gmsh for the 3D
//! types), and families of small conforming meshes built from them.
//!
//! Reference coordinates are integers 0..=6 per axis (real coordinate = xi / 3 - 1).
use fenris::allocators::DimAllocator;
use fenris::connectivity::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, U1, U2, U3};
use std::collections::HashMap;

pub type I3 = [i32; 3];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Seg,
    Tri,
    Quad,
    Tet,
    Hex,
}
use Shape::*;

impl Shape {
    pub fn dim(self) -> usize {
        match self {
            Seg => 1,
            Tri | Quad => 2,
            Tet | Hex => 3,
        }
    }
    pub fn corners(self) -> Vec<I3> {
        match self {
            Seg => vec![[0, 0, 0], [6, 0, 0]],
            Tri => vec![[0, 0, 0], [6, 0, 0], [0, 6, 0]],
            Quad => vec![[0, 0, 0], [6, 0, 0], [6, 6, 0], [0, 6, 0]],
            Tet => vec![[0, 0, 0], [6, 0, 0], [0, 6, 0], [0, 0, 6]],
            Hex => vec![[0, 0, 0], [6, 0, 0], [6, 6, 0], [0, 6, 0], [0, 0, 6], [6, 0, 6], [6, 6, 6], [0, 6, 6]],
        }
    }
    /// Faces as planes n.x <= c (outward n).
    pub fn faces(self) -> Vec<(I3, i32)> {
        match self {
            Seg => vec![([-1, 0, 0], 0), ([1, 0, 0], 6)],
            Tri => vec![([0, -1, 0], 0), ([1, 1, 0], 6), ([-1, 0, 0], 0)],
            Quad => vec![([0, -1, 0], 0), ([1, 0, 0], 6), ([0, 1, 0], 6), ([-1, 0, 0], 0)],
            Tet => vec![([0, 0, -1], 0), ([0, -1, 0], 0), ([-1, 0, 0], 0), ([1, 1, 1], 6)],
            Hex => vec![
                ([0, 0, -1], 0),
                ([0, -1, 0], 0),
                ([-1, 0, 0], 0),
                ([1, 0, 0], 6),
                ([0, 1, 0], 6),
                ([0, 0, 1], 6),
            ],
        }
    }
    /// Orientation preserving symmetries of the reference cell.
    pub fn symmetries(self) -> Vec<Affine> {
        let c = self.corners();
        let mut out = vec![];
        let n = c.len();
        // images of corner 0 and of its neighbours along the axes determine the map
        let ax: Vec<usize> = match self {
            Seg => vec![1],
            Tri => vec![1, 2],
            Quad => vec![1, 3],
            Tet => vec![1, 2, 3],
            Hex => vec![1, 3, 4],
        };
        let d = self.dim();
        let mut pick = vec![0usize; d + 1];
        loop {
            // try this choice
            let o = c[pick[0]];
            let mut cols = [[0i32; 3]; 3];
            let mut ok = true;
            for k in 0..3 {
                if k < d {
                    for r in 0..3 {
                        let x = c[pick[k + 1]][r] - o[r];
                        ok &= x % 6 == 0;
                        cols[k][r] = x / 6;
                    }
                } else {
                    cols[k][k] = 1;
                }
            }
            let a = Affine { o, cols };
            if ok && a.det() == 1 && ax.len() == d {
                let mut im: Vec<I3> = c.iter().map(|x| a.at(*x)).collect();
                let mut cs = c.clone();
                im.sort();
                cs.sort();
                if im == cs {
                    out.push(a);
                }
            }
            let mut k = 0;
            loop {
                if k > d {
                    return out;
                }
                pick[k] += 1;
                if pick[k] < n {
                    break;
                }
                pick[k] = 0;
                k += 1;
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Affine {
    pub o: I3,
    pub cols: [I3; 3],
}

impl Affine {
    pub const ID: Affine = Affine { o: [0; 3], cols: [[1, 0, 0], [0, 1, 0], [0, 0, 1]] };
    pub fn at(&self, x: I3) -> I3 {
        let mut r = self.o;
        for k in 0..3 {
            for i in 0..3 {
                r[i] += self.cols[k][i] * x[k];
            }
        }
        r
    }
    pub fn det(&self) -> i32 {
        let c = &self.cols;
        c[0][0] * (c[1][1] * c[2][2] - c[1][2] * c[2][1]) - c[1][0] * (c[0][1] * c[2][2] - c[0][2] * c[2][1])
            + c[2][0] * (c[0][1] * c[1][2] - c[0][2] * c[1][1])
    }
    pub fn after(&self, inner: &Affine) -> Affine {
        let o = self.at(inner.o);
        let mut cols = [[0; 3]; 3];
        for k in 0..3 {
            for j in 0..3 {
                for i in 0..3 {
                    cols[k][i] += self.cols[j][i] * inner.cols[k][j];
                }
            }
        }
        Affine { o, cols }
    }
}

#[derive(Clone, Debug)]
pub struct Kind {
    pub name: &'static str,
    pub shape: Shape,
    pub order: i32,
    pub nodes: Vec<I3>,
}

fn mids(c: &[I3], groups: &[&[usize]]) -> Vec<I3> {
    groups
        .iter()
        .map(|g| {
            let mut s = [0; 3];
            for &i in *g {
                for k in 0..3 {
                    s[k] += c[i][k];
                }
            }
            s.map(|x| x / g.len() as i32)
        })
        .collect()
}

pub fn kind(name: &'static str) -> Kind {
    let (shape, order, extra): (Shape, i32, Vec<I3>) = match name {
        "Segment2" => (Seg, 1, vec![]),
        "Segment3" => (Seg, 2, vec![]),
        "Tri3" => (Tri, 1, vec![]),
        "Quad4" => (Quad, 1, vec![]),
        "Tet4" => (Tet, 1, vec![]),
        "Hex8" => (Hex, 1, vec![]),
        "Tri6" => (Tri, 2, mids(&Tri.corners(), &[&[0, 1], &[1, 2], &[2, 0]])),
        "Quad8" => (Quad, 2, mids(&Quad.corners(), &[&[0, 1], &[1, 2], &[2, 3], &[3, 0]])),
        "Quad9" => (Quad, 2, mids(&Quad.corners(), &[&[0, 1], &[1, 2], &[2, 3], &[3, 0], &[0, 1, 2, 3]])),
        "Tet10" => (Tet, 2, mids(&Tet.corners(), &[&[0, 1], &[1, 2], &[0, 2], &[0, 3], &[2, 3], &[1, 3]])),
        "Tet20" => {
            let c = Tet.corners();
            let third = |a: usize, b: usize| -> I3 { std::array::from_fn(|k| (2 * c[a][k] + c[b][k]) / 3) };
            let mut v = vec![];
            for (a, b) in [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)] {
                v.push(third(a, b));
                v.push(third(b, a));
            }
            v.extend(mids(&c, &[&[0, 1, 2], &[0, 1, 3], &[0, 2, 3], &[1, 2, 3]]));
            (Tet, 3, v)
        }
        "Hex20" | "Hex27" => {
            let c = Hex.corners();
            let mut v = mids(
                &c,
                &[
                    &[0, 1],
                    &[0, 3],
                    &[0, 4],
                    &[1, 2],
                    &[1, 5],
                    &[2, 3],
                    &[2, 6],
                    &[3, 7],
                    &[4, 5],
                    &[4, 7],
                    &[5, 6],
                    &[6, 7],
                ],
            );
            if name == "Hex27" {
                v.extend(mids(
                    &c,
                    &[
                        &[0, 1, 2, 3],
                        &[0, 1, 4, 5],
                        &[0, 3, 4, 7],
                        &[1, 2, 5, 6],
                        &[2, 3, 6, 7],
                        &[4, 5, 6, 7],
                        &[0, 1, 2, 3, 4, 5, 6, 7],
                    ],
                ));
            }
            (Hex, 2, v)
        }
        _ => panic!("unknown kind {name}"),
    };
    let mut nodes = shape.corners();
    if name == "Segment3" {
        nodes = vec![[0, 0, 0], [3, 0, 0], [6, 0, 0]]; // middle node in the middle, as fenris documents its faces
    }
    nodes.extend(extra);
    Kind { name, shape, order, nodes }
}

/// The connectivity types under test.
pub trait TestCell: ConnectivityMut + std::fmt::Debug + PartialEq + Send + Sync + 'static
where
    DefaultAllocator: DimAllocator<f64, Self::Dim>,
{
    const NAME: &'static str;
    type Dim: DimName;
    fn make(v: &[usize]) -> Self;
    fn kind() -> Kind {
        kind(Self::NAME)
    }
}

macro_rules! cell {
    ($t:ident, $d:ident, $n:expr) => {
        impl TestCell for $t {
            const NAME: &'static str = $n;
            type Dim = $d;
            fn make(v: &[usize]) -> Self {
                $t(v.try_into().expect("node count"))
            }
        }
    };
}
cell!(Segment2d1Connectivity, U1, "Segment2");
cell!(Segment2d2Connectivity, U2, "Segment2");
cell!(Segment2d3Connectivity, U3, "Segment2");
cell!(Segment3d2Connectivity, U2, "Segment3");
cell!(Segment3d3Connectivity, U3, "Segment3");
cell!(Tri3d2Connectivity, U2, "Tri3");
cell!(Tri3d3Connectivity, U3, "Tri3");
cell!(Tri6d2Connectivity, U2, "Tri6");
cell!(Tri6d3Connectivity, U3, "Tri6");
cell!(Quad4d2Connectivity, U2, "Quad4");
cell!(Quad4d3Connectivity, U3, "Quad4");
cell!(Quad8d3Connectivity, U3, "Quad8");
cell!(Quad9d2Connectivity, U2, "Quad9");
cell!(Quad9d3Connectivity, U3, "Quad9");
cell!(Tet4Connectivity, U3, "Tet4");
cell!(Tet10Connectivity, U3, "Tet10");
cell!(Tet20Connectivity, U3, "Tet20");
cell!(Hex8Connectivity, U3, "Hex8");
cell!(Hex20Connectivity, U3, "Hex20");
cell!(Hex27Connectivity, U3, "Hex27");

/// The cells of a grid of nx x ny x nz boxes of side 6 (for simplices: each box is split into 2 or 6 simplices).
pub fn grid(shape: Shape, n: [usize; 3]) -> Vec<Affine> {
    let mut out = vec![];
    for k in 0..(if shape.dim() > 2 { n[2] } else { 1 }) {
        for j in 0..(if shape.dim() > 1 { n[1] } else { 1 }) {
            for i in 0..n[0] {
                let t = |mut a: Affine| {
                    a.o[0] += 6 * i as i32;
                    a.o[1] += 6 * j as i32;
                    a.o[2] += 6 * k as i32;
                    a
                };
                match shape {
                    Seg | Quad | Hex => out.push(t(Affine::ID)),
                    Tri => {
                        out.push(t(Affine { o: [0, 0, 0], cols: [[1, 0, 0], [1, 1, 0], [0, 0, 1]] }));
                        out.push(t(Affine { o: [0, 0, 0], cols: [[1, 1, 0], [0, 1, 0], [0, 0, 1]] }));
                    }
                    Tet => {
                        let e = [[1, 0, 0], [0, 1, 0], [0, 0, 1]];
                        for p in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]] {
                            let mut acc = [0; 3];
                            let mut cols = [[0; 3]; 3];
                            for s in 0..3 {
                                for r in 0..3 {
                                    acc[r] += e[p[s]][r];
                                }
                                cols[s] = acc;
                            }
                            let mut a = Affine { o: [0; 3], cols };
                            if a.det() < 0 {
                                a.cols.swap(1, 2);
                            }
                            out.push(t(a));
                        }
                    }
                }
            }
        }
    }
    out
}

/// A mesh in lattice coordinates.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Lattice {
    pub vertices: Vec<I3>,
    pub cells: Vec<Vec<usize>>,
}

pub const RELABELLINGS: usize = 4;

/// More numberings, with large numbers (and very many unused vertices).
pub const LARGE_NUMBERS: std::ops::Range<usize> = 4..7;

/// Number the nodes of the cells: 0 by first appearance, 1 reversed, 2 scattered, 3 with unused vertices in between.
pub fn build(kind: &Kind, cells: &[Affine], relabel: usize) -> Lattice {
    let mut ids: HashMap<I3, usize> = HashMap::new();
    let mut vertices = vec![];
    let mut out = vec![];
    for a in cells {
        out.push(
            kind.nodes
                .iter()
                .map(|x| {
                    let p = a.at(*x);
                    *ids.entry(p).or_insert_with(|| {
                        vertices.push(p);
                        vertices.len() - 1
                    })
                })
                .collect::<Vec<_>>(),
        );
    }
    let n = vertices.len();
    let map: Box<dyn Fn(usize) -> usize> = match relabel {
        0 => Box::new(|i| i),
        1 => Box::new(move |i| n - 1 - i),
        2 => {
            let m = (2..).map(|m| m + n / 3).find(|m| gcd(*m, n.max(1)) == 1).unwrap();
            Box::new(move |i| (i * m + 1) % n)
        }
        3 => Box::new(|i| i + i / 2 + 1),
        4 => Box::new(|i| 250 + 3 * i),
        5 => Box::new(|i| 65_530 + i),
        _ => Box::new(|i| 65_536 * (i % 5) + i),
    };
    let total = (0..n).map(|i| map(i) + 1).max().unwrap_or(0);
    let total = if relabel >= 3 { total + 1 } else { total };
    // unused vertices lie elsewhere
    let mut vs: Vec<I3> = (0..total).map(|i| [1000 + i as i32, -7, -5]).collect();
    for (i, v) in vertices.iter().enumerate() {
        vs[map(i)] = *v;
    }
    for c in &mut out {
        for v in c {
            *v = map(*v);
        }
    }
    Lattice { vertices: vs, cells: out }
}

/// Vertex numbers of two digits in some base: keys made by arithmetic on the numbers, or by cutting them off, coincide.
pub const NUMBER_BASES: [usize; 22] =
    [8, 10, 12, 16, 20, 31, 32, 33, 50, 64, 65, 100, 127, 128, 255, 256, 512, 1000, 1024, 4096, 65_535, 65_536];

/// Pairs of cells of `n` nodes on `2 h` vertices whose numbers are 0, 1, ... and base, base + 1, ...; each cell one of
/// `orders` of the nodes that it has. For large bases only cells without a common node.
pub fn two_digit_cells(n: usize, h: usize, base: usize, orders: &[Vec<usize>]) -> Vec<Vec<Vec<usize>>> {
    let labels: Vec<usize> = (0..h).chain(base..base + h).collect();
    let m = labels.len();
    let sets: Vec<Vec<usize>> = (0..1usize << m).filter(|s| s.count_ones() as usize == n).map(|s| (0..m).filter(|i| s >> i & 1 == 1).collect()).collect();
    let mut out = vec![];
    for a in &sets {
        for b in &sets {
            if base > 20_000 && a.iter().any(|x| b.contains(x)) && 2 * n <= m {
                continue;
            }
            for o in orders {
                for q in orders {
                    out.push(vec![o.iter().map(|k| labels[a[*k]]).collect(), q.iter().map(|k| labels[b[*k]]).collect()]);
                }
            }
        }
    }
    out
}

pub fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Typed mesh from a lattice mesh.
pub fn typed<C: TestCell>(l: &Lattice, f: impl Fn(I3) -> [f64; 3]) -> Mesh<f64, C::Dim, C>
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
{
    let vs = l.vertices.iter().map(|v| point::<C::Dim>(f(*v))).collect();
    let cs = l.cells.iter().map(|c| C::make(c)).collect();
    Mesh::from_vertices_and_connectivity(vs, cs)
}

pub fn point<D: DimName>(x: [f64; 3]) -> OPoint<f64, D>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let mut p = OPoint::<f64, D>::origin();
    for i in 0..D::dim() {
        p[i] = x[i];
    }
    p
}

/// Lattice coordinates as reals (reference coordinates for a cell that is not moved).
pub fn plain(v: I3) -> [f64; 3] {
    v.map(|x| x as f64)
}
pub fn to_ref(v: I3) -> [f64; 3] {
    v.map(|x| x as f64 / 3.0 - 1.0)
}
