//! Harness element assemblers with integer contributions, and the reference assembly.
use fenris::assembly::local::{
    ElementConnectivityAssembler, ElementMatrixAssembler, ElementScalarAssembler, ElementVectorAssembler,
};
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorViewMut};
use fenris_nested_vec::NestedVec;
use fenris_paradis::DisjointSubsets;
use fenris_traits::Real;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Elems {
    pub nodes: Vec<Vec<usize>>,
    pub num_nodes: usize,
    pub sdim: usize,
    pub seed: u64,
    /// Elements whose computation fails.
    pub fail: u64,
    /// One more that fails, beyond what fits the mask.
    pub fail_far: Option<usize>,
    /// An element and the index of a special value that a third of its entries take.
    pub odd: Option<(usize, usize)>,
    /// Add a scheduling point at each call-back.
    pub yields: bool,
}

/// Values of contributions that are not ordinary numbers, or at the ends of their range.
pub const ODD: [f64; 6] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 5e-324, -0.0];

/// Equal, or both not a number.
pub fn same_value(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// Small problems in which one element contributes special values.
pub fn odd_problems() -> Vec<Elems> {
    let mut out = vec![];
    let bases: [&[&[usize]]; 6] =
        [&[&[0, 1], &[2, 3]], &[&[1, 0], &[3, 2], &[1, 2]], &[&[0], &[1], &[2]], &[&[0, 2, 4], &[1, 3, 5], &[4, 1]], &[&[], &[1, 0], &[2]], &[&[0, 1], &[0, 1], &[1, 0], &[1]]];
    for b in bases {
        for sdim in 1..=3 {
            for o in 0..b.len() {
                for k in 0..ODD.len() {
                    for seed in [1, 2] {
                        let mut e = Elems::new(b.iter().map(|n| n.to_vec()).collect(), 6, sdim);
                        e.seed = seed;
                        e.odd = Some((o, k));
                        out.push(e);
                    }
                }
            }
        }
    }
    out
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

impl Elems {
    pub fn new(nodes: Vec<Vec<usize>>, num_nodes: usize, sdim: usize) -> Self {
        Elems { nodes, num_nodes, sdim, seed: 1, fail: 0, fail_far: None, odd: None, yields: false }
    }

    /// The magnitude of the contributions: a power of two that depends on the seed.
    pub fn scale(&self) -> f64 {
        [1.0, 2f64.powi(-90), 2f64.powi(-40), 2f64.powi(300), 1.0, 2f64.powi(70), 2f64.powi(-700)][(self.seed % 7) as usize]
    }

    /// Entry of an element contribution: a multiple of the scale by an integer of at most 40 bits, so that all sums
    /// are exact. For some seeds zero and negative entries and elements of different magnitudes occur.
    pub fn entry(&self, e: usize, i: usize, j: usize) -> f64 {
        if let Some((o, k)) = self.odd {
            if o == e && (i + j) % 3 == 0 {
                return ODD[k];
            }
        }
        let h = mix(self.seed.wrapping_mul(1_000_003) ^ ((e as u64) << 40) ^ ((i as u64) << 20) ^ j as u64);
        let mut x = (h % (1 << 20)) as f64 + 1.0;
        if self.seed % 3 == 1 {
            let k = h >> 32;
            if k % 8 == 0 {
                x = 0.0;
            }
            if k % 16 < 7 {
                x = -x;
            }
            if e % 2 == 1 {
                x *= (1 << 20) as f64;
            }
        }
        x * self.scale()
    }

    pub fn dense(&self) -> DMatrix<f64> {
        let n = self.sdim * self.num_nodes;
        let mut m = DMatrix::zeros(n, n);
        self.add_to_dense(&mut m);
        m
    }

    pub fn add_to_dense(&self, m: &mut DMatrix<f64>) {
        let s = self.sdim;
        for (e, ns) in self.nodes.iter().enumerate() {
            for (a, &na) in ns.iter().enumerate() {
                for (b, &nb) in ns.iter().enumerate() {
                    for i in 0..s {
                        for j in 0..s {
                            m[(s * na + i, s * nb + j)] += self.entry(e, s * a + i, s * b + j);
                        }
                    }
                }
            }
        }
    }

    pub fn vector(&self) -> DVector<f64> {
        let s = self.sdim;
        let mut v = DVector::zeros(s * self.num_nodes);
        for (e, ns) in self.nodes.iter().enumerate() {
            for (a, &na) in ns.iter().enumerate() {
                for i in 0..s {
                    v[s * na + i] += self.entry(e, s * a + i, 777);
                }
            }
        }
        v
    }

    pub fn scalar(&self) -> f64 {
        (0..self.nodes.len()).map(|e| self.entry(e, 555, 999)).sum()
    }

    /// The coupled degrees of freedom, row by row, sorted.
    pub fn coupling(&self) -> Vec<Vec<usize>> {
        let s = self.sdim;
        let mut rows = vec![std::collections::BTreeSet::new(); s * self.num_nodes];
        for ns in &self.nodes {
            for &a in ns {
                for &b in ns {
                    for i in 0..s {
                        for j in 0..s {
                            rows[s * a + i].insert(s * b + j);
                        }
                    }
                }
            }
        }
        rows.into_iter().map(|r| r.into_iter().collect()).collect()
    }

    pub fn nested(&self) -> NestedVec<usize> {
        NestedVec::from(&self.nodes)
    }

    /// First-fit colouring, independent of the library's.
    pub fn first_fit_colors(&self) -> Vec<Vec<usize>> {
        let mut colors: Vec<Vec<usize>> = vec![];
        for e in 0..self.nodes.len() {
            let free = |c: &Vec<usize>| c.iter().all(|o| !self.nodes[*o].iter().any(|n| self.nodes[e].contains(n)));
            match colors.iter().position(free) {
                Some(c) => colors[c].push(e),
                None => colors.push(vec![e]),
            }
        }
        colors
    }

    pub fn disjoint(&self, colors: &[Vec<usize>]) -> Vec<DisjointSubsets> {
        colors
            .iter()
            .map(|c| {
                let subsets: Vec<Vec<usize>> = c.iter().map(|e| self.nodes[*e].clone()).collect();
                DisjointSubsets::try_from_disjoint_subsets(subsets, c.clone()).expect("disjoint colours")
            })
            .collect()
    }

    pub fn fails(&self, e: usize) -> bool {
        (e < 64 && self.fail >> e & 1 == 1) || self.fail_far == Some(e)
    }

    fn yp(&self) {
        if self.yields {
            mcsched::yield_point();
        }
    }

    fn fail(&self, e: usize) -> eyre::Result<()> {
        if self.fails(e) {
            Err(eyre::eyre!("injected failure of element {e}."))
        } else {
            Ok(())
        }
    }
}

impl ElementConnectivityAssembler for Elems {
    fn solution_dim(&self) -> usize {
        self.sdim
    }
    fn num_elements(&self) -> usize {
        self.nodes.len()
    }
    fn num_nodes(&self) -> usize {
        self.num_nodes
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.nodes[e].len()
    }
    fn populate_element_nodes(&self, out: &mut [usize], e: usize) {
        if !self.nodes[e].is_empty() {
            self.yp();
        }
        out.copy_from_slice(&self.nodes[e]);
    }
}

impl<T: Real> ElementMatrixAssembler<T> for Elems {
    fn assemble_element_matrix_into(&self, e: usize, mut out: DMatrixViewMut<T>) -> eyre::Result<()> {
        self.yp();
        let n = self.sdim * self.nodes[e].len();
        assert_eq!(out.shape(), (n, n), "shape of the element matrix");
        for j in 0..n {
            for i in 0..n {
                out[(i, j)] = fenris::nalgebra::convert(self.entry(e, i, j));
            }
        }
        self.yp();
        self.fail(e)
    }
}

impl<T: Real> ElementVectorAssembler<T> for Elems {
    fn assemble_element_vector_into(&self, e: usize, mut out: DVectorViewMut<T>) -> eyre::Result<()> {
        self.yp();
        let n = self.sdim * self.nodes[e].len();
        assert_eq!(out.len(), n, "length of the element vector");
        for i in 0..n {
            out[i] = fenris::nalgebra::convert(self.entry(e, i, 777));
        }
        self.yp();
        self.fail(e)
    }
}

impl<T: Real> ElementScalarAssembler<T> for Elems {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<T> {
        self.yp();
        self.fail(e)?;
        Ok(fenris::nalgebra::convert(self.entry(e, 555, 999)))
    }
}

/// Dense form of a CSR matrix, with a check that it is well formed and has exactly the given coupling.
pub fn csr_to_dense(m: &nalgebra_sparse::CsrMatrix<f64>) -> DMatrix<f64> {
    let mut d = DMatrix::zeros(m.nrows(), m.ncols());
    for (i, j, v) in m.triplet_iter() {
        d[(i, j)] += *v;
    }
    d
}

pub fn check_pattern(p: &nalgebra_sparse::pattern::SparsityPattern, want: &[Vec<usize>]) -> Result<(), String> {
    if p.major_dim() != want.len() || p.minor_dim() != want.len() {
        return Err(format!("pattern is {}x{}, expected {n}x{n}", p.major_dim(), p.minor_dim(), n = want.len()));
    }
    let off = p.major_offsets();
    if off.len() != want.len() + 1 || off[0] != 0 || *off.last().unwrap() != p.minor_indices().len() {
        return Err(format!("invalid offsets {off:?}"));
    }
    for (i, w) in want.iter().enumerate() {
        let got = &p.minor_indices()[off[i]..off[i + 1]];
        if got != w.as_slice() {
            return Err(format!("row {i} has columns {got:?}, expected {w:?}"));
        }
    }
    Ok(())
}

/// Run a closure under the controlled scheduler without any concurrency (for parallel entry points in suites that
/// enumerate inputs).
pub fn run_serial<R: Send>(splits: usize, f: impl Fn() -> R + Sync) -> Result<R, String> {
    let slot = std::sync::Mutex::new(None);
    let once = mcsched::run_once(&mcsched::Config::new(1, splits, 0), &[], &|| {
        match hk::no_panic(&f) {
            Ok(r) => {
                *slot.lock().unwrap() = Some(r);
                Ok(String::new())
            }
            Err(p) => Err(format!("panicked: {p}")),
        }
    });
    once.result?;
    Ok(slot.into_inner().unwrap().unwrap())
}

/// Problems whose numbers of nodes, elements, element nodes or colours do not fit a byte (or two).
pub fn large() -> Vec<(String, Elems)> {
    let mut out: Vec<(String, Elems)> = vec![];
    let mut add = |name: &str, nodes: Vec<Vec<usize>>, sdims: &[usize]| {
        for &s in sdims {
            let n = nodes.iter().flatten().max().map_or(0, |m| m + 1) + s % 2;
            let mut e = Elems::new(nodes.clone(), n, s);
            e.seed = 40 + out.len() as u64;
            out.push((format!("{name}, {} elements on {n} nodes, dimension {s}", nodes.len()), e));
        }
    };
    for n in [257usize, 300] {
        add("path", (0..n).map(|k| vec![k, k + 1]).collect(), &[1, 2, 3]);
        add("star", (0..n).map(|k| vec![n, k]).collect(), &[1, 2]);
        add("star backwards", (0..n).rev().map(|k| vec![k, n / 2 + 1000]).collect(), &[1, 3]);
        add("one element", vec![(0..n).map(|k| (k * 7 + 3) % (n + 4)).collect::<std::collections::BTreeSet<_>>().into_iter().rev().collect()], &[1]);
        add("copies", vec![vec![1, 0]; n], &[1, 2]);
    }
    add("wide elements", vec![(0..60).collect(), (50..100).rev().collect(), (0..100).step_by(3).collect()], &[1, 2, 3]);
    // every small number of unknowns at a node, and some large ones
    let dims: Vec<usize> = (4..=33).chain([40, 64, 65, 100, 129, 256, 257]).collect();
    add("two elements", vec![vec![2, 0, 1], vec![3, 1]], &dims);
    add("far apart", vec![vec![0, 65_536], vec![65_535, 131_072, 7], vec![255, 256, 257], vec![131_072, 1], vec![], vec![256]], &[1, 2, 3]);
    let id = |i: usize, j: usize| j * 21 + i;
    let quads: Vec<Vec<usize>> = (0..400).map(|c| (c % 20, c / 20)).map(|(i, j)| vec![id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)]).collect();
    add("grid", quads.iter().rev().cloned().collect(), &[1, 3]);
    add("grid", quads, &[1, 2]);
    add("path", (0..66_000).map(|k| vec![k + 1, k]).collect(), &[1, 2]);
    add("apart", (0..70_000).map(|k| vec![k / 2 * 2]).collect(), &[1]);
    out
}

/// `n` elements: a path (shape 0) or fans around node 0 that also share node 1, or only node 0 (shapes 1, 2).
pub fn sweep(n: usize, shape: usize) -> Elems {
    let nodes = match shape {
        0 => (0..n).map(|k| vec![k, k + 1]).collect(),
        1 => (0..n).map(|k| vec![0, k + 2, 1]).collect(),
        _ => (0..n).map(|k| vec![n - k, 0]).collect(),
    };
    let mut e = Elems::new(nodes, n + 2, 1);
    e.seed = n as u64 % 5;
    e
}

impl Elems {
    /// The sum of the element matrices, row by row.
    pub fn sparse(&self) -> Vec<std::collections::BTreeMap<usize, f64>> {
        let s = self.sdim;
        let mut m = vec![std::collections::BTreeMap::new(); s * self.num_nodes];
        for (e, ns) in self.nodes.iter().enumerate() {
            for (a, &na) in ns.iter().enumerate() {
                for (b, &nb) in ns.iter().enumerate() {
                    for i in 0..s {
                        for j in 0..s {
                            *m[s * na + i].entry(s * nb + j).or_insert(0.0) += self.entry(e, s * a + i, s * b + j);
                        }
                    }
                }
            }
        }
        m
    }

    /// First-fit colours, for large problems.
    pub fn large_colors(&self) -> Vec<Vec<usize>> {
        let mut taken: Vec<std::collections::BTreeSet<usize>> = vec![Default::default(); self.num_nodes];
        let mut colors: Vec<Vec<usize>> = vec![];
        for (e, ns) in self.nodes.iter().enumerate() {
            let c = (0..).find(|c| !ns.iter().any(|n| taken[*n].contains(c))).unwrap();
            ns.iter().for_each(|n| {
                taken[*n].insert(c);
            });
            colors.resize(colors.len().max(c + 1), vec![]);
            colors[c].push(e);
        }
        colors
    }
}
