//! C08: homogeneous Dirichlet conditions.
use fenris::assembly::global::*;
use fenris::nalgebra::{DMatrix, DVector, U1, U2, U3};
use hk::*;
use nalgebra_sparse::CsrMatrix;

/// Values of a stored entry; variant 3 is strictly diagonally dominant, for the solve.
fn value(variant: usize, i: usize, j: usize, n: usize) -> f64 {
    let off = ((i * 7 + j * 3) % 5) as f64 * 0.3 - 0.7;
    match variant {
        // unsymmetric values, positive diagonal
        0 => if i == j { 2.5 + i as f64 } else { off + 0.01 * i as f64 },
        // negative and differently scaled diagonal
        1 => if i == j { if i == 0 { -1e-3 } else { 1e3 * i as f64 } } else { 1e-5 * (off + 3.0) },
        // the first diagonal entries vanish, and some stored entries are zero
        2 => if i == j { if i + 1 < n { 0.0 } else { -4.0 } } else if (i + j) % 2 == 0 { 0.0 } else { off },
        // dominant
        3 => if i == j { 10.0 + i as f64 } else { off * 0.9 },
        // entries stored as zero whose transposed entry does not vanish
        4 => if i == j { -2.0 } else if (i < j) == (i % 2 == 0) { 0.0 } else { off + 3.0 },
        5 => if i == j { 1e-200 * (1.0 + i as f64) } else { 1e-210 * (off + 3.0) },
        6 => if i == j { 1e200 } else { 1e-12 * (off + 3.0) },
        // no diagonal at all
        _ => if i == j { 0.0 } else { off + 5.0 },
    }
}

struct Case {
    n_nodes: usize,
    d: usize,
    pattern: u64,
    nodes: Vec<usize>,
    variant: usize,
}

impl Case {
    fn stored(&self, i: usize, j: usize) -> bool {
        if i == j {
            return true;
        }
        let (a, b) = (i.min(j), i.max(j));
        let k = b * (b - 1) / 2 + a;
        self.pattern >> k & 1 == 1
    }
}

fn check(c: &Case) -> Verdict {
    let (d, n) = (c.d, c.d * c.n_nodes);
    let mut off = vec![0];
    let (mut idx, mut val) = (vec![], vec![]);
    let mut dense = DMatrix::<f64>::zeros(n, n);
    for i in 0..n {
        for j in 0..n {
            if c.stored(i, j) {
                idx.push(j);
                val.push(value(c.variant, i, j, n));
                dense[(i, j)] = value(c.variant, i, j, n);
            }
        }
        off.push(idx.len());
    }
    let csr0 = CsrMatrix::try_from_csr_data(n, n, off, idx, val).unwrap();
    let fixed: Vec<bool> = (0..n).map(|i| c.nodes.contains(&(i / d))).collect();

    let mut csr = csr0.clone();
    apply_homogeneous_dirichlet_bc_csr(&mut csr, &c.nodes, d);
    ensure!(csr.pattern() == csr0.pattern(), "the sparsity pattern changed");
    let mut dn = dense.clone();
    match d {
        1 => apply_homogeneous_dirichlet_bc_matrix::<f64, U1>(&mut dn, &c.nodes),
        2 => apply_homogeneous_dirichlet_bc_matrix::<f64, U2>(&mut dn, &c.nodes),
        _ => apply_homogeneous_dirichlet_bc_matrix::<f64, U3>(&mut dn, &c.nodes),
    }
    // the order of the list does not matter
    let mut sorted = c.nodes.clone();
    sorted.sort();
    if sorted != c.nodes {
        let mut other = csr0.clone();
        apply_homogeneous_dirichlet_bc_csr(&mut other, &sorted, d);
        ensure!(other.values().iter().zip(csr.values()).all(|(a, b)| a.to_bits() == b.to_bits()), "the order of the nodes matters");
    }
    let mut sp = DMatrix::<f64>::zeros(n, n);
    for (i, j, v) in csr.triplet_iter() {
        sp[(i, j)] = *v;
    }
    for (what, m) in [("sparse", &sp), ("dense", &dn)] {
        for i in 0..n {
            for j in 0..n {
                let v = m[(i, j)];
                if i == j && fixed[i] {
                    ensure!(v != 0.0 && v.is_finite(), "{what}: diagonal entry {i} of a constrained row is {v}");
                } else if fixed[i] || fixed[j] {
                    ensure!(v == 0.0, "{what}: entry ({i}, {j}) is {v}");
                } else {
                    ensure_eq!(v.to_bits(), dense[(i, j)].to_bits(), "{what}: entry ({i}, {j})");
                }
            }
        }
    }
    // right-hand side
    let rhs0 = DVector::from_fn(n, |i, _| (i as f64 + 1.5) * if i % 2 == 0 { 1.0 } else { -1.0 });
    let mut rhs = rhs0.clone();
    apply_homogeneous_dirichlet_bc_rhs(&mut rhs, &c.nodes, d);
    for i in 0..n {
        if fixed[i] {
            ensure!(rhs[i] == 0.0, "right-hand side {i} is {}", rhs[i]);
        } else {
            ensure_eq!(rhs[i].to_bits(), rhs0[i].to_bits(), "right-hand side {i}");
        }
    }
    // the constrained system against the system restricted to the free unknowns
    if c.variant == 3 && n > 0 {
        let free: Vec<usize> = (0..n).filter(|i| !fixed[*i]).collect();
        let sub = DMatrix::from_fn(free.len(), free.len(), |i, j| dense[(free[i], free[j])]);
        let subb = DVector::from_fn(free.len(), |i, _| rhs0[free[i]]);
        let x = if free.is_empty() { DVector::zeros(0) } else { sub.lu().solve(&subb).ok_or("restricted system is singular")? };
        for (what, m) in [("sparse", sp), ("dense", dn)] {
            let y = m.lu().solve(&rhs).ok_or(format!("the {what} constrained system is singular"))?;
            for i in 0..n {
                let want = free.iter().position(|k| *k == i).map_or(0.0, |k| x[k]);
                ensure!((y[i] - want).abs() <= 1e-9 * (1.0 + want.abs()), "{what}: unknown {i} is {} instead of {want}", y[i]);
            }
        }
    }
    Ok(if c.nodes.is_empty() || c.pattern == 0 { None } else { Some(digest(&(c.n_nodes, c.d, c.pattern, &c.nodes, c.variant))) })
}

fn lists(n: usize) -> Vec<Vec<usize>> {
    // every ordered selection, and lists with a repeated node
    let mut out: Vec<Vec<usize>> = checks::families::injective_sequences(n, n);
    for s in checks::families::sequences(n, 2.min(n)) {
        if s.len() == 2 && s[0] == s[1] {
            out.push(s);
        }
    }
    out
}

fn main() {
    let ctx = Ctx::new(
        "C08",
        Level::Exploration,
        "every symmetric sparsity pattern with a full diagonal x every ordered list of constrained nodes x eight kinds of values (entries from 1e-210 to 1e200, stored zeros); non-trivial if a node is constrained and an off-diagonal entry is stored",
    );
    for (n_nodes, d) in ctx.tier(
        vec![(0usize, 1usize), (1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3)],
        vec![(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3)],
    ) {
        let n = n_nodes * d;
        let pairs = (n * n.saturating_sub(1) / 2) as u32;
        let ls = lists(n_nodes);

        let stride: u64 = 1;
        let np = (1u64 << pairs).div_ceil(stride);
        let of = |i: u64| {
            let mut g = Dig(i);
            let variant = g.next(8);
            let nodes = g.pick(&ls).clone();
            Case { n_nodes, d, pattern: g.0 * stride, nodes, variant }
        };
        ctx.suite(
            &format!("{n_nodes} nodes of dimension {d}"),
            8 * ls.len() as u64 * np,
            |i| {
                let c = of(i);
                format!("pattern {:b}, nodes {:?}, values {}", c.pattern, c.nodes, c.variant)
            },
            |i| check(&of(i)),
        );
    }
    // numbers that do not fit a byte (or two)
    let sizes = [(255usize, 1usize), (256, 1), (257, 1), (300, 2), (100, 3), (66_000, 1), (33_000, 2), (22_000, 3)];
    let large = |n: usize, d: usize, which: usize, variant: usize, shape: usize| -> Verdict {
        let nodes: Vec<usize> = match which {
            0 => vec![n - 1],
            1 => (0..n).rev().collect(),
            2 => (0..n).filter(|k| k % 2 == 1).collect(),
            3 => vec![0, n / 2, 255.min(n - 1), 256.min(n - 1), 65_535.min(n - 1), 65_536.min(n - 1), n / 2],
            _ => (0..n).step_by((n / 3).max(1)).rev().collect(),
        };
        let dof = n * d;
        // neighbours, an arrow, or (if it is not too large) everything
        let stored = |i: usize| -> Vec<usize> {
            match shape {
                0 => (i.saturating_sub(d)..(i + d + 1).min(dof)).collect(),
                1 => if i == dof / 2 { (0..dof).collect() } else { let mut v = vec![i, dof / 2]; v.sort(); v },
                _ => if dof <= 600 { (0..dof).collect() } else { (i / 6 * 6..(i / 6 * 6 + 6).min(dof)).collect() },
            }
        };
        let (mut off, mut idx, mut val) = (vec![0], vec![], vec![]);
        for i in 0..dof {
            for j in stored(i) {
                idx.push(j);
                val.push(value(variant, i, j, dof));
            }
            off.push(idx.len());
        }
        let m0 = CsrMatrix::try_from_csr_data(dof, dof, off, idx, val).unwrap();
        let mut m = m0.clone();
        apply_homogeneous_dirichlet_bc_csr(&mut m, &nodes, d);
        ensure!(m.pattern() == m0.pattern(), "the sparsity pattern changed");
        let mut fixed = vec![false; dof];
        nodes.iter().for_each(|k| fixed[k * d..(k + 1) * d].fill(true));
        let entry = |i: usize, j: usize, v: f64, old: f64, what: &str| -> Result<(), String> {
            if i == j && fixed[i] {
                ensure!(v != 0.0 && v.is_finite(), "{what}: diagonal entry {i} of a constrained row is {v}");
            } else if fixed[i] || fixed[j] {
                ensure!(v == 0.0, "{what}: entry ({i}, {j}) is {v}");
            } else {
                ensure_eq!(v.to_bits(), old.to_bits(), "{what}: entry ({i}, {j})");
            }
            Ok(())
        };
        for ((i, j, v), (_, _, old)) in m.triplet_iter().zip(m0.triplet_iter()) {
            entry(i, j, *v, *old, "sparse")?;
        }
        if dof <= 600 {
            let mut m = DMatrix::zeros(dof, dof);
            m0.triplet_iter().for_each(|(i, j, v)| m[(i, j)] = *v);
            let old = m.clone();
            match d {
                1 => apply_homogeneous_dirichlet_bc_matrix::<f64, U1>(&mut m, &nodes),
                2 => apply_homogeneous_dirichlet_bc_matrix::<f64, U2>(&mut m, &nodes),
                _ => apply_homogeneous_dirichlet_bc_matrix::<f64, U3>(&mut m, &nodes),
            }
            for i in 0..dof {
                for j in 0..dof {
                    entry(i, j, m[(i, j)], old[(i, j)], "dense")?;
                }
            }
        }
        let mut rhs = DVector::from_fn(dof, |i, _| i as f64 + 1.5);
        apply_homogeneous_dirichlet_bc_rhs(&mut rhs, &nodes, d);
        for i in 0..dof {
            ensure!(rhs[i] == if fixed[i] { 0.0 } else { i as f64 + 1.5 }, "right-hand side {i} is {}", rhs[i]);
        }
        Ok(Some(digest(&(n, d, which, variant, shape))))
    };
    ctx.suite("large systems", sizes.len() as u64 * 5 * 4 * 3, |i| format!("case {i}"), |i| {
        let mut g = Dig(i);
        let ((n, d), which, variant, shape) = (*g.pick(&sizes), g.next(5), *g.pick(&[0usize, 2, 4, 7]), g.next(3));
        large(n, d, which, variant, shape)
    });
    // every number of nodes
    let most = ctx.tier(250u64, 700);
    ctx.suite("every number of nodes", most * 5 * 3 * 3, |i| format!("case {i}"), |i| {
        let mut g = Dig(i);
        let (which, shape, d) = (g.next(5), g.next(3), g.next(3) + 1);
        large(g.0 as usize + 1, d, which, [0, 2, 4, 7][g.0 as usize % 4], shape)
    });
    ctx.finish()
}
