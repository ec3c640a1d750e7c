//! C12: permutations and mesh reordering.
use checks::asm::run_serial;
use checks::cells::*;
use checks::families::*;
use fenris::allocators::DimAllocator;
use fenris::connectivity::*;
use fenris::mesh::reorder::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::DefaultAllocator;
use hk::*;
use nalgebra_sparse::pattern::SparsityPattern;
use std::collections::BTreeSet;
use std::sync::Arc;

fn is_bijection(p: &[usize]) -> bool {
    p.iter().collect::<BTreeSet<_>>().len() == p.len() && p.iter().all(|x| *x < p.len())
}

fn check_vec(v: &[usize]) -> Verdict {
    let n = v.len();
    let r = no_panic(|| Permutation::from_vec(v.to_vec())).map_err(|e| format!("from_vec panicked: {e}"))?;
    let p = match r {
        Err(_) => {
            ensure!(!is_bijection(v), "a bijection is refused");
            return Ok(Some(digest(v)));
        }
        Ok(p) => p,
    };
    ensure!(is_bijection(v), "not a bijection, but accepted");
    ensure_eq!(p.perm(), v, "stored permutation");
    ensure_eq!(p.len(), n, "length");
    let inv = p.inverse();
    let data: Vec<String> = (0..n).map(|i| format!("item {i}")).collect();
    let out = p.apply_to_slice(&data);
    for i in 0..n {
        ensure_eq!(p.source_index(i), v[i], "source of {i}");
        ensure_eq!(inv.source_index(v[i]), i, "inverse at {}", v[i]);
        ensure_eq!(out[i], data[v[i]], "entry {i} after applying");
    }
    ensure_eq!(inv.apply_to_slice(&out), data, "applying the inverse");
    ensure_eq!(inv.inverse(), p, "inverse of the inverse");
    let mut rev = p.clone();
    rev.reverse();
    ensure_eq!(rev.perm().iter().rev().copied().collect::<Vec<_>>(), v, "reversed");
    let longer: Vec<u8> = vec![0; n + 1];
    ensure!(no_panic(|| p.apply_to_slice(&longer)).is_err(), "applied to a slice of another length");
    Ok(Some(digest(v)))
}

/// Is `order` a concatenation of breadth-first numberings of the components, each from a vertex of least degree,
/// with the new neighbours of every vertex in order of degree?
fn check_cm(adj: &[Vec<usize>], diag: &[bool], order: &[usize]) -> Result<(), String> {
    let n = adj.len();
    ensure!(is_bijection(order) && order.len() == n, "{order:?} is not a permutation of the {n} vertices");
    let uniform = diag.iter().all(|d| *d) || diag.iter().all(|d| !*d);
    let deg = |v: usize| adj[v].len();
    let mut pos = vec![0; n];
    for (i, v) in order.iter().enumerate() {
        pos[*v] = i;
    }
    let mut comp = vec![usize::MAX; n];
    for s in 0..n {
        if comp[s] == usize::MAX {
            let mut st = vec![s];
            comp[s] = s;
            while let Some(v) = st.pop() {
                for &w in &adj[v] {
                    if comp[w] == usize::MAX {
                        comp[w] = s;
                        st.push(w);
                    }
                }
            }
        }
    }
    // sizes and least degrees of the components
    let (mut sizes, mut leasts) = (vec![0; n], vec![usize::MAX; n]);
    for v in 0..n {
        sizes[comp[v]] += 1;
        leasts[comp[v]] = leasts[comp[v]].min(deg(v));
    }
    let mut i = 0;
    while i < n {
        let root = order[i];
        let size = sizes[comp[root]];
        if uniform {
            let least = leasts[comp[root]];
            ensure_eq!(deg(root), least, "degree of the root {root} of its component");
        }
        let mut last = i;
        for j in i + 1..i + size {
            let v = order[j];
            ensure!(comp[v] == comp[root], "position {j} holds {v} of another component before that of {root} is done");
            let parent = adj[v].iter().map(|w| pos[*w]).min().unwrap();
            ensure!(parent < j, "vertex {v} at {j} is numbered before all its neighbours");
            ensure!(parent >= last, "vertex {v} at {j} (reached from position {parent}) comes after one reached from {last}");
            if uniform && parent == last && j > i + 1 {
                let before = order[j - 1];
                ensure!(deg(before) <= deg(v), "neighbours {before}, {v} of one vertex in order of degree");
            }
            last = parent;
        }
        i += size;
    }
    Ok(())
}

fn check_graph(n: usize, mask: u64, diag: &[bool]) -> Verdict {
    let mut adj = vec![vec![]; n];
    let mut b = 0;
    for i in 0..n {
        for j in 0..i {
            if mask >> b & 1 == 1 {
                adj[i].push(j);
                adj[j].push(i);
            }
            b += 1;
        }
    }
    check_adjacency(adj, diag)
}

/// Graphs with many nodes, renumbered by x -> m x + 1.
fn large_graph(kind: usize, n: usize, m: usize) -> Vec<Vec<usize>> {
    let mut edges: Vec<(usize, usize)> = vec![];
    match kind {
        // a path, a cycle, a star
        0 => edges.extend((1..n).map(|i| (i - 1, i))),
        1 => edges.extend((0..n).map(|i| (i, (i + 1) % n))),
        2 => edges.extend((1..n).map(|i| (0, i))),
        // pairs, triangles with a tail
        3 => edges.extend((0..n / 2).map(|i| (2 * i, 2 * i + 1))),
        4 => edges.extend((0..n / 4).flat_map(|i| [(0, 1), (1, 2), (2, 0), (2, 3)].map(|(a, b)| (4 * i + a, 4 * i + b)))),
        // a binary tree, a comb, a strip of a grid
        5 => edges.extend((1..n).map(|i| ((i - 1) / 2, i))),
        // paths of three among many isolated nodes
        8 => edges.extend((0..n / 8).flat_map(|i| [(8 * i, 8 * i + 3), (8 * i, 8 * i + 6)])),
        6 => edges.extend((0..n / 2).flat_map(|i| [(2 * i, 2 * i + 1), (2 * i, (2 * i + 2) % (n / 2 * 2))])),
        _ => edges.extend((0..n).flat_map(|i| [(i, i + 1), (i, i + 7)]).filter(|(a, b)| *b < n && (b - a == 7 || a % 7 != 6))),
    }
    let at = |i: usize| (i * m + 1) % n;
    let mut adj = vec![BTreeSet::new(); n];
    for (a, b) in edges {
        if a != b {
            adj[at(a)].insert(at(b));
            adj[at(b)].insert(at(a));
        }
    }
    adj.into_iter().map(|s| s.into_iter().collect()).collect()
}

fn check_adjacency(adj: Vec<Vec<usize>>, diag: &[bool]) -> Verdict {
    let n = adj.len();
    let (mut off, mut idx) = (vec![0], vec![]);
    for i in 0..n {
        let mut row = adj[i].clone();
        if diag[i] {
            row.push(i);
        }
        row.sort();
        idx.extend(row);
        off.push(idx.len());
    }
    let pat = SparsityPattern::try_from_offsets_and_indices(n, n, off, idx).unwrap();
    let cm = cuthill_mckee(&pat);
    check_cm(&adj, diag, cm.perm()).map_err(|e| format!("Cuthill-McKee {:?}: {e}", cm.perm()))?;
    let rcm = reverse_cuthill_mckee(&pat);
    let back: Vec<usize> = rcm.perm().iter().rev().copied().collect();
    check_cm(&adj, diag, &back).map_err(|e| format!("reverse Cuthill-McKee {:?}: {e}", rcm.perm()))?;
    Ok(Some(digest(&(adj, diag))))
}

fn check_mesh<C: TestCell + Connectivity>(l: &Lattice) -> Result<(), String>
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
    Mesh<f64, C::Dim, C>: Sync,
{
    let mesh: Mesh<f64, C::Dim, C> = typed::<C>(l, |v| [v[0] as f64 + 0.001 * v[2] as f64, v[1] as f64, v[2] as f64]);
    let before = mesh.clone();
    let perm = reorder_mesh_par(&mesh);
    ensure!(mesh == before, "the mesh itself has changed");
    let (vp, cp) = (perm.vertex_permutation().perm(), perm.connectivity_permutation().perm());
    ensure!(vp.len() == l.vertices.len() && is_bijection(vp), "vertex permutation {vp:?}");
    ensure!(cp.len() == l.cells.len() && is_bijection(cp), "cell permutation {cp:?}");
    // the vertex order is a reverse Cuthill-McKee order of the mesh graph
    let n = l.vertices.len();
    let mut adj = vec![BTreeSet::new(); n];
    let mut diag = vec![false; n];
    for c in &l.cells {
        for &a in c {
            diag[a] = true;
            adj[a].extend(c.iter().copied().filter(|b| *b != a));
        }
    }
    let adj: Vec<Vec<usize>> = adj.into_iter().map(|s| s.into_iter().collect()).collect();
    let back: Vec<usize> = vp.iter().rev().copied().collect();
    check_cm(&adj, &diag, &back).map_err(|e| format!("vertex permutation {vp:?}: {e}"))?;

    let new = perm.apply(&mesh);
    ensure_eq!(new.vertices().len(), n, "vertices");
    ensure_eq!(new.connectivity().len(), l.cells.len(), "cells");
    for i in 0..n {
        ensure!(new.vertices()[i] == mesh.vertices()[vp[i]], "vertex {i} is at {:?}", new.vertices()[i]);
    }
    for (j, c) in new.connectivity().iter().enumerate() {
        let old = mesh.connectivity()[cp[j]].vertex_indices();
        ensure_eq!(c.vertex_indices().len(), old.len(), "nodes of cell {j}");
        for (a, b) in c.vertex_indices().iter().zip(old) {
            ensure!(*a < n && vp[*a] == *b, "cell {j} has node {a} (old {}), expected old node {b}", vp.get(*a).unwrap_or(&usize::MAX));
        }
    }
    Ok(())
}

fn meshes<C: TestCell>(ctx: &Arc<Ctx>, name: &str, grids: &[[usize; 3]])
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
    Mesh<f64, C::Dim, C>: Sync,
{
    let k = C::kind();
    let sym = k.shape.symmetries();
    let mut fam: Vec<Lattice> = vec![];
    for g in grids {
        let base = grid(k.shape, *g);
        for mask in 0..1u64 << base.len() {
            let sel: Vec<usize> = (0..base.len()).filter(|i| mask >> i & 1 == 1).collect();
            for rot in 0..2 {
                for r in 0..RELABELLINGS {
                    let cells: Vec<Affine> = sel.iter().map(|i| base[*i].after(&sym[(rot * (i + 1)) % sym.len()])).collect();
                    fam.push(build(&k, &cells, r));
                }
            }
        }
    }
    ctx.suite_over(&format!("{name} meshes"), &fam, |l| format!("{l:?}"), |l| {
        run_serial(3, || check_mesh::<C>(l))??;
        Ok(if l.cells.is_empty() { None } else { Some(digest(l)) })
    });
}

/// Grids with hundreds of vertices: all cells, and without every second, third, … one, under every numbering.
fn larger<C: TestCell>(ctx: &Arc<Ctx>, name: &str, grids: &[[usize; 3]])
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
    Mesh<f64, C::Dim, C>: Sync,
{
    let k = C::kind();
    let mut fam: Vec<([usize; 3], usize, Lattice)> = vec![];
    for g in grids {
        let base = grid(k.shape, *g);
        for step in [0, 2, 3, 7] {
            let cells: Vec<Affine> = (0..base.len()).filter(|i| step == 0 || i % step != 1).map(|i| base[i].clone()).collect();
            for r in 0..RELABELLINGS {
                fam.push((*g, step, build(&k, &cells, r)));
            }
        }
    }
    ctx.suite_over(&format!("{name} larger meshes"), &fam, |(g, s, l)| format!("{g:?} without every {s}th: {} vertices", l.vertices.len()), |(_, _, l)| {
        run_serial(3, || check_mesh::<C>(l))??;
        Ok(Some(digest(l)))
    });
}

fn main() {
    let ctx = Ctx::new(
        "C12",
        Level::ModelChecking,
        "every index vector up to length 5 with entries in and out of range, every graph on up to 6 nodes, every subset of the cells of small grids; parallel reordering on every schedule within the preemption bound",
    );
    let maxlen = ctx.tier(5, 6);
    for n in 0..=maxlen {
        let vals: Vec<usize> = (0..=n + 1).map(|i| if i == n + 1 { usize::MAX } else { i }).collect();
        let m = vals.len() as u64;
        let of = |i: u64| {
            let mut d = Dig(i);
            (0..n).map(|_| *d.pick(&vals)).collect::<Vec<_>>()
        };
        ctx.suite(&format!("index vectors of length {n}"), pow(m, n as u32), |i| format!("{:?}", of(i)), |i| check_vec(&of(i)));
    }
    for n in 0..=ctx.tier(6usize, 7) {
        let e = n * n.saturating_sub(1) / 2;
        let diags: Vec<Vec<bool>> = if n <= 4 {
            (0..1usize << n).map(|m| (0..n).map(|i| m >> i & 1 == 1).collect()).collect()
        } else {
            vec![vec![true; n], vec![false; n], (0..n).map(|i| i % 2 == 0).collect()]
        };
        let k = diags.len() as u64;
        ctx.suite(
            &format!("graphs on {n} nodes"),
            (1u64 << e) * k,
            |i| format!("edge mask {:#b}, diagonal {:?}", i / k, diags[(i % k) as usize]),
            |i| check_graph(n, i / k, &diags[(i % k) as usize]),
        );
    }
    // larger graphs
    let sizes: Vec<usize> = (8..ctx.tier(40, 80)).chain([127, 128, 255, 256, 257, 300, 512, 600]).collect();
    let ns = sizes.len() as u64;
    let of = |i: u64| {
        let mut d = Dig(i);
        let n = *d.pick(&sizes);
        let m = (1..).map(|m| m + n / 3).filter(|m| gcd(*m, n) == 1).nth(d.next(3)).unwrap();
        (d.next(9), n, m, d.bit())
    };
    ctx.suite("structured graphs", ns * 3 * 9 * 2, |i| format!("{:?}", of(i)), |i| {
        let (k, n, m, d) = of(i);
        check_adjacency(large_graph(k, n, m), &vec![d; n])
    });
    let huge = [(2, 65_600), (2, 66_000), (0, 65_600), (3, 65_600), (5, 131_200)];
    ctx.suite_over("graphs with very many nodes", &huge, |h| format!("{h:?}"), |(k, n)| check_adjacency(large_graph(*k, *n, 1), &vec![true; *n]));
    // long index vectors: every swap, every rotation, every repeated or missing entry
    let lens: Vec<usize> = ctx.tier(vec![16, 40, 64, 65, 128, 257], vec![16, 40, 64, 65, 128, 257, 600]);
    for n in lens {
        ctx.suite(&format!("index vectors of length {n}"), (3 * n * n) as u64, |i| format!("{i}"), |i| {
            let mut d = Dig(i);
            let (a, b) = (d.next(n as u64), d.next(n as u64));
            let mut v: Vec<usize> = (0..n).collect();
            match d.0 {
                0 => v.swap(a, b),
                1 => v[a] = b,
                _ => {
                    v.rotate_left(a);
                    v[b..].reverse();
                }
            }
            check_vec(&v)
        });
    }
    // longer ones: every multiset of indices in range, in order and turned about
    for n in maxlen + 1..=ctx.tier(10, 12) {
        let mut all: Vec<Vec<u8>> = vec![];
        let mut v = vec![0u8; n];
        loop {
            all.push(v.clone());
            let Some(k) = (0..n).rev().find(|k| (v[*k] as usize) < n - 1) else { break };
            let x = v[k] + 1;
            v[k..].fill(x);
        }
        ctx.suite_over(&format!("multisets of {n} indices"), &all, |v| format!("{v:?}"), |v| {
            let mut v: Vec<usize> = v.iter().map(|x| *x as usize).collect();
            check_vec(&v)?;
            v.rotate_left(n / 2);
            v.reverse();
            check_vec(&v)
        });
    }
    // (more unused vertices take a time that is quadratic in their number)
    ctx.suite("meshes with large vertex numbers", 16, |i| format!("{i}"), |i| {
        let base = grid(Shape::Quad, [2, 2, 1]);
        let cells: Vec<Affine> = (0..4).filter(|k| i >> k & 1 == 1).map(|k| base[k]).collect();
        run_serial(3, || check_mesh::<Quad4d2Connectivity>(&build(&kind("Quad4"), &cells, LARGE_NUMBERS.start)))??;
        Ok(Some(digest(&i)))
    });
    meshes::<Tri3d2Connectivity>(&ctx, "Tri3d2", &[[2, 2, 1]]);
    meshes::<Quad4d2Connectivity>(&ctx, "Quad4d2", if ctx.thorough { &[[3, 3, 1]] } else { &[[3, 2, 1]] });
    meshes::<Quad9d2Connectivity>(&ctx, "Quad9d2", &[[3, 2, 1]]);
    meshes::<Tet4Connectivity>(&ctx, "Tet4", if ctx.thorough { &[[2, 1, 1]] } else { &[[1, 1, 1]] });
    meshes::<Tet10Connectivity>(&ctx, "Tet10", &[[1, 1, 1]]);
    meshes::<Hex8Connectivity>(&ctx, "Hex8", if ctx.thorough { &[[2, 2, 2]] } else { &[[2, 2, 1]] });
    meshes::<Hex20Connectivity>(&ctx, "Hex20", &[[2, 1, 1]]);
    meshes::<Tri3d3Connectivity>(&ctx, "Tri3d3", &[[2, 1, 1]]);
    meshes::<Segment2d2Connectivity>(&ctx, "Segment2d2", &[[5, 1, 1]]);

    // Larger meshes of elements with many nodes
    larger::<Hex27Connectivity>(&ctx, "Hex27", &[[4, 4, 4], [40, 1, 1]]);
    larger::<Hex20Connectivity>(&ctx, "Hex20", &[[4, 4, 4], [6, 5, 4]]);
    larger::<Tet20Connectivity>(&ctx, "Tet20", &[[3, 3, 3]]);
    larger::<Tet10Connectivity>(&ctx, "Tet10", &[[4, 4, 4]]);
    larger::<Quad9d2Connectivity>(&ctx, "Quad9d2", &[[16, 16, 1], [150, 1, 1]]);
    larger::<Tri6d2Connectivity>(&ctx, "Tri6d2", &[[16, 16, 1]]);

    // All abstract meshes of up to three segments on four nodes (with repeated cells)
    let pairs: Vec<Vec<usize>> = injective_sequences(4, 2).into_iter().filter(|s| s.len() == 2).collect();
    let m = pairs.len() as u64;
    let of = |i: u64| {
        let mut d = Dig(i);
        let c = d.next(4);
        Lattice { vertices: (0..4).map(|i| [i, i * i, 0]).collect(), cells: (0..c).map(|_| d.pick(&pairs).clone()).collect() }
    };
    ctx.suite("segment graphs", 4 * pow(m, 3), |i| format!("{:?}", of(i)), |i| {
        let l = of(i);
        run_serial(3, || check_mesh::<Segment2d2Connectivity>(&l))??;
        Ok(Some(digest(&l)))
    });

    // Parallel reordering, all schedules
    let mut scs: Vec<(Lattice, usize, usize, usize)> = vec![];
    let k = Segment2d2Connectivity::kind();
    let spread = |cells: Vec<Vec<usize>>, n: i32| Lattice { vertices: (0..n).map(|i| [i, i * i, 0]).collect(), cells };
    // cells in different batches share nodes in different row batches
    for (n, step) in [(13usize, 9usize), (13, 12), (23, 11), (23, 7)] {
        let mut cells = vec![vec![0usize, step]; 10];
        cells.push(vec![step, n - 1]);
        cells.push(vec![n - 1, 0]);
        for r in [2, 3] {
            scs.push((spread(cells.clone(), n as i32), r, r, ctx.tier(1, 2)));
        }
    }
    scs.push((build(&k, &grid(Shape::Seg, [12, 1, 1]), 2), 2, 2, ctx.tier(1, 2)));
    scs.push((build(&k, &grid(Shape::Seg, [3, 1, 1]), 3), 3, 3, 2));
    ctx.schedules(
        "parallel reordering",
        &scs,
        |s| {
            let mut c = Config::new(s.1, s.2, s.3);
            c.max_runs = ctx.tier(3_000, 100_000);
            c
        },
        |s| format!("{:?} nodes {} workers={} splits={} preemptions<={}", s.0.cells, s.0.vertices.len(), s.1, s.2, s.3),
        |s| {
            check_mesh::<Segment2d2Connectivity>(&s.0)?;
            Ok(String::new())
        },
    );
    ctx.finish()
}
