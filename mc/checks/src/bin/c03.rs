//! C03: matrix assembly.
use checks::asm::*;
use checks::families::*;
use checks::sc::Sc;
use fenris::assembly::global::{color_nodes, CsrAssembler, CsrParAssembler};
use fenris::nalgebra::DMatrix;
use fenris_paradis::coloring::sequential_greedy_coloring;
use fenris_paradis::{DisjointSubsets, ParallelIndexedCollection};
use fenris_sparse::ParallelCsrRowCollection;
use hk::*;
use nalgebra_sparse::pattern::SparsityPattern;
use nalgebra_sparse::CsrMatrix;
use rayon::iter::ParallelIterator;

fn plain(m: CsrMatrix<Sc>) -> CsrMatrix<f64> {
    let (off, idx, v) = m.disassemble();
    CsrMatrix::try_from_csr_data(off.len() - 1, off.len() - 1, off, idx, v.into_iter().map(|x| x.0).collect()).unwrap()
}

fn same(got: &CsrMatrix<f64>, want: &DMatrix<f64>, coupling: &[Vec<usize>], what: &str) -> Result<(), String> {
    check_pattern(got.pattern(), coupling).map_err(|e| format!("{what}: {e}"))?;
    let d = csr_to_dense(got);
    for i in 0..want.nrows() {
        for j in 0..want.ncols() {
            ensure!(d[(i, j)] == want[(i, j)], "{what}: entry ({i}, {j}) is {} instead of {}", d[(i, j)], want[(i, j)]);
        }
    }
    Ok(())
}

/// A matrix with the given rows of columns and recognisable values.
fn start_matrix<T: Clone>(rows: &[Vec<usize>], f: impl Fn(usize, usize) -> T) -> CsrMatrix<T> {
    let n = rows.len();
    let mut off = vec![0];
    let (mut idx, mut val) = (vec![], vec![]);
    for (i, r) in rows.iter().enumerate() {
        for &j in r {
            idx.push(j);
            val.push(f(i, j));
        }
        off.push(idx.len());
    }
    CsrMatrix::try_from_csr_data(n, n, off, idx, val).unwrap()
}

fn init(i: usize, j: usize) -> f64 {
    -(((i * 31 + j * 7) % 97) as f64) - 3.0
}

/// Rows with everything the elements couple, and more.
fn superset(e: &Elems) -> Vec<Vec<usize>> {
    let n = e.sdim * e.num_nodes;
    e.coupling()
        .into_iter()
        .enumerate()
        .map(|(i, mut r)| {
            for j in 0..n {
                if (i * 3 + j * 5) % 4 != 0 && !r.contains(&j) {
                    r.push(j);
                }
            }
            r.sort();
            r
        })
        .collect()
}

fn init_dense(rows: &[Vec<usize>], scale: f64) -> DMatrix<f64> {
    let mut m = DMatrix::zeros(rows.len(), rows.len());
    for (i, r) in rows.iter().enumerate() {
        for &j in r {
            m[(i, j)] = init(i, j) * scale;
        }
    }
    m
}

fn problems(seqs: &[Vec<usize>], n: u32, sdims: &'static [usize], i: u64) -> Elems {
    let mut d = Dig(i);
    let sdim = *d.pick(sdims);
    let nodes: Vec<Vec<usize>> = (0..n).map(|_| d.pick(seqs).clone()).collect();
    let mut e = Elems::new(nodes, 5, sdim);
    e.seed = i + 1;
    e
}

fn main() {
    let ctx = Ctx::new(
        "C03",
        Level::ModelChecking,
        "every connectivity within the bound (ordered elements with distinct nodes) x solution dimension; every schedule of the parallel scatter up to the preemption bound, with a scheduling point inside every addition; every reuse sequence of problems up to the depth",
    );
    ctx.assume("element matrices hold integers times a power of two (of both signs, zeros among them, from 2^-700 to 2^300), so sums are exact and any lost or doubled contribution is visible");
    ctx.assume("elements list distinct nodes (an element with a repeated node is outside of what the assemblers accept)");

    // 1. Inputs.
    let seqs = injective_sequences(4, 3);
    static SD: [usize; 3] = [1, 2, 3];
    static SD2: [usize; 2] = [1, 2];
    for n in 0..=ctx.tier(3u32, 3) {
        let sdims: &'static [usize] = if n <= 2 || ctx.thorough { &SD } else { &SD2[..1] };
        ctx.suite(
            &format!("{n} elements"),
            pow(seqs.len() as u64, n) * sdims.len() as u64,
            |i| format!("{:?}", problems(&seqs, n, sdims, i)),
            |i| {
                let e = problems(&seqs, n, sdims, i);
                let (want, coupling) = (e.dense(), e.coupling());
                let serial = CsrAssembler::<f64>::default();
                let m = serial.assemble(&e).map_err(|x| format!("{x:?}"))?;
                same(&m, &want, &coupling, "serial")?;
                let rows = superset(&e);
                let mut into = start_matrix(&rows, |i, j| init(i, j) * e.scale());
                serial.assemble_into_csr(&mut into, &e).map_err(|x| format!("{x:?}"))?;
                let sum = init_dense(&rows, e.scale()) + &want;
                same(&into, &sum, &rows, "serial into existing")?;
                {
                    let colors = sequential_greedy_coloring(&e.nested());
                    let (a, b) = run_serial(4, || {
                        let par = CsrParAssembler::<f64>::default();
                        let m = par.assemble(&colors, &e).map_err(|x| format!("{x:?}"));
                        let mut into = start_matrix(&rows, |i, j| init(i, j) * e.scale());
                        let r = par.assemble_into_csr(&mut into, &colors, &e).map_err(|x| format!("{x:?}"));
                        (m, r.map(|_| into))
                    })?;
                    same(&a?, &want, &coupling, "parallel")?;
                    same(&b?, &sum, &rows, "parallel into existing")?;
                }
                Ok(if e.nodes.iter().any(|x| x.len() > 1) { Some(i) } else { None })
            },
        );
    }

    // 2. Reuse histories: all sequences of problems of different shapes on one assembler.
    let mut pool = vec![
        Elems::new(vec![vec![2, 0, 1], vec![1, 3]], 4, 1),
        Elems::new(vec![vec![1, 0], vec![]], 3, 2),
        Elems::new(vec![vec![4, 2, 0, 3], vec![1]], 5, 1),
        Elems::new(vec![], 2, 3),
        Elems::new(vec![vec![0, 2], vec![3, 1]], 4, 3),
        Elems::new(vec![vec![1, 0, 2]], 3, 2),
        {
            let mut f = Elems::new(vec![vec![0, 1, 2], vec![3, 2], vec![1, 4, 0]], 5, 2);
            f.fail = 0b110;
            f
        },
    ];
    for (i, p) in pool.iter_mut().enumerate() {
        p.seed = 100 + i as u64;
    }
    let k = pool.len() as u64;
    let depth = ctx.tier(4, 5);
    ctx.suite(
        &format!("reuse histories of length {depth}"),
        pow(k, depth),
        |i| {
            let mut d = Dig(i);
            format!("problems {:?}", (0..depth).map(|_| d.next(k)).collect::<Vec<_>>())
        },
        |i| {
            let mut d = Dig(i);
            let hist: Vec<&Elems> = (0..depth).map(|_| d.pick(&pool)).collect();
            let serial = CsrAssembler::<f64>::default();
            for (t, e) in hist.iter().enumerate() {
                match serial.assemble(*e) {
                    Ok(m) => {
                        ensure_eq!(e.fail, 0, "serial step {t} succeeded although an element failed");
                        same(&m, &e.dense(), &e.coupling(), &format!("serial step {t}"))?
                    }
                    Err(x) => ensure!(e.fail != 0, "serial step {t}: {x:?}"),
                }
            }
            let rs: Vec<Result<CsrMatrix<f64>, String>> = run_serial(2, || {
                let par = CsrParAssembler::<f64>::default();
                hist.iter()
                    .map(|e| par.assemble(&sequential_greedy_coloring(&e.nested()), *e).map_err(|x| format!("{x:?}")))
                    .collect()
            })?;
            for (t, (e, r)) in hist.iter().zip(rs).enumerate() {
                match r {
                    Ok(m) => {
                        ensure_eq!(e.fail, 0, "parallel step {t} succeeded although an element failed");
                        same(&m, &e.dense(), &e.coupling(), &format!("parallel step {t}"))?
                    }
                    Err(x) => ensure!(e.fail != 0, "parallel step {t}: {x}"),
                }
            }
            Ok(Some(i))
        },
    );
    ctx.count("histories", pow(k, depth));

    // Numbers that do not fit a byte (or two); then everything again with the same assemblers.
    let big = large();
    let every = |e: &Elems, i: u64| -> Verdict {
        let want = e.sparse();
        let cmp = |m: &CsrMatrix<f64>, what: &str, twice: f64| -> Result<(), String> {
            let coupling: Vec<Vec<usize>> = want.iter().map(|r| r.keys().copied().collect()).collect();
            check_pattern(m.pattern(), &coupling).map_err(|e| format!("{what}: {}", e.chars().take(300).collect::<String>()))?;
            for (r, row) in want.iter().enumerate() {
                for ((c, v), g) in row.iter().zip(m.row(r).values()) {
                    ensure!(same_value(*g, v * twice), "{what}: entry ({r}, {c}) is {g} instead of {}", v * twice);
                }
            }
            Ok(())
        };
        if i % 2 == 0 {
            let serial = CsrAssembler::<f64>::default();
            let mut m = serial.assemble(e).map_err(|x| format!("{x:?}"))?;
            cmp(&m, "serial", 1.0)?;
            serial.assemble_into_csr(&mut m, e).map_err(|x| format!("{x:?}"))?;
            cmp(&m, "serial into existing", 2.0)?;
        } else {
            let colors = e.disjoint(&e.large_colors());
            let (a, b) = run_serial(4, || {
                let par = CsrParAssembler::<f64>::default();
                let m = par.assemble(&colors, e).map_err(|x| format!("{x:?}"));
                let mut into = m.clone().unwrap();
                let r = par.assemble_into_csr(&mut into, &colors, e).map_err(|x| format!("{x:?}"));
                (m, r.map(|_| into))
            })?;
            cmp(&a?, "parallel", 1.0)?;
            cmp(&b?, "parallel into existing", 2.0)?;
        }
        Ok(Some(i))
    };
    ctx.suite("large problems", big.len() as u64 * 2, |i| big[i as usize / 2].0.clone(), |i| every(&big[i as usize / 2].1, i));
    let odd = odd_problems();
    ctx.suite("special values", odd.len() as u64 * 2, |i| format!("{:?}", odd[i as usize / 2]), |i| every(&odd[i as usize / 2], i));
    let top = ctx.tier(1000u64, 1500);
    ctx.suite("every number of elements", 6 * (top + 1), |i| format!("{} elements, shape {}", i / 6, i / 2 % 3), |i| every(&sweep(i as usize / 6, i as usize / 2 % 3), i));

    // 3. Schedules.
    #[derive(Clone, Debug)]
    struct S {
        elems: Elems,
        colors: Vec<Vec<usize>>,
        workers: usize,
        splits: usize,
        preempt: usize,
        into: bool,
    }
    let mut scs = vec![];
    let fams: Vec<(Vec<Vec<usize>>, usize)> = vec![
        (vec![vec![0, 1], vec![2, 3]], 4),
        (vec![vec![1, 0], vec![3, 2], vec![1, 2]], 4),
        (vec![vec![0], vec![1], vec![2]], 3),
        (vec![vec![0, 2, 4], vec![1, 3, 5], vec![4, 1]], 6),
        (vec![vec![3, 0], vec![0, 1], vec![1, 2], vec![2, 3]], 4),
        (vec![vec![], vec![1, 0], vec![2], vec![]], 3),
        (vec![vec![0], vec![1], vec![2], vec![3], vec![0, 3]], 4),
        (vec![vec![0, 1], vec![0, 1], vec![0, 1]], 2),
    ];
    for (fi, (nodes, n)) in fams.iter().enumerate() {
        for sdim in [1usize, 2] {
            let mut e = Elems::new(nodes.clone(), *n, sdim);
            e.seed = 500 + fi as u64;
            e.yields = true;
            let ff = e.first_fit_colors();
            // the same colours with the order inside each colour reversed, and with every element its own colour
            let rev: Vec<Vec<usize>> = ff.iter().map(|c| c.iter().rev().cloned().collect()).collect();
            for (ci, colors) in [ff, rev].into_iter().enumerate() {
                if ci == 1 && sdim == 2 {
                    continue;
                }
                for workers in [2usize, 3] {
                    for splits in [2, 4] {
                        for into in [false, true] {
                            let preempt = if sdim == 1 && workers == 2 { 2 } else { 1 };
                            scs.push(S {
                                elems: e.clone(),
                                colors: colors.clone(),
                                workers,
                                splits,
                                preempt: preempt + ctx.tier(1, 2),
                                into,
                            });
                        }
                    }
                }
            }
        }
    }
    ctx.schedules(
        "parallel scatter",
        &scs,
        |s| {
            let mut c = Config::new(s.workers, s.splits, s.preempt);
            c.max_runs = ctx.tier(20_000, 400_000);
            c
        },
        |s| format!("{s:?}"),
        |s| {
            let e = &s.elems;
            let colors = e.disjoint(&s.colors);
            let par = CsrParAssembler::<Sc>::default();
            if s.into {
                let rows = superset(e);
                let mut m = start_matrix(&rows, |i, j| Sc(init(i, j) * e.scale()));
                par.assemble_into_csr(&mut m, &colors, e).map_err(|x| format!("{x:?}"))?;
                same(&plain(m), &(init_dense(&rows, e.scale()) + e.dense()), &rows, "into existing")?;
            } else {
                let m = par.assemble(&colors, e).map_err(|x| format!("{x:?}"))?;
                same(&plain(m), &e.dense(), &e.coupling(), "fresh")?;
            }
            Ok(String::new())
        },
    );

    // 4. The library's own colouring on schedules, and one assembler used for two problems in a row.
    let mut two = vec![];
    for a in 0..fams.len() {
        for b in 0..fams.len() {
            for (sa, sb) in [(1usize, 2usize), (2, 1)] {
                let mk = |k: usize, s: usize| {
                    let mut e = Elems::new(fams[k].0.clone(), fams[k].1, s);
                    e.seed = 900 + k as u64;
                    e.yields = true;
                    e
                };
                two.push((mk(a, sa), mk(b, sb)));
            }
        }
    }
    ctx.schedules(
        "one assembler, two problems",
        &two,
        |_| {
            let mut c = Config::new(2, 2, ctx.tier(2, 3));
            c.max_runs = ctx.tier(20_000, 100_000);
            c
        },
        |s| format!("{s:?}"),
        |(a, b)| {
            let par = CsrParAssembler::<Sc>::default();
            for e in [a, b] {
                let colors: Vec<DisjointSubsets> = sequential_greedy_coloring(&e.nested());
                let m = par.assemble(&colors, e).map_err(|x| format!("{x:?}"))?;
                same(&plain(m), &e.dense(), &e.coupling(), "problem")?;
            }
            Ok(String::new())
        },
    );

    // 5. Rows of a CSR matrix as a parallel collection: every pattern of a 3x4 matrix, each row its own subset.
    ctx.suite(
        "parallel rows",
        1 << 12,
        |i| format!("pattern {i:012b}"),
        |i| {
            let rows: Vec<Vec<usize>> = (0..3).map(|r| (0..4).filter(|c| i >> (4 * r + c) & 1 == 1).collect()).collect();
            let mut off = vec![0];
            let mut idx = vec![];
            for r in &rows {
                idx.extend(r.iter().cloned());
                off.push(idx.len());
            }
            let p = SparsityPattern::try_from_offsets_and_indices(3, 4, off, idx).unwrap();
            let nnz = p.nnz();
            let mut m: CsrMatrix<f64> = CsrMatrix::try_from_pattern_and_values(p, (0..nnz).map(|x| x as f64).collect()).unwrap();
            let before = m.clone();
            let bad = std::sync::Mutex::new(None);
            m = run_serial(2, || {
                let mut m = before.clone();
                let ds = DisjointSubsets::try_from_disjoint_subsets(vec![vec![2usize, 0], vec![1]], vec![0, 1]).unwrap();
                {
                    let mut coll = ParallelCsrRowCollection(&mut m);
                    assert_eq!(ParallelIndexedCollection::len(&coll), 3, "number of rows");
                    ds.subsets_par_iter(&mut coll).for_each(|mut s| {
                        for k in 0..s.len() {
                            let r = s.global_indices()[k];
                            let want: Vec<f64> = before.row(r).values().to_vec();
                            {
                                let row = s.get(k);
                                if row.col_indices() != rows[r] || row.nnz() != rows[r].len() || row.values() != want {
                                    *bad.lock().unwrap() = Some(format!("row {r} reads {:?} {:?}", row.col_indices(), row.values()));
                                }
                            }
                            let mut row = s.get_mut(k);
                            if row.nnz() != rows[r].len() || row.values_mut() != want {
                                *bad.lock().unwrap() = Some(format!("row {r} has mutable values {:?}", row.values_mut()));
                            }
                            let (cols, vals) = row.cols_and_values_mut();
                            if cols != rows[r] || vals.len() != cols.len() {
                                *bad.lock().unwrap() = Some(format!("row {r} has columns {cols:?}"));
                            }
                            for v in vals {
                                *v += 100.0 * (r + 1) as f64;
                            }
                        }
                    });
                }
                m
            })?;
            if let Some(e) = bad.into_inner().unwrap() {
                return Err(e);
            }
            for ((i1, j1, v1), (i2, j2, v2)) in before.triplet_iter().zip(m.triplet_iter()) {
                ensure_eq!((i1, j1), (i2, j2), "pattern changed");
                ensure_eq!(*v2, *v1 + 100.0 * (i1 + 1) as f64, "entry ({i1}, {j1})");
            }
            Ok(if nnz > 0 { Some(i) } else { None })
        },
    );
    let _ = color_nodes::<fenris::mesh::QuadMesh2d<f64>>;
    ctx.finish()
}
