//! C05: vector and scalar assembly.
use checks::asm::*;
use checks::families::*;
use checks::sc::Sc;
use fenris::assembly::global::*;
use fenris::nalgebra::DVector;
use fenris_paradis::coloring::sequential_greedy_coloring;
use hk::*;

fn init(i: usize) -> f64 {
    -((i * 31 % 97) as f64) - 3.0
}

fn same(got: &[f64], want: &[f64], what: &str) -> Result<(), String> {
    ensure_eq!(got.len(), want.len(), "{what}: length");
    for i in 0..want.len() {
        ensure!(same_value(got[i], want[i]), "{what}: entry {i} is {} instead of {}", got[i], want[i]);
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::new(
        "C05",
        Level::ModelChecking,
        "every connectivity within the bound (repeated nodes, empty elements, isolated nodes) x solution dimension; every schedule of the parallel assembly up to the preemption bound, with a scheduling point inside every addition; every reuse sequence up to the depth",
    );
    ctx.assume("element contributions are integers times a power of two (both signs, zeros among them, from 2^-700 to 2^300), so sums are exact in every order");

    let seqs = sequences(3, 3);
    let inj = injective_sequences(4, 4);
    for (name, list, ns) in [("sequences over 3 nodes", &seqs, ctx.tier(3u32, 3)), ("distinct nodes among 4", &inj, 2)] {
        for n in 0..=ns {
            let sdims: u64 = if n <= 2 || ctx.thorough { 3 } else { 1 };
            let of = |i: u64| {
                let mut d = Dig(i);
                let sdim = d.next(sdims) + 1;
                let nodes = (0..n).map(|_| d.pick(list).clone()).collect();
                let mut e = Elems::new(nodes, 4 + (i % 2) as usize, sdim);
                e.seed = i + 1;
                e
            };
            ctx.suite(
                &format!("{n} elements, {name}"),
                pow(list.len() as u64, n) * sdims,
                |i| format!("{:?}", of(i)),
                |i| {
                    let e = of(i);
                    let want = e.vector();
                    let asm = VectorAssembler::<f64>::default();
                    let v = asm.assemble_vector(&e).map_err(|x| format!("{x:?}"))?;
                    same(v.as_slice(), want.as_slice(), "serial vector")?;
                    let start: Vec<f64> = (0..want.len()).map(|k| init(k) * e.scale()).collect();
                    let sum: Vec<f64> = want.iter().zip(&start).map(|(a, b)| a + b).collect();
                    let mut v = DVector::from_vec(start.clone());
                    asm.assemble_vector_into(&mut v, &e).map_err(|x| format!("{x:?}"))?;
                    same(v.as_slice(), &sum, "serial vector into existing")?;
                    ensure_eq!(assemble_scalar::<f64>(&e).map_err(|x| format!("{x:?}"))?, e.scalar(), "serial scalar");
                    let dup = e.nodes.iter().any(|ns| (0..ns.len()).any(|i| ns[..i].contains(&ns[i])));
                    let colors = sequential_greedy_coloring(&e.nested());
                    let (a, b, c) = run_serial(4, || {
                        let par = VectorParAssembler::<f64>::default();
                        let a = par.assemble_vector(&colors, &e).map_err(|x| format!("{x:?}"));
                        let mut v = DVector::from_vec(start.clone());
                        let b = par.assemble_vector_into(&mut v, &colors, &e).map_err(|x| format!("{x:?}")).map(|_| v);
                        let c = par_assemble_scalar::<f64>(&e).map_err(|x| format!("{x:?}"));
                        (a, b, c)
                    })?;
                    same(a?.as_slice(), want.as_slice(), "parallel vector")?;
                    same(b?.as_slice(), &sum, "parallel vector into existing")?;
                    ensure_eq!(c?, e.scalar(), "parallel scalar");
                    Ok(if dup || e.nodes.len() > 1 { Some(i) } else { None })
                },
            );
        }
    }

    // gather / scatter
    let idx = sequences(4, ctx.tier(4, 5));
    let mut cases = vec![];
    for (k, ix) in idx.iter().enumerate() {
        for s in 1..=3usize {
            cases.push((k, s, ix.clone()));
        }
    }
    ctx.suite_over(
        "gather and scatter",
        &cases,
        |c| format!("indices {:?}, dim {}", c.2, c.1),
        |(_, s, ix)| {
            let s = *s;
            let global: DVector<f64> = DVector::from_fn(4 * s, |i, _| (i * i) as f64 + 1.0);
            let mut local = DVector::from_element(s * ix.len(), f64::NAN);
            gather_global_to_local(&global, &mut local, ix, s);
            for (a, &n) in ix.iter().enumerate() {
                for i in 0..s {
                    ensure_eq!(local[s * a + i], global[s * n + i], "local entry {a}.{i}");
                }
            }
            let before = global.clone();
            let loc = DVector::from_fn(s * ix.len(), |i, _| 1000.0 * (i + 1) as f64);
            let mut g = global.clone();
            add_local_to_global(&loc, &mut g, ix, s);
            let mut want: Vec<f64> = before.iter().cloned().collect();
            for (a, &n) in ix.iter().enumerate() {
                for i in 0..s {
                    want[s * n + i] += loc[s * a + i];
                }
            }
            same(g.as_slice(), &want, "scatter")?;
            // sizes that do not fit are refused
            for len in 0..=s * ix.len() + 2 {
                if len != s * ix.len() {
                    let r = no_panic(|| gather_global_to_local(&global, &mut DVector::zeros(len), ix, s));
                    ensure!(r.is_err(), "gather into a vector of length {len} for {} indices of dimension {s}", ix.len());
                    let r = no_panic(|| add_local_to_global(&DVector::zeros(len), &mut g, ix, s));
                    ensure!(r.is_err(), "scatter of a vector of length {len} for {} indices of dimension {s}", ix.len());
                }
            }
            Ok(Some(digest(&(s, ix))))
        },
    );

    // numbers that do not fit a byte (or two)
    let big = large();
    let every = |e: &Elems| -> Verdict {
        let want = e.vector();
        let twice: Vec<f64> = want.iter().map(|x| 2.0 * x).collect();
        let asm = VectorAssembler::<f64>::default();
        let mut v = asm.assemble_vector(e).map_err(|x| format!("{x:?}"))?;
        same(v.as_slice(), want.as_slice(), "serial vector")?;
        asm.assemble_vector_into(&mut v, e).map_err(|x| format!("{x:?}"))?;
        same(v.as_slice(), &twice, "serial vector into existing")?;
        same(&[assemble_scalar::<f64>(e).map_err(|x| format!("{x:?}"))?], &[e.scalar()], "serial scalar")?;
        let colors = e.disjoint(&e.large_colors());
        let (a, b, c) = run_serial(4, || {
            let par = VectorParAssembler::<f64>::default();
            let a = par.assemble_vector(&colors, e).map_err(|x| format!("{x:?}"));
            let mut v = want.clone();
            let b = par.assemble_vector_into(&mut v, &colors, e).map_err(|x| format!("{x:?}")).map(|_| v);
            let c = par_assemble_scalar::<f64>(e).map_err(|x| format!("{x:?}"));
            (a, b, c)
        })?;
        same(a?.as_slice(), want.as_slice(), "parallel vector")?;
        same(b?.as_slice(), &twice, "parallel vector into existing")?;
        same(&[c?], &[e.scalar()], "parallel scalar")?;
        Ok(Some(digest(e)))
    };
    ctx.suite_over("large problems", &big, |b| b.0.clone(), |(_, e)| every(e));
    let odd = odd_problems();
    ctx.suite_over("special values", &odd, |e| format!("{e:?}"), |e| every(e));
    let top = ctx.tier(1000u64, 1500);
    ctx.suite("every number of elements", 3 * (top + 1), |i| format!("{} elements, shape {}", i / 3, i % 3), |i| every(&sweep(i as usize / 3, i as usize % 3)));

    // reuse histories
    let mut pool = vec![
        Elems::new(vec![vec![2, 0, 1], vec![1, 3]], 4, 1),
        Elems::new(vec![vec![1, 0], vec![]], 3, 2),
        Elems::new(vec![vec![4, 2, 0, 3], vec![1]], 5, 1),
        Elems::new(vec![], 2, 3),
        Elems::new(vec![vec![0, 2], vec![3, 1]], 4, 3),
        {
            let mut f = Elems::new(vec![vec![0, 1, 2], vec![3, 2], vec![1, 4, 0]], 5, 2);
            f.fail = 0b110;
            f
        },
    ];
    for (i, p) in pool.iter_mut().enumerate() {
        p.seed = 100 + i as u64;
    }
    let k = pool.len() as u64;
    let depth = ctx.tier(4, 6);
    ctx.suite(
        &format!("reuse histories of length {depth}"),
        pow(k, depth),
        |i| {
            let mut d = Dig(i);
            format!("problems {:?}", (0..depth).map(|_| d.next(k)).collect::<Vec<_>>())
        },
        |i| {
            let mut d = Dig(i);
            let hist: Vec<&Elems> = (0..depth).map(|_| d.pick(&pool)).collect();
            let serial = VectorAssembler::<f64>::default();
            let got: Vec<_> = hist.iter().map(|e| serial.assemble_vector(*e).ok()).collect();
            let par: Vec<_> = run_serial(2, || {
                let par = VectorParAssembler::<f64>::default();
                hist.iter().map(|e| par.assemble_vector(&sequential_greedy_coloring(&e.nested()), *e).ok()).collect()
            })?;
            for (what, vs) in [("serial", got), ("parallel", par)] {
                for (t, (e, v)) in hist.iter().zip(vs).enumerate() {
                    ensure_eq!(v.is_some(), e.fail == 0, "{what} step {t} succeeds");
                    if let Some(v) = v {
                        same(v.as_slice(), e.vector().as_slice(), &format!("{what} step {t}"))?;
                    }
                }
            }
            Ok(Some(i))
        },
    );
    ctx.count("histories", pow(k, depth));

    // schedules
    #[derive(Clone, Debug)]
    struct S {
        elems: Elems,
        colors: Vec<Vec<usize>>,
        kind: usize,
        workers: usize,
        splits: usize,
        preempt: usize,
    }
    let fams: Vec<(Vec<Vec<usize>>, usize)> = vec![
        (vec![vec![0, 1], vec![2, 3]], 4),
        (vec![vec![1, 0], vec![3, 2], vec![1, 2]], 4),
        (vec![vec![0, 0], vec![1], vec![2, 2, 2]], 3),
        (vec![vec![0, 2, 4], vec![1, 3, 5], vec![4, 1]], 6),
        (vec![vec![3, 0], vec![0, 1], vec![1, 2], vec![2, 3]], 4),
        (vec![vec![], vec![1, 0], vec![2], vec![]], 3),
        (vec![vec![0], vec![1], vec![2], vec![3], vec![0, 3]], 4),
        (vec![vec![0, 1], vec![0, 1], vec![0, 1]], 2),
        (vec![], 2),
        (vec![vec![0]], 1),
    ];
    let mut scs = vec![];
    for (fi, (nodes, n)) in fams.iter().enumerate() {
        for sdim in [1usize, 2] {
            let mut e = Elems::new(nodes.clone(), *n, sdim);
            e.seed = 700 + fi as u64;
            e.yields = true;
            let ff = e.first_fit_colors();
            let rev: Vec<Vec<usize>> = ff.iter().rev().map(|c| c.iter().rev().cloned().collect()).collect();
            for (ci, colors) in [ff, rev].into_iter().enumerate() {
                for kind in 0..3 {
                    if kind == 2 && (ci == 1 || sdim == 2) {
                        continue;
                    }
                    for (workers, splits) in [(2usize, 2usize), (3, 4)] {
                        let preempt = if workers == 2 { 3 } else { 2 };
                        scs.push(S { elems: e.clone(), colors: colors.clone(), kind, workers, splits, preempt: preempt + ctx.tier(0, 1) });
                    }
                }
            }
        }
    }
    ctx.schedules(
        "parallel vector and scalar",
        &scs,
        |s| {
            let mut c = Config::new(s.workers, s.splits, s.preempt);
            c.max_runs = ctx.tier(10_000, 300_000);
            c
        },
        |s| format!("{s:?}"),
        |s| {
            let e = &s.elems;
            match s.kind {
                0 => {
                    let v = VectorParAssembler::<Sc>::default().assemble_vector(&e.disjoint(&s.colors), e).map_err(|x| format!("{x:?}"))?;
                    let v: Vec<f64> = v.iter().map(|x| x.0).collect();
                    same(&v, e.vector().as_slice(), "vector")?;
                }
                1 => {
                    let want: Vec<f64> = e.vector().iter().enumerate().map(|(i, x)| x + init(i) * e.scale()).collect();
                    let mut v = DVector::from_fn(want.len(), |i, _| Sc(init(i) * e.scale()));
                    VectorParAssembler::<Sc>::default().assemble_vector_into(&mut v, &e.disjoint(&s.colors), e).map_err(|x| format!("{x:?}"))?;
                    let v: Vec<f64> = v.iter().map(|x| x.0).collect();
                    same(&v, &want, "vector into existing")?;
                }
                _ => {
                    let x = par_assemble_scalar::<Sc>(e).map_err(|x| format!("{x:?}"))?;
                    ensure_eq!(x.0, e.scalar(), "scalar");
                }
            }
            Ok(String::new())
        },
    );
    ctx.finish()
}
