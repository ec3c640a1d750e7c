//! C04: sparsity patterns.
use checks::asm::*;
use checks::families::*;
use fenris::assembly::global::{CsrAssembler, CsrParAssembler};
use hk::*;

fn both(e: &Elems) -> Result<(), String> {
    let want = e.coupling();
    let p = CsrAssembler::<f64>::default().assemble_pattern(e);
    check_pattern(&p, &want).map_err(|m| format!("serial: {m}"))?;
    let q = run_serial(4, || CsrParAssembler::<f64>::default().assemble_pattern(e))?;
    check_pattern(&q, &want).map_err(|m| format!("parallel: {m}"))
}

fn main() {
    let ctx = Ctx::new(
        "C04",
        Level::ModelChecking,
        "every connectivity within the bound (repeated nodes, empty elements, isolated nodes) x solution dimension, serial and parallel; every schedule of the parallel construction up to the preemption bound, with scheduling points at every lock operation and call-back",
    );

    // 1. Inputs.
    let seqs = sequences(3, 3);
    let inj = injective_sequences(4, 4);
    for (name, list, ns, extra) in [("sequences over 3 nodes", &seqs, ctx.tier(3u32, 3), 1usize), ("distinct nodes among 4", &inj, 2, 0)] {
        for n in 0..=ns {
            let sdims: u64 = if n <= 2 || ctx.thorough { 3 } else { 1 };
            let of = |i: u64| {
                let mut d = Dig(i);
                let sdim = d.next(sdims) + 1;
                let nodes = (0..n).map(|_| d.pick(list).clone()).collect();
                Elems::new(nodes, if extra == 1 { 4 } else { 4 + (i % 2) as usize }, sdim)
            };
            ctx.suite(
                &format!("{n} elements, {name}"),
                pow(list.len() as u64, n) * sdims,
                |i| format!("{:?}", of(i)),
                |i| {
                    let e = of(i);
                    both(&e)?;
                    Ok(if e.nodes.iter().any(|x| x.len() > 1) { Some(digest(&e)) } else { None })
                },
            );
        }
    }

    // 2. Sizes around the batch boundaries of the parallel construction: elements 0..n with a sliding connectivity.
    let mut sizes = vec![];
    for n in (0..=ctx.tier(45usize, 130)).collect::<Vec<_>>() {
        for nodes in [n, n + 1, n + 11, 2 * n + 3] {
            for sdim in 1..=3 {
                for shape in 0..4 {
                    sizes.push((n, nodes.max(1), sdim, shape));
                }
            }
        }
    }
    let make = |&(n, nodes, sdim, shape): &(usize, usize, usize, usize)| {
        let el: Vec<Vec<usize>> = (0..n)
            .map(|e| match shape {
                0 => vec![e % nodes, (e + 1) % nodes],
                1 => (0..e % 4).map(|k| (e * 7 + k * 3) % nodes).collect(),
                2 => vec![(n - 1 - e) % nodes, 0, (e * e) % nodes],
                _ => {
                    if e % 10 == 0 || e % 10 == 9 {
                        vec![e % nodes, nodes - 1]
                    } else {
                        vec![]
                    }
                }
            })
            .collect();
        Elems::new(el, nodes, sdim)
    };
    ctx.suite_over(
        "batch boundaries",
        &sizes,
        |c| format!("elements, nodes, dim, shape {c:?}"),
        |c| {
            let e = make(c);
            both(&e)?;
            Ok(Some(digest(&e)))
        },
    );

    // Numbers that do not fit a byte (or two).
    let big = large();
    ctx.suite_over("large problems", &big, |b| b.0.clone(), |(_, e)| {
        both(e).map_err(|e| e.chars().take(300).collect::<String>())?;
        Ok(Some(digest(e)))
    });

    // Every number of elements, far beyond one batch.
    let top = ctx.tier(1100u64, 3000);
    ctx.suite(
        "every number of elements",
        3 * (top + 1),
        |i| format!("{} elements, shape {}", i / 3, i % 3),
        |i| {
            let e = sweep(i as usize / 3, i as usize % 3);
            both(&e).map_err(|e| e.chars().take(300).collect::<String>())?;
            Ok(Some(i))
        },
    );

    // 3. Reuse of one assembler for patterns of different sizes.
    let pool: Vec<Elems> = [(0, 3, 1, 0), (12, 13, 2, 0), (3, 2, 3, 1), (21, 5, 1, 2), (11, 30, 1, 3), (2, 12, 2, 2)].iter().map(|c| make(c)).collect();
    let k = pool.len() as u64;
    let depth = ctx.tier(4, 5);
    ctx.suite(
        &format!("reuse histories of length {depth}"),
        pow(k, depth),
        |i| {
            let mut d = Dig(i);
            format!("problems {:?}", (0..depth).map(|_| d.next(k)).collect::<Vec<_>>())
        },
        |i| {
            let mut d = Dig(i);
            let hist: Vec<&Elems> = (0..depth).map(|_| d.pick(&pool)).collect();
            let serial = CsrAssembler::<f64>::default();
            for e in &hist {
                check_pattern(&serial.assemble_pattern(*e), &e.coupling())?;
            }
            let ps = run_serial(4, || {
                let par = CsrParAssembler::<f64>::default();
                hist.iter().map(|e| par.assemble_pattern(*e)).collect::<Vec<_>>()
            })?;
            for (e, p) in hist.iter().zip(ps) {
                check_pattern(&p, &e.coupling())?;
            }
            Ok(Some(i))
        },
    );

    // 4. Schedules: a few active elements in different batches that share nodes; the nodes lie in different row batches.
    #[derive(Clone, Debug)]
    struct S {
        elems: Elems,
        workers: usize,
        splits: usize,
        preempt: usize,
    }
    let mut scs = vec![];
    let a3 = sequences(3, 2);
    // two active elements: all pairs of sequences over three far-apart nodes, batches 0 and 1
    let spread = [0usize, 9, 12];
    for x in &a3 {
        for y in &a3 {
            if x.is_empty() || y.is_empty() {
                continue;
            }
            let mut nodes = vec![vec![]; 11];
            nodes[0] = x.iter().map(|k| spread[*k]).collect();
            nodes[10] = y.iter().map(|k| spread[*k]).collect();
            let mut e = Elems::new(nodes, 13, 1);
            e.yields = true;
            scs.push(S { elems: e, workers: 2, splits: 2, preempt: ctx.tier(3, 4) });
        }
    }
    // three batches
    for (x, y, z) in [
        (vec![0usize, 12], vec![12usize, 0], vec![0usize, 12]),
        (vec![0, 1], vec![1, 2], vec![2, 0]),
        (vec![20, 3], vec![3, 11], vec![11, 20]),
        (vec![5, 5], vec![5], vec![5, 6]),
        (vec![0, 10, 20], vec![20, 10, 0], vec![10]),
    ] {
        for sdim in [1usize, 2] {
            let mut nodes = vec![vec![]; 21];
            nodes[0] = x.clone();
            nodes[10] = y.clone();
            nodes[20] = z.clone();
            let mut e = Elems::new(nodes, 21, sdim);
            e.yields = true;
            for (workers, splits) in [(2, 2), (3, 3), (3, 4)] {
                scs.push(S { elems: e.clone(), workers, splits, preempt: ctx.tier(2, 3) });
            }
        }
    }
    // all elements active in a batch of a growing mesh
    for n in [2usize, 11, 12] {
        let mut e = make(&(n, n + 1, 1, 0));
        e.yields = n == 2;
        scs.push(S { elems: e, workers: 2, splits: 2, preempt: 1 });
    }
    ctx.schedules(
        "parallel pattern",
        &scs,
        |s| {
            let mut c = Config::new(s.workers, s.splits, s.preempt);
            c.max_runs = ctx.tier(4_000, 200_000);
            c
        },
        |s| format!("{:?} nodes {} dim {} workers={} splits={} preemptions<={}", s.elems.nodes.iter().enumerate().filter(|x| !x.1.is_empty()).collect::<Vec<_>>(), s.elems.num_nodes, s.elems.sdim, s.workers, s.splits, s.preempt),
        |s| {
            let p = CsrParAssembler::<f64>::default().assemble_pattern(&s.elems);
            check_pattern(&p, &s.elems.coupling())?;
            Ok(String::new())
        },
    );
    ctx.finish()
}
