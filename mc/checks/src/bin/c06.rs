//! C06: element failures.
use checks::asm::*;
use checks::sc::Sc;
use fenris::assembly::global::*;
use fenris::nalgebra::{DMatrix, DVector};
use hk::*;
use nalgebra_sparse::CsrMatrix;

const KINDS: [&str; 10] = [
    "matrix", "matrix into", "vector", "vector into", "scalar", "parallel matrix", "parallel matrix into",
    "parallel vector", "parallel vector into", "parallel scalar",
];

fn dense_start(e: &Elems) -> CsrMatrix<Sc> {
    let n = e.sdim * e.num_nodes;
    CsrMatrix::from(&DMatrix::from_element(n, n, Sc(1.0)))
}

/// Assemblers that live for the whole scenario.
#[derive(Default)]
struct Tools {
    m: CsrAssembler<Sc>,
    pm: CsrParAssembler<Sc>,
    v: VectorAssembler<Sc>,
    pv: VectorParAssembler<Sc>,
}

/// The outcome of one assembly, with the result checked if it claims success.
fn attempt(t: &Tools, kind: usize, e: &Elems, colors: &[Vec<usize>]) -> Result<Result<(), String>, String> {
    let n = e.sdim * e.num_nodes;
    let text = |r: eyre::Report| format!("{r:?}");
    let check_m = |m: CsrMatrix<Sc>, base: f64| -> Result<(), String> {
        let want = e.dense();
        let mut got = DMatrix::from_element(n, n, 0.0);
        for (i, j, v) in m.triplet_iter() {
            got[(i, j)] = v.0;
        }
        let want = want.add_scalar(base);
        ensure!(got == want, "wrong matrix {got} instead of {want}");
        Ok(())
    };
    let check_v = |v: DVector<Sc>, base: f64| -> Result<(), String> {
        let got: Vec<f64> = v.iter().map(|x| x.0).collect();
        let want: Vec<f64> = e.vector().iter().map(|x| x + base).collect();
        ensure_eq!(got, want, "wrong vector");
        Ok(())
    };
    let d = || e.disjoint(colors);
    Ok(match kind {
        0 => match t.m.assemble(e) {
            Ok(m) => Ok(check_m(m, 0.0)?),
            Err(r) => Err(text(r)),
        },
        1 => {
            let mut m = dense_start(e);
            match t.m.assemble_into_csr(&mut m, e) {
                Ok(()) => Ok(check_m(m, 1.0)?),
                Err(r) => Err(text(r)),
            }
        }
        2 => match t.v.assemble_vector(e) {
            Ok(v) => Ok(check_v(v, 0.0)?),
            Err(r) => Err(text(r)),
        },
        3 => {
            let mut v = DVector::from_element(n, Sc(1.0));
            match t.v.assemble_vector_into(&mut v, e) {
                Ok(()) => Ok(check_v(v, 1.0)?),
                Err(r) => Err(text(r)),
            }
        }
        5 => match t.pm.assemble(&d(), e) {
            Ok(m) => Ok(check_m(m, 0.0)?),
            Err(r) => Err(text(r)),
        },
        6 => {
            let mut m = dense_start(e);
            match t.pm.assemble_into_csr(&mut m, &d(), e) {
                Ok(()) => Ok(check_m(m, 1.0)?),
                Err(r) => Err(text(r)),
            }
        }
        7 => match t.pv.assemble_vector(&d(), e) {
            Ok(v) => Ok(check_v(v, 0.0)?),
            Err(r) => Err(text(r)),
        },
        8 => {
            let mut v = DVector::from_element(n, Sc(1.0));
            match t.pv.assemble_vector_into(&mut v, &d(), e) {
                Ok(()) => Ok(check_v(v, 1.0)?),
                Err(r) => Err(text(r)),
            }
        }
        _ => match if kind == 4 { assemble_scalar::<Sc>(e) } else { par_assemble_scalar::<Sc>(e) } {
            Ok(x) => {
                ensure_eq!(x.0, e.scalar(), "wrong scalar");
                Ok(())
            }
            Err(r) => Err(text(r)),
        },
    })
}

/// The error must come from an element that was made to fail.
fn judge(e: &Elems, r: Result<(), String>) -> Result<(), String> {
    match r {
        Ok(()) => {
            ensure!(e.fail == 0 && e.fail_far.is_none(), "success was reported although elements failed");
            Ok(())
        }
        Err(text) => {
            let named: Vec<usize> = (0..e.nodes.len()).filter(|k| text.contains(&format!("injected failure of element {k}."))).collect();
            ensure!(!named.is_empty(), "an error that no element produced: {text}");
            for k in named {
                ensure!(e.fails(k), "an error from element {k}, which does not fail: {text}");
            }
            Ok(())
        }
    }
}

fn main() {
    let ctx = Ctx::new(
        "C06",
        Level::FaultEnumeration,
        "every set of failing elements x every assembly entry point x (parallel ones) every schedule up to the preemption bound, followed by a correct assembly with the same assembler",
    );
    let fams: Vec<(Vec<Vec<usize>>, usize, usize)> = vec![
        (vec![vec![0, 1], vec![1, 2], vec![2, 3]], 4, 1),
        (vec![vec![0], vec![1], vec![2]], 3, 1),
        (vec![vec![1, 0], vec![3, 2], vec![], vec![4]], 5, 1),
        (vec![vec![0, 1], vec![0, 1], vec![2, 1]], 3, 2),
        (vec![vec![0, 2], vec![1, 3], vec![2, 1], vec![0, 3]], 4, 1),
        (vec![vec![0], vec![1], vec![2], vec![3], vec![4]], 5, 1),
    ];
    let mut base = vec![];
    for (fi, (nodes, n, s)) in fams.iter().enumerate() {
        for fail in 0..1u64 << nodes.len() {
            let mut e = Elems::new(nodes.clone(), *n, *s);
            e.seed = 40 + fi as u64;
            e.fail = fail;
            base.push(e);
        }
    }
    // a second problem that always succeeds, of another shape
    let mut good = Elems::new(vec![vec![1, 3, 0], vec![2]], 4, 1);
    good.seed = 99;

    // 1. Without concurrency: all entry points, all masks, all pairs of a failing and a later use.
    let mut cases = vec![];
    for b in 0..base.len() {
        for k in 0..KINDS.len() {
            for k2 in 0..KINDS.len() {
                cases.push((b, k, k2));
            }
        }
    }
    ctx.suite_over(
        "entry points",
        &cases,
        |&(b, k, k2)| format!("{} then {} on {:?}", KINDS[k], KINDS[k2], base[b]),
        |&(b, k, k2)| {
            let e = &base[b];
            let (r1, r2, r3) = run_serial(2, || {
                let t = Tools::default();
                let c = e.first_fit_colors();
                let mut ok = e.clone();
                ok.fail = 0;
                let mut g = good.clone();
                g.fail = 0;
                (attempt(&t, k, e, &c), attempt(&t, k2, &ok, &c), attempt(&t, k2, &g, &g.first_fit_colors()))
            })?;
            let r1 = r1?;
            if e.fail != 0 {
                ensure!(r1.is_err(), "success was reported although elements failed");
            }
            let failed = r1.is_err();
            judge(e, r1)?;
            ensure_eq!(r2?, Ok(()), "the same elements without failures, afterwards");
            ensure_eq!(r3?, Ok(()), "another problem, afterwards");
            Ok(if failed { Some(digest(&(b, k, k2))) } else { None })
        },
    );

    // Many elements, of which one fails; the matrices of the largest ones would not fit.
    let big: Vec<(String, Elems)> = large().into_iter().filter(|b| b.1.sdim * b.1.num_nodes < 1000 || b.0.starts_with("apart") || b.0.starts_with("path")).collect();
    let at = [0usize, 1, 9, 10, 63, 64, 127, 128, 254, 255, 256, 257, 65_535, 65_536, usize::MAX];
    let mut far = vec![];
    for (b, (_, e)) in big.iter().enumerate() {
        let n = e.nodes.len();
        let mut ks: Vec<usize> = at.iter().map(|k| (*k).min(n - 1)).collect();
        ks.dedup();
        for k in ks {
            for kind in 0..KINDS.len() {
                if n <= 1000 || (2..5).contains(&kind) || kind > 6 {
                    far.push((b, k, kind));
                }
            }
        }
    }
    let one_fails = |e: &Elems, k: usize, kind: usize| -> Verdict {
        let mut e = e.clone();
        e.fail_far = Some(k);
        let colors = e.large_colors();
        let mut g = good.clone();
        g.fail = 0;
        let (r, r2) = run_serial(3, || {
            let t = Tools::default();
            (attempt(&t, kind, &e, &colors), attempt(&t, kind, &g, &g.first_fit_colors()))
        })?;
        let r = r?;
        ensure!(r.is_err(), "success was reported although an element failed");
        let text = r.unwrap_err();
        ensure!(text.contains(&format!("injected failure of element {k}.")), "an error that the failing element did not produce: {text}");
        ensure_eq!(r2?, Ok(()), "another problem, afterwards");
        Ok(Some(digest(&(e.nodes.len(), k, kind))))
    };
    ctx.suite_over("one of many elements", &far, |&(b, k, kind)| format!("element {k} fails in {} of {}", KINDS[kind], big[b].0), |&(b, k, kind)| {
        one_fails(&big[b].1, k, kind)
    });
    // every number of elements, and each of them
    let most = ctx.tier(90usize, 250);
    let mut any = vec![];
    for n in 1..=most {
        for k in 0..n {
            any.push((n, k));
        }
    }
    let nk = KINDS.len() as u64;
    ctx.suite("each of every number of elements", any.len() as u64 * nk, |i| format!("{:?}, {}", any[(i / nk) as usize], KINDS[(i % nk) as usize]), |i| {
        let (n, k) = any[(i / nk) as usize];
        one_fails(&sweep(n, n % 3), k, (i % nk) as usize)
    });

    // 2. Parallel entry points on every schedule.
    #[derive(Clone, Debug)]
    struct S {
        e: Elems,
        colors: Vec<Vec<usize>>,
        kind: usize,
        workers: usize,
        splits: usize,
        preempt: usize,
    }
    let mut scs = vec![];
    for e in &base {
        if e.fail == 0 {
            continue;
        }
        let mut e = e.clone();
        e.yields = true;
        for kind in 5..10 {
            for (workers, splits) in [(2usize, 2usize), (3, 4)] {
                let big = e.nodes.len() > 4;
                let preempt = ctx.tier(if workers == 2 && !big { 2 } else { 1 }, if big { 2 } else { 3 });
                scs.push(S { colors: e.first_fit_colors(), e: e.clone(), kind, workers, splits, preempt });
            }
        }
    }
    ctx.schedules(
        "failures on schedules",
        &scs,
        |s| {
            let mut c = Config::new(s.workers, s.splits, s.preempt);
            c.max_runs = ctx.tier(2_000, 100_000);
            c
        },
        |s| format!("{} on {s:?}", KINDS[s.kind]),
        |s| {
            let t = Tools::default();
            let r = attempt(&t, s.kind, &s.e, &s.colors)?;
            ensure!(r.is_err(), "success was reported although elements failed");
            let out = r.clone().unwrap_err();
            judge(&s.e, r)?;
            let mut ok = s.e.clone();
            ok.fail = 0;
            ensure_eq!(attempt(&t, s.kind, &ok, &s.colors)?, Ok(()), "the same elements without failures, afterwards");
            Ok(out.chars().filter(|c| c.is_ascii_digit()).take(4).collect())
        },
    );
    ctx.finish()
}
