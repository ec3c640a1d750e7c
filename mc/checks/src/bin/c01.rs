//! C01: parallel iteration over disjoint subsets.
use checks::families::*;
use fenris_nested_vec::NestedVec;
use fenris_paradis::adapter::BlockAdapter;
use fenris_paradis::{DisjointSubsets, ParallelIndexedAccess, ParallelIndexedCollection, SubsetAccess};
use hk::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

type Seen = (usize, Vec<usize>);

fn disjoint(f: &[Vec<usize>], labels: &[usize]) -> DisjointSubsets {
    DisjointSubsets::try_from_disjoint_subsets(f.to_vec(), labels.to_vec()).expect("disjoint by construction")
}

/// Families of pairwise disjoint subsets: all size vectors, with the indices laid out in a few orders, duplicates in a
/// subset included.
fn disjoint_families(max_subsets: usize, max_size: usize) -> Vec<Vec<Vec<usize>>> {
    let mut out = vec![];
    for n in 0..=max_subsets {
        for code in 0..pow(max_size as u64 + 1, n as u32) {
            let mut d = Dig(code);
            let sizes: Vec<usize> = (0..n).map(|_| d.next(max_size as u64 + 1)).collect();
            let total: usize = sizes.iter().sum();
            for layout in 0..4 {
                let mut next = 0;
                let fam: Vec<Vec<usize>> = sizes
                    .iter()
                    .map(|&s| {
                        (0..s)
                            .map(|_| {
                                let k = next;
                                next += 1;
                                match layout {
                                    0 => k,
                                    1 => total - 1 - k,
                                    2 => (k * 2) % total.max(1) + if total % 2 == 0 && 2 * k >= total { 1 } else { 0 },
                                    _ => 2 * k + 1,
                                }
                            })
                            .collect()
                    })
                    .collect();
                out.push(fam.clone());
                if layout == 0 && n > 0 {
                    // a duplicate index inside a subset
                    if let Some(i) = fam.iter().position(|s| !s.is_empty()) {
                        let mut g = fam;
                        let x = g[i][0];
                        g[i].push(x);
                        out.push(g);
                    }
                }
            }
        }
    }
    out.retain(|f| is_disjoint(f));
    out.sort();
    out.dedup();
    out
}

/// A way of consuming a producer: split at a point (any point, ends included), or iterate with a front/back pattern.
#[derive(Clone, Debug, PartialEq)]
enum Tree {
    Split(usize, Box<Tree>, Box<Tree>),
    Leaf(u32),
}

fn trees(n: usize, degenerate: usize, leaf_patterns: bool) -> Vec<Tree> {
    let mut out = vec![];
    let pats = if leaf_patterns { 1u32 << n } else { 1 };
    for p in 0..pats {
        out.push(Tree::Leaf(p));
    }
    if !leaf_patterns && n > 0 {
        out.push(Tree::Leaf(u32::MAX));
    }
    for k in 0..=n {
        let deg = k == 0 || k == n;
        if deg && degenerate == 0 {
            continue;
        }
        let d = if deg { degenerate - 1 } else { degenerate };
        for l in trees(k, d, leaf_patterns && n <= 3) {
            for r in trees(n - k, d, leaf_patterns && n <= 3) {
                out.push(Tree::Split(k, Box::new(l.clone()), Box::new(r)));
            }
        }
    }
    out
}

struct Walk<'t> {
    tree: &'t Tree,
}

fn visit<'a>(s: &mut SubsetAccess<'a, fenris_paradis::slice::ParallelSliceAccess<'a, u32>>) -> Seen {
    let idx = s.global_indices().to_vec();
    assert_eq!(idx.len(), s.len(), "len() disagrees with the indices");
    for i in 0..idx.len() {
        // the record that the index names, and only that one
        assert_eq!(*s.get(i) % 1000, idx[i] as u32 % 1000, "wrong record");
        *s.get_mut(i) += 1000;
        assert_eq!(*s.get(i) % 1000, idx[i] as u32 % 1000, "wrong record after write");
    }
    (s.label(), idx)
}

impl<'t, 'a> ProducerCallback<SubsetAccess<'a, fenris_paradis::slice::ParallelSliceAccess<'a, u32>>> for Walk<'t> {
    type Output = Result<Vec<Seen>, String>;
    fn callback<P>(self, p: P) -> Self::Output
    where
        P: Producer<Item = SubsetAccess<'a, fenris_paradis::slice::ParallelSliceAccess<'a, u32>>>,
    {
        fn go<'a, P: Producer<Item = SubsetAccess<'a, fenris_paradis::slice::ParallelSliceAccess<'a, u32>>>>(
            p: P,
            t: &Tree,
        ) -> Result<Vec<Seen>, String> {
            match t {
                Tree::Split(k, l, r) => {
                    let (a, b) = p.split_at(*k);
                    let mut x = go(a, l)?;
                    x.extend(go(b, r)?);
                    Ok(x)
                }
                Tree::Leaf(pattern) => {
                    let mut it = p.into_iter();
                    let n = it.len();
                    let (mut front, mut back) = (vec![], vec![]);
                    for step in 0..n {
                        ensure_eq!(it.len(), n - step, "remaining length");
                        ensure_eq!(it.size_hint(), (n - step, Some(n - step)), "size hint");
                        if pattern >> step.min(31) & 1 == 0 {
                            front.push(visit(&mut it.next().ok_or("next ended early")?));
                        } else {
                            back.push(visit(&mut it.next_back().ok_or("next_back ended early")?));
                        }
                    }
                    ensure!(it.next().is_none() && it.next_back().is_none(), "more items than the length says");
                    ensure_eq!(it.len(), 0, "length at the end");
                    back.reverse();
                    front.extend(back);
                    Ok(front)
                }
            }
        }
        go(p, self.tree)
    }
}

fn main() {
    let ctx = Ctx::new(
        "C01",
        Level::ModelChecking,
        "every family of disjoint subsets within the bound x every split tree / adaptor / schedule within the bound; a schedule is non-trivial if work was actually stolen",
    );
    ctx.assume("rayon's splitting code is the real crate; its work-stealing core is replaced by the controlled scheduler");

    // 1. The producer under every split tree and consumption order.
    let fams = disjoint_families(ctx.tier(5, 6), 2);
    let max_tree = ctx.tier(5, 6);
    let tree_sets: Vec<Vec<Tree>> =
        (0..=max_tree).map(|n| trees(n, if n <= 2 { 2 } else if n <= 4 { 1 } else { 0 }, n <= ctx.tier(4, 5))).collect();
    let mut cases = vec![];
    for (fi, f) in fams.iter().enumerate() {
        // all trees for each family would repeat the same plumbing for families of equal shape: use all trees for the
        // families with the first layouts and a stride of trees for the others
        for ti in 0..tree_sets[f.len()].len() {
            if f.len() <= 3 || (ti + fi) % ctx.tier(61, 7) == 0 || f.iter().all(|s| s.len() == 1) {
                cases.push((fi, ti));
            }
        }
    }
    ctx.suite_over(
        "producer split trees",
        &cases,
        |&(fi, ti)| format!("family {:?}, tree {:?}", fams[fi], tree_sets[fams[fi].len()][ti]),
        |&(fi, ti)| {
            let f = &fams[fi];
            let tree = &tree_sets[f.len()][ti];
            let labels: Vec<usize> = (0..f.len()).map(|i| 100 - 7 * i).collect();
            let ds = disjoint(f, &labels);
            let n = f.iter().flatten().max().map_or(0, |m| m + 1);
            let mut data: Vec<u32> = (0..n as u32 + 1).collect();
            let seen = ds.subsets_par_iter(data.as_mut_slice()).with_producer(Walk { tree })?;
            let expect: Vec<Seen> = f.iter().cloned().zip(labels).map(|(s, l)| (l, s)).collect();
            ensure_eq!(seen, expect, "subsets delivered");
            for (i, x) in data.iter().enumerate() {
                let c = f.iter().flatten().filter(|k| **k == i).count() as u32;
                ensure_eq!(*x, i as u32 + 1000 * c, "record {i}");
            }
            Ok(if f.len() > 1 && !matches!(tree, Tree::Leaf(_)) { Some(digest(&(fi, ti))) } else { None })
        },
    );

    // 2. Standard adaptors on top, on every schedule.
    let fams2: Vec<Vec<Vec<usize>>> = disjoint_families(4, 1)
        .into_iter()
        .filter(|f| f.len() != 3 || f.iter().any(|s| s.is_empty()))
        .chain((5..=ctx.tier(6, 8)).map(|n| (0..n).map(|i| vec![2 * i + 1, 2 * i]).collect()))
        .collect();
    #[derive(Clone, Debug)]
    struct Sc {
        fam: usize,
        op: usize,
        k: usize,
        splits: usize,
        workers: usize,
        preempt: usize,
    }
    let ops = [
        "for_each", "collect", "enumerate", "rev", "take", "skip", "chunks", "min_len", "max_len", "step_by", "zip",
        "fold_reduce", "try_for_each", "position_any", "interleave", "filter_count", "blocks",
    ];
    let mut scs = vec![];
    for fam in 0..fams2.len() {
        let n = fams2[fam].len();
        for op in 0..ops.len() {
            let ks: Vec<usize> = match ops[op] {
                "take" | "skip" => (0..=n + 1).collect(),
                "chunks" | "step_by" | "min_len" | "max_len" => (1..=n.max(1)).collect(),
                _ => vec![0],
            };
            for k in ks {
                for splits in [1, 2, 4] {
                    let thin = n >= 4 && fam % 5 != 0 && n < 5;
                    scs.push(Sc { fam, op, k, splits, workers: 3, preempt: if thin { 1 } else { ctx.tier(if n >= 5 { 1 } else { 2 }, 3) } });
                }
            }
        }
    }
    ctx.schedules(
        "adaptors",
        &scs,
        |c| {
            let mut cf = Config::new(c.workers, c.splits, c.preempt);
            cf.max_runs = ctx.tier(6_000, 20_000);
            cf
        },
        |c| format!("{} k={} splits={} workers={} preemptions<={} on {:?}", ops[c.op], c.k, c.splits, c.workers, c.preempt, fams2[c.fam]),
        |c| {
            let f = &fams2[c.fam];
            let n = f.len();
            let labels: Vec<usize> = (0..n).map(|i| 50 + 3 * i).collect();
            let ds = disjoint(f, &labels);
            let total = f.iter().flatten().max().map_or(0, |m| m + 1);
            let mut data: Vec<u32> = (0..total as u32).collect();
            let owner: Vec<AtomicUsize> = (0..total).map(|_| AtomicUsize::new(0)).collect();
            let visited: Mutex<Vec<Seen>> = Mutex::new(vec![]);
            let clash = AtomicUsize::new(0);
            let expect: Vec<Seen> = f.iter().cloned().zip(labels).map(|(s, l)| (l, s)).collect();
            // what a worker does with a subset
            macro_rules! work {
                ($s:expr) => {{
                    let mut s = $s;
                    let mut own = s.global_indices().to_vec();
                    own.sort();
                    own.dedup();
                    for &i in &own {
                        if owner[i].fetch_add(1, SeqCst) != 0 {
                            clash.fetch_add(1, SeqCst);
                        }
                    }
                    mcsched::yield_point();
                    let seen = visit(&mut s);
                    for &i in &own {
                        owner[i].fetch_sub(1, SeqCst);
                    }
                    visited.lock().unwrap().push(seen.clone());
                    seen
                }};
            }
            let mut want = expect.clone();
            let mut ordered: Option<Vec<Seen>> = None;
            {
                let it = ds.subsets_par_iter(data.as_mut_slice());
                ensure_eq!(it.len(), n, "len of the parallel iterator");
                ensure_eq!(it.opt_len(), Some(n), "opt_len of the parallel iterator");
                match ops[c.op] {
                    "for_each" => it.for_each(|s| {
                        work!(s);
                    }),
                    "collect" => ordered = Some(it.map(|s| work!(s)).collect()),
                    "enumerate" => {
                        let v: Vec<(usize, Seen)> = it.enumerate().map(|(i, s)| (i, work!(s))).collect();
                        for (i, (j, _)) in v.iter().enumerate() {
                            ensure_eq!(*j, i, "enumerate");
                        }
                        ordered = Some(v.into_iter().map(|x| x.1).collect());
                    }
                    "rev" => {
                        want.reverse();
                        ordered = Some(it.rev().map(|s| work!(s)).collect());
                    }
                    "take" => {
                        want.truncate(c.k);
                        ordered = Some(it.take(c.k).map(|s| work!(s)).collect());
                    }
                    "skip" => {
                        want = want.into_iter().skip(c.k).collect();
                        ordered = Some(it.skip(c.k).map(|s| work!(s)).collect());
                    }
                    "chunks" => {
                        let v: Vec<Vec<Seen>> =
                            it.chunks(c.k).map(|ch| ch.into_iter().map(|s| work!(s)).collect()).collect();
                        for (i, ch) in v.iter().enumerate() {
                            ensure_eq!(ch.len(), c.k.min(n - i * c.k), "chunk length");
                        }
                        ordered = Some(v.into_iter().flatten().collect());
                    }
                    "min_len" => ordered = Some(it.with_min_len(c.k).map(|s| work!(s)).collect()),
                    "max_len" => ordered = Some(it.with_max_len(c.k).map(|s| work!(s)).collect()),
                    "step_by" => {
                        want = want.into_iter().step_by(c.k).collect();
                        ordered = Some(it.step_by(c.k).map(|s| work!(s)).collect());
                    }
                    "zip" => {
                        let v: Vec<(Seen, usize)> =
                            it.zip((0..n + 3).into_par_iter()).map(|(s, j)| (work!(s), j)).collect();
                        for (i, x) in v.iter().enumerate() {
                            ensure_eq!(x.1, i, "zip partner");
                        }
                        ordered = Some(v.into_iter().map(|x| x.0).collect());
                    }
                    "fold_reduce" => {
                        let k = it
                            .map(|s| work!(s))
                            .fold(|| 0usize, |a, s| a + s.1.len() + 1000)
                            .reduce(|| 0, |a, b| a + b);
                        ensure_eq!(k, f.iter().map(|s| s.len() + 1000).sum::<usize>(), "reduction");
                    }
                    "try_for_each" => {
                        let r: Result<(), ()> = it.try_for_each(|s| {
                            work!(s);
                            Ok(())
                        });
                        ensure!(r.is_ok(), "try_for_each failed");
                    }
                    "position_any" => {
                        let p = it.position_any(|s| {
                            work!(s);
                            false
                        });
                        ensure_eq!(p, None, "position");
                    }
                    "interleave" => {
                        let v: Vec<Option<Seen>> = it
                            .map(|s| Some(work!(s)))
                            .interleave((0..n).into_par_iter().map(|_| None))
                            .collect();
                        ordered = Some(v.into_iter().flatten().collect());
                    }
                    "filter_count" => {
                        let k = it.filter(|s| s.len() > 0).map(|s| work!(s)).count();
                        want.retain(|s| !s.1.is_empty());
                        ensure_eq!(k, want.len(), "count");
                    }
                    "blocks" => {
                        drop(it);
                        // every record is a block of two scalars
                        let mut store: Vec<u32> = (0..2 * total as u32).collect();
                        {
                            let mut blocks = BlockAdapter::with_block_size(store.as_mut_slice(), 2);
                            ds.subsets_par_iter(&mut blocks).for_each(|mut s| {
                                for i in 0..s.len() {
                                    let g = s.global_indices()[i] as u32;
                                    let mut b = s.get_mut(i);
                                    for j in 0..2 {
                                        assert_eq!(*b.index(j) % 1000, 2 * g + j as u32, "wrong record in block");
                                        mcsched::yield_point();
                                        *b.index_mut(j) += 1000;
                                    }
                                }
                                visited.lock().unwrap().push((s.label(), s.global_indices().to_vec()));
                            });
                        }
                        for (i, x) in store.iter().enumerate() {
                            let k = f.iter().flatten().filter(|k| **k == i / 2).count() as u32;
                            ensure_eq!(*x, i as u32 + 1000 * k, "block record {i}");
                        }
                    }
                    o => unreachable!("{o}"),
                }
            }
            ensure_eq!(clash.load(SeqCst), 0, "two workers held the same record");
            if let Some(o) = ordered {
                ensure_eq!(o, want, "order of the results");
            }
            let mut v = visited.into_inner().unwrap();
            v.sort();
            let mut w = want.clone();
            w.sort();
            ensure_eq!(v, w, "subsets visited");
            if ops[c.op] != "blocks" {
                for (i, x) in data.iter().enumerate() {
                    let k = want.iter().flat_map(|s| &s.1).filter(|k| **k == i).count() as u32;
                    ensure_eq!(*x, i as u32 + 1000 * k, "record {i}");
                }
            }
            Ok(String::new())
        },
    );

    // 3. The checked constructor accepts exactly the pairwise disjoint families; iteration refuses storage that is too short.
    let seqs = sequences(4, ctx.tier(2, 3));
    let m = seqs.len() as u64;
    for n in 0..=ctx.tier(3, 3) {
        ctx.suite(
            &format!("checked construction, {n} subsets"),
            pow(m, n),
            |i| {
                let mut d = Dig(i);
                format!("{:?}", (0..n).map(|_| d.pick(&seqs).clone()).collect::<Vec<_>>())
            },
            |i| {
                let mut d = Dig(i);
                let f: Vec<Vec<usize>> = (0..n).map(|_| d.pick(&seqs).clone()).collect();
                let labels: Vec<usize> = (0..n as usize).collect();
                let r = DisjointSubsets::try_from_disjoint_subsets(NestedVec::from(&f), labels.clone());
                ensure_eq!(r.is_ok(), is_disjoint(&f), "accepted");
                if let Ok(ds) = r {
                    ensure_eq!(Vec::<Vec<usize>>::from(ds.subsets()), f, "subsets kept");
                    ensure_eq!(ds.labels(), labels.as_slice(), "labels kept");
                    let need = f.iter().flatten().max().map_or(0, |m| m + 1);
                    for len in 0..=need + 1 {
                        let mut data = vec![0u32; len];
                        let ok = no_panic(|| {
                            let _ = ds.subsets_par_iter(data.as_mut_slice()).with_producer(Walk0);
                        });
                        ensure_eq!(ok.is_ok(), len >= need, "iteration over storage of length {len} succeeds ({ok:?})");
                    }
                }
                Ok(if f.iter().any(|s| !s.is_empty()) { Some(digest(&f)) } else { None })
            },
        );
    }

    // Numbers beyond a byte and two: one index shared by two of many subsets, anywhere among them.
    let bases = [0usize, 250, 65_530];
    let many = ctx.tier(264usize, 400);
    ctx.suite("checked construction of many subsets", (many * many * 3 * 2) as u64, |i| format!("case {i}"), |i| {
        let mut d = Dig(i);
        let (a, b, base, pair) = (d.next(many as u64) as usize, d.next(many as u64) as usize, *d.pick(&bases), d.bit());
        let mut f: Vec<Vec<usize>> = (0..many).map(|k| if pair { vec![base + 3 * k, base + 3 * k + 1] } else { vec![base + (k * 7) % many] }).collect();
        if a != b {
            let x = *f[a].last().unwrap();
            f[b].push(x);
        }
        let labels: Vec<usize> = (0..many).map(|k| 300 * k).collect();
        let r = DisjointSubsets::try_from_disjoint_subsets(NestedVec::from(&f), labels.clone());
        ensure_eq!(r.is_ok(), a == b, "accepted, where subsets {a} and {b} share an index");
        if let Ok(ds) = r {
            ensure_eq!(Vec::<Vec<usize>>::from(ds.subsets()), f, "subsets kept");
            ensure_eq!(ds.labels(), labels.as_slice(), "labels kept");
            let need = f.iter().flatten().max().unwrap() + 1;
            for len in [need - 1, need] {
                let mut data = vec![0u32; len];
                let ok = no_panic(|| {
                    let _ = ds.subsets_par_iter(data.as_mut_slice()).with_producer(Walk0);
                });
                ensure_eq!(ok.is_ok(), len == need, "iteration over storage of length {len} succeeds");
            }
        }
        Ok(Some(digest(&(a, b, base, pair))))
    });
    // Wide subsets that share one index, at every pair of positions, or none.
    let mut wide = vec![];
    for w in (1..=ctx.tier(40usize, 70)).chain([130]) {
        for p in 0..w {
            for q in 0..w {
                wide.push((w, p, q, true));
            }
        }
        wide.push((w, 0, 0, false));
    }
    ctx.suite_over("checked construction of wide subsets", &wide, |c| format!("{c:?}"), |&(w, p, q, share)| {
        let mut f: Vec<Vec<usize>> = (0..2).map(|e| (0..w).map(|k| 2 * ((k * 7 + p) % w.max(8) + k / 8 * 200) + e).collect()).collect();
        f.iter_mut().for_each(|x| x.iter_mut().enumerate().for_each(|(k, x)| *x += 5000 * (k % 3)));
        if share {
            f[1][q] = f[0][p];
        }
        let shared = f[1].iter().any(|x| f[0].contains(x));
        for order in 0..2 {
            let g = if order == 0 { f.clone() } else { vec![f[1].clone(), vec![], f[0].clone()] };
            let r = DisjointSubsets::try_from_disjoint_subsets(NestedVec::from(&g), (0..g.len()).collect());
            ensure_eq!(r.is_ok(), !shared, "accepted, where the subsets share an index: {shared}");
        }
        ensure_eq!(shared, share, "the family is as intended");
        Ok(Some(digest(&f)))
    });
    let sizes = [129usize, 255, 256, 257, 300, 65_537];
    ctx.suite("many subsets, split in many ways", 6 * 6 * 3, |i| format!("case {i}"), |i| {
        let mut d = Dig(i);
        let (n, way, shape) = (*d.pick(&sizes), d.next(6), d.next(3) as usize);
        let f: Vec<Vec<usize>> = (0..n).map(|k| (0..shape + 1 - k % (shape + 1)).map(|j| (n - 1 - k) * (shape + 1) + j).collect()).collect();
        let labels: Vec<usize> = (0..n).map(|k| 70_000 - k).collect();
        let ds = disjoint(&f, &labels);
        let leaf = || Box::new(Tree::Leaf(0));
        fn halves(n: usize, least: usize) -> Tree {
            if n <= least { Tree::Leaf(0) } else { Tree::Split(n / 2, Box::new(halves(n / 2, least)), Box::new(halves(n - n / 2, least))) }
        }
        let tree = match way {
            0 => *leaf(),
            1 => Tree::Leaf(u32::MAX),
            2 => halves(n, 1),
            3 => Tree::Split(n - 1, Box::new(halves(n - 1, 20)), leaf()),
            4 => Tree::Split(1, leaf(), Box::new(halves(n - 1, 20))),
            _ => Tree::Split(n.min(256), leaf(), Box::new(Tree::Split((n - n.min(256)) / 3, leaf(), leaf()))),
        };
        let total = f.iter().flatten().max().unwrap() + 1;
        let mut data: Vec<u32> = (0..total as u32).map(|x| x % 1000).collect();
        let seen = ds.subsets_par_iter(data.as_mut_slice()).with_producer(Walk { tree: &tree })?;
        ensure!(seen.iter().map(|x| &x.1).eq(f.iter()), "subsets delivered");
        ensure!(seen.iter().map(|x| x.0).eq(labels.iter().copied()), "labels delivered");
        let mut want: Vec<u32> = (0..total as u32).map(|x| x % 1000).collect();
        f.iter().flatten().for_each(|k| want[*k] += 1000);
        ensure!(data == want, "records after the visits");
        Ok(Some(digest(&(n, way, shape))))
    });

    // 4. Blocked storage.
    let mut blk = vec![];
    for bs in 1..=4usize {
        for len in 0..=12usize {
            blk.push((bs, len));
        }
    }
    // blocks of every size, and many of them
    for bs in 1..=ctx.tier(70usize, 260) {
        for len in (0..=bs + 1).chain([2 * bs - 1, 2 * bs, 3 * bs, 5 * bs + 1]) {
            blk.push((bs, len));
        }
    }
    for bs in [1, 2, 3, 5, 8, 16] {
        for n in [255, 256, 257, 300, 1024, 5000, 70_000] {
            blk.push((bs, n * bs));
            blk.push((bs, n * bs + 1));
        }
    }
    blk.extend([(1024, 3072), (3000, 3000), (3000, 6000), (3000, 6001), (70_000, 140_000), (70_000, 70_001)]);
    ctx.suite_over(
        "block adapter",
        &blk,
        |&(bs, len)| format!("block size {bs}, length {len}"),
        |&(bs, len)| {
            let mut data: Vec<u32> = (0..len as u32).collect();
            let r = no_panic(|| {
                let _ = BlockAdapter::with_block_size(data.as_mut_slice(), bs);
            });
            ensure_eq!(r.is_ok(), len % bs == 0, "accepted");
            if len % bs == 0 {
                let mut b = BlockAdapter::with_block_size(data.as_mut_slice(), bs);
                ensure_eq!(ParallelIndexedCollection::len(&b), len / bs, "number of blocks");
                let acc = unsafe { b.create_access() };
                for k in 0..len / bs {
                    let blk = unsafe { acc.get_unchecked(k) };
                    ensure_eq!(blk.len(), bs, "block length");
                    for j in 0..bs + 2 {
                        let x = blk.get(j).map(|r| *r);
                        ensure_eq!(x, if j < bs { Some((k * bs + j) as u32) } else { None }, "block {k} entry {j}");
                    }
                }
                for k in 0..len / bs {
                    let mut blk = unsafe { acc.get_unchecked_mut(k) };
                    ensure_eq!(blk.len(), bs, "block length");
                    for j in 0..bs + 2 {
                        let x = blk.get(j).map(|r| *r);
                        ensure_eq!(x, if j < bs { Some((k * bs + j) as u32) } else { None }, "mutable block {k} entry {j}");
                        match blk.get_mut(j) {
                            Some(r) => *r += 100,
                            None => ensure!(j >= bs, "missing entry"),
                        }
                    }
                }
                for (i, x) in data.iter().enumerate() {
                    ensure_eq!(*x, i as u32 + 100, "entry {i} after writing");
                }
            }
            Ok(Some(digest(&(bs, len))))
        },
    );
    ctx.finish()
}

struct Walk0;
impl<I> ProducerCallback<I> for Walk0 {
    type Output = usize;
    fn callback<P: Producer<Item = I>>(self, p: P) -> usize {
        p.into_iter().len()
    }
}
