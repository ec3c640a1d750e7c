//! C02: greedy colouring.
use checks::asm::{sweep, Elems};
use checks::families::*;
use fenris::assembly::global::color_nodes;
use fenris::space::FiniteElementConnectivity;
use fenris_nested_vec::NestedVec;
use fenris_paradis::coloring::sequential_greedy_coloring;
use fenris_paradis::DisjointSubsets;
use hk::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::IndexedParallelIterator;

struct Conn<'a>(&'a [Vec<usize>], usize);
impl<'a> FiniteElementConnectivity for Conn<'a> {
    fn num_elements(&self) -> usize {
        self.0.len()
    }
    fn num_nodes(&self) -> usize {
        self.1
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.0[e].len()
    }
    fn populate_element_nodes(&self, out: &mut [usize], e: usize) {
        out.copy_from_slice(&self.0[e]);
    }
}

struct Len;
impl<I> ProducerCallback<I> for Len {
    type Output = usize;
    fn callback<P: Producer<Item = I>>(self, p: P) -> usize {
        p.into_iter().len()
    }
}

/// All the requirements on a colouring, with the greedy requirement in its strong form (the order of the input).
fn check(f: &[Vec<usize>], colors: &[DisjointSubsets], storage: bool) -> Result<(), String> {
    let mut place = vec![None; f.len()];
    for (c, color) in colors.iter().enumerate() {
        ensure!(!color.labels().is_empty(), "colour {c} is empty");
        ensure_eq!(color.labels().len(), color.subsets().len(), "labels of colour {c}");
        for (k, &e) in color.labels().iter().enumerate() {
            ensure!(e < f.len(), "label {e} of colour {c} names no element");
            ensure!(place[e].is_none(), "element {e} has several colours");
            place[e] = Some(c);
            ensure_eq!(color.subsets().get(k).map(|x| x.to_vec()), Some(f[e].clone()), "indices of element {e}");
        }
        let ls = color.labels();
        for i in 0..ls.len() {
            for j in 0..i {
                ensure!(!f[ls[i]].iter().any(|n| f[ls[j]].contains(n)), "elements {} and {} share an index in colour {c}", ls[i], ls[j]);
            }
        }
    }
    for e in 0..f.len() {
        let Some(c) = place[e] else { return Err(format!("element {e} has no colour")) };
        for d in 0..c {
            let conflict = (0..e).any(|o| place[o] == Some(d) && f[o].iter().any(|n| f[e].contains(n)));
            ensure!(conflict, "element {e} has colour {c} but conflicts with no earlier element in colour {d}");
        }
    }
    if storage {
        // the bound used for unchecked access covers exactly the indices of the colour
        for (c, color) in colors.iter().enumerate() {
            let need = color.labels().iter().flat_map(|e| &f[*e]).max().map_or(0, |m| m + 1);
            let mut data = vec![0u8; need];
            let ok = no_panic(|| color.subsets_par_iter(data.as_mut_slice()).with_producer(Len));
            ensure_eq!(ok, Ok(color.labels().len()), "iteration of colour {c} over storage of length {need}");
            if need > 0 {
                let mut data = vec![0u8; need - 1];
                let bad = no_panic(|| color.subsets_par_iter(data.as_mut_slice()).with_producer(Len));
                ensure!(bad.is_err(), "colour {c} can be iterated over storage that is too short ({} of {need})", need - 1);
            }
        }
    }
    Ok(())
}

fn one(f: &[Vec<usize>], storage: bool) -> Verdict {
    let nested = NestedVec::from(&f.to_vec());
    let colors = sequential_greedy_coloring(&nested);
    check(f, &colors, storage)?;
    ensure_eq!(Vec::<Vec<usize>>::from(&nested), f.to_vec(), "input after colouring");
    ensure_eq!(sequential_greedy_coloring(&nested), colors, "second colouring of the same input");
    let n = f.iter().flatten().max().map_or(0, |m| m + 1);
    let via = color_nodes(&Conn(f, n + 1));
    ensure_eq!(via, colors, "colouring of a connectivity");
    Ok(if colors.len() > 1 { Some(digest(f)) } else { None })
}

fn main() {
    let ctx = Ctx::new(
        "C02",
        Level::Exploration,
        "every list of elements within the bound (sequences with repetition, empty elements included); non-trivial if at least two colours are needed",
    );
    // ordered sequences, with repeated nodes
    let seqs = sequences(3, 3);
    for n in 0..=ctx.tier(3, 4) {
        ctx.suite(
            &format!("{n} sequences over 3 nodes"),
            pow(seqs.len() as u64, n),
            |i| {
                let mut d = Dig(i);
                format!("{:?}", (0..n).map(|_| d.pick(&seqs).clone()).collect::<Vec<_>>())
            },
            |i| {
                let mut d = Dig(i);
                let f: Vec<Vec<usize>> = (0..n).map(|_| d.pick(&seqs).clone()).collect();
                one(&f, true)
            },
        );
    }
    // sets, more elements and nodes
    for (nodes, n) in ctx.tier(vec![(4u32, 4u32), (5, 4), (3, 6), (2, 9)], vec![(4, 4), (5, 4), (3, 6), (4, 5), (3, 7), (2, 11)]) {
        let of = move |i: u64| -> Vec<Vec<usize>> {
            let mut d = Dig(i);
            (0..n)
                .map(|_| {
                    let m = d.next(1 << nodes);
                    (0..nodes as usize).filter(|k| m >> k & 1 == 1).collect()
                })
                .collect()
        };
        ctx.suite(
            &format!("{n} subsets of {nodes} nodes"),
            pow(1 << nodes, n),
            |i| format!("{:?}", of(i)),
            |i| one(&of(i), false),
        );
    }
    // graphs: each element an edge, with spread-out node numbers (growth of the visitor table)
    for stride in [1usize, 2, 3, 7, 50] {
        let nodes = 5usize;
        let edges: Vec<Vec<usize>> = (0..nodes)
            .flat_map(|a| (0..nodes).filter(move |b| *b != a).map(move |b| vec![a, b]))
            .map(|e| e.into_iter().map(|x| (x * stride * 3) % (nodes * stride + 1)).collect())
            .collect();
        let n = ctx.tier(4, 4);
        let of = |i: u64| -> Vec<Vec<usize>> {
            let mut d = Dig(i);
            (0..n).map(|_| d.pick(&edges).clone()).collect()
        };
        ctx.suite(&format!("{n} edges, stride {stride}"), pow(edges.len() as u64, n), |i| format!("{:?}", of(i)), |i| one(&of(i), stride == 50));
    }
    // structured meshes of growing size, elements in both orders
    let mut cases = vec![];
    for w in 1..=ctx.tier(8, 16) {
        for h in 1..=w {
            for rev in [false, true] {
                cases.push((w, h, rev));
            }
        }
    }
    ctx.suite_over(
        "quad grids",
        &cases,
        |c| format!("{c:?}"),
        |&(w, h, rev)| {
            let id = |i: usize, j: usize| j * (w + 1) + i;
            let mut f: Vec<Vec<usize>> = vec![];
            for j in 0..h {
                for i in 0..w {
                    f.push(vec![id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)]);
                }
            }
            if rev {
                f.reverse();
            }
            let colors = sequential_greedy_coloring(&Elems::new(f.clone(), 0, 1).nested());
            check(&f, &colors, true)?;
            Ok(Some(digest(&f)))
        },
    );
    // wide elements that share one node, at every position in the first and a few in the second
    let mut wide = vec![];
    for w in (1..=ctx.tier(72usize, 140)).chain([255, 256, 257, 300]) {
        for p in 0..w {
            for q in [0, w / 2, w - 1] {
                wide.push((w, p, q));
            }
        }
    }
    ctx.suite_over("wide elements", &wide, |c| format!("width, positions of the shared node: {c:?}"), |&(w, p, q)| {
        let mut f: Vec<Vec<usize>> = (0..3).map(|e| (0..w).map(|k| 2 + (e * w + k * 7) % (3 * w) + 3 * w * e).collect()).collect();
        f[2][q] = f[0][p];
        if p % 2 == 1 {
            f.iter_mut().for_each(|x| x.reverse());
        }
        one(&f, w < 20)
    });
    // every number of elements
    let top = ctx.tier(330u64, 700);
    ctx.suite("every number of elements", 3 * (top + 1), |i| format!("{} elements, shape {}", i / 3, i % 3), |i| {
        let f = sweep(i as usize / 3, i as usize % 3).nodes;
        let colors = sequential_greedy_coloring(&NestedVec::from(&f));
        check(&f, &colors, i % 3 == 0)?;
        Ok(Some(i))
    });
    // many colours: a clique
    let cl: Vec<usize> = (0..ctx.tier(200, 600)).collect();
    ctx.suite_over(
        "cliques",
        &cl,
        |n| format!("{n} copies of one element"),
        |&n| {
            let f = vec![vec![3usize, 1]; n];
            let colors = sequential_greedy_coloring(&NestedVec::from(&f));
            ensure_eq!(colors.len(), n, "number of colours");
            if n <= 60 {
                check(&f, &colors, true)?;
            }
            Ok(Some(n as u64))
        },
    );
    // numbers beyond a byte and two, against a reference that is quick enough
    let far = [0usize, 1, 255, 256, 257, 65_535, 65_536, 131_072];
    ctx.suite("three pairs of far apart nodes", pow(64, 3), |i| format!("case {i}"), |i| {
        let mut d = Dig(i);
        let f: Vec<Vec<usize>> = (0..3).map(|_| vec![*d.pick(&far), *d.pick(&far)]).collect();
        let colors = sequential_greedy_coloring(&NestedVec::from(&f));
        check(&f, &colors, false)?;
        Ok(Some(digest(&f)))
    });
    let mut big: Vec<(&str, Vec<Vec<usize>>)> = vec![];
    for n in [255usize, 256, 257, 300, 700, 65_535, 65_536, 65_537, 70_000] {
        if n < 1000 {
            big.push(("star", (0..n).map(|k| vec![n, k]).collect()));
            big.push(("star and path", (0..n).map(|k| vec![n, k]).chain((0..n - 1).map(|k| vec![k, k + 1])).collect()));
            big.push(("all pairs", (0..n / 8).flat_map(|a| (0..a).map(move |b| vec![a, b])).collect()));
            big.push(("one large element among small ones", (0..n).map(|k| vec![k]).chain([(0..n).collect()]).chain((0..n).rev().map(|k| vec![k])).collect()));
        }
        big.push(("path", (0..n).map(|k| vec![k, k + 1]).collect()));
        big.push(("path backwards", (0..n).rev().map(|k| vec![k, k + 1]).collect()));
        big.push(("apart", (0..n).map(|k| vec![k * 2]).collect()));
        big.push(("every other element empty", (0..n).map(|k| if k % 2 == 0 { vec![] } else { vec![k / 4] }).collect()));
    }
    ctx.suite_over("large families", &big, |b| format!("{} of {} elements", b.0, b.1.len()), |(_, f)| {
        let mut taken: std::collections::HashMap<usize, Vec<bool>> = Default::default();
        let mut want: Vec<Vec<usize>> = vec![];
        for (e, nodes) in f.iter().enumerate() {
            let c = (0..).find(|c| nodes.iter().all(|n| !taken.get(n).map_or(false, |t| t.get(*c) == Some(&true)))).unwrap();
            for n in nodes {
                let t = taken.entry(*n).or_default();
                t.resize(t.len().max(c + 1), false);
                t[c] = true;
            }
            want.resize(want.len().max(c + 1), vec![]);
            want[c].push(e);
        }
        let colors = sequential_greedy_coloring(&NestedVec::from(f));
        ensure_eq!(colors.len(), want.len(), "number of colours");
        for (c, (color, want)) in colors.iter().zip(&want).enumerate() {
            let mut order: Vec<usize> = (0..want.len()).collect();
            ensure_eq!(color.labels().len(), want.len(), "elements of colour {c}");
            order.sort_by_key(|k| color.labels()[*k]);
            ensure!(order.iter().map(|k| color.labels()[*k]).eq(want.iter().copied()), "elements of colour {c}");
            ensure_eq!(color.subsets().len(), want.len(), "subsets of colour {c}");
            for k in order {
                ensure!(color.subsets().get(k) == Some(&f[color.labels()[k]][..]), "indices of element {} of colour {c}", color.labels()[k]);
            }
        }
        ensure!(color_nodes(&Conn(f, f.iter().flatten().max().map_or(0, |m| m + 1))) == colors, "colouring of a connectivity");
        Ok(Some(digest(&want)))
    });
    ctx.finish()
}
