//! C07: composed element assemblers.
use checks::asm::Elems;
use fenris::assembly::local::*;
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorViewMut};
use hk::*;
use std::sync::Arc;

trait Asm: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64> {}
impl<A: ElementMatrixAssembler<f64> + ElementVectorAssembler<f64> + ElementScalarAssembler<f64>> Asm for A {}

/// A type-erased assembler, so that the library's combinators can be nested freely.
struct Any<'a>(Box<dyn Asm + 'a>);
impl<'a> ElementConnectivityAssembler for Any<'a> {
    fn solution_dim(&self) -> usize {
        self.0.solution_dim()
    }
    fn num_elements(&self) -> usize {
        self.0.num_elements()
    }
    fn num_nodes(&self) -> usize {
        self.0.num_nodes()
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.0.element_node_count(e)
    }
    fn populate_element_nodes(&self, o: &mut [usize], e: usize) {
        self.0.populate_element_nodes(o, e)
    }
}
impl<'a> ElementMatrixAssembler<f64> for Any<'a> {
    fn assemble_element_matrix_into(&self, e: usize, o: DMatrixViewMut<f64>) -> eyre::Result<()> {
        self.0.assemble_element_matrix_into(e, o)
    }
}
impl<'a> ElementVectorAssembler<f64> for Any<'a> {
    fn assemble_element_vector_into(&self, e: usize, o: DVectorViewMut<f64>) -> eyre::Result<()> {
        self.0.assemble_element_vector_into(e, o)
    }
}
impl<'a> ElementScalarAssembler<f64> for Any<'a> {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<f64> {
        self.0.assemble_element_scalar(e)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Expr {
    /// The k-th leaf.
    Part(usize),
    Agg(Vec<Arc<Expr>>),
    Nodes(usize, Arc<Expr>),
    Mat(usize, Arc<Expr>),
    Vct(usize, Arc<Expr>),
    Scal(usize, Arc<Expr>),
}
use Expr::*;

fn leaf(k: usize, sdim: usize) -> Elems {
    let nodes = match k {
        0 => vec![],
        1 => vec![vec![2, 0]],
        2 => vec![vec![1], vec![]],
        _ => vec![vec![0, 1, 2], vec![3], vec![2, 1]],
    };
    let mut e = Elems::new(nodes, 4, sdim);
    e.seed = 10 + k as u64;
    e
}

fn node_map(k: usize) -> (usize, fn(usize) -> usize) {
    match k {
        0 => (4, |n| 3 - n),
        1 => (9, |n| n + 5),
        _ => (4, |n| n / 2),
    }
}

/// Not idempotent, and not commuting with each other. The third one fails for one particular input.
fn act(k: usize, x: f64) -> Result<f64, ()> {
    match k {
        0 => Ok(2.0 * x + 1.0),
        1 => Ok(-x + 7.0),
        _ => {
            if (x as i64) % 3 == 0 {
                Err(())
            } else {
                Ok(x - 1.0)
            }
        }
    }
}

fn act_all<'x>(k: usize, xs: impl Iterator<Item = &'x mut f64>) -> eyre::Result<()> {
    for x in xs {
        *x = act(k, *x).map_err(|_| eyre::eyre!("transformation failed"))?;
    }
    Ok(())
}

/// What the expression stands for.
#[derive(Clone, Debug, PartialEq)]
struct Elem {
    nodes: Vec<usize>,
    mat: Option<DMatrix<f64>>,
    vec: Option<DVector<f64>>,
    scal: Option<f64>,
}

#[derive(Clone, Debug)]
struct Model {
    num_nodes: usize,
    elems: Vec<Elem>,
}

fn model(x: &Expr, sdim: usize) -> Model {
    match x {
        Part(k) => {
            let e = leaf(*k, sdim);
            Model {
                num_nodes: e.num_nodes,
                elems: e
                    .nodes
                    .iter()
                    .enumerate()
                    .map(|(i, ns)| {
                        let n = sdim * ns.len();
                        Elem {
                            nodes: ns.clone(),
                            mat: Some(DMatrix::from_fn(n, n, |a, b| e.entry(i, a, b))),
                            vec: Some(DVector::from_fn(n, |a, _| e.entry(i, a, 777))),
                            scal: Some(e.entry(i, 555, 999)),
                        }
                    })
                    .collect(),
            }
        }
        Agg(xs) => {
            let ms: Vec<Model> = xs.iter().map(|x| model(x, sdim)).collect();
            Model { num_nodes: ms[0].num_nodes, elems: ms.into_iter().flat_map(|m| m.elems).collect() }
        }
        Nodes(k, x) => {
            let mut m = model(x, sdim);
            let (n, f) = node_map(*k);
            m.num_nodes = n;
            for e in &mut m.elems {
                for v in &mut e.nodes {
                    *v = f(*v);
                }
            }
            m
        }
        Mat(k, x) => {
            let mut m = model(x, sdim);
            for e in &mut m.elems {
                e.mat = e.mat.take().and_then(|mut a| act_all(*k, a.iter_mut()).ok().map(|_| a));
            }
            m
        }
        Vct(k, x) => {
            let mut m = model(x, sdim);
            for e in &mut m.elems {
                e.vec = e.vec.take().and_then(|mut a| act_all(*k, a.iter_mut()).ok().map(|_| a));
            }
            m
        }
        Scal(k, x) => {
            let mut m = model(x, sdim);
            for e in &mut m.elems {
                e.scal = e.scal.and_then(|a| act(*k, a).ok());
            }
            m
        }
    }
}

fn num_nodes(x: &Expr) -> usize {
    match x {
        Part(_) => 4,
        Agg(xs) => num_nodes(&xs[0]),
        Nodes(k, _) => node_map(*k).0,
        Mat(_, x) | Vct(_, x) | Scal(_, x) => num_nodes(x),
    }
}

/// The library object for the expression, passed to a continuation (aggregates borrow their parts).
fn with(x: &Expr, sdim: usize, k: &mut dyn FnMut(Any) -> Result<(), String>) -> Result<(), String> {
    match x {
        Part(i) => k(Any(Box::new(leaf(*i, sdim)))),
        Agg(xs) => {
            fn collect<'p>(xs: &[Arc<Expr>], sdim: usize, got: Vec<Any<'p>>, k: &mut dyn FnMut(Any) -> Result<(), String>) -> Result<(), String> {
                if xs.is_empty() {
                    return k(Any(Box::new(AggregateElementAssembler::from_assemblers(&got))));
                }
                let mut got = Some(got);
                with(&xs[0], sdim, &mut |a: Any| {
                    // the parts live as long as this call; shorten the lifetimes of the earlier ones to match
                    let mut v: Vec<Any<'_>> = Vec::new();
                    v.extend(got.take().expect("called once").into_iter());
                    v.push(a);
                    collect(&xs[1..], sdim, v, k)
                })
            }
            collect(xs, sdim, vec![], k)
        }
        Nodes(i, x) => {
            let (n, f) = node_map(*i);
            with(x, sdim, &mut |a| k(Any(Box::new(a.map_element_nodes(n, f)))))
        }
        Mat(i, x) => with(x, sdim, &mut |a| {
            let i = *i;
            k(Any(Box::new(a.transform_element_matrix(move |mut m: DMatrixViewMut<f64>| act_all(i, m.iter_mut())))))
        }),
        Vct(i, x) => with(x, sdim, &mut |a| {
            let i = *i;
            k(Any(Box::new(a.transform_element_vector(move |mut m: DVectorViewMut<f64>| act_all(i, m.iter_mut())))))
        }),
        Scal(i, x) => with(x, sdim, &mut |a| {
            let i = *i;
            k(Any(Box::new(a.transform_element_scalar(move |m: f64| {
                act(i, m).map_err(|_| eyre::eyre!("transformation failed"))
            }))))
        }),
    }
}

fn check(x: &Expr, sdim: usize) -> Verdict {
    let m = model(x, sdim);
    let mut called = 0;
    with(x, sdim, &mut |a| {
        called += 1;
        ensure_eq!(a.solution_dim(), sdim, "solution dimension");
        ensure_eq!(a.num_nodes(), m.num_nodes, "number of nodes");
        ensure_eq!(a.num_elements(), m.elems.len(), "number of elements");
        for (i, e) in m.elems.iter().enumerate().chain(m.elems.iter().enumerate().rev()) {
            ensure_eq!(a.element_node_count(i), e.nodes.len(), "node count of element {i}");
            let mut out = vec![usize::MAX; e.nodes.len()];
            a.populate_element_nodes(&mut out, i);
            ensure_eq!(out, e.nodes, "nodes of element {i}");
            let n = sdim * e.nodes.len();
            let mut out = DMatrix::from_element(n, n, 12345.0);
            let r = a.assemble_element_matrix_into(i, DMatrixViewMut::from(&mut out));
            ensure_eq!(r.is_ok(), e.mat.is_some(), "matrix of element {i} succeeds");
            if let Some(w) = &e.mat {
                ensure_eq!(&out, w, "matrix of element {i}");
                ensure_eq!(&a.assemble_element_matrix(i).map_err(|x| x.to_string())?, w, "fresh matrix of element {i}");
            }
            let mut out = DVector::from_element(n, 12345.0);
            let r = a.assemble_element_vector_into(i, DVectorViewMut::from(&mut out));
            ensure_eq!(r.is_ok(), e.vec.is_some(), "vector of element {i} succeeds");
            if let Some(w) = &e.vec {
                ensure_eq!(&out, w, "vector of element {i}");
                ensure_eq!(&a.assemble_element_vector(i).map_err(|x| x.to_string())?, w, "fresh vector of element {i}");
            }
            ensure_eq!(a.assemble_element_scalar(i).ok(), e.scal, "scalar of element {i}");
        }
        Ok(())
    })?;
    ensure_eq!(called, 1, "continuation");
    Ok(if m.elems.is_empty() { None } else { Some(digest(&(x, sdim))) })
}

fn unary(x: &Arc<Expr>) -> Vec<Expr> {
    let x = || x.clone();
    vec![Nodes(0, x()), Nodes(1, x()), Nodes(2, x()), Mat(0, x()), Mat(1, x()), Vct(0, x()), Vct(1, x()), Scal(0, x()), Scal(1, x()), Mat(2, x()), Vct(2, x()), Scal(2, x())]
        .into_iter()
        .filter(|e| match e {
            // the node maps are defined for four nodes
            Nodes(_, y) => num_nodes(y) == 4,
            _ => true,
        })
        .collect()
}

fn aggs(pool: &[Arc<Expr>], len: usize) -> Vec<Expr> {
    let mut out: Vec<Vec<Arc<Expr>>> = vec![vec![]];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|v| {
                pool.iter()
                    .filter(|x| v.is_empty() || num_nodes(&v[0]) == num_nodes(x))
                    .map(|x| {
                        let mut w = v.clone();
                        w.push(x.clone());
                        w
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    out.into_iter().map(Agg).collect()
}

fn main() {
    let ctx = Ctx::new(
        "C07",
        Level::Exploration,
        "every expression over the combinators (aggregate, node map, matrix / vector / scalar transformation) up to nesting depth three over parts with 0 to 3 elements; non-trivial if it has at least one element",
    );
    let arc = |v: Vec<Expr>| -> Vec<Arc<Expr>> { v.into_iter().map(Arc::new).collect() };
    let l0 = arc((0..4).map(Part).collect());
    // flat aggregates of many parts, with runs of empty parts anywhere
    for len in 1..=ctx.tier(6, 8) {
        let all = aggs(&l0, len);
        ctx.suite_over(&format!("aggregates of {len} parts"), &all, |x| format!("{x:?}"), |x| check(x, 1 + len % 2));
    }
    let mut l1: Vec<Arc<Expr>> = l0.iter().flat_map(unary).map(Arc::new).collect();
    for len in 1..=3 {
        l1.extend(arc(aggs(&l0, len)));
    }
    let small: Vec<Arc<Expr>> = l0
        .iter()
        .cloned()
        .chain(l1.iter().filter(|x| matches!(***x, Agg(ref v) if v.len() <= 2 && !matches!(*v[0], Part(3))) || matches!(***x, Nodes(0, _) | Nodes(1, _) | Mat(0, _) | Vct(0, _) | Scal(0, _))).cloned())
        .collect();
    let mut l2: Vec<Arc<Expr>> = l1.iter().flat_map(unary).map(Arc::new).collect();
    for len in 1..=ctx.tier(3, 3) {
        l2.extend(arc(aggs(&small, len)));
    }
    for sdim in 1..=2 {
        ctx.suite_over(&format!("depth one, dimension {sdim}"), &l1, |x| format!("{x:?}"), |x| check(x, sdim));
        ctx.suite_over(&format!("depth two, dimension {sdim}"), &l2, |x| format!("{x:?}"), |x| check(x, sdim));
    }
    let stride = ctx.tier(7, 1);
    let l2s: Vec<Arc<Expr>> = l2.iter().enumerate().filter(|(i, _)| *i < 4000 || i % stride == 0).map(|x| x.1.clone()).collect();
    let mut l3: Vec<Arc<Expr>> = l2s.iter().flat_map(unary).map(Arc::new).collect();
    for x in l2s.iter() {
        for y in &l0 {
            if num_nodes(x) == num_nodes(y) {
                l3.push(Arc::new(Agg(vec![x.clone(), y.clone()])));
                l3.push(Arc::new(Agg(vec![y.clone(), x.clone()])));
                l3.push(Arc::new(Agg(vec![y.clone(), x.clone(), y.clone()])));
            }
        }
    }
    ctx.suite_over("depth three", &l3, |x| format!("{x:?}"), |x| check(x, 1));

    // numbers that do not fit a byte (or two)
    let counts = [0usize, 1, 3, 255, 256, 257, 300, 66_000];
    ctx.suite("many parts and many elements", 8 * 8 * 3, |i| format!("case {i}"), |i| {
        let mut g = Dig(i);
        let (a, b, kind) = (*g.pick(&counts), *g.pick(&counts), g.next(3));
        let part = |n: usize, seed: u64| {
            let mut e = Elems::new((0..n).map(|k| (0..k % 3).map(|j| (k * 5 + j) % 70_000).collect()).collect(), 70_000, 1);
            e.seed = seed;
            e
        };
        let parts: Vec<Elems> = match kind {
            0 => vec![part(a, 1), part(b, 2)],
            1 => vec![part(0, 1), part(a, 2), part(0, 3), part(b, 4), part(2, 5)],
            // many small parts
            _ => (0..a.min(300)).map(|k| part(k % 3, k as u64)).chain([part(b, 1000)]).chain((0..a.min(300)).map(|k| part((k + 1) % 2, k as u64))).collect(),
        };
        let all: Vec<(usize, usize)> = parts.iter().enumerate().flat_map(|(p, e)| (0..e.nodes.len()).map(move |k| (p, k))).collect();
        let agg = AggregateElementAssembler::from_assemblers(&parts);
        let agg = agg.map_element_nodes(140_000, |n| 139_999 - n);
        ensure_eq!(agg.num_elements(), all.len(), "number of elements");
        for (i, (p, k)) in all.iter().enumerate().chain(all.iter().enumerate().rev().step_by(7)) {
            let want = &parts[*p].nodes[*k];
            ensure_eq!(agg.element_node_count(i), want.len(), "node count of element {i}");
            let mut out = vec![usize::MAX; want.len()];
            agg.populate_element_nodes(&mut out, i);
            ensure!(out.iter().zip(want).all(|(a, b)| *a == 139_999 - b), "nodes of element {i}: {out:?}");
            let s: f64 = agg.assemble_element_scalar(i).map_err(|e| e.to_string())?;
            ensure!(s == parts[*p].entry(*k, 555, 999), "scalar of element {i}");
            let v: DVector<f64> = agg.assemble_element_vector(i).map_err(|e| e.to_string())?;
            ensure!(v.iter().enumerate().all(|(j, x)| *x == parts[*p].entry(*k, j, 777)), "vector of element {i}");
        }
        Ok(Some(digest(&i)))
    });

    // every number of nodes of an element, and every number of parts
    let most = ctx.tier(70u64, 300);
    ctx.suite("wide elements and every number of parts", most * 3, |i| format!("case {i}"), |i| {
        let (n, s) = (i as usize / 3, i as usize % 3 + 1);
        let part = |w: &[usize], seed: u64| {
            let mut e = Elems::new(w.iter().map(|w| (0..*w).map(|j| (j * 7 + seed as usize) % 400).collect()).collect(), 400, s);
            e.seed = seed;
            e
        };
        let mut parts = vec![part(&[1, n], 1), part(&[n, 0, 2], 2)];
        parts.extend((0..n).map(|k| part(&[2, 1, 3][..(k * k + n) % 4], 10 + k as u64)));
        let all: Vec<(usize, usize)> = parts.iter().enumerate().flat_map(|(p, e)| (0..e.nodes.len()).map(move |k| (p, k))).collect();
        let agg = AggregateElementAssembler::from_assemblers(&parts);
        let agg = agg.map_element_nodes(800, |n| 799 - n);
        ensure_eq!(agg.num_elements(), all.len(), "number of elements");
        for (i, (p, k)) in all.iter().enumerate() {
            let want = &parts[*p].nodes[*k];
            ensure_eq!(agg.element_node_count(i), want.len(), "node count of element {i}");
            let mut out = vec![usize::MAX; want.len()];
            agg.populate_element_nodes(&mut out, i);
            ensure!(out.iter().zip(want).all(|(a, b)| *a == 799 - b), "nodes of element {i}: {out:?}");
            let c: f64 = agg.assemble_element_scalar(i).map_err(|e| e.to_string())?;
            ensure!(c == parts[*p].entry(*k, 555, 999), "scalar of element {i}");
            let v: DVector<f64> = agg.assemble_element_vector(i).map_err(|e| e.to_string())?;
            ensure_eq!(v.len(), s * want.len(), "length of the vector of element {i}");
            ensure!(v.iter().enumerate().all(|(j, x)| *x == parts[*p].entry(*k, j, 777)), "vector of element {i}");
            let m: DMatrix<f64> = agg.assemble_element_matrix(i).map_err(|e| e.to_string())?;
            ensure_eq!(m.shape(), (s * want.len(), s * want.len()), "shape of the matrix of element {i}");
            for r in 0..m.nrows() {
                for c in 0..m.ncols() {
                    ensure!(m[(r, c)] == parts[*p].entry(*k, r, c), "entry {r}, {c} of the matrix of element {i}");
                }
            }
        }
        Ok(Some(digest(&i)))
    });

    // aggregates that cannot be formed are refused
    let mut bad = vec![(vec![], "no parts")];
    let mut other = leaf(1, 1);
    other.num_nodes = 5;
    bad.push((vec![leaf(1, 1), other], "different numbers of nodes"));
    bad.push((vec![leaf(1, 1), leaf(2, 2)], "different solution dimensions"));
    bad.push((vec![leaf(0, 1), leaf(0, 2)], "different solution dimensions, no elements"));
    ctx.suite_over(
        "refused aggregates",
        &bad,
        |x| x.1.to_string(),
        |(parts, what)| {
            let r = no_panic(|| AggregateElementAssembler::from_assemblers(parts).num_elements());
            ensure!(r.is_err(), "an aggregate with {what} was accepted");
            Ok(Some(digest(what)))
        },
    );
    ctx.finish()
}
