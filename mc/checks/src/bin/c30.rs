//! C30: what is saved is read back, and damaged data never become an object whose type promises what the data break.
use checks::cells::*;
use checks::families::*;
use checks::pos::{self, Tok};
use fenris::allocators::DimAllocator;
use fenris::assembly::local::*;
use fenris::connectivity::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::*;
use fenris::space::FixedInterpolator;
use fenris::util::NestedVec;
use fenris_geometry::polymesh::PolyMesh;
use fenris_geometry::*;
use fenris_paradis::coloring::sequential_greedy_coloring;
use fenris_paradis::DisjointSubsets;
use fenris_solid::materials::*;
use hk::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use std::fmt::Debug;
use std::sync::Arc;

/// JSON text with the fields of every object in descending order of their names (Value keeps them in ascending order).
fn backwards(v: &Value, out: &mut String) {
    match v {
        Value::Object(m) => {
            out.push('{');
            for (k, (name, x)) in m.iter().rev().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                out.push_str(&Value::String(name.clone()).to_string());
                out.push(':');
                backwards(x, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (k, x) in a.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                backwards(x, out);
            }
            out.push(']');
        }
        x => out.push_str(&x.to_string()),
    }
}

/// Written and read in each format, the value is the same; a stream that stops early or goes on is refused.
fn round<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: &T, json: bool) -> Result<(), String> {
    let same = |y: &T, how: &str| -> Result<(), String> {
        ensure!(y == x && format!("{y:?}") == format!("{x:?}"), "{how}: {x:?} is read back as {y:?}");
        Ok(())
    };
    let t = pos::write(x).map_err(|e| format!("positional: cannot be written: {e}"))?;
    let y: T = pos::read(&t).map_err(|e| format!("positional: {x:?} cannot be read back: {e}"))?;
    same(&y, "positional")?;
    ensure_eq!(pos::write(&y).map_err(|e| e.to_string())?, t, "positional: written again");
    for cut in (0..t.len()).rev().take(40) {
        ensure!(no_panic(|| pos::read::<T>(&t[..cut]).is_err())?, "{x:?}: {cut} of {} tokens are enough to read it", t.len());
    }
    if json {
        let v = serde_json::to_value(x).map_err(|e| format!("JSON: cannot be written: {e}"))?;
        same(&serde_json::from_value(v.clone()).map_err(|e| format!("JSON value: {x:?} cannot be read back: {e}"))?, "JSON value")?;
        for s in [serde_json::to_string(x), serde_json::to_string_pretty(x)] {
            let s = s.map_err(|e| format!("JSON text: cannot be written: {e}"))?;
            same(&serde_json::from_str(&s).map_err(|e| format!("JSON text: {s} cannot be read back: {e}"))?, "JSON text")?;
        }
        let mut s = String::new();
        backwards(&v, &mut s);
        same(&serde_json::from_str(&s).map_err(|e| format!("JSON, other field order: {s} cannot be read back: {e}"))?, "JSON, other field order")?;
        // in a list, a value does not run into the next
        let l: Vec<T> = serde_json::from_value(Value::Array(vec![v.clone(), v])).map_err(|e| format!("list: {e}"))?;
        ensure_eq!(l.len(), 2, "list");
        l.iter().try_for_each(|y| same(y, "JSON, list"))?;
    }
    let t2: Vec<Tok> = [vec![Tok::Len(2)], t.clone(), t].concat();
    let l: Vec<T> = pos::read(&t2).map_err(|e| format!("positional list: {e}"))?;
    ensure_eq!(l.len(), 2, "positional list");
    l.iter().try_for_each(|y| same(y, "positional list"))
}

/// All damages of a tree of values: a number replaced, an entry lost, repeated or swapped with the next, a field lost.
fn damages(v: &Value, menu: &[u64]) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) => {
            for i in 0..a.len() {
                for d in damages(&a[i], menu) {
                    let mut b = a.clone();
                    b[i] = d;
                    out.push(Value::Array(b));
                }
                let mut b = a.clone();
                b.remove(i);
                out.push(Value::Array(b));
                let mut b = a.clone();
                b.insert(i, a[i].clone());
                out.push(Value::Array(b));
                if i + 1 < a.len() && a[i] != a[i + 1] {
                    let mut b = a.clone();
                    b.swap(i, i + 1);
                    out.push(Value::Array(b));
                }
            }
            if a.is_empty() {
                out.extend([Value::Array(vec![0.into()]), Value::Array(vec![1.into()])]);
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                for d in damages(x, menu) {
                    let mut b = m.clone();
                    b.insert(k.clone(), d);
                    out.push(Value::Object(b));
                }
                let mut b = m.clone();
                b.remove(k);
                out.push(Value::Object(b));
                let mut b = m.clone();
                b.insert(k.clone(), Value::Null);
                out.push(Value::Object(b));
            }
        }
        Value::Null => out.extend([Value::from(0), Value::from(2)]),
        Value::Number(n) if n.is_u64() => out.extend(menu.iter().filter(|x| n.as_u64() != Some(**x)).map(|x| Value::from(*x))),
        _ => {}
    }
    out
}

/// Up to two damages, one after the other; with a budget for the second.
fn damaged(v: &Value, menu: &[u64], two: bool) -> Vec<Value> {
    let once = damages(v, menu);
    let mut out = once.clone();
    if two {
        out.extend(once.iter().flat_map(|d| damages(d, menu)));
    }
    out
}

/// Damages at the ends and in the middle of lists only, for long lists.
fn edge_damages(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) if !a.is_empty() => {
            for i in std::collections::BTreeSet::from([0, a.len() / 2, a.len().saturating_sub(2), a.len() - 1]) {
                for d in edge_damages(&a[i]) {
                    let mut b = a.clone();
                    b[i] = d;
                    out.push(Value::Array(b));
                }
                let mut b = a.clone();
                b.remove(i);
                out.push(Value::Array(b));
                let mut b = a.clone();
                b.insert(i, a[i].clone());
                out.push(Value::Array(b));
                // something from the other end
                let mut b = a.clone();
                b[i] = a[a.len() - 1 - i].clone();
                out.push(Value::Array(b));
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                for d in edge_damages(x) {
                    let mut b = m.clone();
                    b.insert(k.clone(), d);
                    out.push(Value::Object(b));
                }
            }
        }
        Value::Number(n) if n.is_u64() => {
            let x = n.as_u64().unwrap();
            out.extend([0, x.wrapping_sub(1), x.wrapping_add(1), x + 10, u64::MAX].into_iter().filter(|y| *y != x).map(Value::from));
        }
        _ => {}
    }
    out
}

fn connectivities() -> Vec<(&'static str, usize)> {
    vec![
        ("Segment2d1", 2), ("Segment2d2", 2), ("Segment2d3", 2), ("Segment3d3", 3), ("Tri3d2", 3), ("Tri3d3", 3), ("Tri6d2", 6),
        ("Tri6d3", 6), ("Quad4d2", 4), ("Quad8d3", 8), ("Quad9d2", 9), ("Quad9d3", 9), ("Tet4", 4), ("Tet10", 10), ("Tet20", 20),
        ("Hex8", 8), ("Hex20", 20), ("Hex27", 27),
    ]
}

macro_rules! with_cell {
    ($i:expr, $f:ident :: <_> ($($a:expr),*)) => {
        match $i {
            0 => $f::<Segment2d1Connectivity>($($a),*),
            1 => $f::<Segment2d2Connectivity>($($a),*),
            2 => $f::<Segment2d3Connectivity>($($a),*),
            3 => $f::<Segment3d3Connectivity>($($a),*),
            4 => $f::<Tri3d2Connectivity>($($a),*),
            5 => $f::<Tri3d3Connectivity>($($a),*),
            6 => $f::<Tri6d2Connectivity>($($a),*),
            7 => $f::<Tri6d3Connectivity>($($a),*),
            8 => $f::<Quad4d2Connectivity>($($a),*),
            9 => $f::<Quad8d3Connectivity>($($a),*),
            10 => $f::<Quad9d2Connectivity>($($a),*),
            11 => $f::<Quad9d3Connectivity>($($a),*),
            12 => $f::<Tet4Connectivity>($($a),*),
            13 => $f::<Tet10Connectivity>($($a),*),
            14 => $f::<Tet20Connectivity>($($a),*),
            15 => $f::<Hex8Connectivity>($($a),*),
            16 => $f::<Hex20Connectivity>($($a),*),
            _ => $f::<Hex27Connectivity>($($a),*),
        }
    };
}

const CELLS: usize = 18;
const PATTERNS: usize = 8;
fn pattern(p: usize, n: usize) -> Vec<usize> {
    (0..n)
        .map(|i| match p {
            0 => i,
            1 => n - 1 - i,
            2 => 0,
            3 => usize::MAX - i,
            4 => 1 << (i % 64),
            5 => 250 + i,
            6 => 65_530 + 3 * i,
            _ => (u32::MAX as usize - 10) + 7 * i,
        })
        .collect()
}

fn conn<C: TestCell + Serialize + DeserializeOwned>(p: usize) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
{
    let n = C::kind().nodes.len();
    let want = pattern(p, n);
    let c = C::make(&want);
    round(&c, true)?;
    // any list of as many indices is read as the cell with these nodes, whoever wrote it, and no other list is
    let v = serde_json::to_value(&c).map_err(|e| e.to_string())?;
    let back: C = serde_json::from_value(v).map_err(|e| e.to_string())?;
    ensure_eq!(back.vertex_indices().to_vec(), want, "nodes");
    Ok(Some(digest(&(C::NAME, p))))
}

fn json_of<C: TestCell + Serialize + DeserializeOwned>(p: usize) -> Value
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
{
    serde_json::to_value(C::make(&pattern(p, C::kind().nodes.len()))).unwrap_or(Value::Null)
}
fn reads<C: TestCell + Serialize + DeserializeOwned>(v: Value) -> Option<Vec<usize>>
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
{
    serde_json::from_value::<C>(v).ok().map(|c| c.vertex_indices().to_vec())
}

/// Coordinates: short enough for any text format, or bit patterns that only an exact format keeps.
fn coords(exact: bool) -> impl Fn(I3) -> [f64; 3] {
    move |v| {
        let x = v.map(|x| x as f64);
        if exact {
            [1.0 / (x[0] + 1.0 / 3.0), if v[1] % 2 == 0 { -0.0 } else { f64::MIN_POSITIVE / 8.0 * x[1] }, if v[2] == 6 { f64::MAX } else { 0.1 * x[2] }]
        } else {
            x.map(|x| x / 8.0 - 1.0)
        }
    }
}

fn meshes<C: TestCell + Serialize + DeserializeOwned>(ctx: &Arc<Ctx>)
where
    DefaultAllocator: DimAllocator<f64, C::Dim> + allocator::Allocator<f64, C::Dim>,
    <DefaultAllocator as allocator::Allocator<f64, C::Dim>>::Buffer: Serialize + DeserializeOwned,
{
    let k = C::kind();
    let n = ctx.tier(2, 3);
    let mut cells: Vec<Vec<Affine>> = vec![vec![]];
    for a in 1..=n {
        for b in 1..=n {
            for c in 1..=2 {
                cells.push(grid(k.shape, [a, b, c]));
            }
        }
    }
    let base = grid(k.shape, [1, 1, 1]);
    cells.extend(base.iter().map(|a| vec![*a]));
    let total = (cells.len() * RELABELLINGS * 2) as u64;
    ctx.suite(&format!("meshes of {} in dimension {}", C::NAME, C::Dim::dim()), total, |i| format!("mesh {i}"), |i| {
        let mut d = Dig(i);
        let (relabel, exact) = (d.next(RELABELLINGS as u64), d.bit());
        let l = build(&k, d.pick(&cells), relabel);
        let m: Mesh<f64, C::Dim, C> = typed::<C>(&l, coords(exact));
        round(&m, !exact)?;
        let bits = |m: &Mesh<f64, C::Dim, C>| m.vertices().iter().flat_map(|v| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>();
        let y: Mesh<f64, C::Dim, C> = pos::read(&pos::write(&m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ensure_eq!(bits(&y), bits(&m), "bits of the coordinates");
        ensure_eq!(y.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect::<Vec<_>>(), l.cells, "cells");
        Ok((!l.cells.is_empty()).then(|| digest(&(C::NAME, C::Dim::dim(), i))))
    });
}

/// Nothing that a nested vector can be asked goes wrong, and its answers agree with each other.
fn sane<T: Clone + Debug + PartialEq + Serialize + DeserializeOwned>(v: &mut NestedVec<T>) -> Result<(), String> {
    let n = v.len();
    let rows: Vec<Vec<T>> = no_panic(|| (0..n).map(|i| v.get(i).map(|s| s.to_vec())).collect::<Vec<_>>())?
        .into_iter()
        .enumerate()
        .map(|(i, r)| r.ok_or_else(|| format!("array {i} of {n} does not exist")))
        .collect::<Result<_, _>>()?;
    ensure!(v.get(n).is_none(), "array {n} of {n} exists");
    ensure_eq!(no_panic(|| v.iter().map(|s| s.to_vec()).collect::<Vec<_>>())?, rows, "iter");
    ensure_eq!(no_panic(|| v.iter_array_elements().cloned().collect::<Vec<_>>())?, rows.concat(), "elements");
    ensure_eq!(no_panic(|| v.total_num_elements())?, rows.concat().len(), "number of elements");
    ensure_eq!(no_panic(|| v.first().map(|s| s.to_vec()))?, rows.first().cloned(), "first");
    ensure_eq!(no_panic(|| v.last().map(|s| s.to_vec()))?, rows.last().cloned(), "last");
    ensure_eq!(no_panic(|| v.first_mut().map(|s| s.to_vec()))?, rows.first().cloned(), "first_mut");
    ensure_eq!(no_panic(|| v.last_mut().map(|s| s.to_vec()))?, rows.last().cloned(), "last_mut");
    for i in 0..n {
        ensure_eq!(no_panic(|| v.get_mut(i).map(|s| s.to_vec()))?, Some(rows[i].clone()), "get_mut");
    }
    ensure_eq!(no_panic(|| Vec::<Vec<T>>::from(&*v))?, rows, "as vectors");
    no_panic(|| format!("{v:?}"))?;
    round(v, true)?;
    // and it goes on working
    let mut w = v.clone();
    if let Some(r) = rows.first() {
        no_panic(|| w.push(r))?;
        ensure_eq!(Vec::<Vec<T>>::from(&w), rows.iter().chain(rows.first()).cloned().collect::<Vec<_>>(), "after a push");
    }
    no_panic(|| w.begin_array().push_single(rows.concat().first().cloned().into_iter().next().unwrap_or_else(|| panic!("no element"))).count()).ok();
    w.clear();
    ensure_eq!(w.len(), 0, "after clear");
    Ok(())
}

/// Ways of filling a nested vector; the last leaves gaps between the arrays.
fn nested<T: Clone>(rows: &[Vec<T>], way: usize) -> NestedVec<T> {
    let mut v = NestedVec::new();
    for r in rows {
        match (way, r.first()) {
            (0, _) => v.push(r),
            (1, _) => {
                let mut a = v.begin_array();
                for x in r {
                    a.push_single(x.clone());
                }
            }
            (_, x) => {
                if let Some(x) = x {
                    let mut a = v.begin_array();
                    a.push_single(x.clone());
                    std::mem::forget(a);
                }
                v.push(r);
            }
        }
    }
    v
}

fn rows_of(lens: &[usize]) -> Vec<Vec<usize>> {
    let mut k = 0;
    lens.iter()
        .map(|n| {
            (0..*n)
                .map(|_| {
                    k += 1;
                    10 * k
                })
                .collect()
        })
        .collect()
}

fn accepted_nested(d: &Value) -> Result<bool, String> {
    match no_panic(|| serde_json::from_value::<NestedVec<usize>>(d.clone()))? {
        Err(_) => Ok(false),
        Ok(mut v) => sane(&mut v).map(|_| true).map_err(|e| format!("{d} is read as a nested vector, but {e}")),
    }
}

/// What may be read as disjoint subsets: subsets that are disjoint, one label for each, and access to no more records than there are.
fn accepted_subsets(d: &Value) -> Result<bool, String> {
    let s = match no_panic(|| serde_json::from_value::<DisjointSubsets>(d.clone()))? {
        Err(_) => return Ok(false),
        Ok(s) => s,
    };
    legal(&s).map(|_| true).map_err(|e| format!("{d} is read as disjoint subsets, but {e}"))
}

fn legal(s: &DisjointSubsets) -> Result<(), String> {
    sane(&mut s.subsets().clone())?;
    let rows: Vec<Vec<usize>> = s.subsets().into();
    ensure!(is_disjoint(&rows), "the subsets {rows:?} share an index");
    ensure_eq!(s.labels().len(), rows.len(), "number of labels");
    let need = rows.concat().iter().max().map_or(0, |m| m.saturating_add(1));
    for n in (0..8).chain((need < 10000).then(|| need.saturating_sub(2)..need + 2).into_iter().flatten()) {
        let mut store: Vec<u32> = vec![7; n];
        let given = no_panic(|| {
            s.subsets_par_iter(store.as_mut_slice());
        });
        ensure!(n >= need || given.is_err(), "access to {need} records of {n} is given");
        // more room than needed is never refused
        ensure!(n < need || given.is_ok(), "access to {need} records of {n} is refused: {given:?}");
    }
    let mut store: Vec<u32> = vec![0; need.min(10000)];
    if need <= 10000 {
        // sequential use through the iterator's own methods: each record once
        use rayon::prelude::*;
        let seen: Vec<(usize, Vec<usize>)> = s
            .subsets_par_iter(store.as_mut_slice())
            .map(|mut a| {
                let n = a.len();
                for k in 0..n {
                    *a.get_mut(k) += 1;
                }
                (a.label(), vec![n])
            })
            .collect();
        ensure_eq!(seen.iter().map(|x| x.0).collect::<Vec<_>>(), s.labels().to_vec(), "labels seen");
        ensure_eq!(seen.iter().map(|x| x.1[0]).collect::<Vec<_>>(), rows.iter().map(|r| r.len()).collect::<Vec<_>>(), "sizes seen");
        let mut want = vec![0; need];
        rows.concat().iter().for_each(|i| want[*i] += 1);
        ensure_eq!(store, want, "number of visits of each record");
    }
    Ok(())
}

/// Whatever a table that was read says of an element, it says consistently or refuses to say.
fn consistent<const D: usize, X: Clone + Default + Debug, Q>(t: &Q, elements: &[usize]) -> Result<(), String>
where
    Const<D>: fenris::SmallDim,
    DefaultAllocator: DimAllocator<f64, Const<D>> + allocator::Allocator<f64, Const<D>, Buffer = ArrayStorage<f64, D, 1>>,
    Q: QuadratureTable<f64, Const<D>, Data = X>,
{
    for &e in elements {
        let Ok(n) = no_panic(|| t.element_quadrature_size(e)) else { continue };
        let nan: Point<f64, D> = Point::from(SVector::from_element(f64::NAN));
        let (mut p, mut w, mut x) = (vec![nan; n], vec![f64::NAN; n], vec![X::default(); n]);
        if no_panic(|| t.populate_element_quadrature(e, &mut p, &mut w)).is_ok() {
            ensure!(p.iter().all(|p| p.iter().all(|x| !x.is_nan())) && w.iter().all(|w| !w.is_nan()), "the rule of element {e} has {n} points, of which some are not filled in");
        }
        let _ = no_panic(|| t.populate_element_data(e, &mut x));
        for m in (0..n.min(4)).chain(n.saturating_sub(2)..n + 2).filter(|m| *m != n) {
            let (mut p, mut w) = (vec![nan; m], vec![f64::NAN; m]);
            ensure!(no_panic(|| t.populate_element_quadrature(e, &mut p, &mut w)).is_err(), "{m} points of a rule of {n} were given out for element {e}");
        }
    }
    Ok(())
}

fn tables<const D: usize>(lens: &[usize], way: usize, map: &[usize], two: bool) -> Verdict
where
    Const<D>: fenris::SmallDim,
    DefaultAllocator: DimAllocator<f64, Const<D>> + allocator::Allocator<f64, Const<D>, Buffer = ArrayStorage<f64, D, 1>>,
    OPoint<f64, Const<D>>: Serialize + DeserializeOwned,
{
    let rows = rows_of(lens);
    let pts = || nested::<Point<f64, D>>(&rows.iter().map(|r| r.iter().map(|x| Point::from(SVector::from_fn(|d, _| *x as f64 + d as f64 / 4.0))).collect()).collect::<Vec<_>>(), way);
    let wts = || nested::<f64>(&rows.iter().map(|r| r.iter().map(|x| -(*x as f64) - 0.5).collect()).collect::<Vec<_>>(), way);
    let den = || nested::<Density<f64>>(&rows.iter().map(|r| r.iter().map(|x| Density(*x as f64 + 0.25)).collect()).collect::<Vec<_>>(), way);
    let lame = || nested::<LameParameters<f64>>(&rows.iter().map(|r| r.iter().map(|x| LameParameters { mu: *x as f64, lambda: *x as f64 / 2.0 }).collect()).collect::<Vec<_>>(), way);
    let unit = || nested::<()>(&rows.iter().map(|r| vec![(); r.len()]).collect::<Vec<_>>(), way);
    round(&GeneralQuadratureTable::from_points_weights_and_data(pts(), wts(), den()), true)?;
    round(&GeneralQuadratureTable::from_points_weights_and_data(pts(), wts(), lame()), true)?;
    round(&GeneralQuadratureTable::from_points_weights_and_data(pts(), wts(), unit()), true)?;
    round(&CompactQuadratureTable::from_quadrature_rules_and_map(pts(), wts(), den(), map.to_vec()), true)?;
    round(&CompactQuadratureTable::from_quadrature_rules_and_map(pts(), wts(), lame(), map.to_vec()), true)?;
    round(&CompactQuadratureTable::from_points_weights_and_map(pts(), wts(), map.to_vec()), true)?;
    let flat = |v: NestedVec<Point<f64, D>>| v.iter_array_elements().cloned().collect::<Vec<_>>();
    let (up, uw, ud): (_, Vec<f64>, Vec<_>) = (flat(pts()), wts().iter_array_elements().cloned().collect(), den().iter_array_elements().cloned().collect());
    round(&UniformQuadratureTable::from_points_weights_and_data(up.clone(), uw.clone(), ud), true)?;
    round(&UniformQuadratureTable::from_points_and_weights(up, uw), true)?;
    if D == 2 && way != 1 {
        let menu = [0, 1, 3, usize::MAX as u64];
        let g = serde_json::to_value(GeneralQuadratureTable::from_points_weights_and_data(pts(), wts(), den())).map_err(|e| e.to_string())?;
        for d in damaged(&g, &menu, two && lens.len() < 2) {
            if let Ok(t) = no_panic(|| serde_json::from_value::<GeneralQuadratureTable<f64, Const<D>, Density<f64>>>(d.clone()))? {
                consistent(&t, &[0, 1, 2, 3]).map_err(|e| format!("general table read from {d}: {e}"))?;
            }
        }
        let c = serde_json::to_value(CompactQuadratureTable::from_quadrature_rules_and_map(pts(), wts(), den(), map.to_vec())).map_err(|e| e.to_string())?;
        for d in damaged(&c, &menu, false) {
            if let Ok(t) = no_panic(|| serde_json::from_value::<CompactQuadratureTable<f64, Const<D>, Density<f64>>>(d.clone()))? {
                consistent(&t, &[0, 1, 2, 3]).map_err(|e| format!("compact table read from {d}: {e}"))?;
            }
        }
    }
    Ok(Some(digest(&(D, lens, way, map))))
}

/// How many damages to try.
#[derive(Clone, Copy, PartialEq)]
enum Menu {
    One,
    Two,
    Edges,
}
fn tables_at_edges(lens: &[usize], map: &[usize]) -> Result<(), String> {
    let rows = rows_of(lens);
    let pts = nested::<Point<f64, 2>>(&rows.iter().map(|r| r.iter().map(|x| Point::from(SVector::from_fn(|d, _| *x as f64 + d as f64 / 4.0))).collect()).collect::<Vec<_>>(), 0);
    let wts = nested::<f64>(&rows.iter().map(|r| r.iter().map(|x| -(*x as f64) - 0.5).collect()).collect::<Vec<_>>(), 0);
    let den = nested::<Density<f64>>(&rows.iter().map(|r| r.iter().map(|x| Density(*x as f64 + 0.25)).collect()).collect::<Vec<_>>(), 0);
    let g = GeneralQuadratureTable::from_points_weights_and_data(pts.clone(), wts.clone(), den.clone());
    let c = CompactQuadratureTable::from_quadrature_rules_and_map(pts, wts, den, map.to_vec());
    round(&g, true)?;
    round(&c, true)?;
    for d in edge_damages(&serde_json::to_value(&g).map_err(|e| e.to_string())?) {
        if let Ok(t) = no_panic(|| serde_json::from_value::<GeneralQuadratureTable<f64, Const<2>, Density<f64>>>(d.clone()))? {
            consistent(&t, &ends(lens.len())).map_err(|e| format!("general table read from {d}: {e}"))?;
        }
    }
    for d in edge_damages(&serde_json::to_value(&c).map_err(|e| e.to_string())?) {
        if let Ok(t) = no_panic(|| serde_json::from_value::<CompactQuadratureTable<f64, Const<2>, Density<f64>>>(d.clone()))? {
            consistent(&t, &ends(map.len())).map_err(|e| format!("compact table read from {d}: {e}"))?;
        }
    }
    Ok(())
}
fn ends(n: usize) -> Vec<usize> {
    vec![0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1]
}

fn interpolators(rows: &[Vec<usize>], what: usize, menu: Menu) -> Verdict {
    let idx = rows.concat();
    let mut off = vec![0];
    rows.iter().for_each(|r| off.push(off[off.len() - 1] + r.len()));
    let vals = (what & 1 > 0).then(|| (0..idx.len()).map(|k| 0.5 + k as f64).collect::<Vec<_>>());
    let grads = (what & 2 > 0).then(|| (0..2 * idx.len()).map(|k| 3.0 - k as f64).collect::<Vec<_>>());
    let f = FixedInterpolator::from_compressed_values(vals, grads, idx.clone(), off);
    round(&f, true)?;
    let y: FixedInterpolator<f64> = pos::read(&pos::write(&f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let answers = |f: &FixedInterpolator<f64>| {
        (0..9)
            .map(|n| {
                let u = DVector::from_fn(n, |i, _| 1.0 + (i * i) as f64);
                (
                    no_panic(|| f.interpolate::<U1>(&u)).ok(),
                    no_panic(|| f.interpolate::<U2>(&u)).ok(),
                    no_panic(|| f.interpolate_gradients::<U2, U1>(&u)).ok(),
                    no_panic(|| f.interpolate_gradients::<U2, U2>(&u)).ok(),
                )
            })
            .collect::<Vec<_>>()
    };
    let a = answers(&f);
    ensure_eq!(answers(&y), a, "answers after reading");
    let v = serde_json::to_value(&f).map_err(|e| e.to_string())?;
    for d in if menu == Menu::Edges { edge_damages(&v) } else { damaged(&v, &[0, 1, 3, u64::MAX], menu == Menu::Two) } {
        if let Ok(g) = no_panic(|| serde_json::from_value::<FixedInterpolator<f64>>(d.clone()))? {
            // answers are computed from the numbers that were read, or refused: none of them is made up
            for (n, a) in answers(&g).into_iter().enumerate() {
                ensure!(a.0.iter().flatten().all(|x| x.iter().all(|x| x.is_finite())), "read from {d}: {n} numbers are interpolated to {a:?}");
            }
        }
    }
    Ok((!idx.is_empty()).then(|| digest(&(rows, what))))
}

fn geometry(ctx: &Arc<Ctx>) {
    let xs = [0.0, 1.0, -2.5, 1e300, -0.0, f64::MIN_POSITIVE, 1.0 / 3.0, f64::INFINITY];
    let n = ctx.tier(4u64, 8);
    ctx.suite("primitives", pow(n, 4), |i| format!("numbers {:?}", (0..4).map(|k| xs[(i / pow(n, k) % n) as usize]).collect::<Vec<_>>()), |i| {
        let x: Vec<f64> = (0..4).map(|k| xs[(i / pow(n, k) % n) as usize]).collect();
        let json = x.iter().all(|x| x.is_finite() && *x != 1.0 / 3.0 && *x != f64::MIN_POSITIVE);
        let (p, q) = (Point2::new(x[0], x[1]), Point2::new(x[2], x[3]));
        let (a, b, c, d) = (Point3::new(x[0], x[1], x[2]), Point3::new(x[3], x[0], 5.0), Point3::new(6.0, x[1], x[3]), Point3::new(x[2], 7.0, x[0]));
        round(&Triangle([p, q, Point2::new(x[1], 4.0)]), json)?;
        round(&Triangle([a, b, c]), json)?;
        round(&Tetrahedron::from_vertices([a, b, c, d]), json)?;
        round(&Disk::from_center_and_radius(p, x[2]), json)?;
        round(&Ball::from_center_and_radius(a, x[3]), json)?;
        let (lo, hi) = (Point2::new(x[0].min(x[2]), x[1].min(x[3])), Point2::new(x[0].max(x[2]), x[1].max(x[3])));
        round(&AxisAlignedBoundingBox::new(lo, hi), json)?;
        round(&AxisAlignedBoundingBox::from(a), json)?;
        round(&SimplePolygon2d::from_vertices(vec![p, q]), json)?;
        round(&SimplePolygon2d::from_vertices(vec![p, q, Point2::new(3.0, x[0]), p]), json)?;
        round(&SimplePolygon2d::<f64>::from_vertices(vec![]), json)?;
        round(&Density(x[0]), json)?;
        round(&LameParameters { mu: x[0], lambda: x[1] }, json)?;
        round(&YoungPoisson { young: x[2], poisson: x[3] }, json)?;
        round(&LinearElasticMaterial, json)?;
        round(&NeoHookeanMaterial, json)?;
        round(&StVKMaterial, json)?;
        // a polyhedral mesh with faces and cells of different sizes
        let cells = [vec![], vec![vec![0, 1, 2, 3]], vec![vec![3, 0], vec![], vec![1, 2, 3, 0, 1]]];
        for cells in &cells {
            let faces = vec![vec![0, 1, 2], vec![3, 2, 1, 0], vec![], vec![0, 3]];
            let m = PolyMesh::from_poly_data(vec![a, b, c, d], NestedVec::from(&faces), NestedVec::from(cells));
            round(&m, json)?;
            let y: PolyMesh<f64, U3> = pos::read(&pos::write(&m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            ensure_eq!(y.num_faces(), faces.len(), "faces");
            ensure_eq!(y.num_cells(), cells.len(), "cells");
            for (i, f) in faces.iter().enumerate() {
                ensure_eq!(y.get_face_connectivity(i), Some(&f[..]), "face {i}");
            }
            for (i, f) in cells.iter().enumerate() {
                ensure_eq!(y.get_cell_connectivity(i), Some(&f[..]), "cell {i}");
            }
        }
        Ok(Some(digest(&i)))
    });
}

fn main() {
    let ctx = Ctx::new(
        "C30",
        Level::FaultEnumeration,
        "whatever is written in a format with or without names is read back as the same value, in any order of the fields; streams that end early are refused; and of all damages of written subsets and nested vectors, those are refused that would make an object which its type excludes",
    );
    let names = connectivities();
    ctx.suite("connectivities", (names.len() * PATTERNS) as u64, |i| format!("{} with indices of pattern {}", names[i as usize % CELLS].0, i as usize / CELLS), |i| {
        with_cell!(i as usize % CELLS, conn::<_>(i as usize / CELLS))
    });
    ctx.suite("cells of one kind are not read as cells with another number of nodes", (CELLS * CELLS * 2) as u64, |i| format!("{} read as {}", names[i as usize % CELLS].0, names[i as usize / CELLS % CELLS].0), |i| {
        let (a, b, p) = (i as usize % CELLS, i as usize / CELLS % CELLS, i as usize / CELLS / CELLS);
        let v = with_cell!(a, json_of::<_>(p));
        let got = with_cell!(b, reads::<_>(v.clone()));
        if names[a].1 != names[b].1 {
            ensure!(got.is_none(), "{v} is read as a cell with the nodes {got:?}");
        } else if let Some(g) = got {
            ensure_eq!(g, pattern(p, names[a].1), "nodes");
        }
        Ok(Some(digest(&i)))
    });
    for i in 0..CELLS {
        with_cell!(i, meshes::<_>(&ctx));
    }
    geometry(&ctx);

    let lens = sequences(ctx.tier(3, 4), ctx.tier(4, 5));
    ctx.suite("nested vectors", lens.len() as u64 * 3, |i| format!("arrays of lengths {:?}, built in way {}", lens[i as usize / 3], i % 3), |i| {
        let rows = rows_of(&lens[i as usize / 3]);
        sane(&mut nested(&rows, i as usize % 3))?;
        let t: Vec<Vec<String>> = rows.iter().map(|r| r.iter().map(|x| format!("#{x}\"")).collect()).collect();
        sane(&mut nested(&t, i as usize % 3))?;
        Ok((!rows.is_empty()).then(|| digest(&i)))
    });
    let small = sequences(3, ctx.tier(3, 4));
    let menu: Vec<u64> = vec![0, 1, 2, 3, 4, 5, 7, u32::MAX as u64, u64::MAX / 2, u64::MAX];
    ctx.suite("damaged nested vectors", small.len() as u64 * 2, |i| format!("arrays of lengths {:?}, built in way {}", small[i as usize / 2], 2 * (i % 2)), |i| {
        let rows = rows_of(&small[i as usize / 2]);
        let v = serde_json::to_value(nested(&rows, 2 * (i as usize % 2))).map_err(|e| e.to_string())?;
        ensure!(accepted_nested(&v)?, "{v} is refused");
        let all = damaged(&v, &menu, true);
        let mut yes = 0;
        for d in &all {
            yes += accepted_nested(d)? as u64;
        }
        ctx.count("damaged nested vectors: damages", all.len() as u64);
        ctx.count("damaged nested vectors: still of a legal form", yes);
        Ok(Some(digest(&i)))
    });

    let menu: Vec<u64> = vec![0, 1, 2, 3, 4, 6, u64::MAX];
    let sets = sequences(ctx.tier(3, 4), 2);
    let fams: Vec<Vec<usize>> = sequences(sets.len(), 2).into_iter().chain(sequences(3, 3).into_iter().filter(|f| f.len() == 3).map(|f| f.iter().map(|x| x + 1).collect())).collect();
    let show = |i: u64| fams[i as usize].iter().map(|s| sets[*s].clone()).collect::<Vec<_>>();
    ctx.suite("subsets", fams.len() as u64, |i| format!("subsets {:?}", show(i)), |i| {
        let f = show(i);
        let labels: Vec<usize> = (0..f.len()).map(|k| 9 - k).collect();
        match DisjointSubsets::try_from_disjoint_subsets(NestedVec::from(&f), labels.clone()) {
            Ok(s) => {
                ensure!(is_disjoint(&f), "accepted");
                legal(&s)?;
                round(&s, true)?;
                let v = serde_json::to_value(&s).map_err(|e| e.to_string())?;
                let all = damaged(&v, &menu, f.len() < 2 || ctx.thorough);
                let mut yes = 0;
                for d in &all {
                    yes += accepted_subsets(d)? as u64;
                }
                ctx.count("damaged subsets: damages", all.len() as u64);
                ctx.count("damaged subsets: still of a legal form", yes);
            }
            Err(_) => ensure!(!is_disjoint(&f), "refused"),
        }
        // what an unchecked constructor was given is written as it is, but never read as what it is not
        let top = f.concat().iter().max().copied();
        for max in [top, None, Some(0), Some(1), Some(3), top.map(|t| t + 1)] {
            // (never iterated over: only written)
            let s = unsafe { DisjointSubsets::from_disjoint_subsets_unchecked(NestedVec::from(&f), labels.clone(), max) };
            let v = serde_json::to_value(&s).map_err(|e| e.to_string())?;
            let ok = accepted_subsets(&v)?;
            ensure!(ok || !is_disjoint(&f) || max != top, "{v} is refused");
            let t = pos::write(&s).map_err(|e| e.to_string())?;
            if let Ok(s) = no_panic(|| pos::read::<DisjointSubsets>(&t))? {
                legal(&s).map_err(|e| format!("{f:?} with bound {max:?} is read from the positional format, but {e}"))?;
            }
        }
        for c in sequential_greedy_coloring(&NestedVec::from(&f)) {
            legal(&c)?;
            round(&c, true)?;
        }
        Ok((!f.is_empty()).then(|| digest(&i)))
    });

    // long ones
    let top = ctx.tier(40u64, 150);
    let lens_of = |i: u64| -> Vec<usize> {
        let n = i as usize / 4 + 1;
        match i % 4 {
            0 => vec![1; n],
            1 => (0..n).map(|k| k % 3).collect(),
            2 => vec![n],
            _ => vec![0, n, 1, 0],
        }
    };
    ctx.suite("nested vectors of every length", top * 4, |i| format!("arrays of lengths {:?}", lens_of(i)), |i| {
        let rows = rows_of(&lens_of(i));
        sane(&mut nested(&rows, i as usize / 4 % 3))?;
        let v = serde_json::to_value(nested(&rows, 0)).map_err(|e| e.to_string())?;
        let all = edge_damages(&v);
        for d in &all {
            accepted_nested(d)?;
        }
        ctx.count("long nested vectors: damages", all.len() as u64);
        Ok(Some(digest(&i)))
    });
    ctx.suite("subsets of every length", top * 4, |i| format!("subsets of lengths {:?}", lens_of(i)), |i| {
        let lens = lens_of(i);
        let total: usize = lens.iter().sum();
        // numbers in a scattered order, without a gap
        let mut all: Vec<usize> = (0..total).collect();
        all.rotate_left(total / 3);
        let mut it = all.into_iter();
        let f: Vec<Vec<usize>> = lens.iter().map(|n| it.by_ref().take(*n).collect()).collect();
        let labels: Vec<usize> = (0..f.len()).map(|k| 9 + 2 * k).collect();
        let s = DisjointSubsets::try_from_disjoint_subsets(NestedVec::from(&f), labels).map_err(|_| "disjoint subsets are refused")?;
        legal(&s)?;
        round(&s, true)?;
        let v = serde_json::to_value(&s).map_err(|e| e.to_string())?;
        let all = edge_damages(&v);
        for d in &all {
            accepted_subsets(d)?;
        }
        ctx.count("long subsets: damages", all.len() as u64);
        // one index twice
        for (a, b) in [(0, total.saturating_sub(1)), (total / 2, total.saturating_sub(1)), (0, total / 2)] {
            if a == b || total == 0 {
                continue;
            }
            let mut g = f.clone();
            let x = *g.iter().flatten().nth(a).unwrap();
            *g.iter_mut().flatten().nth(b).unwrap() = x;
            // (within one subset, an index may occur twice)
            ensure_eq!(DisjointSubsets::try_from_disjoint_subsets(NestedVec::from(&g), vec![0; g.len()]).is_ok(), is_disjoint(&g), "subsets are accepted: {g:?}");
        }
        Ok(Some(digest(&i)))
    });
    ctx.suite("tables and interpolators of every length", top * 4, |i| format!("rows of lengths {:?}", lens_of(i)), |i| {
        let lens = lens_of(i);
        let rows = rows_of(&lens);
        let map: Vec<usize> = (0..2 * lens.len()).map(|k| k * 7 % lens.len()).collect();
        tables_at_edges(&lens, &map)?;
        interpolators(&rows.iter().map(|r| r.iter().map(|x| x / 10 % 5).collect()).collect::<Vec<Vec<usize>>>(), i as usize % 4, Menu::Edges)?;
        Ok(Some(digest(&i)))
    });

    let lens = sequences(3, ctx.tier(2, 3));
    let maps = sequences(2, 2);
    ctx.suite("quadrature tables", (lens.len() * maps.len() * 9) as u64, |i| format!("case {i}"), |i| {
        let mut d = Dig(i);
        let (way, dim, l, m) = (d.next(3), d.next(3), d.pick(&lens).clone(), d.pick(&maps).clone());
        let m: Vec<usize> = m.into_iter().filter(|r| *r < l.len()).collect();
        match dim {
            0 => tables::<1>(&l, way, &m, ctx.thorough),
            1 => tables::<2>(&l, way, &m, ctx.thorough),
            _ => tables::<3>(&l, way, &m, ctx.thorough),
        }
    });
    let rows = sequences(3, 2);
    let fams = sequences(rows.len(), 2);
    ctx.suite("interpolators", fams.len() as u64 * 4, |i| format!("nodes {:?}, values and gradients {}", fams[i as usize / 4], i % 4), |i| {
        let f: Vec<Vec<usize>> = fams[i as usize / 4].iter().map(|k| rows[*k].clone()).collect();
        interpolators(&f, i as usize % 4, if ctx.thorough { Menu::Two } else { Menu::One })
    });
    ctx.finish()
}
