//! C20: quadrature tables.
use fenris::allocators::DimAllocator;
use fenris::assembly::local::*;
use fenris::nalgebra::*;
use fenris::util::NestedVec;
use fenris::SmallDim;
use hk::*;
use std::fmt::Debug;

/// A rule: numbered points, with all of its contents derived from a stamp.
#[derive(Clone, Debug, PartialEq)]
struct Entry<const D: usize> {
    points: Vec<Point<f64, D>>,
    weights: Vec<f64>,
    data: Vec<String>,
}

fn entry<const D: usize>(stamp: usize, len: usize) -> Entry<D> {
    Entry {
        points: (0..len).map(|k| Point::from(SVector::from_fn(|d, _| (stamp * 100 + k * 10 + d) as f64))).collect(),
        weights: (0..len).map(|k| -((stamp * 10 + k) as f64) - 0.5).collect(),
        data: (0..len).map(|k| format!("{stamp}/{k}")).collect(),
    }
}

/// What the table gives for each element is what is wanted, and asking for another number of entries is refused.
fn check<const D: usize, X: Default + Clone + Debug + PartialEq, Q>(t: &Q, want: &[(Vec<Point<f64, D>>, Vec<f64>, Vec<X>)]) -> Result<(), String>
where
    Const<D>: SmallDim,
    DefaultAllocator: DimAllocator<f64, Const<D>> + allocator::Allocator<f64, Const<D>, Buffer = ArrayStorage<f64, D, 1>>,
    Q: QuadratureTable<f64, Const<D>, Data = X>,
{
    // forwards, then backwards, so that answers depend on the element and not on what was asked before
    for e in (0..want.len()).chain((0..want.len()).rev()) {
        let (p, w, x) = &want[e];
        let n = p.len();
        ensure_eq!(t.element_quadrature_size(e), n, "size of the rule of element {e}");
        let nan: Point<f64, D> = Point::from(SVector::from_element(f64::NAN));
        let (mut gp, mut gw, mut gx) = (vec![nan; n], vec![f64::NAN; n], vec![X::default(); n]);
        t.populate_element_quadrature(e, &mut gp, &mut gw);
        ensure_eq!(gp, *p, "points of element {e}");
        ensure_eq!(gw, *w, "weights of element {e}");
        t.populate_element_data(e, &mut gx);
        ensure_eq!(gx, *x, "data of element {e}");
        let (mut gp, mut gw, mut gx) = (vec![nan; n], vec![f64::NAN; n], vec![X::default(); n]);
        t.populate_element_quadrature_and_data(e, &mut gp, &mut gw, &mut gx);
        ensure!(gp == *p && gw == *w && gx == *x, "rule and data of element {e}");
        for m in (0..n + 3).filter(|m| *m != n && e < 400 && (*m < 4 || m + 4 > n)) {
            let (mut bp, mut bw, mut bx) = (vec![nan; m], vec![f64::NAN; m], vec![X::default(); m]);
            ensure!(no_panic(|| t.populate_element_data(e, &mut bx)).is_err(), "{m} data entries were given out for element {e} with {n}");
            ensure!(no_panic(|| t.populate_element_quadrature(e, &mut bp, &mut gw)).is_err(), "{m} points were given out for element {e} with {n}");
            ensure!(no_panic(|| t.populate_element_quadrature(e, &mut gp, &mut bw)).is_err(), "{m} weights were given out for element {e} with {n}");
        }
    }
    Ok(())
}

/// An index that the table has no element for is refused.
fn refuses<const D: usize, X: Default + Clone, Q>(t: &Q, e: usize) -> Result<(), String>
where
    Const<D>: SmallDim,
    DefaultAllocator: DimAllocator<f64, Const<D>>,
    Q: QuadratureTable<f64, Const<D>, Data = X>,
{
    ensure!(no_panic(|| t.element_quadrature_size(e)).is_err(), "element {e} does not exist but has a rule size");
    ensure!(no_panic(|| t.populate_element_data(e, &mut [])).is_err(), "element {e} does not exist but has data");
    ensure!(no_panic(|| t.populate_element_quadrature(e, &mut [], &mut [])).is_err(), "element {e} does not exist but has a rule");
    Ok(())
}

/// Three ways of filling a nested vector with the same content.
fn nested<T: Clone>(rows: Vec<Vec<T>>, way: usize) -> NestedVec<T> {
    match way {
        0 => NestedVec::from(rows),
        1 => {
            let mut v = NestedVec::new();
            for r in rows {
                let mut a = v.begin_array();
                for x in r {
                    a.push_single(x);
                }
            }
            v
        }
        _ => {
            // with elements of a leaked array in between, so that the rules are not contiguous
            let mut v = NestedVec::new();
            for r in rows {
                if let Some(x) = r.first() {
                    let mut a = v.begin_array();
                    a.push_single(x.clone());
                    std::mem::forget(a);
                }
                v.push(&r);
            }
            v
        }
    }
}

fn table<const D: usize>(lens: &[usize], way: usize, map: &[usize]) -> Verdict
where
    Const<D>: SmallDim,
    DefaultAllocator: DimAllocator<f64, Const<D>> + allocator::Allocator<f64, Const<D>, Buffer = ArrayStorage<f64, D, 1>>,
    OPoint<f64, Const<D>>: serde::Serialize + serde::de::DeserializeOwned,
{
    let rules: Vec<Entry<D>> = lens.iter().enumerate().map(|(i, n)| entry(i + 1, *n)).collect();
    let full: Vec<_> = rules.iter().map(|r| (r.points.clone(), r.weights.clone(), r.data.clone())).collect();
    let unit: Vec<_> = rules.iter().map(|r| (r.points.clone(), r.weights.clone(), vec![(); r.weights.len()])).collect();
    let pts = || nested(rules.iter().map(|r| r.points.clone()).collect(), way);
    let wts = || nested(rules.iter().map(|r| r.weights.clone()).collect(), way);
    let dat = || nested(rules.iter().map(|r| r.data.clone()).collect(), way);
    let n = lens.len();

    let t = GeneralQuadratureTable::from_points_weights_and_data(pts(), wts(), dat());
    check(&t, &full).map_err(|e| format!("general: {e}"))?;
    let s = serde_json::to_string(&t).map_err(|e| e.to_string())?;
    let t2: GeneralQuadratureTable<f64, Const<D>, String> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    ensure!(t2 == t, "general: changed by serialisation");
    check(&t2, &full).map_err(|e| format!("general, after serialisation: {e}"))?;
    for e in [n, n + 1, usize::MAX] {
        refuses(&t, e).map_err(|e| format!("general: {e}"))?;
    }
    let parts = t.clone().into_parts();
    ensure_eq!(Vec::<Vec<_>>::from(&parts.points), full.iter().map(|r| r.0.clone()).collect::<Vec<_>>(), "points of the parts");
    ensure_eq!(Vec::<Vec<_>>::from(&parts.weights), full.iter().map(|r| r.1.clone()).collect::<Vec<_>>(), "weights of the parts");
    ensure_eq!(Vec::<Vec<_>>::from(&parts.data), full.iter().map(|r| r.2.clone()).collect::<Vec<_>>(), "data of the parts");
    let again = GeneralQuadratureTable::from_points_weights_and_data(parts.points, parts.weights, parts.data);
    check(&again, &full).map_err(|e| format!("general, from its parts: {e}"))?;
    check(&GeneralQuadratureTable::from_points_and_weights(pts(), wts()), &unit).map_err(|e| format!("general without data: {e}"))?;

    let pick = |m: &[usize]| m.iter().map(|r| full[*r].clone()).collect::<Vec<_>>();
    if map.iter().all(|r| *r < n) {
        let t = CompactQuadratureTable::from_quadrature_rules_and_map(pts(), wts(), dat(), map.to_vec());
        check(&t, &pick(map)).map_err(|e| format!("compact: {e}"))?;
        let s = serde_json::to_string(&t).map_err(|e| e.to_string())?;
        let t2: CompactQuadratureTable<f64, Const<D>, String> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
        ensure!(t2 == t, "compact: changed by serialisation");
        for e in [map.len(), map.len() + 1, usize::MAX] {
            refuses(&t, e).map_err(|e| format!("compact: {e}"))?;
        }
        let u: Vec<_> = map.iter().map(|r| unit[*r].clone()).collect();
        check(&CompactQuadratureTable::from_points_weights_and_map(pts(), wts(), map.to_vec()), &u)
            .map_err(|e| format!("compact without data: {e}"))?;
    } else {
        let made = no_panic(|| CompactQuadratureTable::from_quadrature_rules_and_map(pts(), wts(), dat(), map.to_vec()));
        ensure!(made.is_err(), "compact: a map to rules that do not exist was accepted");
        let made = no_panic(|| CompactQuadratureTable::from_points_weights_and_map(pts(), wts(), map.to_vec()));
        ensure!(made.is_err(), "compact: a map to rules that do not exist was accepted");
    }
    Ok(if lens.iter().all(|l| *l == 0) { None } else { Some(digest(&(lens, map, way, D))) })
}

/// Tables from parts whose lengths are given; accepted exactly if they are consistent.
fn consistency(p: &[usize], w: &[usize], x: &[usize]) -> Verdict {
    let pts = || NestedVec::from(p.iter().map(|n| entry::<2>(1, *n).points).collect::<Vec<_>>());
    let wts = || NestedVec::from(w.iter().map(|n| entry::<2>(1, *n).weights).collect::<Vec<_>>());
    let dat = || NestedVec::from(x.iter().map(|n| entry::<2>(1, *n).data).collect::<Vec<_>>());
    let all = p == w && p == x;
    ensure_eq!(no_panic(|| GeneralQuadratureTable::from_points_weights_and_data(pts(), wts(), dat())).is_ok(), all, "general table accepted");
    ensure_eq!(no_panic(|| GeneralQuadratureTable::from_points_and_weights(pts(), wts())).is_ok(), p == w, "general table without data accepted");
    ensure_eq!(no_panic(|| CompactQuadratureTable::from_quadrature_rules_and_map(pts(), wts(), dat(), vec![])).is_ok(), all, "compact table accepted");
    ensure_eq!(no_panic(|| CompactQuadratureTable::from_points_weights_and_map(pts(), wts(), vec![])).is_ok(), p == w, "compact table without data accepted");
    if let ([a], [b], [c]) = (p, w, x) {
        let u = no_panic(|| UniformQuadratureTable::from_points_weights_and_data(entry::<2>(1, *a).points, entry::<2>(1, *b).weights, entry::<2>(1, *c).data));
        ensure_eq!(u.is_ok(), all, "uniform table accepted");
        let u = no_panic(|| UniformQuadratureTable::from_points_and_weights(entry::<2>(1, *a).points, entry::<2>(1, *b).weights));
        ensure_eq!(u.is_ok(), a == b, "uniform table without data accepted");
    }
    Ok(if all { Some(digest(&(p, w, x))) } else { Some(digest(&(p, w, x)) ^ 1) })
}

fn uniform<const D: usize>(len: usize, kind: usize) -> Verdict
where
    Const<D>: SmallDim,
    DefaultAllocator: DimAllocator<f64, Const<D>> + allocator::Allocator<f64, Const<D>, Buffer = ArrayStorage<f64, D, 1>>,
    OPoint<f64, Const<D>>: serde::Serialize + serde::de::DeserializeOwned,
{
    let r = entry::<D>(1, len);
    let rep = |x: Vec<String>| vec![(r.points.clone(), r.weights.clone(), x); 4];
    let own = || UniformQuadratureTable::from_points_weights_and_data(r.points.clone(), r.weights.clone(), r.data.clone());
    let plain = || UniformQuadratureTable::from_points_and_weights(r.points.clone(), r.weights.clone());
    let u = |x: &str| vec![x.to_string(); len];
    match kind {
        0 => check(&own(), &rep(r.data.clone()))?,
        1 => check(&plain(), &vec![(r.points.clone(), r.weights.clone(), vec![(); len]); 4])?,
        2 => check(&UniformQuadratureTable::from_quadrature((r.weights.clone(), r.points.clone())), &vec![(r.points.clone(), r.weights.clone(), vec![(); len]); 4])?,
        3 => check(&UniformQuadratureTable::from_quadrature_and_uniform_data((r.weights.clone(), r.points.clone()), "a".to_string()), &rep(u("a")))?,
        4 => check(&plain().with_uniform_data("b".to_string()), &rep(u("b")))?,
        5 => check(&own().with_uniform_data("c".to_string()), &rep(u("c")))?,
        6 => check(&own().with_uniform_data(7u8).with_uniform_data("d".to_string()), &rep(u("d")))?,
        _ => {
            let s = serde_json::to_string(&own()).map_err(|e| e.to_string())?;
            let t: UniformQuadratureTable<f64, Const<D>, String> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            ensure!(t == own(), "changed by serialisation");
            check(&t, &rep(r.data.clone()))?
        }
    }
    Ok(if len == 0 { None } else { Some(digest(&(len, kind, D))) })
}

fn lists(radix: u64, max: u32) -> Vec<Vec<usize>> {
    (0..=max)
        .flat_map(|len| {
            (0..pow(radix, len)).map(move |j| {
                let mut d = Dig(j);
                (0..len).map(|_| d.next(radix)).collect()
            })
        })
        .collect()
}

fn main() {
    let ctx = Ctx::new(
        "C20",
        Level::Exploration,
        "what a table gives for an element is what was supplied for it, requests of any other size or element are refused, and only consistent parts are accepted",
    );
    let lens = lists(ctx.tier(3, 4), 3);
    let maps = lists(4, ctx.tier(3, 4));
    let n = (lens.len() * maps.len() * 9) as u64;
    let dec = |i: u64| {
        let mut d = Dig(i);
        let way = d.next(3);
        let dim = d.next(3);
        (d.pick(&lens).clone(), way, dim, d.pick(&maps).clone())
    };
    ctx.suite(
        "general and compact tables",
        n,
        |i| {
            let (l, w, d, m) = dec(i);
            format!("rule lengths {l:?}, built in way {w}, dimension {}, element to rule map {m:?}", d + 1)
        },
        |i| {
            let (l, w, d, m) = dec(i);
            match d {
                0 => table::<1>(&l, w, &m),
                1 => table::<2>(&l, w, &m),
                _ => table::<3>(&l, w, &m),
            }
        },
    );
    ctx.suite("uniform tables", 5 * 8 * 3, |i| format!("length {}, kind {}, dimension {}", i % 5, i / 5 % 8, i / 40 + 1), |i| {
        let (len, kind) = (i as usize % 5, i as usize / 5 % 8);
        match i / 40 {
            0 => uniform::<1>(len, kind),
            1 => uniform::<2>(len, kind),
            _ => uniform::<3>(len, kind),
        }
    });
    // numbers of rules, of points and of elements that do not fit a byte (or two)
    ctx.suite("many rules, points and elements", 3 * 3 * 6, |i| format!("case {i}"), |i| {
        let mut d = Dig(i);
        let (way, dim, kind) = (d.next(3) as usize, d.next(3), d.next(6));
        let (lens, map): (Vec<usize>, Vec<usize>) = match kind {
            0 => ((0..300).map(|r| 1 + r % 3).collect(), (0..300).rev().collect()),
            1 => ((0..257).map(|r| r % 3).collect(), (0..600).map(|e| e * 7 % 257).collect()),
            2 => (vec![1, 300, 0, 256, 255, 2], vec![4, 3, 2, 1, 0, 5, 3]),
            3 => (vec![2, 1], (0..300).map(|e| e % 2).collect()),
            4 => ((0..256).map(|_| 1).collect(), (0..256).map(|e| 255 - e).collect()),
            _ => ((0..300).map(|_| 1).collect(), vec![256, 0, 299, 1, 255]),
        };
        match dim {
            0 => table::<1>(&lens, way, &map),
            1 => table::<2>(&lens, way, &map),
            _ => table::<3>(&lens, way, &map),
        }
    });
    // every number of rules, of points of a rule, of elements
    let most = ctx.tier(100u64, 600);
    ctx.suite("every number of rules, points and elements", most * 3 * 3, |i| format!("case {i}"), |i| {
        let mut d = Dig(i);
        let (way, kind, n) = (d.next(3), d.next(3), d.0 as usize);
        match kind {
            0 => table::<2>(&(0..n).map(|r| (r + 1) % 3).collect::<Vec<_>>(), way, &(0..n).rev().collect::<Vec<_>>()),
            1 => table::<1>(&[2, n, 1], way, &[1, 0, 2, 1]),
            _ => table::<3>(&[2, 0, 1], way, &(0..n).map(|e| (e * e + e / 3) % 3).collect::<Vec<_>>()),
        }
    });
    ctx.suite("very many rules and points", 2 * 3, |i| format!("case {i}"), |i| {
        let (lens, map): (Vec<usize>, Vec<usize>) = match i / 3 {
            0 => (vec![1; 66_000], vec![65_536, 0, 65_535, 65_999]),
            _ => (vec![1, 66_000, 2], vec![2, 0, 1]),
        };
        let map = &map[..ctx.tier(map.len().min(2 + (i as usize / 3)), map.len())];
        table::<1>(&lens, i as usize % 3, map)
    });
    let small = lists(3, 2);
    let k = small.len() as u64;
    let tri = |i: u64| (&small[(i % k) as usize], &small[(i / k % k) as usize], &small[(i / k / k) as usize]);
    ctx.suite("consistency of the parts", k * k * k, |i| format!("{:?}", tri(i)), |i| {
        let (p, w, x) = tri(i);
        consistency(p, w, x)
    });
    ctx.finish()
}
