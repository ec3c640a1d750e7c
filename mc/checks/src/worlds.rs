//! Spaces, quadrature tables and states for checks of quadrature sums on mixed spaces.
use crate::cells::{kind, point, Kind};
use crate::fem::*;
use crate::mixed::*;
use fenris::allocators::DimAllocator;
use fenris::assembly::local::*;
use fenris::nalgebra::{DefaultAllocator, OPoint, U1, U2, U3};
use fenris::util::NestedVec;
use fenris::SmallDim;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::Arc;

pub type P = [f64; 3];

pub type Rule = Vec<(P, f64, f64)>;

/// Number of tables that differ in the size of their numbers (from 4).
pub const SCALED_TABLES: std::ops::Range<usize> = 4..9;
/// Rules per element (0 general, 1 uniform, 2 compact, 3 general with positive weights, 4 and up: general, with large, tiny and zero numbers): points inside of every reference cell, weights of both signs, one coefficient per point.
pub fn rules(which: usize, n: usize, d: usize) -> Vec<Rule> {
    let pt = |q: usize| -> P { std::array::from_fn(|k| if k < d { -0.9 + 0.125 * ((q * (k + 2) + k) % 5) as f64 } else { 0.0 }) };
    let rule = |len: usize, from: usize| -> Rule {
        (from..from + len).map(|q| (pt(q), if q % 3 == 1 { -0.5 } else { 0.25 + 0.5 * (q % 4) as f64 }, 1.0 + 0.5 * (q % 5) as f64 - 1.25 * (q % 2) as f64)).collect()
    };
    match which {
        4..=8 => {
            let (w, c) = [(0, -60), (0, 60), (-60, 0), (60, 0), (0, 0)][which - 4];
            let mut i = 0;
            let scale = |q: (P, f64, f64), i: &mut usize| {
                *i += 1;
                let (zw, zc) = if which == 8 { (*i % 3 != 0, *i % 4 != 0) } else { (true, true) };
                (q.0, q.1 * 2f64.powi(w) * zw as u8 as f64, q.2 * 2f64.powi(c) * zc as u8 as f64)
            };
            rules(0, n, d).into_iter().map(|r| r.into_iter().map(|q| scale(q, &mut i)).collect()).collect()
        }
        3 => rules(0, n, d).into_iter().map(|r| r.into_iter().map(|q| (q.0, q.1.abs(), q.2)).collect()).collect(),
        0 => (0..n).map(|e| rule([3, 1, 0, 4, 2, 5][e % 6], 2 * e)).collect(),
        1 => vec![rule(3, 1); n],
        _ => {
            let pool = [rule(2, 0), rule(0, 0), rule(4, 3), rule(1, 7)];
            (0..n).map(|e| pool[[3, 0, 2, 0, 1, 2, 3][e % 7]].clone()).collect()
        }
    }
}

pub enum Table<D: SmallDim, X: Clone + Default>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    General(GeneralQuadratureTable<f64, D, X>),
    Uniform(UniformQuadratureTable<f64, D, X>),
    Compact(CompactQuadratureTable<f64, D, X>),
}
impl<D: SmallDim, X: Clone + Default> QuadratureTable<f64, D> for Table<D, X>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    type Data = X;
    fn element_quadrature_size(&self, e: usize) -> usize {
        match self {
            Table::General(t) => t.element_quadrature_size(e),
            Table::Uniform(t) => t.element_quadrature_size(e),
            Table::Compact(t) => t.element_quadrature_size(e),
        }
    }
    fn populate_element_data(&self, e: usize, data: &mut [X]) {
        match self {
            Table::General(t) => t.populate_element_data(e, data),
            Table::Uniform(t) => t.populate_element_data(e, data),
            Table::Compact(t) => t.populate_element_data(e, data),
        }
    }
    fn populate_element_quadrature(&self, e: usize, p: &mut [OPoint<f64, D>], w: &mut [f64]) {
        match self {
            Table::General(t) => t.populate_element_quadrature(e, p, w),
            Table::Uniform(t) => t.populate_element_quadrature(e, p, w),
            Table::Compact(t) => t.populate_element_quadrature(e, p, w),
        }
    }
}
pub fn table<D: SmallDim, X: Clone + Default>(which: usize, n: usize, f: impl Fn(f64) -> X) -> Table<D, X>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let r = rules(which, if which == 1 { n.max(1) } else { n }, D::dim());
    let pts = |r: &Rule| r.iter().map(|q| point::<D>(q.0)).collect::<Vec<_>>();
    let wts = |r: &Rule| r.iter().map(|q| q.1).collect::<Vec<_>>();
    let dat = |r: &Rule| r.iter().map(|q| f(q.2)).collect::<Vec<_>>();
    if which == 1 {
        return Table::Uniform(UniformQuadratureTable::from_points_weights_and_data(pts(&r[0]), wts(&r[0]), dat(&r[0])));
    }
    // the compact table shares equal rules
    let mut pool: Vec<&Rule> = vec![];
    let mut map = vec![];
    for x in &r {
        let at = if which == 2 { pool.iter().position(|y| *y == x) } else { None };
        map.push(at.unwrap_or(pool.len()));
        if at.is_none() {
            pool.push(x);
        }
    }
    let (mut p, mut w, mut c) = (NestedVec::new(), NestedVec::new(), NestedVec::new());
    for x in pool {
        p.push(&pts(x));
        w.push(&wts(x));
        c.push(&dat(x));
    }
    if which != 2 {
        Table::General(GeneralQuadratureTable::from_points_weights_and_data(p, w, c))
    } else {
        Table::Compact(CompactQuadratureTable::from_quadrature_rules_and_map(p, w, c, map))
    }
}

pub fn kinds(d: usize) -> Vec<Kind> {
    match d {
        1 => vec!["Segment2"],
        2 => vec!["Tri3", "Quad9", "Tri6", "Quad4", "Quad8"],
        _ => vec!["Tet4", "Hex27", "Tet10", "Hex8", "Tet20", "Hex20"],
    }
    .into_iter()
    .map(kind)
    .collect()
}

/// Units of length of the spaces; the last space is stretched along the first axis and squeezed along the last as well.
pub const SCALES: [f64; 6] = [1.0, 1e-4, 3e3, 1.0 / 1099511627776.0, 1099511627776.0, 1.0];
pub const NODES: usize = 40;

/// Elements of every kind; then a reflected and a collapsed one.
pub fn make<D: SmallDim>(space: usize) -> Mixed<D>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let d = D::dim();
    let mut ks = kinds(d);
    if space % 2 == 1 {
        ks.reverse();
    }
    let n = ks.len();
    let ks: Vec<Kind> = (0..n + 2).map(|i| ks[i % n].clone()).collect();
    let scale = SCALES[space];
    let elems = ks
        .into_iter()
        .enumerate()
        .map(|(i, k)| {
            let corners: Vec<P> = k
                .shape
                .corners()
                .iter()
                .enumerate()
                .map(|(j, c)| {
                    let x = refp(*c);
                    let mut p: P = std::array::from_fn(|r| {
                        if r < d {
                            x[r] + 0.25 * x[(r + 1) % d] * (d > 1) as usize as f64 + 0.125 * ((i + j) % 3) as f64 * (r as f64 + 1.0) * 0.5 + 1.5 * i as f64
                        } else {
                            0.0
                        }
                    });
                    if i == n {
                        p[0] = -p[0];
                    }
                    if i == n + 1 {
                        p[d - 1] = 0.0;
                    }
                    if space == 5 && d > 1 {
                        p[0] *= 1024.0;
                        p[d - 1] /= 1024.0;
                    }
                    p.map(|c| c * scale)
                })
                .collect();
            let nodes = (0..k.nodes.len()).map(|j| (7 * j + 5 * i + 3 + space) % NODES).collect();
            MixedElement { basis: Arc::new(Basis::of(&k)), geo: Geo::new(k.shape, corners), nodes, kind: k }
        })
        .collect();
    Mixed { elems, num_nodes: NODES, yields: false, locate: HashMap::new(), marker: PhantomData }
}
pub fn num_elems(d: usize) -> usize {
    kinds(d).len() + 2
}

/// 0: all zero; 1 and 2: dense patterns; then single unit entries.
pub fn state(which: usize, s: usize) -> Vec<f64> {
    let n = NODES * s;
    match which {
        1000.. => state(which % 1000, s).iter().map(|x| x * 2f64.powi(if which < 2000 { -40 } else { 40 })).collect(),
        0 => vec![0.0; n],
        1 => (0..n).map(|i| ((i * 7 + 3) % 11) as f64 * 0.25 - 1.0).collect(),
        2 => (0..n).map(|i| ((i * i + 5 * i) % 7) as f64 * 0.5 - 1.5).collect(),
        k => (0..n).map(|i| if i == k - 3 { 1.0 } else { 0.0 }).collect(),
    }
}

pub struct World {
    pub d1: Vec<Mixed<U1>>,
    pub d2: Vec<Mixed<U2>>,
    pub d3: Vec<Mixed<U3>>,
}

impl World {
    pub fn new() -> World {
        World {
            d1: (0..SCALES.len()).map(make::<U1>).collect(),
            d2: (0..SCALES.len()).map(make::<U2>).collect(),
            d3: (0..SCALES.len()).map(make::<U3>).collect(),
        }
    }
}
