//! C32: assembly buffers that are used again.
use checks::cells::{kind, point};
use checks::fem::*;
use checks::mixed::*;
use fenris::allocators::DimAllocator;
use fenris::assembly::buffers::{BasisFunctionBuffer, QuadratureBuffer};
use fenris::assembly::local::QuadratureTable;
use fenris::nalgebra::{DefaultAllocator, OPoint, U1, U2, U3};
use fenris::quadrature::Quadrature;
use fenris::SmallDim;
use hk::*;
use std::marker::PhantomData;
use std::sync::Arc;

/// A space with elements of different types, with node numbers that tell where they come from.
fn space<D: SmallDim>(names: &[&'static str]) -> Mixed<D>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let elems: Vec<MixedElement> = names
        .iter()
        .enumerate()
        .map(|(i, name)| {
            let k = kind(name);
            let corners = k.shape.corners().iter().map(|c| refp(*c).map(|x| x * (i + 1) as f64 + i as f64)).collect();
            MixedElement { basis: Arc::new(Basis::of(&k)), geo: Geo::new(k.shape, corners), nodes: (0..k.nodes.len()).map(|n| 1000 * (i + 1) + 7 * n).collect(), kind: k }
        })
        .collect();
    Mixed { elems, num_nodes: 1_000_000, yields: false, locate: Default::default(), marker: PhantomData }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fill {
    Nodes,
    Values(usize),
    Gradients(usize),
    WriteValues,
    WriteGradients,
    WriteBoth,
}
use Fill::*;
const FILLS: [Fill; 8] = [Nodes, Values(0), Values(1), Gradients(0), Gradients(1), WriteValues, WriteGradients, WriteBoth];

fn basis_history<D: SmallDim>(sp: &Mixed<D>, b: &mut BasisFunctionBuffer<f64>, visits: &[(usize, &[Fill])]) -> Result<(), String>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    let d = D::dim();
    let pts: [[f64; 3]; 2] = [[-0.5, -0.75, -0.25], [-0.875, 0.0, -0.5]];
    for (v, (e, fills)) in visits.iter().enumerate() {
        let el = &sp.elems[*e];
        let n = el.nodes.len();
        b.resize(n, d);
        let at = |s: &str| format!("visit {v} (element {e}), {s}");
        // what is in the buffer now is not specified, but its shape is, and nothing but what is asked for changes
        let read = |b: &BasisFunctionBuffer<f64>| -> (Vec<usize>, Vec<u64>, Vec<u64>, (usize, usize)) {
            let g = b.element_gradients::<D>();
            (
                b.element_nodes().to_vec(),
                b.element_basis_values().iter().map(|x| x.to_bits()).collect(),
                g.iter().map(|x| x.to_bits()).collect(),
                g.shape(),
            )
        };
        let mut now = read(b);
        ensure!(now.0.len() == n && now.1.len() == n && now.3 == (d, n), "{}", at("the shape after resizing"));
        for (i, f) in fills.iter().enumerate() {
            let mark = |j: usize| (100 * v + 10 * i + 1000 * j) as f64 + 0.5;
            let bits = |x: Vec<f64>| x.into_iter().map(|x| x.to_bits()).collect::<Vec<_>>();
            match *f {
                Nodes => {
                    b.populate_element_nodes_from_space(*e, sp);
                    now.0 = el.nodes.clone();
                }
                Values(p) => {
                    b.populate_element_basis_values_from_space(*e, sp, &point::<D>(pts[p]));
                    now.1 = bits(el.basis.value(coords(&point::<D>(pts[p]))));
                }
                Gradients(p) => {
                    b.populate_element_basis_gradients_from_space(*e, sp, &point::<D>(pts[p]));
                    now.2 = bits(el.basis.grad(coords(&point::<D>(pts[p]))).iter().flat_map(|g| g[..d].to_vec()).collect());
                }
                WriteValues => {
                    b.element_basis_values_mut().iter_mut().enumerate().for_each(|(j, x)| *x = mark(j));
                    now.1 = bits((0..n).map(mark).collect());
                }
                WriteGradients => {
                    let mut g = b.element_gradients_mut::<D>();
                    ensure_eq!(g.shape(), (d, n), "{}", at("shape of the writable gradients"));
                    g.iter_mut().enumerate().for_each(|(j, x)| *x = -mark(j));
                    now.2 = bits((0..n * d).map(|j| -mark(j)).collect());
                }
                WriteBoth => {
                    let (x, mut g) = b.element_values_gradients_mut::<D>();
                    ensure!(x.len() == n && g.shape() == (d, n), "{}", at("shapes of the writable values and gradients"));
                    x.iter_mut().enumerate().for_each(|(j, x)| *x = mark(j) * 2.0);
                    g.iter_mut().enumerate().for_each(|(j, x)| *x = -mark(j) * 2.0);
                    now.1 = bits((0..n).map(|j| mark(j) * 2.0).collect());
                    now.2 = bits((0..n * d).map(|j| -mark(j) * 2.0).collect());
                }
            }
            let got = read(b);
            ensure_eq!(got.0, now.0, "{}", at(&format!("nodes after {f:?}")));
            ensure!(got.1 == now.1, "{}", at(&format!("basis values after {f:?}: {:?}", b.element_basis_values())));
            ensure!(got.2 == now.2, "{}", at(&format!("gradients after {f:?}: {}", b.element_gradients::<D>())));
        }
    }
    Ok(())
}

/// A table whose rules have the given sizes.
struct Table {
    sizes: Vec<usize>,
}
impl Table {
    fn w(e: usize, k: usize) -> f64 {
        match (e + k) % 5 {
            1 => 0.0,
            2 => -((e * 100 + k) as f64),
            _ => (e * 100 + k) as f64 + 0.25,
        }
    }
}
impl<D: SmallDim> QuadratureTable<f64, D> for Table
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    type Data = String;
    fn element_quadrature_size(&self, e: usize) -> usize {
        self.sizes[e]
    }
    fn populate_element_data(&self, e: usize, data: &mut [String]) {
        assert_eq!(data.len(), self.sizes[e]);
        for (k, x) in data.iter_mut().enumerate() {
            *x = format!("{e}/{k}");
        }
    }
    fn populate_element_quadrature(&self, e: usize, points: &mut [OPoint<f64, D>], weights: &mut [f64]) {
        assert_eq!(points.len(), self.sizes[e]);
        assert_eq!(weights.len(), self.sizes[e]);
        for k in 0..points.len() {
            weights[k] = Self::w(e, k);
            points[k] = point::<D>([Self::w(e, k) + 1.0, k as f64, e as f64]);
        }
    }
}

/// Fill (element, with data?) one after another, reading in every way in between.
fn quadrature_history<D: SmallDim>(b: &mut QuadratureBuffer<f64, D, String>, t: &Table, fills: &[(usize, bool)]) -> Result<(), String>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    for (i, (e, data)) in fills.iter().enumerate() {
        let n = t.sizes[*e];
        if *data {
            b.populate_element_quadrature_from_table(*e, t);
        } else {
            b.populate_element_weights_and_points_from_table(*e, t);
        }
        let want_w: Vec<f64> = (0..n).map(|k| Table::w(*e, k)).collect();
        let want_p: Vec<OPoint<f64, D>> = (0..n).map(|k| point::<D>([Table::w(*e, k) + 1.0, k as f64, *e as f64])).collect();
        let at = format!("fill {i} (element {e}, {n} points)");
        ensure_eq!(b.weights(), &want_w[..], "{at}: weights");
        ensure_eq!(b.points(), &want_p[..], "{at}: points");
        let wp = b.weights_and_points();
        ensure!(wp.0 == &want_w[..] && wp.1 == &want_p[..], "{at}: weights and points");
        ensure_eq!(b.data().len(), n, "{at}: entries of data");
        let q: &dyn Fn() -> (Vec<f64>, Vec<OPoint<f64, D>>, usize) = &|| (Quadrature::weights(&*b).to_vec(), Quadrature::points(&*b).to_vec(), Quadrature::data(&*b).len());
        ensure!(q() == (want_w.clone(), want_p.clone(), n), "{at}: as a quadrature rule");
        let have: Vec<String> = b.data().to_vec();
        if *data {
            ensure_eq!(have, (0..n).map(|k| format!("{e}/{k}")).collect::<Vec<_>>(), "{at}: data");
        }
        for stop in 0..=n {
            let mut seen = vec![];
            let r = b.for_each_quadrature_point(|w, p, x| {
                seen.push((w, p.clone(), x.clone()));
                if seen.len() == stop + 1 {
                    return Err(fenris::eyre::eyre!("stop at {stop}"));
                }
                Ok(())
            });
            let want: Vec<_> = (0..n.min(stop + 1)).map(|k| (want_w[k], want_p[k].clone(), have[k].clone())).collect();
            ensure!(seen == want, "{at}: visiting the points until number {stop} gave {seen:?}");
            match r {
                Ok(()) => ensure!(stop == n, "{at}: the failure at point {stop} was lost"),
                Err(m) => ensure!(stop < n && m.to_string() == format!("stop at {stop}"), "{at}: error {m} instead of the one of point {stop}"),
            }
        }
    }
    Ok(())
}

fn main() {
    let ctx = Ctx::new(
        "C32",
        Level::ModelChecking,
        "every sequence of fills of a buffer up to the stated length (by space, element, part and reference point; by rule, with and without data), each against a model of what it holds; non-trivial: all",
    );
    let one = space::<U1>(&["Segment2", "Segment3"]);
    let two = space::<U2>(&["Tri3", "Quad9", "Tri6", "Quad4"]);
    let three = space::<U3>(&["Tet4", "Hex27", "Tet10", "Hex8", "Tet20"]);
    let parts: Vec<Vec<Fill>> = {
        let mut p: Vec<Vec<Fill>> = vec![vec![]];
        p.extend(FILLS.iter().map(|f| vec![*f]));
        p.extend(FILLS.iter().flat_map(|f| FILLS.iter().map(move |g| vec![*f, *g])));
        p.push(vec![Nodes, Values(0), Gradients(0)]);
        p.push(vec![Gradients(1), Nodes, Values(1)]);
        p
    };
    // (dimension, element) per visit: the buffer moves between spaces of different dimension
    let places: Vec<(usize, usize)> = (0..2).map(|e| (1, e)).chain((0..4).map(|e| (2, e))).chain((0..5).map(|e| (3, e))).collect();
    let visits = |i: u64| -> Vec<((usize, usize), usize)> {
        let mut g = Dig(i);
        (0..2).map(|_| (*g.pick(&places), g.next(parts.len() as u64))).collect()
    };
    let go = |vs: &[((usize, usize), usize)]| -> Verdict {
        let mut b = BasisFunctionBuffer::default();
        for ((d, e), p) in vs {
            let v = [(*e, &parts[*p][..])];
            match d {
                1 => basis_history(&one, &mut b, &v)?,
                2 => basis_history(&two, &mut b, &v)?,
                _ => basis_history(&three, &mut b, &v)?,
            }
        }
        Ok(Some(digest(&vs)))
    };
    let said = |vs: Vec<((usize, usize), usize)>| format!("{:?}", vs.iter().map(|(p, q)| (*p, parts[*q].clone())).collect::<Vec<_>>());
    let total = (places.len() * parts.len()) as u64;
    ctx.suite("basis function buffers, two visits", total * total, |i| said(visits(i)), |i| go(&visits(i)));
    let full = parts.len() as u64 - 2;
    let longer = |i: u64| -> Vec<((usize, usize), usize)> {
        let mut g = Dig(i);
        (0..4).map(|_| (*g.pick(&places), (full + g.bit() as u64) as usize)).collect()
    };
    ctx.suite("basis function buffers, four visits", pow(2 * places.len() as u64, 4), |i| said(longer(i)), |i| go(&longer(i)));

    let t = Table { sizes: vec![0, 1, 2, 3, 5, 40] };
    let acts: Vec<(usize, bool)> = (0..t.sizes.len()).flat_map(|e| [(e, true), (e, false)]).collect();
    for len in 1..=ctx.tier(4u32, 5) {
        let name = format!("quadrature buffers, {len} fills");
        let seq = |i: u64| {
            let mut g = Dig(i);
            (0..len).map(|_| *g.pick(&acts)).collect::<Vec<_>>()
        };
        ctx.suite(&name, pow(acts.len() as u64, len), |i| format!("{:?}", seq(i)), |i| {
            let s = seq(i);
            quadrature_history::<U1>(&mut Default::default(), &t, &s)?;
            quadrature_history::<U3>(&mut Default::default(), &t, &s)?;
            let mut b = QuadratureBuffer::<f64, U2, String>::default();
            b.resize(s.len());
            ensure!(b.weights().len() == s.len() && b.points().len() == s.len() && b.data().len() == s.len(), "sizes after resizing");
            quadrature_history::<U2>(&mut b, &t, &s)?;
            Ok(Some(digest(&s)))
        });
    }
    ctx.finish()
}
