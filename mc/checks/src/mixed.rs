//! A finite element space with elements of different types, written independently of fenris' elements.
use crate::cells::{point, Kind};
use crate::fem::{Basis, Geo};
use fenris::allocators::DimAllocator;
use fenris::nalgebra::{DefaultAllocator, DimName, Dyn, MatrixViewMut, OMatrix, OPoint};
use fenris::space::*;
use fenris::SmallDim;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct MixedElement {
    pub kind: Kind,
    pub basis: Arc<Basis>,
    pub geo: Geo,
    pub nodes: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Mixed<D> {
    pub elems: Vec<MixedElement>,
    pub num_nodes: usize,
    pub yields: bool,
    /// where each query point lies
    pub locate: HashMap<Vec<u64>, (usize, [f64; 3])>,
    pub marker: PhantomData<D>,
}

pub fn coords<D: DimName>(p: &OPoint<f64, D>) -> [f64; 3]
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    std::array::from_fn(|k| if k < D::dim() { p[k] } else { 0.0 })
}

pub fn bits<D: DimName>(p: &OPoint<f64, D>) -> Vec<u64>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    p.iter().map(|c| c.to_bits()).collect()
}

impl<D> FiniteElementConnectivity for Mixed<D> {
    fn num_elements(&self) -> usize {
        self.elems.len()
    }
    fn num_nodes(&self) -> usize {
        self.num_nodes
    }
    fn element_node_count(&self, i: usize) -> usize {
        self.elems[i].nodes.len()
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], i: usize) {
        nodes.copy_from_slice(&self.elems[i].nodes);
    }
}

impl<D: SmallDim> FiniteElementSpace<f64> for Mixed<D>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    type GeometryDim = D;
    type ReferenceDim = D;

    fn populate_element_basis(&self, i: usize, v: &mut [f64], xi: &OPoint<f64, D>) {
        v.copy_from_slice(&self.elems[i].basis.value(coords(xi)));
    }
    fn populate_element_gradients(&self, i: usize, mut g: MatrixViewMut<f64, D, Dyn>, xi: &OPoint<f64, D>) {
        let w = self.elems[i].basis.grad(coords(xi));
        assert_eq!(g.ncols(), w.len());
        for (j, c) in w.iter().enumerate() {
            for k in 0..D::dim() {
                g[(k, j)] = c[k];
            }
        }
    }
    fn element_reference_jacobian(&self, i: usize, xi: &OPoint<f64, D>) -> OMatrix<f64, D, D> {
        let j = self.elems[i].geo.jac(coords(xi));
        OMatrix::<f64, D, D>::from_fn(|r, c| j[c][r])
    }
    fn map_element_reference_coords(&self, i: usize, xi: &OPoint<f64, D>) -> OPoint<f64, D> {
        point::<D>(self.elems[i].geo.map(coords(xi)))
    }
    fn diameter(&self, i: usize) -> f64 {
        self.elems[i].geo.diameter()
    }
}

impl<D: SmallDim> FindClosestElement<f64> for Mixed<D>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    fn find_closest_element_and_reference_coords(&self, p: &OPoint<f64, D>) -> Option<(usize, OPoint<f64, D>)> {
        if self.yields {
            mcsched::yield_point();
        }
        let (e, xi) = self.locate.get(&bits(p))?;
        Some((*e, point::<D>(*xi)))
    }
}

impl<D> Mixed<D> {
    /// Value (per component) and gradient (rows: direction, columns: component) of a field at a point of an element.
    pub fn field(&self, e: usize, xi: [f64; 3], u: &[f64], sdim: usize, d: usize) -> (Vec<f64>, Vec<Vec<f64>>) {
        let el = &self.elems[e];
        let (v, g, j) = (el.basis.value(xi), el.basis.grad(xi), el.geo.jac(xi));
        let inv = inverse(&j, d);
        let val = (0..sdim).map(|s| el.nodes.iter().zip(&v).map(|(n, w)| u[sdim * n + s] * w).sum()).collect();
        let grad = (0..d)
            .map(|r| {
                (0..sdim)
                    .map(|s| {
                        el.nodes
                            .iter()
                            .zip(&g)
                            .map(|(n, g)| u[sdim * n + s] * (0..d).map(|c| g[c] * inv[c][r]).sum::<f64>())
                            .sum()
                    })
                    .collect()
            })
            .collect();
        (val, grad)
    }
}

/// Inverse of the Jacobian given by columns j[c][r]: inv[c][r] = d xi_c / d x_r.
pub fn inverse(j: &[[f64; 3]; 3], d: usize) -> [[f64; 3]; 3] {
    // rows of the matrix [J | I] with J[r][c] = j[c][r]
    let mut a = vec![vec![0.0; 2 * d]; d];
    for r in 0..d {
        for c in 0..d {
            a[r][c] = j[c][r];
        }
        a[r][d + r] = 1.0;
    }
    for c in 0..d {
        let p = (c..d).max_by(|x, y| a[*x][c].abs().total_cmp(&a[*y][c].abs())).unwrap();
        a.swap(c, p);
        let f = 1.0 / a[c][c];
        a[c].iter_mut().for_each(|x| *x *= f);
        let row = a[c].clone();
        for r in 0..d {
            if r != c {
                let f = a[r][c];
                a[r].iter_mut().zip(&row).for_each(|(x, y)| *x -= f * y);
            }
        }
    }
    let mut out = [[0.0; 3]; 3];
    for r in 0..d {
        for c in 0..d {
            out[r][c] = a[r][d + c];
        }
    }
    out
}

pub fn det(j: &[[f64; 3]; 3], d: usize) -> f64 {
    match d {
        1 => j[0][0],
        2 => j[0][0] * j[1][1] - j[0][1] * j[1][0],
        _ => {
            j[0][0] * (j[1][1] * j[2][2] - j[1][2] * j[2][1]) - j[1][0] * (j[0][1] * j[2][2] - j[0][2] * j[2][1])
                + j[2][0] * (j[0][1] * j[1][2] - j[0][2] * j[1][1])
        }
    }
}
