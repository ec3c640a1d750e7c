//! C11: boundaries, surface meshes and cell selections.
use checks::cells::*;
use checks::families::*;
use fenris::allocators::DimAllocator;
use fenris::connectivity::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::DefaultAllocator;
use hk::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// The local faces of a cell as sets of local nodes, from geometry.
fn face_sets(k: &Kind) -> Vec<BTreeSet<usize>> {
    k.shape
        .faces()
        .iter()
        .map(|(n, c)| (0..k.nodes.len()).filter(|&i| (0..3).map(|r| n[r] * k.nodes[i][r]).sum::<i32>() == *c).collect())
        .collect()
}

fn coords<D: fenris::nalgebra::DimName>(p: &fenris::nalgebra::OPoint<f64, D>) -> Vec<u64>
where
    DefaultAllocator: DimAllocator<f64, D>,
{
    p.coords.iter().map(|x| x.to_bits()).collect()
}

/// Check all boundary queries on one mesh. Cells need not be geometrically sensible.
fn check<C: TestCell>(l: &Lattice) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
    C::FaceConnectivity: ConnectivityMut + std::fmt::Debug,
{
    let k = C::kind();
    // All vertices must be distinguishable by position
    let mesh: Mesh<f64, C::Dim, C> = typed::<C>(l, |v| [v[0] as f64 + 0.001 * v[2] as f64, v[1] as f64, v[2] as f64]);
    let sets = face_sets(&k);
    let mut count: BTreeMap<BTreeSet<usize>, Vec<usize>> = BTreeMap::new();
    for (ci, c) in l.cells.iter().enumerate() {
        for s in &sets {
            count.entry(s.iter().map(|&i| c[i]).collect()).or_default().push(ci);
        }
    }
    let want: BTreeMap<&BTreeSet<usize>, usize> = count.iter().filter(|(_, v)| v.len() == 1).map(|(s, v)| (s, v[0])).collect();

    let faces = mesh.find_boundary_faces();
    let mut got = BTreeMap::new();
    for (f, cell, local) in &faces {
        let set: BTreeSet<usize> = f.vertex_indices().iter().copied().collect();
        ensure!(*cell < l.cells.len(), "cell {cell} of {}", l.cells.len());
        let own = mesh.connectivity()[*cell].get_face_connectivity(*local);
        ensure!(
            own.as_ref().map(|o| o.vertex_indices().to_vec()) == Some(f.vertex_indices().to_vec()),
            "face {f:?} reported as local face {local} of cell {cell}, which is {own:?}"
        );
        ensure!(got.insert(set.clone(), *cell).is_none(), "face {set:?} reported twice");
    }
    for (s, c) in &want {
        match got.get(*s) {
            None => return Err(format!("boundary face {s:?} of cell {c} is missing")),
            Some(g) => ensure_eq!(g, c, "cell of boundary face {s:?}"),
        }
    }
    for s in got.keys() {
        ensure!(want.contains_key(s), "face {s:?} is reported but belongs to cells {:?}", count.get(s));
    }

    let mut cells = mesh.find_boundary_cells();
    cells.sort();
    let wc: BTreeSet<usize> = want.values().copied().collect();
    ensure_eq!(cells, wc.into_iter().collect::<Vec<_>>(), "boundary cells");
    let verts = mesh.find_boundary_vertices();
    let wv: BTreeSet<usize> = want.keys().flat_map(|s| s.iter().copied()).collect();
    ensure_eq!(verts, wv.iter().copied().collect::<Vec<_>>(), "boundary vertices");

    // surface mesh
    let surf = mesh.extract_surface_mesh();
    let mut gs: Vec<Vec<Vec<u64>>> = vec![];
    let mut used = BTreeSet::new();
    for f in surf.connectivity() {
        let mut ids = vec![];
        for &v in f.vertex_indices() {
            ensure!(v < surf.vertices().len(), "surface vertex {v} of {}", surf.vertices().len());
            used.insert(v);
            ids.push(coords(&surf.vertices()[v]));
        }
        gs.push(ids);
    }
    let mut ws: Vec<Vec<Vec<u64>>> =
        faces.iter().map(|(f, _, _)| f.vertex_indices().iter().map(|&v| coords(&mesh.vertices()[v])).collect()).collect();
    gs.sort();
    ws.sort();
    ensure!(gs == ws, "the surface mesh has other faces than the boundary: {:?}", surf.connectivity());
    ensure_eq!(used.len(), surf.vertices().len(), "vertices of the surface mesh that are used, of all");
    ensure_eq!(surf.vertices().len(), wv.len(), "vertices of the surface mesh");
    Ok(if faces.is_empty() { None } else { Some(digest(&(C::NAME, l))) })
}

fn check_keep<C: TestCell>(l: &Lattice, keep: &[usize]) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
{
    let mesh: Mesh<f64, C::Dim, C> = typed::<C>(l, |v| [v[0] as f64 + 0.001 * v[2] as f64, v[1] as f64, v[2] as f64]);
    let sub = mesh.keep_cells(keep);
    ensure_eq!(sub.connectivity().len(), keep.len(), "number of cells");
    let mut used = BTreeSet::new();
    for (c, &old) in sub.connectivity().iter().zip(keep) {
        let (a, b) = (c.vertex_indices(), mesh.connectivity()[old].vertex_indices());
        ensure_eq!(a.len(), b.len(), "nodes of a cell");
        for (&x, &y) in a.iter().zip(b) {
            ensure!(x < sub.vertices().len(), "vertex {x} of {}", sub.vertices().len());
            used.insert(x);
            ensure!(
                coords(&sub.vertices()[x]) == coords(&mesh.vertices()[y]),
                "cell {old} has a node at {:?} instead of {:?}",
                sub.vertices()[x],
                mesh.vertices()[y]
            );
        }
    }
    ensure_eq!(used.len(), sub.vertices().len(), "used vertices of all vertices kept");
    let distinct: BTreeSet<_> = sub.vertices().iter().map(coords).collect();
    ensure_eq!(distinct.len(), sub.vertices().len(), "distinct vertices of all vertices kept");
    Ok(if keep.is_empty() { None } else { Some(digest(&(C::NAME, l, keep))) })
}

/// Reference cell: faces, their order and orientation.
fn check_reference<C: TestCell>(sym: &Affine) -> Verdict
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
    C::FaceConnectivity: Connectivity + std::fmt::Debug,
{
    let k = C::kind();
    let l = build(&k, &[*sym], 0);
    let c = C::make(&l.cells[0]);
    ensure_eq!(c.num_faces(), k.shape.faces().len(), "number of faces");
    ensure!(c.get_face_connectivity(c.num_faces()).is_none(), "a face beyond the last one");
    ensure_eq!(c.vertex_indices(), &l.cells[0][..], "nodes");
    let face_kind = match (k.shape, k.name) {
        (Shape::Tri | Shape::Quad, _) if k.order == 1 => "Segment2",
        (Shape::Tri | Shape::Quad, _) => "Segment3",
        (Shape::Tet, _) if k.order == 1 => "Tri3",
        (Shape::Tet, _) => "Tri6",
        (_, "Hex8") => "Quad4",
        (_, "Hex20") => "Quad8",
        _ => "Quad9",
    };
    let fk = kind(face_kind);
    let corner_pos: Vec<usize> = if face_kind == "Segment3" { vec![0, 2] } else { (0..fk.shape.corners().len()).collect() };
    let mut seen = BTreeSet::new();
    for i in 0..c.num_faces() {
        let f = c.get_face_connectivity(i).unwrap();
        let v: Vec<I3> = f.vertex_indices().iter().map(|&x| l.vertices[x]).collect();
        ensure_eq!(v.len(), fk.nodes.len(), "nodes of face {i}");
        let set: BTreeSet<I3> = v.iter().copied().collect();
        let (n, _) = *k
            .shape
            .faces()
            .iter()
            .find(|(n, cc)| {
                let on: BTreeSet<I3> =
                    l.vertices.iter().filter(|p| (0..3).map(|r| n[r] * p[r]).sum::<i32>() == *cc).copied().collect();
                on == set
            })
            .ok_or_else(|| format!("face {i} with nodes {v:?} is not a face of the cell"))?;
        ensure!(seen.insert(n), "face {i} repeats another face");
        // corners in order, outward
        let q: Vec<I3> = corner_pos.iter().map(|&j| v[j]).collect();
        let d = |a: I3, b: I3| -> I3 { std::array::from_fn(|r| b[r] - a[r]) };
        if q.len() == 2 {
            // interior to the left: rotate the direction clockwise to get the outward normal
            let t = d(q[0], q[1]);
            let out = [t[1], -t[0], 0];
            ensure!((0..3).map(|r| out[r] * n[r]).sum::<i32>() > 0, "face {i} runs the wrong way round");
        } else {
            let m = q.len();
            for j in 0..m {
                let (e1, e2) = (d(q[j], q[(j + 1) % m]), d(q[(j + 1) % m], q[(j + 2) % m]));
                let cr = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]];
                ensure!((0..3).map(|r| cr[r] * n[r]).sum::<i32>() > 0, "face {i} is not oriented outwards at corner {j}: {q:?}");
            }
        }
        // every node of the face where the face element has it: an affine map from the face's reference corners
        for (j, x) in fk.nodes.iter().enumerate() {
            let want: I3 = if q.len() == 2 {
                std::array::from_fn(|r| q[0][r] + (q[1][r] - q[0][r]) * x[0] / 6)
            } else {
                let last = *q.last().unwrap();
                std::array::from_fn(|r| q[0][r] + ((q[1][r] - q[0][r]) * x[0] + (last[r] - q[0][r]) * x[1]) / 6)
            };
            ensure_eq!(v[j], want, "position of node {j} of face {i}");
        }
    }
    Ok(Some(digest(&(C::NAME, sym))))
}

/// Subsets of a grid in rotated local numberings.
fn family(shape: Shape, grids: &[[usize; 3]], pairs_of_rotations: bool) -> Vec<Vec<Affine>> {
    let sym = shape.symmetries();
    let mut out = vec![];
    for g in grids {
        let base = grid(shape, *g);
        let n = base.len();
        for mask in 0..1u64 << n {
            let sel: Vec<Affine> = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| base[i]).collect();
            let (aa, bb) = if sel.is_empty() { (1, 1) } else if pairs_of_rotations { (sym.len(), sym.len()) } else { (sym.len(), 2) };
            for a in 0..aa {
                for b in 0..bb {
                    let mut cells: Vec<Affine> =
                        sel.iter().enumerate().map(|(i, c)| c.after(&sym[(a + i * b) % sym.len()])).collect();
                    if b % 2 == 1 {
                        cells.reverse();
                    }
                    out.push(cells);
                    if sel.len() < 2 {
                        break;
                    }
                }
            }
        }
    }
    out
}

fn run<C: TestCell>(ctx: &Arc<Ctx>, name: &str)
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
    C::FaceConnectivity: ConnectivityMut + std::fmt::Debug,
{
    let k = C::kind();
    let sym = k.shape.symmetries();
    ctx.suite_over(&format!("{name}: reference cell"), &sym, |s| format!("{s:?}"), check_reference::<C>);
    let t = ctx.thorough;
    let small = k.order > 1;
    let fam = match k.shape {
        Shape::Quad => family(k.shape, if t { &[[3, 2, 1], [3, 3, 1]] } else { &[[3, 2, 1]] }, true),
        Shape::Tri => family(k.shape, if t { &[[2, 2, 1], [3, 2, 1]] } else { &[[2, 2, 1]] }, true),
        Shape::Tet => family(k.shape, if t { &[[1, 1, 1], [2, 1, 1]] } else { &[[1, 1, 1]] }, true),
        Shape::Hex => family(k.shape, if t { &[[2, 2, 1], [2, 2, 2]] } else { &[[2, 2, 1]] }, !small),
        Shape::Seg => vec![],
    };
    let rl = RELABELLINGS as u64;
    ctx.suite(
        &format!("{name}: subsets of grids"),
        fam.len() as u64 * rl,
        |i| format!("relabelling {} of {:?}", i % rl, fam[(i / rl) as usize]),
        |i| check::<C>(&build(&k, &fam[(i / rl) as usize], (i % rl) as usize)),
    );
    // large numbers
    let ln = LARGE_NUMBERS.len() as u64;
    let base = grid(k.shape, match k.shape { Shape::Quad | Shape::Tri => [2, 2, 1], Shape::Tet => [1, 1, 1], _ => [2, 1, 1] });
    let few: Vec<Vec<Affine>> = (0..1u64 << base.len()).map(|m| (0..base.len()).filter(|i| m >> i & 1 == 1).map(|i| base[i].after(&sym[i % sym.len()])).collect()).collect();
    ctx.suite(
        &format!("{name}: large vertex numbers"),
        few.len() as u64 * ln,
        |i| format!("numbering {} of {:?}", i % ln, few[(i / ln) as usize]),
        |i| check::<C>(&build(&k, &few[(i / ln) as usize], LARGE_NUMBERS.start + (i % ln) as usize)),
    );
    // many cells on one face (or all the same cell)
    let sets = face_sets(&k);
    let mut many = vec![];
    for m in (1..6usize).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 259, 511, 512, 513, 514]).chain(if t { 600..1030 } else { 0..0 }) {
        for f in 0..=sets.len() {
            many.push((m, f));
        }
    }
    ctx.suite_over(&format!("{name}: many cells on one face"), &many, |c| format!("cells and face {c:?}"), |&(m, f)| {
        let n = k.nodes.len();
        let cells: Vec<Vec<usize>> = (0..m)
            .map(|c| (0..n).map(|i| if f == sets.len() || sets[f].iter().any(|j| *j == i) { i } else { n * (c + 1) + i }).collect())
            .chain([(0..n).map(|i| n * (m + 1) + i).collect()])
            .collect();
        let vertices = (0..n * (m + 2)).map(|i| [i as i32, (i * i % 101) as i32, (i % 7) as i32]).collect();
        check::<C>(&Lattice { vertices, cells })
    });
    // selections of cells
    let g = match k.shape {
        Shape::Hex | Shape::Quad => [2, 2, 1],
        _ => [1, 1, 1],
    };
    let mut base = grid(k.shape, g);
    base.truncate(4);
    let seqs = injective_sequences(base.len(), 4);
    let sels: Vec<(usize, usize, Vec<usize>)> = (0..rl as usize)
        .flat_map(|r| (0..sym.len()).flat_map(move |s| [r].into_iter().map(move |r| (r, s))))
        .flat_map(|(r, s)| seqs.iter().map(move |q| (r, s, q.clone())))
        .collect();
    ctx.suite_over(&format!("{name}: kept cells"), &sels, |s| format!("{s:?}"), |(r, s, q)| {
        let cells: Vec<Affine> = base.iter().enumerate().map(|(i, c)| c.after(&sym[(s + i) % sym.len()])).collect();
        check_keep::<C>(&build(&k, &cells, *r), q)
    });
}

/// Abstract incidence: any list of cells on a few vertices, however they overlap.
fn abstract_lists<C: TestCell>(ctx: &Arc<Ctx>, name: &str, nv: usize, cells: usize)
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
    C::FaceConnectivity: ConnectivityMut + std::fmt::Debug,
{
    let n = C::kind().nodes.len();
    let all: Vec<Vec<usize>> = injective_sequences(nv, n).into_iter().filter(|s| s.len() == n).collect();
    let m = all.len() as u64;
    let mut total = 0;
    let mut starts = vec![];
    for c in 0..=cells {
        starts.push(total);
        total += pow(m, c as u32);
    }
    let of = |i: u64| {
        let c = starts.iter().rposition(|s| *s <= i).unwrap();
        let mut d = Dig(i - starts[c]);
        Lattice {
            vertices: (0..nv as i32).map(|i| [i, i * i, (i * i * i) % 5]).collect(),
            cells: (0..c).map(|_| d.pick(&all).clone()).collect(),
        }
    };
    ctx.suite(&format!("{name}: arbitrary incidence"), total, |i| format!("{:?}", of(i).cells), |i| check::<C>(&of(i)));
}

/// Pairs of cells with vertex numbers of two digits.
fn two_digits<C: TestCell>(ctx: &Arc<Ctx>, name: &str, h: usize, orders: &[Vec<usize>])
where
    DefaultAllocator: DimAllocator<f64, C::Dim>,
    C::FaceConnectivity: ConnectivityMut + std::fmt::Debug,
{
    let n = C::kind().nodes.len();
    let all: Vec<(usize, Vec<Vec<usize>>)> =
        NUMBER_BASES.iter().flat_map(|b| two_digit_cells(n, h, *b, if *b > 20_000 { &orders[..1] } else { orders }).into_iter().map(|c| (*b, c))).collect();
    ctx.suite_over(&format!("{name}: two-digit vertex numbers"), &all, |c| format!("{c:?}"), |(b, cells)| {
        let mut vertices = vec![[-1000, 3, 7]; b + h];
        for (i, k) in (0..h).chain(*b..b + h).zip(0i32..) {
            vertices[i] = [k, k * k, (k * k * k) % 5];
        }
        check::<C>(&Lattice { vertices, cells: cells.clone() })
    });
}

fn main() {
    let ctx = Ctx::new(
        "C11",
        Level::Exploration,
        "every subset of the cells of small grids in every local numbering and four vertex numberings, every list of up to three cells on few vertices, every injective selection of cells",
    );
    run::<Tri3d2Connectivity>(&ctx, "Tri3d2");
    run::<Tri3d3Connectivity>(&ctx, "Tri3d3");
    run::<Tri6d2Connectivity>(&ctx, "Tri6d2");
    run::<Tri6d3Connectivity>(&ctx, "Tri6d3");
    run::<Quad4d2Connectivity>(&ctx, "Quad4d2");
    run::<Quad4d3Connectivity>(&ctx, "Quad4d3");
    run::<Quad8d3Connectivity>(&ctx, "Quad8d3");
    run::<Quad9d2Connectivity>(&ctx, "Quad9d2");
    run::<Quad9d3Connectivity>(&ctx, "Quad9d3");
    run::<Tet4Connectivity>(&ctx, "Tet4");
    run::<Tet10Connectivity>(&ctx, "Tet10");
    run::<Hex8Connectivity>(&ctx, "Hex8");
    run::<Hex20Connectivity>(&ctx, "Hex20");
    run::<Hex27Connectivity>(&ctx, "Hex27");
    abstract_lists::<Tri3d2Connectivity>(&ctx, "Tri3d2", 4, 3);
    abstract_lists::<Tri3d3Connectivity>(&ctx, "Tri3d3", ctx.tier(4, 5), 3);
    abstract_lists::<Quad4d2Connectivity>(&ctx, "Quad4d2", ctx.tier(4, 5), 3);
    abstract_lists::<Tet4Connectivity>(&ctx, "Tet4", ctx.tier(5, 6), 2);
    let orders = |n: usize| vec![(0..n).collect::<Vec<_>>(), (0..n).rev().collect(), (0..n).map(|i| (3 * i + 1) % n).collect()];
    let three = vec![vec![0, 1, 2], vec![2, 1, 0], vec![1, 2, 0]];
    two_digits::<Tri3d2Connectivity>(&ctx, "Tri3d2", 3, &three);
    two_digits::<Quad4d2Connectivity>(&ctx, "Quad4d2", ctx.tier(3, 4), &orders(4));
    two_digits::<Tet4Connectivity>(&ctx, "Tet4", ctx.tier(3, 4), &orders(4));
    two_digits::<Hex8Connectivity>(&ctx, "Hex8", ctx.tier(5, 5), &orders(8)[..1]);
    ctx.assume("cells have distinct nodes; in 3D surface cells the orientation is checked in the plane");
    ctx.finish()
}
