//! C29: exporting meshes and fields to VTK.
use checks::cells::{kind, I3};
use fenris::connectivity::*;
use fenris::io::vtk::{FiniteElementMeshDataSetBuilder, VtkCellConnectivity};
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, OVector, U2, U3};
use fenris::vtkio::model::{Attribute, DataSet, ElementType};
use fenris::vtkio::{IOBuffer, Vtk};
use fenris::Real;
use hk::*;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- the VTK documentation

fn mid(c: &[I3], g: &[usize]) -> I3 {
    std::array::from_fn(|k| g.iter().map(|i| c[*i][k]).sum::<i32>() / g.len() as i32)
}
/// Where VTK wants the points of a cell type, on the reference cell (VTK file format documentation).
fn vtk_points(cell_type: u8) -> Option<Vec<I3>> {
    use checks::cells::Shape::*;
    let edges = |shape: checks::cells::Shape, groups: &[&[usize]]| {
        let mut v = shape.corners();
        let c = v.clone();
        v.extend(groups.iter().map(|g| mid(&c, g)));
        v
    };
    let quad: &[&[usize]] = &[&[0, 1], &[1, 2], &[2, 3], &[3, 0]];
    let hex: &[&[usize]] = &[&[0, 1], &[1, 2], &[2, 3], &[3, 0], &[4, 5], &[5, 6], &[6, 7], &[7, 4], &[0, 4], &[1, 5], &[2, 6], &[3, 7]];
    Some(match cell_type {
        3 => Seg.corners(),
        5 => Tri.corners(),
        9 => Quad.corners(),
        10 => Tet.corners(),
        12 => Hex.corners(),
        21 => edges(Seg, &[&[0, 1]]),
        22 => edges(Tri, &[&[0, 1], &[1, 2], &[2, 0]]),
        23 => edges(Quad, quad),
        24 => edges(Tet, &[&[0, 1], &[1, 2], &[2, 0], &[0, 3], &[1, 3], &[2, 3]]),
        25 => edges(Hex, hex),
        28 => edges(Quad, &[quad, &[&[0, 1, 2, 3][..]]].concat()),
        29 => edges(
            Hex,
            &[
                hex,
                &[
                    &[0, 3, 4, 7][..],
                    &[1, 2, 5, 6],
                    &[0, 1, 4, 5],
                    &[2, 3, 6, 7],
                    &[0, 1, 2, 3],
                    &[4, 5, 6, 7],
                    &[0, 1, 2, 3, 4, 5, 6, 7],
                ],
            ]
            .concat(),
        ),
        _ => return None,
    })
}

// ---------------------------------------------------------------- element types

trait Cell: VtkCellConnectivity + Clone + Sync + std::fmt::Debug + 'static {
    const KIND: &'static str;
    /// the format has no such cell in its legacy form: this many leading nodes are exported
    const FALLBACK: Option<usize> = None;
    fn make(v: &[usize]) -> Self;
}
macro_rules! cell {
    ($t:ident, $k:expr $(, $f:expr)?) => {
        impl Cell for $t {
            const KIND: &'static str = $k;
            $(const FALLBACK: Option<usize> = Some($f);)?
            fn make(v: &[usize]) -> Self {
                $t(v.try_into().expect("node count"))
            }
        }
    };
}
cell!(Segment2d2Connectivity, "Segment2");
cell!(Segment2d3Connectivity, "Segment2");
cell!(Tri3d2Connectivity, "Tri3");
cell!(Tri3d3Connectivity, "Tri3");
cell!(Tri6d2Connectivity, "Tri6");
cell!(Quad4d2Connectivity, "Quad4");
cell!(Quad9d2Connectivity, "Quad9");
cell!(Tet4Connectivity, "Tet4");
cell!(Tet10Connectivity, "Tet10");
cell!(Tet20Connectivity, "Tet20", 4);
cell!(Hex8Connectivity, "Hex8");
cell!(Hex20Connectivity, "Hex20");
cell!(Hex27Connectivity, "Hex27", 20);

/// The exported cell for a connectivity must be these node indices, whatever cell type was chosen.
fn expected_cell<C: Cell>(nodes: &[usize], cell_type: u8) -> Result<Vec<usize>, String> {
    let k = kind(C::KIND);
    let pts = vtk_points(cell_type).ok_or(format!("cell type {cell_type} is not one for a single {}", C::KIND))?;
    let need = C::FALLBACK.unwrap_or(k.nodes.len());
    ensure!(
        pts.len() >= need && pts.len() <= k.nodes.len(),
        "a {} cell was given the VTK cell type {cell_type}, which has {} points",
        C::KIND,
        pts.len()
    );
    pts.iter()
        .map(|p| {
            k.nodes
                .iter()
                .position(|n| n == p)
                .map(|i| nodes[i])
                .ok_or(format!("cell type {cell_type} wants a point at {p:?}, which is no node of {}", C::KIND))
        })
        .collect()
}

// ---------------------------------------------------------------- meshes and fields

trait Num: Real + num_traits::ToPrimitive + Sync {
    fn of(x: f64) -> Self;
    fn out(buffer: &IOBuffer) -> Option<Vec<Self>>;
}
impl Num for f64 {
    fn of(x: f64) -> f64 {
        x
    }
    fn out(b: &IOBuffer) -> Option<Vec<f64>> {
        match b {
            IOBuffer::F64(v) => Some(v.clone()),
            _ => None,
        }
    }
}
impl Num for f32 {
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn out(b: &IOBuffer) -> Option<Vec<f32>> {
        match b {
            IOBuffer::F32(v) => Some(v.clone()),
            _ => None,
        }
    }
}

fn coordinate(i: usize, j: usize) -> f64 {
    [0.1, -2.5e-9, 1.0 / 3.0, 7.0e12][(i + j) % 4] * (1.0 + i as f64 + 17.0 * j as f64)
}
fn vertices<T: Num, D: DimName>(n: usize) -> Vec<OPoint<T, D>>
where
    DefaultAllocator: Allocator<T, D>,
{
    (0..n).map(|i| OPoint::from(OVector::<T, D>::from_fn(|j, _| T::of(coordinate(i, j))))).collect()
}
/// Node lists of the cells, by arrangement.
fn cell_lists(n: usize, arrangement: usize) -> (usize, Vec<Vec<usize>>) {
    match arrangement {
        0 => (0, vec![]),
        1 => (n + 1, vec![]),
        2 => (n, vec![(0..n).collect()]),
        3 => (n + 2, vec![(0..n).map(|i| n + 1 - i).collect()]),
        // two cells with shared nodes, in different rotations, and an unused vertex
        4 => (n + 3, vec![(0..n).map(|i| (i * (n + 1) + 1) % n + 2).collect(), (0..n).map(|i| (i + 1) % n).collect()]),
        // the same cell twice and another
        5 => (2 * n, vec![(0..n).collect(), (0..n).rev().map(|i| i + n).collect(), (0..n).collect()]),
        6 => (n + 4, (0..5).map(|s| (0..n).map(|i| (i + s) % (n + 4)).collect()).collect()),
        // large meshes: node indices, and numbers of points, of cells and of attribute values, that need one byte, two, three
        _ => {
            let (points, cells) = [(254, 260), (300, 700), (65_534, 65_537), (70_001, 66_000), (140_003, 40), (90, 132_000)][arrangement - 7];
            (points, (0..cells).map(|c| (0..n).map(|i| (points - 1 + c * 7 - c / 3 + i * 41) % points).collect()).collect())
        }
    }
}
const ARRANGEMENTS: u64 = 7;
const LARGE: u64 = 4;

/// A field that is attached, with what should be read from it.
#[derive(Clone, Debug, PartialEq)]
struct Field {
    /// 's' point scalars, 'v' point vectors, 'c' cell scalars
    what: char,
    name: String,
    comps: usize,
    scalar: usize,
}
const SCALARS: usize = 6;
fn value(f: &Field, i: usize) -> f64 {
    let sign = if f.scalar == 2 || i % 3 != 1 { 1.0 } else { -1.0 };
    sign * (i * (f.comps + 2) + f.name.len() * 100 + 1) as f64
}
fn attach<'a, T, D, C>(b: FiniteElementMeshDataSetBuilder<'a, T, D, C>, f: &Field, entries: usize) -> FiniteElementMeshDataSetBuilder<'a, T, D, C>
where
    T: Num,
    D: DimName,
    DefaultAllocator: Allocator<T, D>,
{
    macro_rules! go {
        ($s:ty) => {{
            let data: Vec<$s> = (0..entries).map(|i| value(f, i) as $s).collect();
            match f.what {
                's' => b.with_point_scalar_attributes(f.name.clone(), f.comps, &data),
                'v' => b.with_point_vector_attributes(f.name.clone(), f.comps, &data),
                _ => b.with_cell_scalar_attributes(f.name.clone(), f.comps, &data),
            }
        }};
    }
    match f.scalar {
        0 => go!(f64),
        1 => go!(f32),
        2 => go!(u64),
        3 => go!(i32),
        4 => go!(i64),
        _ => go!(i16),
    }
}

fn entries(f: &Field, points: usize, cells: usize) -> usize {
    f.comps * if f.what == 'c' { cells } else { points }
}
fn buffer(f: &Field, n: usize) -> IOBuffer {
    let v: Vec<f64> = (0..n).map(|i| value(f, i)).collect();
    let v: Vec<f64> = match f.what {
        'v' if f.comps > 0 => v.chunks(f.comps).flat_map(|c| (0..3).map(|j| c.get(j).copied().unwrap_or(0.0)).collect::<Vec<_>>()).collect(),
        _ => v,
    };
    match f.scalar {
        0 => IOBuffer::F64(v),
        1 => IOBuffer::F32(v.iter().map(|x| *x as f32).collect()),
        2 => IOBuffer::U64(v.iter().map(|x| *x as u64).collect()),
        3 => IOBuffer::I32(v.iter().map(|x| *x as i32).collect()),
        4 => IOBuffer::I64(v.iter().map(|x| *x as i64).collect()),
        _ => IOBuffer::I16(v.iter().map(|x| *x as i16).collect()),
    }
}
/// Values of a buffer, and what type it stores.
fn values(b: &IOBuffer) -> (String, Vec<f64>) {
    macro_rules! go {
        ($($v:ident),*) => {
            match b {
                $(IOBuffer::$v(v) => (stringify!($v).to_string(), v.iter().map(|x| *x as f64).collect()),)*
                IOBuffer::Bit(_) => ("Bit".to_string(), vec![]),
            }
        };
    }
    go!(U8, I8, U16, I16, U32, I32, U64, I64, F32, F64)
}

/// The data set, compared with the mesh and the fields it must describe.
fn compare<T: Num, D: DimName, C: Cell>(ds: DataSet, mesh: &Mesh<T, D, C>, fields: &[Field], from_file: bool) -> Verdict
where
    DefaultAllocator: Allocator<T, D>,
{
    let DataSet::UnstructuredGrid { pieces, .. } = ds else { return Err(format!("not an unstructured grid: {ds:?}")) };
    ensure_eq!(pieces.len(), 1, "pieces");
    let piece = pieces.into_iter().next().unwrap().into_loaded_piece_data(None).map_err(|e| format!("piece: {e:?}"))?;
    let (n, m) = (mesh.vertices().len(), mesh.connectivity().len());
    // points
    let mut want = vec![];
    for v in mesh.vertices() {
        (0..3).for_each(|j| want.push(v.coords.get(j).copied().unwrap_or(T::of(0.0))));
    }
    if from_file && n == 0 {
        ensure_eq!(piece.points.len(), 0, "number of coordinates");
    } else {
        ensure_eq!(T::out(&piece.points).ok_or("coordinates have another scalar type")?, want, "points");
    }
    // cells
    ensure_eq!(piece.cells.types.len(), m, "number of cell types");
    let (count, verts) = piece.cells.cell_verts.into_legacy();
    ensure_eq!(count as usize, m, "number of cells");
    let mut rest = &verts[..];
    for (i, c) in mesh.connectivity().iter().enumerate() {
        let want = expected_cell::<C>(c.vertex_indices(), piece.cells.types[i] as u8).map_err(|e| format!("cell {i}: {e}"))?;
        ensure!(!rest.is_empty() && rest[0] as usize == want.len() && rest.len() > want.len(), "cell {i}: node count wrong in {rest:?}");
        ensure_eq!(rest[1..=want.len()].iter().map(|x| *x as usize).collect::<Vec<_>>(), want, "nodes of cell {i}");
        rest = &rest[want.len() + 1..];
    }
    ensure!(rest.is_empty(), "entries after the last cell: {rest:?}");
    // attributes
    for (what, attributes) in [("point", &piece.data.point), ("cell", &piece.data.cell)] {
        let want: Vec<&Field> = fields.iter().filter(|f| (f.what == 'c') == (what == "cell")).collect();
        ensure_eq!(attributes.len(), want.len(), "number of {what} attributes");
        for f in want {
            let mut found = attributes.iter().filter_map(|a| match a {
                Attribute::DataArray(d) if d.name == f.name => Some(d),
                _ => None,
            });
            let d = found.next().ok_or(format!("{what} attribute {} is missing", f.name))?;
            ensure!(found.next().is_none(), "two {what} attributes {}", f.name);
            let kind_ok = match (&d.elem, f.what) {
                (ElementType::Vectors, 'v') => true,
                (ElementType::Scalars { num_comp, lookup_table: None }, 's' | 'c') => *num_comp as usize == f.comps,
                (ElementType::Scalars { num_comp, .. }, 's' | 'c') if from_file => *num_comp as usize == f.comps,
                // the XML formats know arrays of tuples only
                (ElementType::Generic(k), _) if from_file => *k as usize == if f.what == 'v' { 3 } else { f.comps },
                _ => false,
            };
            ensure!(kind_ok, "{what} attribute {f:?} became {:?}", d.elem);
            let n = entries(f, n, m);
            let want = if f.what == 'v' && f.comps == 0 { vec![0.0; 3 * mesh.vertices().len()] } else { values(&buffer(f, n)).1 };
            let (ty, got) = values(&d.data);
            ensure_eq!(got, want, "values of {what} attribute {f:?}");
            ensure!(want.is_empty() || ty == values(&buffer(f, 0)).0, "{what} attribute {f:?} has scalar type {ty}");
        }
    }
    Ok(Some(digest(&(C::KIND, format!("{:?}", piece.cells.types), verts, n, format!("{fields:?}")))))
}

// ---------------------------------------------------------------- cases

/// Ordered selections of fields, all with different names.
fn fields(g: &mut Dig, count: usize) -> Vec<Field> {
    const MENU: [(char, usize); 10] = [('s', 1), ('s', 2), ('s', 3), ('s', 4), ('v', 1), ('v', 2), ('v', 3), ('c', 1), ('c', 2), ('c', 3)];
    (0..count)
        .map(|i| {
            let (what, comps) = *g.pick(&MENU);
            Field { what, comps, scalar: g.next(SCALARS as u64), name: format!("{}{i}_{}", what, "x".repeat(i)) }
        })
        .collect()
}
fn field_choices(count: u32) -> u64 {
    pow(10 * SCALARS as u64, count)
}
fn mesh_of<T: Num, D: DimName, C: Cell>(arrangement: usize) -> Mesh<T, D, C>
where
    DefaultAllocator: Allocator<T, D>,
{
    let (n, cells) = cell_lists(kind(C::KIND).nodes.len(), arrangement);
    Mesh::from_vertices_and_connectivity(vertices::<T, D>(n), cells.iter().map(|c| C::make(c)).collect())
}
fn unchanged<T: Num, D: DimName, C: Cell>(mesh: &Mesh<T, D, C>, arrangement: usize) -> Result<(), String>
where
    DefaultAllocator: Allocator<T, D>,
{
    let other = mesh_of::<T, D, C>(arrangement);
    ensure_eq!(mesh.vertices(), other.vertices(), "vertices of the mesh after exporting");
    ensure!(
        mesh.connectivity().iter().map(|c| c.vertex_indices()).eq(other.connectivity().iter().map(|c| c.vertex_indices())),
        "the mesh was changed by exporting"
    );
    Ok(())
}
fn build<T: Num, D: DimName, C: Cell>(arrangement: usize, fields: &[Field]) -> Verdict
where
    DefaultAllocator: Allocator<T, D>,
{
    let mesh = mesh_of::<T, D, C>(arrangement);
    let mut b = FiniteElementMeshDataSetBuilder::from_mesh(&mesh);
    for f in fields {
        b = attach(b, f, entries(f, mesh.vertices().len(), mesh.connectivity().len()));
    }
    let ds = b.try_build().map_err(|e| format!("not built: {e}"))?;
    ensure!(b.try_build().map_err(|e| format!("not built again: {e}"))? == ds, "building twice gives different data sets");
    drop(b);
    unchanged(&mesh, arrangement)?;
    compare(ds, &mesh, fields, false)
}
#[derive(Clone, Copy)]
struct Target {
    name: &'static str,
    build: fn(usize, &[Field]) -> Verdict,
    export: fn(usize, &[Field], &Path, Option<&str>) -> Verdict,
    refuse: fn(usize, &Field, usize) -> Verdict,
}
macro_rules! targets {
    ($([$c:ident, $d:ident]),*) => {
        vec![$(
            Target { name: concat!(stringify!($c), "/f64/", stringify!($d)), build: build::<f64, $d, $c>, export: export::<f64, $d, $c>, refuse: refuse::<f64, $d, $c> },
            Target { name: concat!(stringify!($c), "/f32/", stringify!($d)), build: build::<f32, $d, $c>, export: export::<f32, $d, $c>, refuse: refuse::<f32, $d, $c> },
        )*]
    };
}
fn targets() -> Vec<Target> {
    targets![
        [Segment2d2Connectivity, U2],
        [Segment2d3Connectivity, U3],
        [Tri3d2Connectivity, U2],
        [Tri3d3Connectivity, U3],
        [Tri6d2Connectivity, U2],
        [Quad4d2Connectivity, U2],
        [Quad9d2Connectivity, U2],
        [Tet4Connectivity, U3],
        [Tet10Connectivity, U3],
        [Tet20Connectivity, U3],
        [Hex8Connectivity, U3],
        [Hex20Connectivity, U3],
        [Hex27Connectivity, U3]
    ]
}

fn export<T: Num, D: DimName, C: Cell>(arrangement: usize, fields: &[Field], path: &Path, title: Option<&str>) -> Verdict
where
    DefaultAllocator: Allocator<T, D>,
{
    let mesh = mesh_of::<T, D, C>(arrangement);
    let mut b = FiniteElementMeshDataSetBuilder::from_mesh(&mesh);
    if let Some(t) = title {
        b = b.with_title(t);
    }
    for f in fields {
        b = attach(b, f, entries(f, mesh.vertices().len(), mesh.connectivity().len()));
    }
    let done = b.try_export(path);
    unchanged(&mesh, arrangement)?;
    if let Err(e) = done {
        // names of no known format may be refused
        let known = matches!(path.extension().and_then(|e| e.to_str()), Some("vtk" | "vtu"));
        return if known { Err(format!("not exported: {e}")) } else { Ok(None) };
    }
    let file = Vtk::import(path).map_err(|e| format!("the exported file cannot be read: {e:?}"))?;
    if path.extension().map(|e| !e.eq_ignore_ascii_case("vtu")).unwrap_or(false) {
        let stem = path.file_stem().unwrap().to_string_lossy().to_string();
        ensure_eq!(file.title, title.map(|s| s.to_string()).unwrap_or(stem), "title");
    }
    compare(file.data, &mesh, fields, true)
}
/// One attribute of the wrong length, or with too many components: documented to panic.
fn refuse<T: Num, D: DimName, C: Cell>(arrangement: usize, f: &Field, case: usize) -> Verdict
where
    DefaultAllocator: Allocator<T, D>,
{
    let mesh = mesh_of::<T, D, C>(arrangement);
    let (n, m) = (mesh.vertices().len(), mesh.connectivity().len());
    let exact = entries(f, n, m);
    let given = [exact, exact + 1, exact.saturating_sub(1), 0, f.comps * n, f.comps * m, 3 * n, n, m][case];
    let ok = given == exact && (f.what != 'v' || f.comps <= 3);
    let got = no_panic(|| {
        let b = attach(FiniteElementMeshDataSetBuilder::from_mesh(&mesh), f, given);
        b.try_build().map_err(|e| format!("{e}"))
    });
    match got {
        Err(p) if ok => Err(format!("a matching attribute was refused: {p}")),
        Err(_) => Ok(Some(digest(&(C::KIND, arrangement, f.what, f.comps, given)))),
        Ok(_) if !ok => Err(format!("{given} entries were accepted as {f:?} of a mesh with {n} points and {m} cells")),
        Ok(ds) => compare(ds?, &mesh, std::slice::from_ref(f), false),
    }
}

fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("c29-{}", std::process::id()))
}

fn main() {
    let ctx = Ctx::new(
        "C29",
        Level::Exploration,
        "distinct (cell types, exported indices, attributes) of data sets that were compared entry by entry",
    );
    ctx.assume("the reader of the third-party vtkio crate reads back what is in a file; cell node orders are those of the VTK file format documentation");
    let ts = targets();
    let nt = ts.len() as u64;
    {
        let ts = ts.clone();
        let count = ctx.tier(1, 2);
        ctx.suite(
            "data sets",
            nt * ARRANGEMENTS * (field_choices(count) + 1),
            {
                let ts = ts.clone();
                move |i| {
                    let mut g = Dig(i);
                    let (t, a) = (*g.pick(&ts), g.next(ARRANGEMENTS));
                    let fs = if g.0 == 0 { vec![] } else { g.0 -= 1; fields(&mut g, count as usize) };
                    format!("{} arrangement {a} with {fs:?}", t.name)
                }
            },
            move |i| {
                let mut g = Dig(i);
                let (t, a) = (*g.pick(&ts), g.next(ARRANGEMENTS));
                let fs = if g.0 == 0 { vec![] } else { g.0 -= 1; fields(&mut g, count as usize) };
                (t.build)(a, &fs)
            },
        );
    }

    // files: each extension, in present and missing directories, with and without a title
    const FILES: [&str; 6] = ["a.vtk", "field.vtu", "new/dir/mesh.vtk", "new/.x/mesh.vtu", "dotted.name.vtk", "UPPER.VTU"];
    let dir = scratch();
    {
        let (ts, dir) = (ts.clone(), dir.clone());
        let kinds = ctx.tier(10u64, 10 * SCALARS as u64);
        let decode = {
            let ts = ts.clone();
            move |i: u64| {
                let mut g = Dig(i);
                let t = *g.pick(&ts);
                let (a, file, title) = (g.next(ARRANGEMENTS), FILES[g.next(FILES.len() as u64)], [None, Some("some title")][g.next(2)]);
                let fs = if g.0 == 0 {
                    vec![]
                } else {
                    // two fields: the second follows from the first
                    let j = g.0 - 1;
                    let j = if kinds == 10 { j + 10 * ((j + a as u64) % SCALARS as u64) } else { j };
                    let k = pow(10 * SCALARS as u64, 1);
                    fields(&mut Dig(j + k * ((j * 7 + 13 + a as u64) % k)), 2)
                };
                (t, a, file, title, fs)
            }
        };
        let d2 = decode.clone();
        ctx.suite(
            "files",
            nt * ARRANGEMENTS * FILES.len() as u64 * 2 * (kinds + 1),
            move |i| {
                let (t, a, file, title, fs) = d2(i);
                format!("{} arrangement {a} with {fs:?} to {file} titled {title:?}", t.name)
            },
            move |i| {
                let (t, a, file, title, fs) = decode(i);
                let mine = dir.join(format!("{i}"));
                std::fs::create_dir_all(&mine).map_err(|e| format!("harness: {e}"))?;
                let r = (t.export)(a, &fs, &mine.join(file), title);
                let _ = std::fs::remove_dir_all(&mine);
                r
            },
        );
    }
    // any number of attributes, and any names
    {
        const NAMES: [&str; 12] = ["f", " f", "f ", "F", "a b", "", "\t", "x.y", "0", "naïve", "f\n", "cells"];
        const MANY: u64 = 13;
        let decode = {
            let ts = ts.clone();
            move |i: u64| {
                let mut g = Dig(i);
                let (t, a) = (*g.pick(&ts), g.next(ARRANGEMENTS));
                let (count, shift, kind): (usize, usize, usize) = (g.next(MANY), g.next(NAMES.len() as u64), g.next(4));
                let fs: Vec<Field> = (0..count)
                    .map(|k| {
                        let what = if kind < 3 { ['s', 'v', 'c'][kind] } else { ['s', 'v', 'c'][(k + shift) % 3] };
                        Field { what, comps: 1 + (k + shift) % 3, scalar: (k + a) % SCALARS, name: NAMES.get((k + shift) % MANY as usize).map_or(format!("f{k}"), |s| s.to_string()) }
                    })
                    .collect();
                (t, a, fs)
            }
        };
        let d2 = decode.clone();
        ctx.suite(
            "many attributes of any names",
            nt * ARRANGEMENTS * MANY * NAMES.len() as u64 * 4,
            move |i| {
                let (t, a, fs) = d2(i);
                format!("{} arrangement {a} with {fs:?}", t.name)
            },
            move |i| {
                let (t, a, fs) = decode(i);
                (t.build)(a, &fs)
            },
        );
    }
    // more points, and more cells, than two to the power 17: in memory
    {
        let (t1, t2) = (ts.clone(), ts.clone());
        ctx.suite(
            "larger",
            nt * 2,
            move |i| format!("{} arrangement {}", t1[(i / 2) as usize].name, 11 + i % 2),
            move |i| {
                let f = |what, comps, scalar| Field { what, comps, scalar, name: format!("{what}{comps}") };
                (t2[(i / 2) as usize].build)(11 + (i % 2) as usize, &[f('s', 1, 0), f('c', 2, 2)])
            },
        );
    }
    // large meshes with one field of each kind, in memory and in files
    {
        let decode = {
            let ts = ts.clone();
            move |i: u64| {
                let mut g = Dig(i);
                let t = *g.pick(&ts);
                let (a, file) = (7 + g.next(LARGE), [None, Some("a.vtk"), Some("a.vtu")][g.next(3)]);
                let s = g.next(SCALARS as u64);
                let f = |what, comps, s: usize| Field { what, comps, scalar: s % SCALARS, name: format!("{what}{comps}") };
                (t, a, file, vec![f('s', 2, s), f('v', 2, s + 1), f('c', 1, s + 2), f('c', 3, s + 3)])
            }
        };
        let (d2, dir) = (decode.clone(), dir.clone());
        let scalars = ctx.tier(2, SCALARS as u64);
        ctx.suite(
            "large",
            nt * LARGE * 3 * scalars,
            move |i| {
                let (t, a, file, fs) = d2(i);
                format!("{} arrangement {a} with {fs:?} to {file:?}", t.name)
            },
            move |i| {
                let (t, a, file, fs) = decode(i);
                let Some(file) = file else { return (t.build)(a, &fs) };
                let mine = dir.join(format!("large{i}"));
                std::fs::create_dir_all(&mine).map_err(|e| format!("harness: {e}"))?;
                let r = (t.export)(a, &fs, &mine.join(file), None);
                let _ = std::fs::remove_dir_all(&mine);
                r
            },
        );
    }
    let _ = std::fs::remove_dir_all(&dir);
    {
        let lens: u64 = 9;
        let decode = {
            let ts = ts.clone();
            move |i: u64| {
                let mut g = Dig(i);
                let t = *g.pick(&ts);
                let a = g.next(ARRANGEMENTS);
                let what = *g.pick(&['s', 'v', 'c']);
                let comps = g.next(6);
                let k = g.next(lens);
                (t, a, Field { what, comps, scalar: comps % SCALARS, name: "f".into() }, k)
            }
        };
        let d2 = decode.clone();
        ctx.suite(
            "lengths",
            nt * ARRANGEMENTS * 3 * 6 * lens,
            move |i| {
                let (t, a, f, k) = d2(i);
                format!("{} arrangement {a} with {f:?} length case {k}", t.name)
            },
            move |i| {
                let (t, a, f, k) = decode(i);
                (t.refuse)(a, &f, k)
            },
        );
    }
    ctx.finish()
}
