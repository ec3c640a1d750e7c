//! C28: loading MSH files.
use fenris::connectivity::*;
use fenris::io::msh::{load_msh_from_bytes, load_msh_from_file, MshConnectivity};
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, U2, U3};
use hk::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// (MSH element type, dimension, nodes)
type Kind = (i32, i32, usize);
const PNT: Kind = (15, 0, 1);
const LIN2: Kind = (1, 1, 2);
const TRI3: Kind = (2, 2, 3);
const QUA4: Kind = (3, 2, 4);
const TET4: Kind = (4, 3, 4);
const HEX8: Kind = (5, 3, 8);
const TRI6: Kind = (9, 2, 6);
const QUA9: Kind = (10, 2, 9);
const TET10: Kind = (11, 3, 10);
const HEX27: Kind = (12, 3, 27);

#[derive(Debug, Clone, PartialEq)]
struct Loaded {
    vertices: Vec<Vec<f64>>,
    cells: Vec<Vec<usize>>,
}
fn load_as<C, D>(bytes: &[u8]) -> Result<Loaded, String>
where
    C: MshConnectivity + Connectivity,
    D: DimName,
    DefaultAllocator: Allocator<f64, D> + Allocator<f32, D>,
{
    let m = load_msh_from_bytes::<f64, D, C>(bytes).map_err(|e| format!("{e:#}"));
    let s = load_msh_from_bytes::<f32, D, C>(bytes);
    if m.is_ok() != s.is_ok() {
        return Ok(Loaded { vertices: vec![], cells: vec![vec![usize::MAX]] });
    }
    let m = m?;
    let l = Loaded {
        vertices: m.vertices().iter().map(|v| v.coords.iter().copied().collect()).collect(),
        cells: m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect(),
    };
    // single precision: the same, rounded
    let s = s.unwrap();
    let rounded: Vec<Vec<f32>> = l.vertices.iter().map(|v| v.iter().map(|x| *x as f32).collect()).collect();
    let got: Vec<Vec<f32>> = s.vertices().iter().map(|v| v.coords.iter().copied().collect()).collect();
    if format!("{rounded:?}") != format!("{got:?}") || s.connectivity().iter().map(|c| c.vertex_indices().to_vec()).ne(l.cells.iter().cloned()) {
        return Ok(Loaded { vertices: vec![], cells: vec![vec![usize::MAX]] });
    }
    Ok(l)
}
struct Target {
    name: &'static str,
    kind: Kind,
    d: usize,
    load: fn(&[u8]) -> Result<Loaded, String>,
    /// another type of the same dimension
    other: Kind,
}
const TARGETS: [Target; 9] = [
    Target { name: "Tri3d2", kind: TRI3, d: 2, load: load_as::<Tri3d2Connectivity, U2>, other: QUA4 },
    Target { name: "Tri3d3", kind: TRI3, d: 3, load: load_as::<Tri3d3Connectivity, U3>, other: TRI6 },
    Target { name: "Tri6d2", kind: TRI6, d: 2, load: load_as::<Tri6d2Connectivity, U2>, other: TRI3 },
    Target { name: "Quad4d2", kind: QUA4, d: 2, load: load_as::<Quad4d2Connectivity, U2>, other: TRI3 },
    Target { name: "Quad9d2", kind: QUA9, d: 2, load: load_as::<Quad9d2Connectivity, U2>, other: QUA4 },
    Target { name: "Tet4", kind: TET4, d: 3, load: load_as::<Tet4Connectivity, U3>, other: TET10 },
    Target { name: "Tet10", kind: TET10, d: 3, load: load_as::<Tet10Connectivity, U3>, other: TET4 },
    Target { name: "Hex8", kind: HEX8, d: 3, load: load_as::<Hex8Connectivity, U3>, other: TET4 },
    Target { name: "Hex27", kind: HEX27, d: 3, load: load_as::<Hex27Connectivity, U3>, other: HEX8 },
];

/// What a file describes.
#[derive(Clone, Debug)]
struct File {
    /// coordinates per node block; tags are consecutive from `first`
    nodes: Vec<Vec<[f64; 3]>>,
    first: u64,
    /// (kind, node indices (from 0) of each element)
    elements: Vec<(Kind, Vec<Vec<usize>>)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Format {
    Lf,
    Crlf,
    Little,
    Big,
    Little4,
    Offset,
    Extra,
    Exponents,
}
use Format::*;
const FORMATS: [Format; 8] = [Lf, Crlf, Little, Big, Little4, Offset, Extra, Exponents];

struct Out {
    bytes: Vec<u8>,
    f: Format,
    fresh: bool,
}
impl Out {
    fn binary(&self) -> bool {
        matches!(self.f, Little | Big | Little4)
    }
    fn text(&mut self, s: &str) {
        self.bytes.extend(s.as_bytes());
        self.bytes.extend(if self.f == Crlf { &b"\r\n"[..] } else { b"\n" });
        self.fresh = true;
    }
    fn raw(&mut self, s: String) {
        if !self.fresh {
            self.bytes.push(b' ');
        }
        self.bytes.extend(s.as_bytes());
        self.fresh = false;
    }
    fn int(&mut self, x: i32) {
        match self.f {
            Little | Little4 => self.bytes.extend(x.to_le_bytes()),
            Big => self.bytes.extend(x.to_be_bytes()),
            _ => self.raw(x.to_string()),
        }
    }
    fn size(&mut self, x: u64) {
        match self.f {
            Little => self.bytes.extend(x.to_le_bytes()),
            Little4 => self.bytes.extend((x as u32).to_le_bytes()),
            Big => self.bytes.extend(x.to_be_bytes()),
            _ => self.raw(x.to_string()),
        }
    }
    fn float(&mut self, x: f64) {
        match self.f {
            Little | Little4 => self.bytes.extend(x.to_le_bytes()),
            Big => self.bytes.extend(x.to_be_bytes()),
            Exponents => self.raw(format!("{x:e}")),
            _ => self.raw(format!("{x}")),
        }
    }
    fn nl(&mut self) {
        if !self.binary() {
            self.text("");
        }
    }
}
fn write(file: &File, f: Format) -> Vec<u8> {
    let mut o = Out { bytes: vec![], f, fresh: true };
    o.text("$MeshFormat");
    o.text(&format!("4.1 {} {}", o.binary() as u8, if f == Little4 { 4 } else { 8 }));
    if o.binary() {
        o.int(1);
        o.text("");
    }
    o.text("$EndMeshFormat");
    if f == Extra {
        o.text("$PhysicalNames");
        o.text("1");
        o.text("2 1 \"My surface\"");
        o.text("$EndPhysicalNames");
        elements(&mut o, file);
        nodes(&mut o, file);
        o.text("$Comments");
        o.text("nothing");
        o.text("$EndComments");
    } else {
        nodes(&mut o, file);
        elements(&mut o, file);
    }
    o.bytes
}
fn nodes(o: &mut Out, file: &File) {
    o.text("$Nodes");
    let n: usize = file.nodes.iter().map(|b| b.len()).sum();
    o.size(file.nodes.len() as u64);
    o.size(n as u64);
    o.size(if n == 0 { 0 } else { file.first });
    o.size(if n == 0 { 0 } else { file.first + n as u64 - 1 });
    o.nl();
    let mut tag = file.first;
    for (k, b) in file.nodes.iter().enumerate() {
        o.int(k as i32 % 4);
        o.int(k as i32 + 1);
        o.int(0);
        o.size(b.len() as u64);
        o.nl();
        for _ in b {
            o.size(tag);
            o.nl();
            tag += 1;
        }
        for p in b {
            p.iter().for_each(|x| o.float(*x));
            o.nl();
        }
    }
    if o.binary() {
        o.text("");
    }
    o.text("$EndNodes");
}
fn elements(o: &mut Out, file: &File) {
    o.text("$Elements");
    let n: usize = file.elements.iter().map(|b| b.1.len()).sum();
    o.size(file.elements.len() as u64);
    o.size(n as u64);
    o.size((n > 0) as u64);
    o.size(n as u64);
    o.nl();
    let mut tag = 0;
    for (i, (k, es)) in file.elements.iter().enumerate() {
        o.int(k.1);
        o.int(i as i32 + 1);
        o.int(k.0);
        o.size(es.len() as u64);
        o.nl();
        for e in es {
            tag += 1;
            o.size(tag);
            e.iter().for_each(|x| o.size(*x as u64 + file.first));
            o.nl();
        }
    }
    if o.binary() {
        o.text("");
    }
    o.text("$EndElements");
}
fn coordinates(i: usize) -> [f64; 3] {
    let x = i as f64;
    [0.5 * x - 1.0, 1.0 / 3.0 - x * x, if i % 3 == 0 { 0.0 } else { 1e-7 * x }]
}
fn describes(file: &File, t: &Target) -> Loaded {
    Loaded {
        vertices: file.nodes.concat().iter().map(|p| p[..t.d].to_vec()).collect(),
        cells: file.elements.iter().filter(|b| b.0 == t.kind).flat_map(|b| b.1.clone()).collect(),
    }
}

/// All node partitions and element block sequences.
fn valid_file(mut g: Dig, t: &Target, max: u32) -> (File, Format) {
    let f = *g.pick(&FORMATS);
    let n = t.kind.2 + 2;
    let split: Vec<usize> = match g.next(6) {
        0 => vec![n],
        1 => vec![1, n - 1],
        2 => vec![0, n],
        3 => vec![n - 2, 0, 2],
        4 => vec![1; n],
        _ => vec![n, 0],
    };
    let mut i = 0;
    let nodes = split
        .iter()
        .map(|k| {
            i += k;
            (i - k..i).map(coordinates).collect()
        })
        .collect();
    let menu = [(t.kind, 1), (t.kind, 2), (t.kind, 0), (PNT, 1), (LIN2, 2), (t.other, 1)];
    let len = g.next(max as u64 + 1);
    let mut shift = 0;
    let elements = (0..len)
        .map(|_| {
            let (k, c) = *g.pick(&menu);
            let es = (0..c)
                .map(|_| {
                    shift += 1;
                    // distinct nodes, in an order that is not sorted
                    (0..k.2).map(|i| (n * 2 + shift - i) % n).collect()
                })
                .collect();
            (k, es)
        })
        .collect();
    (File { nodes, first: if f == Offset { 7 } else { 1 }, elements }, f)
}

/// Large files: numbers of nodes, of elements and of blocks that need one byte, two or three; coordinates of any magnitude.
const LARGE: u64 = 8 * 4 * 3 * 3;
fn large_file(c: u64, t: &Target) -> (File, Format) {
    let mut g = Dig(c);
    let f = *g.pick(&FORMATS);
    let (n, m) = [(254, 257), (300, 600), (65_535, 70_001), (70_000, 66_000)][g.next(4)];
    let (node_blocks, element_blocks) = [(1, 1), (3, 270), (300, 5)][g.next(3)];
    let unit = [1.0, 1e-30, 1e30][g.next(3)];
    let part = |n: usize, k: usize, i: usize| n * i / k..n * (i + 1) / k;
    let point = |i: usize| {
        let x = coordinates(i % 1000);
        [unit * x[0], unit * (x[1] + i as f64), unit * x[2]]
    };
    let nodes = (0..node_blocks).map(|i| part(n, node_blocks, i).map(point).collect()).collect();
    let elements = (0..element_blocks)
        .map(|i| {
            // every third block holds other cells
            let k = if i % 3 == 1 { [LIN2, t.other, PNT][i / 3 % 3] } else { t.kind };
            (k, part(m, element_blocks, i).map(|e| (0..k.2).map(|j| (n - 1 + 7 * e - e / 3 + 41 * j) % n).collect()).collect())
        })
        .collect();
    (File { nodes, first: if f == Offset { 1_000 } else { 1 }, elements }, f)
}

fn valid(file: &File, f: Format, t: &Target) -> Verdict {
    let bytes = write(file, f);
    let want = describes(file, t);
    let got = (t.load)(&bytes);
    if want.cells.is_empty() {
        // nothing of the requested type: an error, or (for empty blocks of that type) an empty mesh
        let listed = file.elements.iter().any(|b| b.0 == t.kind);
        return match got {
            Err(_) => Ok(None),
            Ok(l) if listed => {
                ensure_eq!(l, want, "mesh from a file with empty blocks");
                Ok(None)
            }
            Ok(l) => Err(format!("a file without {} cells was loaded as {l:?}", t.name)),
        };
    }
    let got = got.map_err(|e| format!("a valid file was refused: {e}"))?;
    ensure_eq!(got, want, "mesh from a valid file");
    Ok(Some(digest(&(format!("{want:?}"), f as u8))))
}

/// What the parsed file says, read without fenris. `None`: not a mesh of this type.
fn reading(bytes: &[u8], t: &Target) -> Result<Option<Loaded>, String> {
    let Ok(f) = no_panic(|| mshio::parse_msh_bytes(bytes).map_err(|_| ()))? else { return Ok(None) };
    let (Some(nodes), Some(elements)) = (f.data.nodes, f.data.elements) else { return Ok(None) };
    let mut l = Loaded { vertices: vec![], cells: vec![] };
    for b in &nodes.node_blocks {
        if b.node_tags.is_some() {
            return Ok(None);
        }
        l.vertices.extend(b.nodes.iter().map(|p| [p.x, p.y, p.z][..t.d].to_vec()));
    }
    if l.vertices.len() as u64 != nodes.num_nodes {
        return Ok(None);
    }
    let mut any = false;
    for b in &elements.element_blocks {
        if b.element_tags.is_some() {
            return Ok(None);
        }
        if (b.element_type as i32, b.entity_dim) != (t.kind.0, t.kind.1) {
            continue;
        }
        any = true;
        for e in &b.elements {
            let mut c = vec![];
            for n in &e.nodes {
                if *n < nodes.min_node_tag || *n - nodes.min_node_tag >= l.vertices.len() as u64 {
                    return Ok(None);
                }
                c.push((*n - nodes.min_node_tag) as usize);
            }
            l.cells.push(c);
        }
    }
    Ok(any.then_some(l))
}

/// A damaged file: an error, or exactly what it still says.
fn damaged(bytes: &[u8], t: &Target, parser_panics: &AtomicU64) -> Verdict {
    let want = match reading(bytes, t) {
        Ok(w) => w,
        Err(_) => {
            // the third-party parser itself panics: see the suite "parser"
            parser_panics.fetch_add(1, Ordering::Relaxed);
            return Ok(None);
        }
    };
    match (t.load)(bytes) {
        Err(_) => Ok(Some(0)),
        Ok(l) => {
            for c in &l.cells {
                ensure!(c.iter().all(|i| *i < l.vertices.len()), "the loaded mesh has a cell {c:?} but only {} vertices", l.vertices.len());
            }
            let Some(w) = want else { return Err(format!("an inconsistent file was loaded as {l:?}")) };
            // NaN coordinates compare equal as text
            ensure_eq!(format!("{l:?}"), format!("{w:?}"), "mesh from a damaged file");
            Ok(Some(digest(&format!("{l:?}"))))
        }
    }
}

fn tokens(text: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut start = None;
    for (i, c) in text.char_indices().chain([(text.len(), ' ')]) {
        match (c.is_whitespace(), start) {
            (true, Some(s)) => {
                out.push((s, i));
                start = None;
            }
            (false, None) => start = Some(i),
            _ => {}
        }
    }
    out
}
/// Every way of damaging one token of an ASCII file, and every truncation.
fn damages(text: &str) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    let t = tokens(text);
    let with = |a: usize, b: usize, s: &str| format!("{}{}{}", &text[..a], s, &text[b..]).into_bytes();
    let new = [
        "0", "1", "2", "3", "4", "5", "9", "11", "12", "15", "16", "34", "-1", "-2", "1.5", "1e3", "x", "nan", "\"", "$Nodes", "$EndNodes", "$EndElements", "99999", "18446744073709551615",
        "99999999999999999999", "-9223372036854775809",
    ];
    for (k, (a, b)) in t.iter().copied().enumerate() {
        for r in new {
            if &text[a..b] != r {
                out.push((format!("token {k} ({}) replaced by {r}", &text[a..b]), with(a, b, r)));
            }
        }
        out.push((format!("token {k} ({}) deleted", &text[a..b]), with(a, b, "")));
        out.push((format!("token {k} ({}) duplicated", &text[a..b]), with(a, b, &format!("{0} {0}", &text[a..b]))));
        if let Some((c, d)) = t.get(k + 1) {
            out.push((format!("tokens {k} ({}) and the next exchanged", &text[a..b]), with(a, *d, &format!("{}{}{}", &text[*c..*d], &text[b..*c], &text[a..b]))));
        }
    }
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    for k in 0..lines.len() {
        let mut v = lines.clone();
        v.remove(k);
        out.push((format!("line {k} deleted"), v.concat().into_bytes()));
        let mut v = lines.clone();
        v.insert(k, lines[k]);
        out.push((format!("line {k} duplicated"), v.concat().into_bytes()));
        for j in k + 1..lines.len().min(k + 12) {
            let mut v = lines.clone();
            v.swap(j, k);
            out.push((format!("lines {k} and {j} exchanged"), v.concat().into_bytes()));
        }
    }
    out
}

/// Reference positions (in thirds, offset by three: -1, 0, 1 are 0, 3, 6) of the nodes, as the Gmsh documentation numbers them.
fn gmsh_nodes(k: Kind) -> Vec<[f64; 3]> {
    let tri = [[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
    let hex = [[-1., -1., -1.], [1., -1., -1.], [1., 1., -1.], [-1., 1., -1.], [-1., -1., 1.], [1., -1., 1.], [1., 1., 1.], [-1., 1., 1.]];
    let (corners, groups): (Vec<[f64; 3]>, Vec<Vec<usize>>) = match k {
        TRI3 => (tri[..3].to_vec(), vec![]),
        TRI6 => (tri[..3].to_vec(), vec![vec![0, 1], vec![1, 2], vec![2, 0]]),
        QUA4 => (hex[..4].iter().map(|p| [p[0], p[1], 0.]).collect(), vec![]),
        QUA9 => (hex[..4].iter().map(|p| [p[0], p[1], 0.]).collect(), vec![vec![0, 1], vec![1, 2], vec![2, 3], vec![3, 0], vec![0, 1, 2, 3]]),
        TET4 => (tri.to_vec(), vec![]),
        TET10 => (tri.to_vec(), vec![vec![0, 1], vec![1, 2], vec![2, 0], vec![3, 0], vec![2, 3], vec![1, 3]]),
        HEX8 => (hex.to_vec(), vec![]),
        _ => (
            hex.to_vec(),
            vec![
                vec![0, 1], vec![0, 3], vec![0, 4], vec![1, 2], vec![1, 5], vec![2, 3], vec![2, 6], vec![3, 7], vec![4, 5], vec![4, 7], vec![5, 6], vec![6, 7],
                vec![0, 1, 2, 3], vec![0, 1, 4, 5], vec![0, 3, 4, 7], vec![1, 2, 5, 6], vec![2, 3, 6, 7], vec![4, 5, 6, 7], vec![0, 1, 2, 3, 4, 5, 6, 7],
            ],
        ),
    };
    let mut v = corners.clone();
    for g in groups {
        v.push(std::array::from_fn(|c| g.iter().map(|i| corners[*i][c]).sum::<f64>() / g.len() as f64));
    }
    // simplices: the reference element of fenris spans [-1, 1] rather than [0, 1]
    if matches!(k, TRI3 | TRI6 | TET4 | TET10) {
        let d = k.1 as usize;
        for p in &mut v {
            for c in p.iter_mut().take(d) {
                *c = 2.0 * *c - 1.0;
            }
        }
    }
    v
}
/// Where the element built on the loaded mesh has its nodes.
fn ordering(k: usize) -> Verdict {
    use fenris::element::{ElementConnectivity, FiniteElement, FixedNodesReferenceFiniteElement};
    use fenris::mesh::Mesh;
    use fenris::nalgebra::{OPoint, OVector};
    let t = &TARGETS[k];
    let file = File { nodes: vec![(0..t.kind.2).map(coordinates).collect()], first: 1, elements: vec![(t.kind, vec![(0..t.kind.2).collect()])] };
    let bytes = write(&file, Lf);
    let refs = gmsh_nodes(t.kind);
    ensure_eq!(refs.len(), t.kind.2, "reference nodes");
    // geometry of higher-order elements is that of their corners, so compare shape functions instead
    macro_rules! go {
        ($c:ty, $d:ty) => {{
            let m: Mesh<f64, $d, $c> = load_msh_from_bytes(&bytes).map_err(|e| format!("{e:#}"))?;
            let e = m.connectivity()[0].element(m.vertices()).ok_or("no element")?;
            for (i, r) in refs.iter().enumerate() {
                let xi = OPoint::from(OVector::<f64, <$c as ElementConnectivity<f64>>::ReferenceDim>::from_fn(|c, _| r[c]));
                let phi = e.evaluate_basis(&xi);
                for j in 0..refs.len() {
                    let w = (i == j) as u8 as f64;
                    ensure!((phi[j] - w).abs() < 1e-12, "shape function {j} is {} at the position of Gmsh node {i}", phi[j]);
                }
                if refs.len() == t.kind.1 as usize + 1 {
                    let x = e.map_reference_coords(&xi);
                    for c in 0..t.d {
                        ensure!((x[c] - coordinates(i)[c]).abs() < 1e-12, "node {i} is not at its vertex");
                    }
                }
            }
        }};
    }
    match t.name {
        "Tri3d2" => go!(Tri3d2Connectivity, U2),
        "Tri3d3" => go!(Tri3d3Connectivity, U3),
        "Tri6d2" => go!(Tri6d2Connectivity, U2),
        "Quad4d2" => go!(Quad4d2Connectivity, U2),
        "Quad9d2" => go!(Quad9d2Connectivity, U2),
        "Tet4" => go!(Tet4Connectivity, U3),
        "Tet10" => go!(Tet10Connectivity, U3),
        "Hex8" => go!(Hex8Connectivity, U3),
        _ => go!(Hex27Connectivity, U3),
    }
    Ok(Some(k as u64))
}

fn main() {
    let ctx = Ctx::new(
        "C28",
        Level::FaultEnumeration,
        "Every small valid file (written by an independent writer, in text and in binary) gives the described mesh; every single-token, single-line and truncation damage gives an error or what the file still says.",
    );
    ctx.assume("For damaged files, what the file still says is what the third-party parser mshio reads; inputs on which that parser itself panics are outside of fenris and listed as known findings.");
    let max = ctx.tier(3, 4);
    let per = 8 * 6 * (max as u64 + 1) * pow(6, max);
    for t in &TARGETS {
        ctx.suite(
            &format!("valid-{}", t.name),
            per,
            move |c| format!("{} {:?}", t.name, valid_file(Dig(c), t, max)),
            move |c| {
                let (file, f) = valid_file(Dig(c), t, max);
                valid(&file, f, t)
            },
        );
    }
    for t in &TARGETS {
        let stride = ctx.tier(5, 1);
        ctx.suite(
            &format!("large-{}", t.name),
            LARGE / stride,
            |c| {
                let (file, f) = large_file(c * stride, t);
                format!("{} {f:?} case {}: {} nodes in {} blocks, {} element blocks", t.name, c * stride, file.nodes.concat().len(), file.nodes.len(), file.elements.len())
            },
            |c| {
                let (file, f) = large_file(c * stride, t);
                let (bytes, want) = (write(&file, f), describes(&file, t));
                let got = (t.load)(&bytes).map_err(|e| format!("a valid file was refused: {e}"))?;
                ensure_eq!((got.vertices.len(), got.cells.len()), (want.vertices.len(), want.cells.len()), "numbers of vertices and cells");
                for (i, (g, w)) in got.vertices.iter().zip(&want.vertices).enumerate() {
                    ensure_eq!(g, w, "vertex {i}");
                }
                for (i, (g, w)) in got.cells.iter().zip(&want.cells).enumerate() {
                    ensure_eq!(g, w, "cell {i}");
                }
                Ok(Some(digest(&(c, want.cells.len()))))
            },
        );
    }
    ctx.suite("ordering", 9, |c| TARGETS[c as usize].name.into(), |c| ordering(c as usize));

    // base files to damage
    let mut bases: Vec<(String, usize, String, Format)> = vec![];
    let parser_panics = Arc::new(AtomicU64::new(0));
    for (k, t) in TARGETS.iter().enumerate() {
        let n = t.kind.2 + 1;
        let el = |k: Kind, s: usize| -> Vec<usize> { (0..k.2).map(|i| (n * 2 + s - i) % n).collect() };
        let file = File {
            nodes: vec![(0..2).map(coordinates).collect(), (2..n).map(coordinates).collect()],
            first: if k % 2 == 0 { 1 } else { 3 },
            elements: vec![(PNT, vec![vec![1]]), (t.kind, vec![el(t.kind, 1)]), (LIN2, vec![vec![0, 1]]), (t.kind, vec![el(t.kind, 3), el(t.kind, 2)])],
        };
        let f = if k % 3 == 2 { Extra } else { Lf };
        bases.push((format!("{} {f:?}", t.name), k, String::from_utf8(write(&file, f)).unwrap(), f));
        // binary: truncations and byte damage
        for f in [Little, Big, Little4] {
            let b = write(&file, f);
            let (b1, p) = (b.clone(), parser_panics.clone());
            let n = b.len() as u64;
            let vals = [0u8, 1, 2, 10, 0x7f, 0xff];
            ctx.suite(
                &format!("binary-{}-{f:?}", t.name),
                n * 7,
                |c| format!("{} {f:?} damage {c}", t.name),
                |c| {
                    let mut v = b1.clone();
                    let i = (c % n) as usize;
                    if c < n {
                        v.truncate(i);
                        // the last section ends with its tag; a line break may follow
                        ensure!(i + 1 >= b1.len() || (t.load)(&v).is_err() || reading(&v, t).is_err(), "a file truncated after {i} of {} bytes was loaded", b1.len());
                    } else {
                        v[i] = vals[(c / n - 1) as usize];
                    }
                    damaged(&v, t, &p)
                },
            );
        }
    }
    for f in ["square_tri3_4.msh", "square_quad4_4.msh", "cube_tet4_24.msh"] {
        if f.starts_with("cube") && !ctx.thorough {
            continue;
        }
        if let Ok(s) = std::fs::read_to_string(format!("/repo/assets/meshes/{f}")) {
            let k = if f.contains("tri") { 0 } else if f.contains("quad") { 3 } else { 5 };
            bases.push((f.to_string(), k, s, Lf));
        }
    }
    for (name, k, text, f) in &bases {
        let t = &TARGETS[*k];
        let cases = damages(text);
        let p = parser_panics.clone();
        ctx.suite_over(&format!("damage-{name}"), &cases, |c| c.0.clone(), |c| damaged(&c.1, t, &p));
        let p = parser_panics.clone();
        let last = text.trim_end().len();
        ctx.suite(
            &format!("truncate-{name}"),
            text.len() as u64,
            |c| format!("{name} truncated to {c} bytes"),
            |c| {
                let v = &text.as_bytes()[..c as usize];
                if *f != Extra && (c as usize) < last {
                    ensure!((t.load)(v).is_err(), "a truncated file was loaded");
                }
                damaged(v, t, &p)
            },
        );
        // a valid file of this type holds nothing for the others
        for o in TARGETS.iter().filter(|o| o.kind != t.kind) {
            if o.name == "Tri3d3" || text.lines().any(|l| l.split_whitespace().nth(2) == Some(&o.kind.0.to_string()) && l.split_whitespace().count() == 4) {
                continue;
            }
            if (o.load)(text.as_bytes()).is_ok() {
                ctx.violation("other-type", &format!("{name} as {}", o.name), "0", "a file was loaded as a type that it does not contain");
            }
        }
    }
    // two damaged tokens at once
    if ctx.thorough {
        for (name, k, text, _) in bases.iter().filter(|b| b.2.len() < 360) {
            let tk = tokens(text);
            let new = ["0", "1", "2", "5", "-1", "x", "18446744073709551615"];
            let (n, r) = (tk.len() as u64, new.len() as u64);
            let make = |c: u64| {
                let mut g = Dig(c);
                let (i, j, a, b) = (g.next(n), g.next(n), *g.pick(&new), *g.pick(&new));
                let (i, j) = (i.min(j), i.max(j));
                let (p, q) = (tk[i], tk[j]);
                let s = if i == j { String::new() } else { format!("{}{a}{}{b}{}", &text[..p.0], &text[p.1..q.0], &text[q.1..]) };
                (format!("{name}: token {i} ({}) replaced by {a} and token {j} ({}) by {b}", &text[p.0..p.1], &text[q.0..q.1]), s)
            };
            let pp = parser_panics.clone();
            ctx.suite(
                &format!("pairs-{name}"),
                n * n * r * r,
                |c| make(c).0,
                |c| {
                    let (i, j) = (c % n, (c / n) % n);
                    if i >= j {
                        return Ok(None);
                    }
                    damaged(make(c).1.as_bytes(), &TARGETS[*k], &pp)
                },
            );
        }
    }
    // node numbers just within and just outside of the range, for every number of nodes
    let top = ctx.tier(48u64, 200);
    let pp = parser_panics.clone();
    ctx.suite(
        "node numbers around the range",
        9 * top * 3 * 2 * 4 * 3,
        |c| format!("case {c}"),
        move |c| {
            let mut g = Dig(c);
            let t = &TARGETS[g.next(9) as usize];
            let first = *g.pick(&[1u64, 2, 300]);
            let (end, over) = (g.bit(), g.next(4));
            let ne = *g.pick(&[1usize, 2, 40]);
            let nv = g.0 as usize + 1;
            let mut cells: Vec<Vec<usize>> = (0..ne).map(|e| (0..t.kind.2).map(|k| (e + k) % nv).collect()).collect();
            let at = if end { t.kind.2 - 1 } else { 0 };
            cells[ne - 1][at] = nv - 1 + [0, 1, 2, 0][over as usize];
            if over == 3 {
                cells[ne - 1][at] = nv + 65536;
            }
            let file = File { nodes: vec![(0..nv).map(coordinates).collect()], first, elements: vec![(t.kind, cells)] };
            let bytes = write(&file, if nv % 2 == 0 { Lf } else { Little });
            let ok = over == 0;
            ensure_eq!((t.load)(&bytes).is_ok(), ok, "a file of {nv} nodes with node {} in its last cell is loaded", file.elements[0].1[ne - 1][at]);
            damaged(&bytes, t, &pp)
        },
    );
    // files on disk
    let dir = std::env::temp_dir().join(format!("c28-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    ctx.suite_over(
        "files",
        &["missing", "empty", "folder", "valid", "garbage"],
        |c| c.to_string(),
        |c| {
            let p = dir.join(c);
            let text = &bases[0].2;
            match *c {
                "empty" => std::fs::write(&p, "").unwrap(),
                "folder" => std::fs::create_dir_all(&p).unwrap(),
                "valid" => std::fs::write(&p, text).unwrap(),
                "garbage" => std::fs::write(&p, [0xffu8, 0, 10, 200]).unwrap(),
                _ => {}
            }
            let r = load_msh_from_file::<f64, U2, Tri3d2Connectivity, _>(&p);
            ensure_eq!(r.is_ok(), *c == "valid", "loading the file");
            if let Ok(m) = r {
                let w = (TARGETS[0].load)(text.as_bytes())?;
                ensure_eq!(m.connectivity().iter().map(|c| c.0.to_vec()).collect::<Vec<_>>(), w.cells, "cells from the file");
                ensure_eq!(m.vertices().len(), w.vertices.len(), "vertices from the file");
            }
            Ok(Some(digest(c)))
        },
    );
    let _ = std::fs::remove_dir_all(&dir);
    // the parser that fenris uses panics on these
    let head = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n";
    let no_nodes = format!("{head}$Nodes\n0 0 1 1\n$EndNodes\n$Elements\n1 1 1 1\n2 1 2 1\n1 1 2 3\n$EndElements\n");
    let no_elements = format!("{head}$Nodes\n1 1 1 1\n0 1 0 1\n1\n0 0 0\n$EndNodes\n$Elements\n0 0 1 1\n$EndElements\n");
    let wide = "$MeshFormat\n4.1 0 99999999999999999999\n$EndMeshFormat\n".to_string();
    let binary = "$MeshFormat\n4.1 1 3\n\u{1}\0\0\0\n$EndMeshFormat\n".to_string();
    ctx.suite_over(
        "parser",
        &[("node count zero with nonzero tags", no_nodes), ("element count zero with nonzero tags", no_elements), ("data size out of range", wide), ("binary with data size 3", binary)],
        |c| c.0.to_string(),
        |c| {
            ensure!((TARGETS[0].load)(c.1.as_bytes()).is_err(), "an inconsistent file was loaded");
            Ok(Some(digest(c.0)))
        },
    );
    // node tags that are a permutation of 1, ..., n in file order
    let file = |tags: &[&[u64]]| {
        let mut s = format!("{head}$Nodes\n{} 3 1 3\n", tags.len());
        for (k, b) in tags.iter().enumerate() {
            s += &format!("2 {} 0 {}\n", k + 1, b.len());
            b.iter().for_each(|t| s += &format!("{t}\n"));
            b.iter().for_each(|t| s += &format!("{} {} 0\n", t, t * t));
        }
        s + "$EndNodes\n$Elements\n1 1 1 1\n2 1 2 1\n1 1 2 3\n$EndElements\n"
    };
    let mut orders: Vec<(String, String)> = vec![];
    for p in permutations(3) {
        let p: Vec<u64> = p.iter().map(|i| *i as u64 + 1).collect();
        for (a, b) in [(3, 3), (1, 2), (2, 1)] {
            let blocks: Vec<&[u64]> = if a == 3 { vec![&p[..]] } else { vec![&p[..a], &p[a..a + b]] };
            orders.push((format!("{blocks:?}"), file(&blocks)));
        }
    }
    ctx.suite_over(
        "tag-order",
        &orders,
        |c| format!("node tags {}", c.0),
        |c| {
            let l = (TARGETS[0].load)(c.1.as_bytes());
            // an error is fine: the loader supports consecutive tags only
            let Ok(l) = l else { return Ok(None) };
            let corners: Vec<Vec<f64>> = l.cells[0].iter().map(|i| l.vertices[*i].clone()).collect();
            ensure_eq!(corners, vec![vec![1.0, 1.0], vec![2.0, 4.0], vec![3.0, 9.0]], "corners of the triangle on the nodes tagged 1, 2, 3");
            Ok(Some(digest(&c.0)))
        },
    );
    ctx.count("damaged inputs on which the third-party parser panics (skipped)", parser_panics.load(Ordering::Relaxed));
    ctx.finish()
}
