//! C36: random generators produce what they promise, for every random tape and every shrinking history.
//!
//! A proptest strategy is a transition system: its initial states are given by the stream of random words, and the
//! transitions are `simplify` and `complicate`. The streams over a small alphabet of words (both ends of every range, its
//! middle, its quarters) are enumerated up to a depth, and for each of them every sequence of shrinking steps up to a
//! depth and the long histories proptest itself produces; the promise of the generator is checked in every state reached.
use fenris::element::*;
use fenris::geometry::proptest as gp;
use fenris::geometry::*;
use fenris::mesh::QuadMesh2d;
use fenris::nalgebra::*;
use fenris::util::proptest as up;
use hk::*;
use std::sync::Arc;
use ::proptest::prelude::*;
use ::proptest::strategy::ValueTree;
use ::proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

/// The words: both ends of a range, the middle (from both sides) and points between, and small integers' worth.
const WORDS: [u64; 6] = [0, 0xffff_0000_ffff_0000, 0x8000_0000_8000_0000, 0x3fff_ffff_3fff_ffff, 0x7fff_ffff_7fff_ffff, 0xc123_4567_c765_4321];

/// The enumerated words over and over, with a word that is always new after each round (a generator that draws from a
/// copy of the stream starts somewhere inside; and the sampling of integers from ranges whose size is no power of two
/// would reject some words for ever).
fn stream(prefix: &[u64], fill: u64, long: bool) -> TestRng {
    let words = if long { 1 << 13 } else { 1 << 9 };
    let mut bytes = Vec::with_capacity(8 * words);
    let mut w = fill;
    while bytes.len() < 8 * words {
        for w in prefix {
            bytes.extend_from_slice(&w.to_le_bytes());
        }
        w = w.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        bytes.extend_from_slice(&(w ^ (w >> 29)).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::PassThrough, &bytes)
}

/// All histories of at most `depth` shrinking steps, and those of `length` steps with at most two values that pass: bit k
/// says that the value after k steps passes. As proptest does, they begin with a value that fails, and end where the tree
/// does not move.
fn histories(depth: u32, length: u32) -> Vec<(u64, u32)> {
    let mut all: Vec<(u64, u32)> = (0..1u64 << (depth - 1)).map(|h| (h << 1, depth)).collect();
    for a in 1..length {
        for b in a..length {
            all.push((1 << a | 1 << b, 4 * length));
        }
    }
    all.push((0, 600));
    all
}

/// Everything reachable from one tape: the promise is checked in every state of every history.
fn explore<S: Strategy>(
    strategy: &S,
    tape: TestRng,
    histories: &[(u64, u32)],
    promise: &dyn Fn(&S::Value) -> Result<(), String>,
    bits: &dyn Fn(&S::Value) -> Vec<f64>,
) -> Verdict {
    let config = Config { max_flat_map_regens: 8, ..Config::default() };
    let fresh = || strategy.new_tree(&mut TestRunner::new_with_rng(config.clone(), tape.clone()));
    let start = match fresh() {
        Ok(tree) => tree,
        // A tape on which a filter rejects everything.
        Err(_) => return Ok(None),
    };
    let first = start.current();
    promise(&first).map_err(|e| format!("as generated: {e}"))?;
    let again = fresh().map_err(|_| "the same tape generated a value once and none the second time".to_string())?;
    ensure!(bits(&first) == bits(&again.current()), "the same tape generated different values");
    for (history, length) in histories {
        let mut tree = fresh().map_err(|e| e.to_string())?;
        for step in 0..*length {
            let passes = step < 64 && (history >> step) & 1 == 1;
            let moved = if passes { tree.complicate() } else { tree.simplify() };
            if !moved {
                break;
            }
            promise(&tree.current()).map_err(|e| format!("after {} steps of shrinking in which the values {history:b} pass: {e}", step + 1))?;
        }
    }
    Ok(Some(digest(&bits(&first).iter().map(|x| x.to_bits()).collect::<Vec<_>>())))
}

/// All tapes: `free` words from the first `radix` of the alphabet, and then one of three fillings.
fn tapes<S: Strategy>(
    ctx: &Arc<Ctx>,
    name: &str,
    strategy: impl Fn() -> S + Sync + Send + 'static,
    (radix, free): (u64, u32),
    depth: u32,
    bits: impl Fn(&S::Value) -> Vec<f64> + Sync + Send + 'static,
    promise: impl Fn(&S::Value) -> Result<(), String> + Sync + Send + 'static,
) {
    let fills = if name.contains("meshes") || name.contains("matrices") { 4 } else { 2 };
    let long = fills > 2;
    let histories = histories(depth, if long { 8 } else { 14 });
    let tape = move |i: u64| {
        let mut d = Dig(i / fills);
        let words: Vec<u64> = (0..free).map(|_| WORDS[d.next(radix) as usize]).collect();
        (words, i % fills + 1)
    };
    ctx.suite(
        name,
        pow(radix, free) * fills,
        move |i| format!("random words {:x?}, then words {}, over and over", tape(i).0, tape(i).1),
        move |i| {
            let (words, fill) = tape(i);
            no_panic(|| explore(&strategy(), stream(&words, fill, long), &histories, &promise, &bits))?
        },
    );
}

fn within(what: &str, v: &[f64], lo: f64, hi: f64) -> Result<(), String> {
    for x in v {
        ensure!(*x >= lo && *x <= hi, "{what}: {x} is outside [{lo}, {hi}]");
    }
    Ok(())
}
fn cross(a: Vector2<f64>, b: Vector2<f64>) -> f64 {
    a.x * b.y - a.y * b.x
}
fn flat2(p: &[Point2<f64>]) -> Vec<f64> {
    p.iter().flat_map(|p| [p.x, p.y]).collect()
}
fn flat3(p: &[Point3<f64>]) -> Vec<f64> {
    p.iter().flat_map(|p| [p.x, p.y, p.z]).collect()
}
/// Twice the signed area of a triangle, and what rounding may do to it.
fn area2(a: Point2<f64>, b: Point2<f64>, c: Point2<f64>) -> (f64, f64) {
    let m = [a, b, c].iter().flat_map(|p| [p.x.abs(), p.y.abs()]).fold(0.0, f64::max);
    (cross(b - a, c - a), 1e-13 * m * ((b - a).norm() + (c - a).norm()))
}
/// The vertices are in the given orientation, or in a line.
fn oriented(t: &Triangle2d<f64>, ccw: bool) -> Result<(), String> {
    let (s, tol) = area2(t.0[0], t.0[1], t.0[2]);
    let s = if ccw { s } else { -s };
    ensure!(s >= -tol, "{:?} has the wrong orientation", t.0);
    Ok(())
}
/// The ends differ by far more than rounding.
fn proper_segment(a: Point2<f64>, b: Point2<f64>) -> Result<(), String> {
    let m = flat2(&[a, b]).iter().fold(1.0, |m: f64, x| m.max(x.abs()));
    ensure!((b - a).norm() > 1e-13 * m, "the segment from {a:?} to {b:?} is a point");
    Ok(())
}
/// Counterclockwise, with a height that is more than what is lost in the rounding of its vertices.
fn proper_triangle(a: Point2<f64>, b: Point2<f64>, c: Point2<f64>) -> Result<(), String> {
    proper_segment(a, b)?;
    let m = flat2(&[a, b, c]).iter().fold(1.0, |m: f64, x| m.max(x.abs()));
    let height = cross(b - a, c - a) / (b - a).norm();
    let along = (c - a).norm() / (b - a).norm();
    // The height is a vanishing fraction of the base at the lower end of the range: what counts is its relation to that.
    ensure!(
        height >= 1e-7 * (b - a).norm() - 4e-15 * m * (1.0 + along),
        "the triangle {a:?}, {b:?}, {c:?} is degenerate or clockwise: height {height}"
    );
    Ok(())
}
/// No vertex turns the wrong way.
fn convex(q: &Quad2d<f64>) -> Result<(), String> {
    let v = &q.0;
    let m = flat2(v).iter().fold(1.0, |m: f64, x| m.max(x.abs()));
    let turn = |i: usize| {
        let (d, e) = (v[(i + 1) % 4] - v[i], v[(i + 2) % 4] - v[(i + 1) % 4]);
        (cross(d, e), 1e-13 * m * (d.norm() + e.norm()))
    };
    let turns: Vec<_> = (0..4).map(turn).collect();
    let same = |s: f64| turns.iter().all(|(t, tol)| s * t >= -tol);
    ensure!(same(1.0) || same(-1.0), "{v:?} is not convex: its turns are {turns:?}");
    Ok(())
}

fn main() {
    let ctx = Ctx::new("C36", Level::ModelChecking, "a state of a generator (tape and shrinking history) breaks the generator's promise");
    let t = ctx.thorough;
    let d = if t { 9 } else { 7 };
    let short = |r: (u64, u32), q: (u64, u32)| if t { r } else { q };

    // Boxes, vectors and points.
    let bx2 = |b: &AxisAlignedBoundingBox2d<f64>| flat2(&[*b.min(), *b.max()]);
    tapes(&ctx, "boxes in 2D", gp::aabb2, short((6, 5), (6, 4)), d, bx2, |b| {
        within("corner", &flat2(&[*b.min(), *b.max()]), -10.0, 10.0)?;
        ensure!((0..2).all(|i| b.min()[i] <= b.max()[i]), "the minimum is beyond the maximum");
        Ok(())
    });
    let bx3 = |b: &AxisAlignedBoundingBox3d<f64>| flat3(&[*b.min(), *b.max()]);
    tapes(&ctx, "boxes in 3D", gp::aabb3, short((4, 6), (3, 6)), d, bx3, |b| {
        within("corner", &flat3(&[*b.min(), *b.max()]), -10.0, 10.0)?;
        ensure!((0..3).all(|i| b.min()[i] <= b.max()[i]), "the minimum is beyond the maximum");
        Ok(())
    });
    let n = short((6, 4), (6, 3));
    tapes(&ctx, "vectors in 2D", gp::vector2, n, d, |v| vec![v.x, v.y], |v| within("entry", &[v.x, v.y], -10.0, 10.0));
    tapes(&ctx, "vectors in 3D", gp::vector3, n, d, |v| vec![v.x, v.y, v.z], |v| within("entry", v.as_slice(), -10.0, 10.0));
    tapes(&ctx, "points in 2D", gp::point2, n, d, |p| flat2(&[*p]), |p| within("entry", &flat2(&[*p]), -10.0, 10.0));
    tapes(&ctx, "points in 3D", gp::point3, n, d, |p| flat3(&[*p]), |p| within("entry", &flat3(&[*p]), -10.0, 10.0));
    tapes(&ctx, "points of the FEM crate in 2D", fenris::proptest::point2, n, d, |p| flat2(&[*p]), |p| {
        within("entry", &flat2(&[*p]), -10.0, 10.0)
    });
    tapes(&ctx, "points of the FEM crate in 3D", fenris::proptest::point3, n, d, |p| flat3(&[*p]), |p| {
        within("entry", &flat3(&[*p]), -10.0, 10.0)
    });
    let big = |v: &[f64]| within("entry", v, -100.0, 100.0);
    tapes(&ctx, "vectors of the utilities", up::vector2_f64_strategy, n, d, |v| vec![v.x, v.y], move |v| big(v.as_slice()));
    tapes(&ctx, "points of the utilities", up::point2_f64_strategy, n, d, |v| vec![v.x, v.y], move |v| big(&flat2(&[*v])));
    let hp = |h: &HalfPlane<f64>| vec![h.point().x, h.point().y, h.normal().x, h.normal().y];
    tapes(&ctx, "half planes", gp::half_plane, short((5, 6), (5, 5)), d, hp, |h| {
        within("point", &flat2(&[*h.point()]), -10.0, 10.0)?;
        ensure!((h.normal().norm() - 1.0).abs() < 1e-12, "the normal has length {}", h.normal().norm());
        Ok(())
    });

    // Triangles.
    let tri = |t: &Triangle2d<f64>| flat2(&t.0);
    let n = short((5, 6), (3, 6));
    tapes(&ctx, "triangles", gp::triangle2d_strategy_f64, n, d, tri, |t| within("vertex", &flat2(&t.0), -10.0, 10.0));
    tapes(&ctx, "clockwise triangles", gp::clockwise_triangle2d_strategy_f64, n, d, tri, |t| {
        within("vertex", &flat2(&t.0), -10.0, 10.0)?;
        oriented(t, false)
    });
    for (name, o) in [("any triangle, counterclockwise", Orientation::Counterclockwise), ("any triangle, clockwise", Orientation::Clockwise)] {
        tapes(&ctx, name, move || any_with::<Triangle2d<f64>>(gp::Triangle2dParams::default().with_orientation(o)), n, d, tri, move |t| {
            within("vertex", &flat2(&t.0), -10.0, 10.0)?;
            oriented(t, o == Orientation::Counterclockwise)
        });
    }
    tapes(&ctx, "any triangle, default", any::<Triangle2d<f64>>, n, d, tri, |t| oriented(t, true));
    tapes(&ctx, "any triangle in 3D", any::<Triangle3d<f64>>, short((3, 9), (2, 9)), d, |t| flat3(&t.0), |t| {
        within("vertex", &flat3(&t.0), -10.0, 10.0)
    });
    tapes(&ctx, "Tri3 elements", any::<Tri3d2Element<f64>>, n, d, |e| flat2(e.vertices()), |e| {
        oriented(&Triangle(*e.vertices()), true)
    });
    tapes(&ctx, "Tri3 elements in 3D", any::<Tri3d3Element<f64>>, short((3, 9), (2, 9)), d, |e| flat3(e.vertices()), |e| {
        within("vertex", &flat3(e.vertices()), -10.0, 10.0)
    });
    tapes(&ctx, "Tet4 elements", any::<Tet4Element<f64>>, short((3, 12), (2, 12)), d, |e| flat3(e.vertices()), |e| {
        let [a, b, c, x] = *e.vertices();
        let n = (b - a).cross(&(c - a));
        let m = flat3(e.vertices()).iter().fold(1.0, |m: f64, x| m.max(x.abs()));
        // The apex is placed along a normal that has itself been rounded.
        let lost = 1e-15 * (b - a).norm() * (c - a).norm();
        ensure!(n.dot(&(x - a)) >= -1e-13 * m * n.norm() - 8.0 * lost * (x - a).norm(), "the tetrahedron {:?} is inverted", e.vertices());
        Ok(())
    });

    // What must not degenerate.
    let n = short((6, 6), (6, 5));
    let seg = |s: &LineSegment2d<f64>| flat2(&[*s.start(), *s.end()]);
    tapes(&ctx, "segments that do not degenerate", gp::nondegenerate_line_segment2d_strategy_f64, n, d, seg, |s| {
        proper_segment(*s.start(), *s.end())
    });
    let n = short((4, 8), (4, 6));
    tapes(&ctx, "triangles that do not degenerate", gp::nondegenerate_triangle2d_strategy_f64, n, d, tri, |t| {
        proper_triangle(t.0[0], t.0[1], t.0[2])
    });
    let quad = |q: &Quad2d<f64>| flat2(&q.0);
    tapes(&ctx, "parallelograms", gp::parallelogram_strategy_f64, n, d, quad, |q| {
        let [a, b, c, x] = q.0;
        let m = flat2(&q.0).iter().fold(1.0, |m: f64, x| m.max(x.abs()));
        ensure!(((b - a) - (c - x)).norm() <= 1e-13 * m, "opposite sides of {:?} differ", q.0);
        proper_triangle(a, b, x)
    });
    tapes(&ctx, "convex quads", gp::convex_quad2d_strategy_f64, short((4, 8), (3, 8)), d, quad, convex);
    tapes(&ctx, "convex quads that do not degenerate", gp::nondegenerate_convex_quad2d_strategy_f64, n, d, quad, |q| {
        convex(q)?;
        proper_triangle(q.0[0], q.0[1], q.0[3])?;
        // The fourth vertex lies inside the cone of the two sides at the first, beyond the opposite side.
        let [d1, d3, d2] = [q.0[1] - q.0[0], q.0[2] - q.0[0], q.0[3] - q.0[0]];
        let m = flat2(&q.0).iter().fold(1.0, |m: f64, x| m.max(x.abs()));
        let area = cross(d1, d2);
        let lost = 1e-14 * m * (d1.norm() + d2.norm() + d3.norm()) / area;
        let (s, t) = (cross(d3, d2) / area, cross(d1, d3) / area);
        for (what, x) in [("the second", s), ("the fourth", t), ("the third", s + t - 1.0)] {
            ensure!(x >= 1e-7 - lost * (1.0 + s.abs() + t.abs()), "{:?} is degenerate at {what} vertex: {s}, {t}", q.0);
        }
        Ok(())
    });

    // Meshes and matrices.
    let mesh = |m: &QuadMesh2d<f64>| flat2(m.vertices()).into_iter().chain(m.connectivity().iter().flat_map(|c| c.0.map(|v| v as f64))).collect();
    for max_cells in ctx.tier(vec![0, 1, 2, 3, 4, 7, 9], (0..=20).collect::<Vec<usize>>()) {
        for length in [0.5, 1.0, 3.0] {
            tapes(
                &ctx,
                &format!("rectangular meshes of at most {max_cells} cells, unit length {length}"),
                move || fenris::proptest::rectangular_uniform_mesh_strategy(length, max_cells),
                (6, 3),
                d,
                mesh,
                move |m| {
                    let cells = m.connectivity().len();
                    ensure!(cells <= max_cells, "{cells} cells");
                    let p = m.vertices();
                    let mut side = None;
                    for c in m.connectivity() {
                        for k in 0..4 {
                            let l = (p[c.0[k]] - p[c.0[(k + 1) % 4]]).norm();
                            ensure!((l - *side.get_or_insert(l)).abs() < 1e-12 * length, "the cells are not squares of one size");
                        }
                    }
                    if let Some(l) = side {
                        let per_unit = (length / l).round();
                        ensure!(per_unit >= 1.0 && (per_unit * l - length).abs() < 1e-12 * length, "no whole number of cells of size {l} in a unit of {length}");
                        let (u, at) = (per_unit as usize * per_unit as usize, cells);
                        ensure!(at % u == 0, "{at} cells are no whole number of units of {u}");
                    }
                    Ok(())
                },
            );
        }
    }
    let shapes = [((5, 5), (2, 3)), ((0, 2), (0, 2)), ((1, 3), (4, 4))];
    for ((r0, r1), (c0, c1)) in shapes {
        tapes(
            &ctx,
            &format!("matrices with {r0} to {r1} rows and {c0} to {c1} columns"),
            move || up::DMatrixStrategy::new().with_shapes((r0..=r1, c0..=c1)).with_elements(2i32..=5),
            short((6, 5), (6, 4)),
            d,
            |m: &DMatrix<i32>| m.iter().map(|x| *x as f64).chain([m.nrows() as f64, m.ncols() as f64]).collect(),
            move |m| {
                ensure!((r0..=r1).contains(&m.nrows()) && (c0..=c1).contains(&m.ncols()), "the shape is {:?}", m.shape());
                ensure!(m.iter().all(|x| (2..=5).contains(x)), "an entry is outside its range: {m}");
                Ok(())
            },
        );
    }
    tapes(&ctx, "square shapes", || up::square_shape(1usize..=4), (6, 2), d, |s| vec![s.0 as f64, s.1 as f64], |s| {
        ensure!(s.0 == s.1 && (1..=4).contains(&s.0), "the shape is {s:?}");
        Ok(())
    });
    ctx.finish();
}
