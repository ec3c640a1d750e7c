//! C22: nested vectors.
use fenris_nested_vec::NestedVec;
use hk::*;
use std::fmt::Debug;

/// Every way of reading `v` gives the content `m`.
fn same<T: Clone + PartialEq + Debug>(v: &mut NestedVec<T>, m: &[Vec<T>]) -> Result<(), String> {
    ensure_eq!(v.len(), m.len(), "len");
    let it: Vec<Vec<T>> = v.iter().map(|a| a.to_vec()).collect();
    ensure_eq!(it, m.to_vec(), "iter");
    let flat: Vec<T> = m.concat();
    let el: Vec<T> = v.iter_array_elements().cloned().collect();
    ensure_eq!(el, flat, "iter_array_elements");
    ensure_eq!(v.total_num_elements(), flat.len(), "total_num_elements");
    for i in 0..m.len() + 3 {
        ensure_eq!(v.get(i), m.get(i).map(|a| &a[..]), "get({i})");
        ensure_eq!(v.get_mut(i).map(|a| a.to_vec()), m.get(i).cloned(), "get_mut({i})");
    }
    ensure_eq!(v.get(usize::MAX), None, "get(usize::MAX)");
    ensure_eq!(v.first(), m.first().map(|a| &a[..]), "first");
    ensure_eq!(v.last(), m.last().map(|a| &a[..]), "last");
    ensure_eq!(v.first_mut().map(|a| a.to_vec()), m.first().cloned(), "first_mut");
    ensure_eq!(v.last_mut().map(|a| a.to_vec()), m.last().cloned(), "last_mut");
    ensure_eq!(Vec::<Vec<T>>::from(&*v), m.to_vec(), "conversion to a vector of vectors");
    ensure_eq!(Vec::<Vec<T>>::from(v.clone()), m.to_vec(), "conversion of a clone");
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push(usize),
    Append(usize),
    AppendAndPanic,
    Forget,
    Clear,
    Write(usize),
    WriteFirst,
    WriteLast,
    CloneIt,
    ViaVec,
    Serde,
    Take,
}
use Op::*;
const OPS: [Op; 17] = [
    Push(0),
    Push(1),
    Push(2),
    Append(0),
    Append(1),
    Append(3),
    Clear,
    Write(1),
    Write(2),
    WriteFirst,
    WriteLast,
    CloneIt,
    ViaVec,
    Serde,
    Take,
    AppendAndPanic,
    Forget,
];

fn history(ops: &[Op]) -> Verdict {
    let mut v: NestedVec<u32> = NestedVec::new();
    let mut m: Vec<Vec<u32>> = vec![];
    // an appender that was leaked leaves unreachable elements behind: contents agree, representations need not
    let mut leaked = false;
    let mut next = 0u32;
    let mut fresh = |n: usize| -> Vec<u32> {
        (0..n)
            .map(|_| {
                next += 1;
                next
            })
            .collect()
    };
    let bump = |a: Option<&mut [u32]>, by: u32| a.into_iter().flatten().for_each(|x| *x += by);
    for op in ops {
        match *op {
            Push(n) => {
                let a = fresh(n);
                v.push(&a);
                m.push(a);
            }
            Append(n) => {
                let a = fresh(n);
                let mut b = v.begin_array();
                ensure_eq!(b.count(), 0, "count of a fresh appender");
                for (i, x) in a.iter().enumerate() {
                    b.push_single(*x);
                    ensure_eq!(b.count(), i + 1, "count of an appender");
                }
                drop(b);
                m.push(a);
            }
            AppendAndPanic => {
                let a = fresh(1);
                let r = no_panic(|| {
                    let mut b = v.begin_array();
                    b.push_single(a[0]);
                    panic!("user code");
                });
                ensure!(r.is_err(), "unwinding was lost");
                m.push(a);
            }
            Forget => {
                let mut b = v.begin_array();
                b.push_single(0);
                std::mem::forget(b);
                leaked = true;
            }
            Clear => {
                v.clear();
                m.clear();
                leaked = false;
            }
            Write(i) => {
                bump(v.get_mut(i), 100);
                bump(m.get_mut(i).map(|a| &mut a[..]), 100);
            }
            WriteFirst => {
                bump(v.first_mut(), 1000);
                bump(m.first_mut().map(|a| &mut a[..]), 1000);
            }
            WriteLast => {
                bump(v.last_mut(), 10000);
                bump(m.last_mut().map(|a| &mut a[..]), 10000);
            }
            CloneIt => v = v.clone(),
            ViaVec => {
                v = NestedVec::from(Vec::<Vec<u32>>::from(v));
                leaked = false;
            }
            Serde => {
                let s = serde_json::to_string(&v).map_err(|e| e.to_string())?;
                v = serde_json::from_str(&s).map_err(|e| e.to_string())?;
            }
            Take => {
                let t = std::mem::take(&mut v);
                ensure!(v.len() == 0 && v.iter().next().is_none(), "a taken nested vector is not empty");
                v = t;
            }
        }
        same(&mut v, &m).map_err(|e| format!("after {op:?}: {e}"))?;
        if !leaked {
            ensure!(v == NestedVec::from(&m), "after {op:?}: not equal to a nested vector with the same arrays");
        }
        // equality distinguishes different contents
        let mut other = m.clone();
        other.push(vec![]);
        ensure!(v != NestedVec::from(&other), "equal to a nested vector with one more (empty) array");
    }
    Ok(if m.is_empty() { None } else { Some(digest(&m)) })
}

fn main() {
    let ctx = Ctx::new(
        "C22",
        Level::Exploration,
        "every way of reading a nested vector agrees, after every operation, with a plain vector of vectors that the same operations were applied to",
    );
    let k = OPS.len() as u64;
    let len = ctx.tier(5, 6);
    let seq = |i: u64| -> Vec<Op> {
        let mut d = Dig(i);
        (0..len).map(|_| *d.pick(&OPS)).collect()
    };
    ctx.suite("operation sequences", pow(k, len), |i| format!("{:?}", seq(i)), |i| history(&seq(i)));
    // longer sequences over the operations that change the layout
    let grow = [Push(0), Push(1), Append(0), Append(3), Forget, Clear];
    let glen = ctx.tier(8, 10);
    let gseq = |i: u64| -> Vec<Op> {
        let mut d = Dig(i);
        (0..glen).map(|_| *d.pick(&grow)).collect()
    };
    ctx.suite("longer sequences of appending operations", pow(6, glen), |i| format!("{:?}", gseq(i)), |i| history(&gseq(i)));
    // every length of an array
    let most = ctx.tier(140u64, 1100);
    let lseq = |i: u64| -> Vec<Op> {
        let mut d = Dig(i);
        let n = d.next(most) as usize;
        let ops = [Push(n), Append(n), Append(1), Clear, Serde];
        (0..4).map(|_| *d.pick(&ops)).collect()
    };
    ctx.suite("histories of arrays of every length", most * pow(5, 4), |i| format!("{:?}", lseq(i)), |i| history(&lseq(i)));
    // elements without size and elements with ownership
    let alpha = [0usize, 1, 2, 3];
    ctx.suite("unit and owning element types", pow(8, 4), |i| format!("{i}"), |i| {
        let mut d = Dig(i);
        let (mut u, mut um) = (NestedVec::<()>::new(), vec![]);
        let (mut s, mut sm) = (NestedVec::<String>::default(), vec![]);
        for step in 0..4 {
            let n = *d.pick(&alpha);
            let words: Vec<String> = (0..n).map(|j| format!("{step}-{j}")).collect();
            if d.bit() {
                u.push(&vec![(); n]);
                s.push(&words);
            } else {
                let mut b = u.begin_array();
                let mut c = s.begin_array();
                for w in &words {
                    b.push_single(());
                    c.push_single(w.clone());
                }
            }
            um.push(vec![(); n]);
            sm.push(words);
            same(&mut u, &um)?;
            same(&mut s, &sm)?;
        }
        Ok(Some(digest(&sm)))
    });
    // more arrays than fit a byte, more elements than fit two
    let many = [0usize, 1, 255, 256, 257, 300];
    let long = [0usize, 1, 65_535, 65_536, 65_537];
    ctx.suite("many and long arrays", 6 * 5 * 5 * 2, |i| format!("case {i}"), |i| {
        let mut d = Dig(i);
        let (n, a, b, push) = (*d.pick(&many), *d.pick(&long), *d.pick(&long), d.bit());
        let mut v: NestedVec<u32> = NestedVec::new();
        let mut m: Vec<Vec<u32>> = vec![];
        let lens: Vec<usize> = (0..n / 2).map(|k| k % 3).chain([a, b]).chain((n / 2..n).map(|k| (k + 1) % 3)).collect();
        let mut next = 0u32;
        for l in lens {
            let x: Vec<u32> = (next..next + l as u32).collect();
            next += l as u32;
            if push {
                v.push(&x);
            } else {
                let mut w = v.begin_array();
                for y in &x {
                    w.push_single(*y);
                }
                ensure_eq!(w.count(), x.len(), "count of an appender");
            }
            m.push(x);
        }
        same(&mut v, &m)?;
        if let Some(x) = v.get_mut(m.len() / 2) {
            x.reverse();
        }
        let mid = m.len() / 2;
        m[mid].reverse();
        same(&mut v, &m)?;
        v.clear();
        same(&mut v, &[])?;
        Ok(Some(digest(&(n, a, b))))
    });
    ctx.finish()
}
