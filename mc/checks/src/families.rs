//! Small combinatorial families.
use std::collections::HashSet;

/// All sequences over 0..universe of length 0..=max_len (repetitions allowed).
pub fn sequences(universe: usize, max_len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max_len {
        let mut next = vec![];
        for s in &layer {
            for x in 0..universe {
                let mut t = s.clone();
                t.push(x);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

/// All sequences without repetition.
pub fn injective_sequences(universe: usize, max_len: usize) -> Vec<Vec<usize>> {
    sequences(universe, max_len)
        .into_iter()
        .filter(|s| s.iter().collect::<HashSet<_>>().len() == s.len())
        .collect()
}

pub fn is_disjoint(f: &[Vec<usize>]) -> bool {
    for i in 0..f.len() {
        for j in 0..i {
            if f[i].iter().any(|x| f[j].contains(x)) {
                return false;
            }
        }
    }
    true
}
