//! Bounded languages and derivation trees as explicit sets of strings.
use std::collections::BTreeSet;

pub struct LRule {
    pub lhs: usize,
    pub rhs: Vec<usize>,
    /// written in front of the rule's string: tells derivation trees apart
    pub label: Option<u32>,
}

pub type Strs = BTreeSet<Vec<u32>>;
pub const LABEL: u32 = 1 << 30;

/// All strings of at most `bound` letters each symbol derives, or None if there are too many.
pub fn solve(nsyms: usize, rules: &[LRule], term: &[bool], bound: usize, cap: usize) -> Option<Vec<Strs>> {
    let mut sets: Vec<Strs> = (0..nsyms)
        .map(|s| {
            let mut b = Strs::new();
            if term.get(s).copied().unwrap_or(false) && bound >= 1 {
                b.insert(vec![s as u32]);
            }
            b
        })
        .collect();
    let mut seen: Vec<Option<Vec<usize>>> = vec![None; rules.len()];
    loop {
        let mut changed = false;
        for (k, r) in rules.iter().enumerate() {
            if term.get(r.lhs).copied().unwrap_or(false) {
                continue;
            }
            let now: Vec<usize> = r.rhs.iter().map(|&s| sets[s].len()).collect();
            if seen[k].as_ref() == Some(&now) {
                continue;
            }
            seen[k] = Some(now);
            let mut acc: Vec<Vec<u32>> = vec![match r.label {
                Some(l) => vec![LABEL | l],
                None => vec![],
            }];
            if acc[0].len() > bound {
                continue;
            }
            for &s in &r.rhs {
                let mut next = BTreeSet::new();
                for a in &acc {
                    for b in &sets[s] {
                        if a.len() + b.len() <= bound {
                            let mut x = a.clone();
                            x.extend_from_slice(b);
                            next.insert(x);
                        }
                    }
                    if next.len() > cap * 2 {
                        return None;
                    }
                }
                acc = next.into_iter().collect();
                if acc.is_empty() {
                    break;
                }
            }
            for x in acc {
                changed |= sets[r.lhs].insert(x);
            }
            if sets[r.lhs].len() > cap {
                return None;
            }
        }
        if !changed {
            return Some(sets);
        }
    }
}
