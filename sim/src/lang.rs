//! Independent oracles over plain rule lists: bounded languages and a span recognizer.

/// A rule list: (lhs, rhs) over symbol numbers below `nsyms`.
pub type Rules = Vec<(usize, Vec<usize>)>;

/// Language of one symbol up to a length bound: for every length i a bit set over base-T numbers.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Lang {
    pub by_len: Vec<Vec<u64>>,
}

pub struct Space {
    pub t: usize,
    pub max_len: usize,
    pows: Vec<usize>,
}

impl Space {
    /// Chooses the largest length with T^L <= budget (at least 1, at most `cap`).
    pub fn new(t: usize, budget: usize, cap: usize) -> Self {
        let t1 = t.max(1);
        let mut max_len = 0;
        let mut p = 1usize;
        while max_len < cap && p * t1 <= budget {
            p *= t1;
            max_len += 1;
        }
        let max_len = max_len.max(1);
        let mut pows = vec![1usize];
        for i in 0..max_len {
            pows.push(pows[i] * t1);
        }
        Space { t, max_len, pows }
    }
    pub fn empty(&self) -> Lang {
        Lang {
            by_len: (0..=self.max_len)
                .map(|i| vec![0u64; self.pows[i].div_ceil(64)])
                .collect(),
        }
    }
    pub fn eps(&self) -> Lang {
        let mut l = self.empty();
        l.by_len[0][0] = 1;
        l
    }
    pub fn unit(&self, tindex: usize) -> Lang {
        let mut l = self.empty();
        l.by_len[1][tindex / 64] |= 1 << (tindex % 64);
        l
    }
    pub fn concat(&self, a: &Lang, b: &Lang) -> Lang {
        let mut out = self.empty();
        for (i, ai) in a.by_len.iter().enumerate() {
            if ai.iter().all(|&w| w == 0) {
                continue;
            }
            for (j, bj) in b.by_len.iter().enumerate() {
                if i + j > self.max_len || bj.iter().all(|&w| w == 0) {
                    continue;
                }
                let width = self.pows[j];
                for (wi, &w) in ai.iter().enumerate() {
                    let mut w = w;
                    while w != 0 {
                        let x = wi * 64 + w.trailing_zeros() as usize;
                        w &= w - 1;
                        or_shifted(&mut out.by_len[i + j], bj, x * width, width);
                    }
                }
            }
        }
        out
    }
    pub fn union_into(&self, a: &mut Lang, b: &Lang) -> bool {
        let mut changed = false;
        for (x, y) in a.by_len.iter_mut().zip(&b.by_len) {
            for (p, q) in x.iter_mut().zip(y) {
                let n = *p | *q;
                changed |= n != *p;
                *p = n;
            }
        }
        changed
    }
    pub fn reverse(&self, a: &Lang) -> Lang {
        let mut out = self.empty();
        for (len, bits) in a.by_len.iter().enumerate() {
            for x in 0..self.pows[len] {
                if bits[x / 64] >> (x % 64) & 1 == 1 {
                    let mut v = x;
                    let mut r = 0;
                    for _ in 0..len {
                        r = r * self.t + v % self.t;
                        v /= self.t;
                    }
                    out.by_len[len][r / 64] |= 1 << (r % 64);
                }
            }
        }
        out
    }
    /// Least fixpoint. `term[s]` gives the terminal index of symbol s, if it is a terminal.
    pub fn solve(&self, nsyms: usize, rules: &Rules, term: &[Option<usize>]) -> Vec<Lang> {
        let mut langs: Vec<Lang> = (0..nsyms)
            .map(|s| match term.get(s).copied().flatten() {
                Some(t) => self.unit(t),
                None => self.empty(),
            })
            .collect();
        loop {
            let mut changed = false;
            for (lhs, rhs) in rules {
                if term.get(*lhs).copied().flatten().is_some() {
                    continue;
                }
                let mut acc = self.eps();
                for &s in rhs {
                    acc = self.concat(&acc, &langs[s]);
                }
                changed |= self.union_into(&mut langs[*lhs], &acc);
            }
            if !changed {
                return langs;
            }
        }
    }
    pub fn describe_diff(&self, a: &Lang, b: &Lang) -> String {
        for len in 0..=self.max_len {
            for x in 0..self.pows[len] {
                let p = a.by_len[len][x / 64] >> (x % 64) & 1;
                let q = b.by_len[len][x / 64] >> (x % 64) & 1;
                if p != q {
                    let mut digits = vec![];
                    let mut v = x;
                    for _ in 0..len {
                        digits.push(v % self.t);
                        v /= self.t;
                    }
                    digits.reverse();
                    return format!(
                        "string {:?} (terminal indices) {} ",
                        digits,
                        if p == 1 { "is lost" } else { "is new" }
                    );
                }
            }
        }
        "no difference".into()
    }
    pub fn has_eps(&self, a: &Lang) -> bool {
        a.by_len[0][0] & 1 == 1
    }
    pub fn without_eps(&self, a: &Lang) -> Lang {
        let mut b = a.clone();
        b.by_len[0][0] = 0;
        b
    }
    pub fn is_empty(&self, a: &Lang) -> bool {
        a.by_len.iter().all(|w| w.iter().all(|&x| x == 0))
    }
    pub fn count(&self, a: &Lang) -> u32 {
        a.by_len.iter().flatten().map(|w| w.count_ones()).sum()
    }
}

fn or_shifted(dst: &mut [u64], src: &[u64], shift: usize, width: usize) {
    let (ws, bs) = (shift / 64, shift % 64);
    let words = width.div_ceil(64);
    for i in 0..words {
        let v = src[i];
        if v == 0 {
            continue;
        }
        dst[ws + i] |= v << bs;
        if bs != 0 {
            let hi = v >> (64 - bs);
            if hi != 0 {
                dst[ws + i + 1] |= hi;
            }
        }
    }
}

/// Span recognizer: does `start` derive `sentence`? `eps_only(sym, i)` overrides a symbol: if it
/// returns Some(b), the symbol derives nothing but the empty string at i, and only if b.
pub fn derives(
    nsyms: usize,
    rules: &Rules,
    terminal: &[bool],
    start: usize,
    sentence: &[usize],
    eps_only: impl Fn(usize, usize) -> Option<bool>,
) -> bool {
    let n = sentence.len();
    let words = (n + 1).div_ceil(64);
    // span[sym][i] = set of j
    let mut span = vec![vec![vec![0u64; words]; n + 1]; nsyms];
    let mut fixed = vec![false; nsyms];
    for s in 0..nsyms {
        for i in 0..=n {
            if let Some(b) = eps_only(s, i) {
                fixed[s] = true;
                if b {
                    span[s][i][i / 64] |= 1 << (i % 64);
                }
            } else if terminal[s] && i < n && sentence[i] == s {
                span[s][i][(i + 1) / 64] |= 1 << ((i + 1) % 64);
            }
        }
    }
    loop {
        let mut changed = false;
        for (lhs, rhs) in rules {
            if fixed[*lhs] {
                continue;
            }
            for i in (0..=n).rev() {
                let mut cur = vec![0u64; words];
                cur[i / 64] |= 1 << (i % 64);
                for &s in rhs {
                    let mut next = vec![0u64; words];
                    for (w, &cw) in cur.iter().enumerate() {
                        let mut v = cw;
                        while v != 0 {
                            let j = w * 64 + v.trailing_zeros() as usize;
                            v &= v - 1;
                            for (d, &x) in next.iter_mut().zip(&span[s][j]) {
                                *d |= x;
                            }
                        }
                    }
                    cur = next;
                }
                for (d, &x) in span[*lhs][i].iter_mut().zip(&cur) {
                    let nv = *d | x;
                    changed |= nv != *d;
                    *d = nv;
                }
            }
        }
        if !changed {
            break;
        }
    }
    span[start][0][n / 64] >> (n % 64) & 1 == 1
}
