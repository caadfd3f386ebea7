//! C21, C22, C23, C24, C25: the analyses compared with their definitions, in every state a
//! history reaches (also right after interrupted operations).
use crate::check;
use crate::core::*;
use crate::generator::syms;
use crate::ops::Dump;
use crate::rng::Rng;
use cfg_classify::CfgClassifyExt;
use cfg_classify::ll::LlNonterminalClass;
use cfg_classify::lr::{Lr0Item, Lr0Items};
use cfg_grammar::{Cfg, CfgRule, NamedCfgRule, RhsPropertyMode, SymbolBitSet};
use cfg_predict_distance::{DistanceDirection, MinimalDistance};
use cfg_predict_sets::{CfgSetsExt, FollowSets, LastSets, PerSymbolSets, PredictSets};
use cfg_symbol::{Symbol, SymbolSource};
use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, SymbolBitMatrix};
use std::collections::{BTreeMap, BTreeSet, VecDeque};

pub const PROPS: &[&str] = &["C21", "C22", "C23", "C24", "C25", "C27"];

/// Sets that live through the whole history and are filled again and again.
#[derive(Default)]
pub struct Scratch {
    sets: Vec<SymbolBitSet>,
    /// Earlier states of the grammars of this history, with what they showed then.
    seen: Vec<Seen>,
}

struct Seen {
    g: Cfg,
    rules: Vec<(usize, Vec<usize>)>,
    bnf: String,
    named: Vec<(NamedCfgRule, Shown)>,
}

/// What a named rule stands for: names of both sides, and its history if it has one.
type Shown = (Option<String>, Vec<Option<String>>, Option<String>);

struct Model {
    n: usize,
    rules: Vec<(usize, Vec<usize>)>,
    roots: Vec<usize>,
    has: Vec<bool>,
}

/// Everything that can be reached from `from` (in zero or more steps).
fn walk(next: &[Vec<usize>], from: impl IntoIterator<Item = usize>) -> Vec<bool> {
    let mut seen = vec![false; next.len()];
    let mut todo: Vec<usize> = vec![];
    for f in from {
        if !seen[f] {
            seen[f] = true;
            todo.push(f);
        }
    }
    while let Some(x) = todo.pop() {
        for &y in &next[x] {
            if !seen[y] {
                seen[y] = true;
                todo.push(y);
            }
        }
    }
    seen
}

fn list(v: &[bool]) -> Vec<usize> {
    v.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect()
}

impl Model {
    fn new(d: &Dump) -> Self {
        let rules: Vec<(usize, Vec<usize>)> = d.rules.iter().map(|r| (r.lhs, r.rhs.clone())).collect();
        let mut has = vec![false; d.nsyms];
        for r in &rules {
            has[r.0] = true;
        }
        Model { n: d.nsyms, rules, roots: d.roots.clone(), has }
    }

    fn reversed(&self) -> Model {
        Model {
            n: self.n,
            rules: self.rules.iter().map(|r| (r.0, r.1.iter().rev().copied().collect())).collect(),
            roots: self.roots.clone(),
            has: self.has.clone(),
        }
    }

    /// Derivable from nothing but symbols of `base`.
    fn closed(&self, base: &[bool], any: bool, empty_too: bool) -> Vec<bool> {
        let mut v = base.to_vec();
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                if v[*l] || (r.is_empty() && !empty_too) {
                    continue;
                }
                let yes = if any { r.iter().any(|&s| v[s]) } else { r.iter().all(|&s| v[s]) };
                if yes {
                    v[*l] = true;
                    ch = true;
                }
            }
            if !ch {
                return v;
            }
        }
    }

    fn nullable(&self) -> Vec<bool> {
        self.closed(&vec![false; self.n], false, true)
    }

    /// (terminals, nullable) by symbol: graph search over "can stand at the beginning of".
    fn first(&self) -> Vec<(BTreeSet<usize>, bool)> {
        let nullable = self.nullable();
        let mut next = vec![vec![]; self.n];
        for (l, r) in &self.rules {
            for &s in r {
                next[*l].push(s);
                if !nullable[s] {
                    break;
                }
            }
        }
        (0..self.n)
            .map(|s| {
                let seen = walk(&next, [s]);
                (list(&seen).into_iter().filter(|&t| !self.has[t]).collect(), nullable[s])
            })
            .collect()
    }

    fn first_of(&self, first: &[(BTreeSet<usize>, bool)], string: &[usize]) -> (BTreeSet<usize>, bool) {
        let mut out = BTreeSet::new();
        for &s in string {
            out.extend(first[s].0.iter().copied());
            if !first[s].1 {
                return (out, false);
            }
        }
        (out, true)
    }

    /// (terminals, end of input) by symbol.
    fn follow(&self, first: &[(BTreeSet<usize>, bool)]) -> Vec<(BTreeSet<usize>, bool)> {
        let mut own: Vec<(BTreeSet<usize>, bool)> = vec![(BTreeSet::new(), false); self.n];
        for &r in &self.roots {
            own[r].1 = true;
        }
        // whose FOLLOW a symbol inherits
        let mut inherits = vec![vec![]; self.n];
        for (l, r) in &self.rules {
            for (i, &s) in r.iter().enumerate() {
                let (f, empty) = self.first_of(first, &r[i + 1..]);
                own[s].0.extend(f);
                if empty {
                    inherits[s].push(*l);
                }
            }
        }
        (0..self.n)
            .map(|s| {
                let mut out = (BTreeSet::new(), false);
                for x in list(&walk(&inherits, [s])) {
                    out.0.extend(own[x].0.iter().copied());
                    out.1 |= own[x].1;
                }
                out
            })
            .collect()
    }

    fn min_lengths(&self) -> Vec<Option<u64>> {
        let mut v: Vec<Option<u64>> = (0..self.n).map(|s| if self.has[s] { None } else { Some(1) }).collect();
        loop {
            let mut ch = false;
            for (l, r) in &self.rules {
                let sum = r.iter().try_fold(0u64, |a, &s| v[s].map(|x| x.saturating_add(a)));
                if let Some(x) = sum {
                    if v[*l].is_none_or(|old| x < old) {
                        v[*l] = Some(x);
                        ch = true;
                    }
                }
            }
            if !ch {
                return v;
            }
        }
    }

    /// Shortest distances from every rule position forward to the nearest of `dots`.
    fn forward(&self, dots: &BTreeSet<(usize, usize)>) -> Vec<Vec<Option<u64>>> {
        let len = self.min_lengths();
        let min = |a: Option<u64>, b: Option<u64>| a.into_iter().chain(b).min();
        // inside[X]: to the nearest dot inside something X derives
        let mut inside: Vec<Option<u64>> = vec![None; self.n];
        // one rule, right to left; `end`: the distance at its end
        let rule = |inside: &[Option<u64>], k: usize, end: Option<u64>| {
            let r = &self.rules[k].1;
            let mut out = vec![None; r.len() + 1];
            let mut cur = end;
            for i in (0..=r.len()).rev() {
                if i < r.len() {
                    let through = cur.and_then(|c| len[r[i]].map(|l| c.saturating_add(l)));
                    cur = min(through, inside[r[i]]);
                }
                if dots.contains(&(k, i)) {
                    cur = Some(0);
                }
                out[i] = cur;
            }
            out
        };
        loop {
            let mut ch = false;
            for k in 0..self.rules.len() {
                let l = self.rules[k].0;
                let x = min(inside[l], rule(&inside, k, None)[0]);
                if x != inside[l] {
                    inside[l] = x;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut after: Vec<Option<u64>> = vec![None; self.n];
        loop {
            let mut ch = false;
            for k in 0..self.rules.len() {
                let v = rule(&inside, k, after[self.rules[k].0]);
                for (i, &s) in self.rules[k].1.iter().enumerate() {
                    let x = min(after[s], v[i + 1]);
                    if x != after[s] {
                        after[s] = x;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        (0..self.rules.len()).map(|k| rule(&inside, k, after[self.rules[k].0])).collect()
    }

    fn distances(&self, dots: &BTreeSet<(usize, usize)>, dir: DistanceDirection) -> Vec<Vec<Option<u64>>> {
        let f = || self.forward(dots);
        let b = || {
            let rdots = dots.iter().map(|&(k, i)| (k, self.rules[k].1.len() - i)).collect();
            let mut v = self.reversed().forward(&rdots);
            for x in &mut v {
                x.reverse();
            }
            v
        };
        match dir {
            DistanceDirection::Forward => f(),
            DistanceDirection::Backward => b(),
            DistanceDirection::Symmetric => f()
                .into_iter()
                .zip(b())
                .map(|(x, y)| x.into_iter().zip(y).map(|(p, q)| p.into_iter().chain(q).min()).collect())
                .collect(),
        }
        .into_iter()
        .map(|v: Vec<Option<u64>>| v.into_iter().map(|x| x.map(width)).collect())
        .collect()
    }
}

/// Sums that exceed the width of the numbers are its largest number.
fn width(x: u64) -> u64 {
    x.min(u32::MAX as u64)
}

fn set(s: &SymbolBitSet) -> Vec<usize> {
    s.iter().map(|x| x.usize()).collect()
}

fn same_set(class: &str, what: &str, got: &SymbolBitSet, want: &[bool], d: &Dump) -> Res {
    check!(got.space() == want.len(), class, "{what}: a set for {} symbols, the grammar has {}; {}", got.space(), want.len(), d.short());
    check!(set(got) == list(want), class, "{what}: {:?}, by definition {:?}; {}", set(got), list(want), d.short());
    Ok(())
}

fn same_sets(class: &str, what: &str, got: &PerSymbolSets, want: &[(BTreeSet<usize>, bool)], m: &Model, d: &Dump) -> Res {
    let keys: Vec<usize> = got.keys().map(|k| k.usize()).collect();
    check!(keys == list(&m.has), class, "{what} sets of {keys:?}, nonterminals are {:?}; {}", list(&m.has), d.short());
    for (k, v) in got {
        let have: Vec<usize> = v.list.iter().map(|s| s.usize()).collect();
        let w: Vec<usize> = want[k.usize()].0.iter().copied().collect();
        check!(have == w, class, "{what}({}) = {have:?}, by definition {w:?}; {}", k.usize(), d.short());
        check!(
            v.has_none == want[k.usize()].1,
            class,
            "{what}({}) has the empty mark: {}, by definition {}; {}",
            k.usize(),
            v.has_none,
            want[k.usize()].1,
            d.short()
        );
    }
    Ok(())
}

pub fn check_state(prop: &str, g: &mut Cfg, d: &Dump, seed: u64, scratch: &mut Scratch, ctx: &mut Ctx) -> Res {
    if d.nsyms == 0 || d.nsyms > 200 {
        return Ok(());
    }
    let mut rng = Rng::new(seed ^ d.hash());
    let m = Model::new(d);
    let all = syms(m.n);
    let r = run(|| match prop {
        "C21" => sets_and_matrices(g, d, &m, &all, &mut rng, scratch, ctx),
        "C23" => predict(g, d, &m, &all, &mut rng, ctx),
        "C24" => classes(g, d, &m, ctx),
        "C25" => distances(g, d, &m, &mut rng, ctx),
        "C27" => views(g, d, &mut rng, scratch, ctx),
        _ => lr0(g, d, &m, &all, &mut rng, ctx),
    });
    match r {
        Outcome::Done(r) => r?,
        Outcome::Panicked(msg) => return viol("analysis-panic", format!("an analysis panicked: {msg}; {}", d.short())),
        _ => {}
    }
    if let Some(x) = crate::ops::diff(d, &crate::ops::dump(g)) {
        return viol("analysis-mutates", format!("the analyses changed the grammar: {x}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

fn same_matrix(class: &str, what: &str, got: &SymbolBitMatrix, want: &[Vec<bool>], all: &[Symbol], d: &Dump) -> Res {
    check!(got.size() == (want.len(), want.len()), class, "{what}: size {:?} for {} symbols", got.size(), want.len());
    for (i, &s) in all.iter().enumerate() {
        let have: Vec<usize> = got.iter_row_syms(s).map(|x| x.usize()).collect();
        check!(have == list(&want[i]), class, "{what}: row {i} is {have:?}, by definition {:?}; {}", list(&want[i]), d.short());
        for (j, &t) in all.iter().enumerate() {
            check!(got[(s, t)] == want[i][j], class, "{what}: entry ({i}, {j}) is {}; {}", got[(s, t)], d.short());
        }
    }
    Ok(())
}

type RawMatrix = <SymbolBitMatrix as std::ops::Deref>::Target;

/// A matrix handed over in other forms, edited there and taken back.
fn conversions(g: &Cfg, direct: &[Vec<bool>], reach: &[Vec<bool>], unit: &[Vec<bool>], all: &[Symbol], d: &Dump, rng: &mut Rng) -> Res {
    use std::ops::DerefMut;
    let n = all.len();
    let which = rng.below(4);
    let mut want = match which {
        0 => direct,
        1 => reach,
        _ => unit,
    }
    .to_vec();
    let mut edits = vec![];
    for _ in 0..if n == 0 { 0 } else { rng.below(5) } {
        edits.push((rng.below(n), rng.below(n), rng.chance(60)));
    }
    for &(i, j, x) in &edits {
        want[i][j] = x;
    }
    // edited behind the derivation relation, before or after the conversion
    let early = rng.below(edits.len() + 1);
    macro_rules! taken {
        ($m:expr) => {{
            let mut m = $m;
            for &(i, j, x) in &edits[..early] {
                let raw: &mut RawMatrix = m.deref_mut().deref_mut();
                raw.set(i, j, x);
            }
            SymbolBitMatrix::from(m)
        }};
    }
    let mut m: SymbolBitMatrix = match which {
        0 => taken!(g.direct_derivation_matrix()),
        1 => taken!(g.reachability_matrix()),
        _ => taken!(g.unit_derivation_matrix()),
    };
    for &(i, j, x) in &edits[early..] {
        m.deref_mut().set(i, j, x);
    }
    same_matrix("matrix-conversion", "an edited matrix", &m, &want, all, d)?;
    let raw: RawMatrix = m.into();
    let Ok(mut m) = SymbolBitMatrix::try_from(raw) else {
        return viol("matrix-conversion", format!("a square matrix of {n} rows is refused"));
    };
    same_matrix("matrix-conversion", "a matrix given away and taken back", &m, &want, all, d)?;
    // closed again in its new place
    m.deref_mut().transitive_closure();
    same_matrix("matrix-conversion", "a matrix closed after taking it back", &m, &plus(&want), all, d)?;
    let (r, c) = (rng.below(9), rng.range(1, 8));
    if r != c {
        check!(SymbolBitMatrix::try_from(RawMatrix::new(r, c)).is_err(), "matrix-conversion", "a matrix of {r} rows and {c} columns is accepted as a relation between symbols");
    }
    Ok(())
}

/// In one or more steps.
fn plus(direct: &[Vec<bool>]) -> Vec<Vec<bool>> {
    let next: Vec<Vec<usize>> = direct.iter().map(|r| list(r)).collect();
    (0..direct.len()).map(|i| walk(&next, next[i].clone())).collect()
}

fn sets_and_matrices(g: &mut Cfg, d: &Dump, m: &Model, all: &[Symbol], rng: &mut Rng, scratch: &mut Scratch, ctx: &mut Ctx) -> Res {
    let n = m.n;
    let term: Vec<bool> = m.has.iter().map(|x| !x).collect();
    let nulling: Vec<bool> = {
        let mut v = vec![false; n];
        for (l, r) in &m.rules {
            v[*l] |= r.is_empty();
        }
        v
    };
    let used: Vec<bool> = {
        let mut v = vec![false; n];
        for (l, r) in &m.rules {
            v[*l] = true;
            for &s in r {
                v[s] = true;
            }
        }
        v
    };
    let unused: Vec<bool> = used.iter().map(|x| !x).collect();
    same_set("terminal-symbols", "terminal_symbols", &g.terminal_symbols(), &term, d)?;
    same_set("nulling-symbols", "nulling_symbols", &g.nulling_symbols(), &nulling, d)?;
    same_set("unused-symbols", "unused_symbols", &g.unused_symbols(), &unused, d)?;
    // sets that were never given a size
    match rng.below(6) {
        0 => {
            let mut s = SymbolBitSet::new();
            s.subtract_productive(g);
            same_set("set-subtract", "SymbolBitSet::new().subtract_productive", &s, &term, d)?;
        }
        1 => {
            let mut s = SymbolBitSet::new();
            s.nulling(g);
            same_set("set-nulling", "SymbolBitSet::new().nulling", &s, &nulling, d)?;
        }
        2 => {
            let mut s = SymbolBitSet::new();
            s.productive(g);
            same_set("set-productive", "SymbolBitSet::new().productive", &s, &m.has, d)?;
        }
        3 => {
            same_set("set-from-elem", "SymbolBitSet::from_elem(true)", &SymbolBitSet::from_elem(g, true), &vec![true; n], d)?;
        }
        _ => {}
    }
    // a set that has been used for other grammars before
    if scratch.sets.len() < 2 {
        scratch.sets.push(SymbolBitSet::new());
    }
    let k = rng.below(scratch.sets.len());
    let s = &mut scratch.sets[k];
    for _ in 0..rng.range(1, 2) {
        match rng.below(9) {
            0 => {
                s.terminal(g);
                same_set("set-terminal", "SymbolBitSet::terminal", s, &term, d)?;
            }
            1 => {
                s.used(g);
                same_set("set-used", "SymbolBitSet::used", s, &used, d)?;
            }
            2 => {
                s.unused(g);
                same_set("set-unused", "SymbolBitSet::unused", s, &unused, d)?;
            }
            3 => {
                s.reset(g.sym_source());
                same_set("set-reset", "SymbolBitSet::reset", s, &vec![false; n], d)?;
                s.nulling(g);
                same_set("set-nulling", "SymbolBitSet::nulling", s, &nulling, d)?;
                let mut want = nulling.clone();
                s.productive(g);
                for i in 0..n {
                    want[i] |= m.has[i];
                }
                same_set("set-productive", "SymbolBitSet::productive", s, &want, d)?;
            }
            4 => {
                s.set_all(g.sym_source());
                same_set("set-all", "SymbolBitSet::set_all", s, &vec![true; n], d)?;
                check!(s.all() && !s.is_empty(), "set-all", "a set of all {n} symbols says all() = {}, is_empty() = {}", s.all(), s.is_empty());
                s.subtract_productive(g);
                same_set("set-subtract", "SymbolBitSet::subtract_productive", s, &term, d)?;
            }
            5 if s.space() <= n => {
                let before = set(s);
                s.reserve(n);
                check!(set(s) == before && s.space() == n, "set-reserve", "reserve({n}) turned {before:?} into {:?} with space {}", set(s), s.space());
                let mut want = vec![false; n];
                for b in before {
                    want[b] = true;
                }
                let mut other = SymbolBitSet::from_elem(g, false);
                for (i, &x) in all.iter().enumerate() {
                    if rng.chance(30) {
                        other.set(x, true);
                        want[i] = true;
                    }
                }
                s.union(&other);
                same_set("set-union", "SymbolBitSet::union", s, &want, d)?;
            }
            6 => {
                let before = s.clone();
                s.negate();
                let b: Vec<usize> = (0..before.space()).filter(|i| !set(&before).contains(i)).collect();
                check!(set(s) == b && s.space() == before.space(), "set-negate", "negate turned {:?} into {:?}", set(&before), set(s));
            }
            7 => {
                let e = set(s).is_empty();
                check!(s.is_empty() == e, "set-is-empty", "is_empty() of {:?} is {}", set(s), s.is_empty());
                let f = set(s).len() == s.space();
                check!(s.all() == f, "set-is-full", "all() of {:?} of {} is {}", set(s), s.space(), s.all());
            }
            _ => *s = SymbolBitSet::new(),
        }
    }
    // closures
    for mode in [RhsPropertyMode::All, RhsPropertyMode::Any] {
        let any = matches!(mode, RhsPropertyMode::Any);
        let mut base = vec![false; n];
        let p = *rng.pick(&[5, 15, 40, 80]);
        match rng.below(4) {
            0 => base = nulling.clone(),
            1 => {
                for i in 0..n {
                    base[i] = term[i] || nulling[i];
                }
            }
            _ => {
                for b in &mut base {
                    *b = rng.chance(p);
                }
            }
        }
        let mut s = SymbolBitSet::from_elem(g, false);
        for (i, &x) in all.iter().enumerate() {
            s.set(x, base[i]);
        }
        match (rng.chance(50), any) {
            (true, false) => g.rhs_closure_for_all(&mut s),
            (true, true) => g.rhs_closure_for_any(&mut s),
            _ => g.rhs_closure(&mut s, mode),
        }
        let want = m.closed(&base, any, false);
        let what = format!("closure for {} of {:?}", if any { "any" } else { "all" }, list(&base));
        same_set(if any { "closure-any" } else { "closure-all" }, &what, &s, &want, d)?;
        if want != base {
            ctx.nontrivial = true;
        }
    }
    {
        // sums may exceed the width of the values
        let large = rng.chance(10);
        let value = |rng: &mut Rng| if large && rng.chance(40) { *rng.pick(&[u32::MAX, u32::MAX - 3, 1 << 31, 3 << 30]) } else { rng.below(9) as u32 };
        let base: Vec<Option<u32>> = (0..n).map(|_| if rng.chance(45) { Some(value(rng)) } else { None }).collect();
        let mut v = base.clone();
        g.rhs_closure_with_values(&mut v);
        let mut want: Vec<Option<u64>> = base.iter().map(|x| x.map(u64::from)).collect();
        loop {
            let mut ch = false;
            for (l, r) in &m.rules {
                if r.is_empty() {
                    continue;
                }
                if let Some(x) = r.iter().try_fold(0u64, |a, &s| want[s].map(|y| y.saturating_add(a))) {
                    if want[*l].is_none_or(|old| x < old) {
                        want[*l] = Some(x);
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let have: Vec<Option<u64>> = v.iter().map(|x| x.map(u64::from)).collect();
        let want: Vec<Option<u64>> = want.into_iter().map(|x| x.map(width)).collect();
        check!(have == want, "closure-values", "closure with values {base:?}: {have:?}, least sums are {want:?}; {}", d.short());
    }
    // matrices
    let mut direct = vec![vec![false; n]; n];
    let mut unit = vec![vec![false; n]; n];
    for (l, r) in &m.rules {
        for &s in r {
            direct[*l][s] = true;
        }
        if r.len() == 1 && r[0] != *l {
            unit[*l][r[0]] = true;
        }
    }
    let reach = plus(&direct);
    same_matrix("direct-derivation", "direct derivation", &g.direct_derivation_matrix(), &direct, all, d)?;
    same_matrix("reachability", "reachability", &g.reachability_matrix(), &reach, all, d)?;
    same_matrix("unit-derivation", "unit derivation", &g.unit_derivation_matrix(), &plus(&unit), all, d)?;
    if rng.chance(25) {
        conversions(g, &direct, &reach, &plus(&unit), all, d, rng)?;
    }
    let mut reflexive = reach.clone();
    for (i, r) in reflexive.iter_mut().enumerate() {
        r[i] = true;
    }
    if rng.chance(30) {
        same_matrix("reflexive-reachability", "reflexive reachability", &g.reachability_matrix().reflexive(), &reflexive, all, d)?;
        same_matrix("empty-matrix", "empty matrix", &g.empty_matrix(), &vec![vec![false; n]; n], all, d)?;
    }
    // usefulness
    let mut base = term.clone();
    for i in 0..n {
        base[i] |= nulling[i];
    }
    let mut productive = m.closed(&base, false, true);
    let mut reachable = unused.clone();
    let mut from: Vec<usize> = d.roots.clone();
    let mut u = if rng.chance(50) {
        g.usefulness()
    } else {
        from = (0..rng.below(3)).map(|_| rng.below(n)).collect();
        let roots: Vec<Symbol> = from.iter().map(|&s| all[s]).collect();
        g.usefulness_with_roots(&roots)
    };
    if rng.chance(30) {
        let more = rng.below(n);
        u.reachable([all[more]]);
        from.push(more);
    }
    for &f in &from {
        for i in 0..n {
            reachable[i] |= reflexive[f][i];
        }
    }
    for i in 0..n {
        productive[i] |= unused[i];
        check!(
            u.productivity(all[i]) == productive[i],
            "productivity",
            "productivity of {i} is {}, by definition {}; {}",
            u.productivity(all[i]),
            productive[i],
            d.short()
        );
    }
    let (p, r) = (productive.iter().all(|x| *x), reachable.iter().all(|x| *x));
    check!(u.all_productive() == p, "all-productive", "all_productive() = {}, unproductive are {:?}; {}", u.all_productive(), list(&productive.iter().map(|x| !x).collect::<Vec<_>>()), d.short());
    check!(u.all_reachable() == r, "all-reachable", "all_reachable() = {}, from {from:?}; {}", u.all_reachable(), d.short());
    check!(u.all_useful() == (p && r), "all-useful", "all_useful() = {}; {}", u.all_useful(), d.short());
    let mut useless = vec![];
    for (k, rule) in g.rules().enumerate() {
        let x = u.usefulness(rule).usefulness();
        let want = (reachable[m.rules[k].0], m.rules[k].1.iter().all(|&s| productive[s]));
        check!(
            (x.reachable, x.productive) == want,
            "rule-usefulness",
            "rule {k} is (reachable, productive) = {:?}, by definition {want:?} (from {from:?}); {}",
            (x.reachable, x.productive),
            d.short()
        );
        if want != (true, true) {
            useless.push((m.rules[k].0, m.rules[k].1.clone(), want));
        }
    }
    let got: Vec<(usize, Vec<usize>, (bool, bool))> = u
        .useless_rules(g)
        .map(|r| {
            let x = r.usefulness();
            (r.rule().lhs.usize(), r.rule().rhs.iter().map(|s| s.usize()).collect(), (x.reachable, x.productive))
        })
        .collect();
    check!(got == useless, "useless-rules", "useless rules {got:?}, by definition {useless:?} (from {from:?}); {}", d.short());
    if !useless.is_empty() {
        ctx.probe("useless-rules-listed");
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn predict(g: &mut Cfg, d: &Dump, m: &Model, all: &[Symbol], rng: &mut Rng, ctx: &mut Ctx) -> Res {
    let first = m.first();
    let f = g.first_sets();
    same_sets("first", "FIRST", f.predict_sets(), &first, m, d)?;
    for _ in 0..3 {
        let k = rng.below(5);
        let string: Vec<usize> = (0..k).map(|_| rng.below(m.n)).collect();
        string_first(&f, m, &first, &string, all, d)?;
    }
    for r in &m.rules {
        string_first(&f, m, &first, &r.1, all, d)?;
    }
    let follow = m.follow(&first);
    let got = match rng.below(3) {
        0 => g.follow_sets(),
        1 => g.follow_sets_with_first(&f),
        _ => FollowSets::new(g, f.predict_sets()),
    };
    same_sets("follow", "FOLLOW", got.predict_sets(), &follow, m, d)?;
    let r = m.reversed();
    same_sets("last", "LAST", LastSets::new(g).predict_sets(), &r.first(), m, d)?;
    if first.iter().any(|x| x.1 && !x.0.is_empty()) {
        ctx.nontrivial = true;
    }
    Ok(())
}

fn string_first(f: &cfg_predict_sets::FirstSets, m: &Model, first: &[(BTreeSet<usize>, bool)], string: &[usize], all: &[Symbol], d: &Dump) -> Res {
    let s: Vec<Symbol> = string.iter().map(|&i| all[i]).collect();
    let got = f.first_set_for_string(&s);
    let want = m.first_of(first, string);
    let have: BTreeSet<usize> = got.list.iter().map(|s| s.usize()).collect();
    check!(
        have == want.0 && got.has_none() == want.1,
        "first-of-string",
        "FIRST of {string:?} is {have:?} with the empty mark {}, by definition {want:?}; {}",
        got.has_none(),
        d.short()
    );
    check!(have.len() == got.list.len(), "first-of-string", "FIRST of {string:?} lists a terminal twice: {:?}", got.list);
    Ok(())
}

// ---------------------------------------------------------------- C24

fn classes(g: &mut Cfg, d: &Dump, m: &Model, ctx: &mut Ctx) -> Res {
    let first = m.first();
    let follow = m.follow(&first);
    let mut table: BTreeMap<usize, BTreeMap<usize, BTreeSet<usize>>> = BTreeMap::new();
    for (k, (l, r)) in m.rules.iter().enumerate() {
        let (mut on, empty) = m.first_of(&first, r);
        if empty {
            on.extend(follow[*l].0.iter().copied());
        }
        for t in on {
            table.entry(*l).or_default().entry(t).or_default().insert(k);
        }
    }
    let mut next = vec![vec![]; m.n];
    for (l, r) in &m.rules {
        next[*l].extend(r.iter().copied());
    }
    let conflict: Vec<bool> = (0..m.n).map(|s| table.get(&s).is_some_and(|row| row.values().any(|c| c.len() > 1))).collect();
    let mut want = BTreeMap::new();
    for &s in table.keys() {
        let seen = walk(&next, [s]);
        want.insert(s, !(0..m.n).any(|x| seen[x] && conflict[x]));
    }
    let t = g.ll_parse_table();
    let c = t.classify();
    let got: BTreeMap<usize, bool> = c.classes().iter().map(|(k, v)| (k.usize(), *v == LlNonterminalClass::Ll1)).collect();
    check!(got == want, "ll1", "LL(1) classes (true: LL(1)) {got:?}, by definition {want:?}; {}", d.short());
    if want.values().any(|x| *x) && want.values().any(|x| !*x) {
        ctx.nontrivial = true;
    }
    // recursion
    let mut direct = vec![vec![false; m.n]; m.n];
    for (l, r) in &m.rules {
        for &s in r {
            direct[*l][s] = true;
        }
    }
    let reach = plus(&direct);
    let mut want = vec![];
    for (l, r) in &m.rules {
        let hit: Vec<bool> = r.iter().map(|&s| reach[s][*l]).collect();
        let k = hit.len();
        if k == 0 {
            continue;
        }
        let kind = (hit[0], k > 2 && hit[1..k - 1].iter().any(|x| *x), hit[k - 1]);
        if kind.0 || kind.1 || kind.2 {
            want.push((*l, r.clone(), kind));
        }
    }
    let show = |r: &cfg_classify::recursive::RecursiveRule| {
        (r.rule.lhs.usize(), r.rule.rhs.iter().map(|s| s.usize()).collect::<Vec<_>>(), (r.recursion.left, r.recursion.middle, r.recursion.right))
    };
    let rec = g.recursion();
    let got: Vec<_> = rec.recursive_rules().map(|r| show(&r)).collect();
    check!(got == want, "recursion", "recursive rules (left, middle, right) {got:?}, by definition {want:?}; {}", d.short());
    let got: Vec<_> = rec.minimal_distances().map(|r| show(&r)).collect();
    check!(got == want, "recursion", "recursive rules with distances {got:?}, by definition {want:?}; {}", d.short());
    Ok(())
}

// ---------------------------------------------------------------- C25

fn distances(g: &mut Cfg, d: &Dump, m: &Model, rng: &mut Rng, ctx: &mut Ctx) -> Res {
    if m.rules.is_empty() {
        return Ok(());
    }
    if m.min_lengths().iter().flatten().any(|x| *x >= u32::MAX as u64) {
        ctx.probe("sentences-longer-than-numbers");
    }
    // one object is asked several questions
    let mut md = MinimalDistance::new(g);
    let mut before = String::new();
    for _ in 0..*rng.pick(&[1, 1, 2, 3]) {
        let mut dots = vec![];
        for _ in 0..rng.range(1, 3) {
            let r = rng.below(m.rules.len());
            dots.push((r, rng.below(m.rules[r].1.len() + 1)));
        }
        let dir = *rng.pick(&[DistanceDirection::Forward, DistanceDirection::Backward, DistanceDirection::Symmetric]);
        let name = match dir {
            DistanceDirection::Forward => "forward",
            DistanceDirection::Backward => "backward",
            DistanceDirection::Symmetric => "symmetric",
        };
        let numbers = |v: &[Vec<Option<u32>>]| -> Vec<Vec<Option<u64>>> { v.iter().map(|v| v.iter().map(|x| x.map(u64::from)).collect()).collect() };
        let got = numbers(md.minimal_distances(&dots, dir));
        check!(numbers(md.distances()) == got, "distance", "distances() differs from what minimal_distances returned");
        let set: BTreeSet<(usize, usize)> = dots.iter().copied().collect();
        let want = m.distances(&set, dir);
        check!(got.len() == want.len(), "distance", "{name} distances of {} rules for {}", got.len(), want.len());
        for (k, (a, b)) in got.iter().zip(&want).enumerate() {
            check!(a == b, "distance", "{name} distances to {dots:?} in rule {k}{before}: {a:?}, shortest are {b:?}; {}", d.short());
            if !set.iter().any(|x| x.0 == k) && b.iter().any(|x| x.is_some()) {
                ctx.nontrivial = true;
            }
        }
        before += &format!(" (after {name} to {dots:?})");
    }
    // distances between recursions
    let mut direct = vec![vec![false; m.n]; m.n];
    for (l, r) in &m.rules {
        for &s in r {
            direct[*l][s] = true;
        }
    }
    let reach = plus(&direct);
    let mut rdots = BTreeSet::new();
    for (k, (l, r)) in m.rules.iter().enumerate() {
        for (i, &s) in r.iter().enumerate() {
            if reach[s][*l] {
                rdots.insert((k, i));
            }
        }
    }
    let want = m.distances(&rdots, DistanceDirection::Symmetric);
    let big = |x: Option<u64>| x.unwrap_or(u32::MAX as u64) as usize;
    let want: Vec<Option<(usize, usize)>> =
        rdots.iter().map(|x| x.0).collect::<BTreeSet<_>>().into_iter().map(|k| Some((big(want[k][0]), big(*want[k].last().unwrap())))).collect();
    let got: Vec<_> = g.recursion().minimal_distances().map(|r| r.distances).collect();
    check!(got == want, "recursion-distance", "distances to the nearest recursion {got:?}, shortest are {want:?}; {}", d.short());
    Ok(())
}

// ---------------------------------------------------------------- C22

type Items = BTreeSet<(usize, usize)>;
/// The recorded finding's shape: one item per rule.
type OnePerRule = BTreeMap<usize, usize>;

fn closure(m: &Model, extra: Option<(usize, usize)>, kernel: &Items) -> Items {
    // `extra`: the rule that stands for the augmented start (number, start symbol)
    let at = |(k, i): (usize, usize)| match extra {
        Some((x, s)) if x == k => if i == 0 { Some(s) } else { None },
        _ => m.rules[k].1.get(i).copied(),
    };
    let mut out = kernel.clone();
    let mut todo: Vec<(usize, usize)> = kernel.iter().copied().collect();
    while let Some(it) = todo.pop() {
        if let Some(s) = at(it) {
            for (k, r) in m.rules.iter().enumerate() {
                if r.0 == s && out.insert((k, 0)) {
                    todo.push((k, 0));
                }
            }
        }
    }
    out
}

fn goto(m: &Model, items: &Items, sym: usize) -> Items {
    items.iter().filter(|(k, i)| m.rules.get(*k).and_then(|r| r.1.get(*i)) == Some(&sym)).map(|(k, i)| (*k, i + 1)).collect()
}

/// What the code does instead when a state has two items of one rule.
fn closure1(m: &Model, extra: Option<(usize, usize)>, kernel: &OnePerRule) -> OnePerRule {
    let at = |k: usize, i: usize| match extra {
        Some((x, s)) if x == k => if i == 0 { Some(s) } else { None },
        _ => m.rules[k].1.get(i).copied(),
    };
    let mut out = kernel.clone();
    let mut todo: VecDeque<(usize, usize)> = kernel.iter().map(|(k, i)| (*k, *i)).collect();
    while let Some((k, i)) = todo.pop_front() {
        if let Some(s) = at(k, i) {
            for (k, r) in m.rules.iter().enumerate() {
                if r.0 == s && out.insert(k, 0).is_none() {
                    todo.push_back((k, 0));
                }
            }
        }
    }
    out
}

fn one_per_rule(items: &Items) -> Option<OnePerRule> {
    let v: OnePerRule = items.iter().copied().collect();
    (v.len() == items.len()).then_some(v)
}

fn shown(i: &Lr0Items) -> OnePerRule {
    i.map.iter().map(|(k, v)| (*k as usize, v.dot as usize)).collect()
}

const KNOWN: &str = "lr0-two-items-of-one-rule";

fn finding(ctx: &mut Ctx) {
    *ctx.known.entry(KNOWN.into()).or_insert(0) += 1;
}

fn lr0(g: &mut Cfg, d: &Dump, m: &Model, all: &[Symbol], rng: &mut Rng, ctx: &mut Ctx) -> Res {
    if m.rules.is_empty() || m.n > 300 || m.rules.len() > 60 {
        return Ok(());
    }
    let build = |v: &OnePerRule| {
        let mut items = Lr0Items { map: Default::default() };
        for (&k, &i) in v {
            items.map.insert(k as u32, Lr0Item { rhs: m.rules[k].1.iter().map(|&s| all[s]).collect(), dot: i as u32 });
        }
        items
    };
    let right_sides = |i: &Lr0Items| i.map.iter().all(|(k, v)| m.rules.get(*k as usize).is_some_and(|r| r.1.iter().copied().eq(v.rhs.iter().map(|s| s.usize()))));
    // closure and advance of drawn items
    let mut kernel = OnePerRule::new();
    for _ in 0..rng.range(1, 3) {
        let k = rng.below(m.rules.len());
        kernel.insert(k, rng.below(m.rules[k].1.len() + 1));
    }
    let mut items = build(&kernel);
    {
        let mut b = g.lr0_closure_builder();
        b.closure(&mut items);
        let got = shown(&items);
        let kset: Items = kernel.iter().map(|x| (*x.0, *x.1)).collect();
        let want = closure(m, None, &kset);
        check!(right_sides(&items), "lr0-closure", "closure of {kernel:?} has foreign right-hand sides: {items:?}; {}", d.short());
        match one_per_rule(&want) {
            Some(w) => check!(got == w, "lr0-closure", "closure of {kernel:?} is {got:?}, by definition {w:?}; {}", d.short()),
            None => {
                let w = closure1(m, None, &kernel);
                check!(got == w, "lr0-closure", "closure of {kernel:?} is {got:?}, by definition {want:?}; {}", d.short());
                finding(ctx);
            }
        }
        for s in 0..m.n {
            let shifted = goto(m, &got.iter().map(|x| (*x.0, *x.1)).collect(), s);
            let adv = b.advance(&items, all[s]);
            if shifted.is_empty() {
                check!(adv.is_none(), "lr0-advance", "advance of {got:?} by {s} is {adv:?}, by definition nothing; {}", d.short());
                continue;
            }
            let Some(adv) = adv else { return viol("lr0-advance", format!("advance of {got:?} by {s} is nothing; {}", d.short())) };
            check!(right_sides(&adv), "lr0-advance", "advance of {got:?} by {s} has foreign right-hand sides: {adv:?}; {}", d.short());
            let want = closure(m, None, &shifted);
            let have = shown(&adv);
            match one_per_rule(&want) {
                Some(w) => check!(have == w, "lr0-advance", "advance of {got:?} by {s} is {have:?}, by definition {w:?}; {}", d.short()),
                None => {
                    let w = closure1(m, None, &shifted.iter().copied().collect());
                    check!(have == w, "lr0-advance", "advance of {got:?} by {s} is {have:?}, by definition {want:?}; {}", d.short());
                    finding(ctx);
                }
            }
        }
    }
    // the machine: the builder augments its grammar, so it works on a copy
    let mut c = g.clone();
    let mut builder = c.lr0_fsm_builder();
    // a builder may make several machines; each one augments the grammar with a rule of its own
    let count = if rng.chance(40) { rng.range(2, 3) } else { 1 };
    for nth in 0..count {
        let start = if rng.chance(70) && !d.roots.is_empty() { d.roots[rng.below(d.roots.len())] } else { rng.below(m.n) };
        let extra = Some((m.rules.len() + nth, start));
        let nodes = builder.make_lr0_fsm(all[start]);
        // the same construction over sets of items
        let mut known = false;
        let want = machine(m, extra, false).or_else(|| {
            known = true;
            machine(m, extra, true)
        });
        let Some(want) = want else { return Ok(()) };
        let got: Vec<(OnePerRule, BTreeMap<usize, usize>)> = nodes
            .iter()
            .map(|x| (shown(&x.items), x.link.iter().map(|(k, v)| (k.usize(), *v as usize)).collect()))
            .collect();
        check!(got == want, "lr0-machine", "LR(0) machine {nth} of a builder, from {start}: {got:?}, by definition {want:?}; {}", d.short());
        for x in &nodes {
            for (k, it) in &x.items.map {
                let rhs: Vec<usize> = it.rhs.iter().map(|s| s.usize()).collect();
                let want = if *k as usize >= m.rules.len() { vec![start] } else { m.rules[*k as usize].1.clone() };
                check!(rhs == want, "lr0-machine", "an item of rule {k} has the right-hand side {rhs:?}; {}", d.short());
            }
        }
        if known {
            finding(ctx);
        } else if want.len() > 2 {
            ctx.nontrivial = true;
        }
        if want.len() > 2 {
            ctx.probe("machines-of-3-or-more-states");
        }
        if nth > 0 {
            ctx.probe("machines-of-a-used-builder");
        }
    }
    Ok(())
}

/// States in order of discovery with their transitions through terminals. With `one`, states
/// keep one item per rule as the recorded finding does; without, such a clash gives `None`.
fn machine(m: &Model, extra: Option<(usize, usize)>, one: bool) -> Option<Vec<(OnePerRule, BTreeMap<usize, usize>)>> {
    let close = |kernel: &Items| {
        if one {
            Some(closure1(m, extra, &kernel.iter().copied().collect()))
        } else {
            one_per_rule(&closure(m, extra, kernel))
        }
    };
    let first = close(&[(extra?.0, 0)].into_iter().collect())?;
    let mut states = vec![first];
    let mut out = vec![];
    while out.len() < states.len() {
        let items: Items = states[out.len()].iter().map(|x| (*x.0, *x.1)).collect();
        let mut link = BTreeMap::new();
        for t in (0..m.n).filter(|&t| !m.has[t]) {
            let shifted = match extra {
                // the augmented start rule
                Some((x, s)) if s == t && items.contains(&(x, 0)) => {
                    let mut v = goto(m, &items, t);
                    v.insert((x, 1));
                    v
                }
                _ => goto(m, &items, t),
            };
            if shifted.is_empty() {
                continue;
            }
            let state = close(&shifted)?;
            let id = match states.iter().position(|s| *s == state) {
                Some(i) => i,
                None => {
                    states.push(state);
                    states.len() - 1
                }
            };
            link.insert(t, id);
        }
        out.push((states[out.len()].clone(), link));
    }
    Some(out)
}

// ---------------------------------------------------------------- C27

fn same_shown(a: &Shown, b: &Shown) -> bool {
    a.0 == b.0 && a.1 == b.1 && (a.2.is_none() || b.2.is_none() || a.2 == b.2)
}

fn bnf(d: &Dump) -> String {
    let unnamed = d.names.iter().all(|n| n.is_none());
    let show = |s: usize| match (unnamed, d.names.get(s).and_then(|n| n.as_ref())) {
        (true, _) => s.to_string(),
        (_, Some(n)) => format!("{n}({s})"),
        (_, None) => format!("g{s}({s})"),
    };
    let mut out = String::new();
    for r in &d.rules {
        let rhs: Vec<String> = r.rhs.iter().map(|&s| show(s)).collect();
        let rhs = if rhs.is_empty() { "()".to_string() } else { rhs.join(" ~ ") };
        out += &format!("{} ::= {rhs};\n", show(r.lhs));
    }
    out
}

fn views(g: &mut Cfg, d: &Dump, rng: &mut Rng, scratch: &mut Scratch, ctx: &mut Ctx) -> Res {
    if d.rules.len() > 80 {
        return Ok(());
    }
    // columns of dots
    let longest = d.rules.iter().map(|r| r.rhs.len()).max().unwrap_or(0);
    for n in (0..longest + 3).chain([usize::MAX]) {
        let col: Vec<_> = g.column(n).collect();
        check!(col.len() == d.rules.len(), "column", "column({n}) has {} rows for {} rules; {}", col.len(), d.rules.len(), d.short());
        for (i, (c, r)) in col.iter().zip(&d.rules).enumerate() {
            let want = (r.lhs, n.checked_sub(1).and_then(|k| r.rhs.get(k)).copied(), r.rhs.get(n).copied());
            let got = (c.lhs.usize(), c.predot.map(|s| s.usize()), c.postdot.map(|s| s.usize()));
            check!(got == want, "column", "column({n}), row {i}: (lhs, before, after the dot) = {got:?}, the rule has {want:?}; {}", d.short());
            let dot = r.history.dots.get(n).copied().unwrap_or(cfg_history::earley::rule_dot::RuleDot::none());
            check!(c.earley == Some(dot), "column", "column({n}), row {i}: dot {:?}, the rule's history has {dot:?}", c.earley);
        }
    }
    // text
    let text = g.stringify_to_bnf();
    let want = bnf(d);
    check!(text == want, "text", "stringify_to_bnf gives {text:?}, the rules are {want:?}");
    // summaries
    check!(g.has_roots() != d.roots.is_empty(), "summary", "has_roots() = {} with roots {:?}", g.has_roots(), d.roots);
    if d.wrapped.is_empty() {
        check!(g.is_empty() == d.rules.is_empty(), "summary", "is_empty() = {} with {} rules", g.is_empty(), d.rules.len());
    }
    // named rules
    let name = |s: usize| d.names.get(s).cloned().flatten();
    let mut named: Vec<(NamedCfgRule, Shown)> = vec![];
    for (r, rd) in g.rules().zip(&d.rules) {
        let shown: Shown = (name(rd.lhs), rd.rhs.iter().map(|&s| name(s)).collect(), Some(format!("{:?}", rd.history)));
        let nr = r.named(g.sym_source());
        let text = format!("{nr:?}");
        let gensym = |n: &Option<String>| n.clone().unwrap_or("gensym".into());
        let want = format!(
            "NamedCfgRule {{ lhs: {:?}, rhs: {:?}, history: ",
            gensym(&shown.0),
            shown.1.iter().map(gensym).collect::<Vec<_>>()
        );
        check!(text.starts_with(&want), "named", "a named rule shows {text:?}, not {want:?}");
        let names: Vec<_> = std::iter::once(&shown.0).chain(&shown.1).map(|n| n.as_deref().map(|n| n.into())).collect();
        let bare = NamedCfgRule::new(names.clone());
        check!(bare == nr && nr == bare, "named", "the rule {text} does not equal the one made of its names");
        let with = NamedCfgRule::with_history(names, rd.history);
        check!(with == nr && nr == with, "named", "the rule {text} does not equal the one made of its names and history");
        let bare_shown = (shown.0.clone(), shown.1.clone(), None);
        if named.len() < 8 {
            named.push((nr, shown));
            if rng.chance(30) {
                named.push((bare, bare_shown));
            }
        }
    }
    let old = scratch.seen.iter().flat_map(|s| s.named.iter());
    let all: Vec<&(NamedCfgRule, Shown)> = named.iter().chain(old).collect();
    for (a, sa) in &named {
        for (b, sb) in &all {
            check!((a == b) == same_shown(sa, sb), "named", "{a:?} and {b:?} compare {}", a == b);
            check!((a == b) == (b == a), "named", "{a:?} and {b:?} compare {} one way only", a == b);
        }
    }
    // comparison
    let rules = |d: &Dump| -> Vec<(usize, Vec<usize>)> { d.rules.iter().map(|r| (r.lhs, r.rhs.clone())).collect() };
    let mine = rules(d);
    let same = |a: &Cfg, b: &Cfg, ra: &[(usize, Vec<usize>)], rb: &[(usize, Vec<usize>)], ctx: &mut Ctx| -> Res {
        let sorted = |r: &[(usize, Vec<usize>)]| {
            let mut v = r.to_vec();
            v.sort();
            v
        };
        let (x, y) = (a.equivalent(b), b.equivalent(a));
        check!(x == y, "compare", "{ra:?} and {rb:?} compare {x} one way and {y} the other");
        if ra == rb {
            check!(x, "compare", "grammars with the same rules {ra:?} compare unequal");
        } else if sorted(ra) != sorted(rb) {
            // the same rules in another order: not settled
            ctx.nontrivial = true;
            check!(!x, "compare", "grammars with rules {ra:?} and {rb:?} compare equal");
        }
        Ok(())
    };
    same(g, &g.clone(), &mine, &mine, ctx)?;
    for s in &scratch.seen {
        same(g, &s.g, &mine, &s.rules, ctx)?;
    }
    for _ in 0..3 {
        let at = rng.below(mine.len() + 1);
        let mut other = Cfg::with_sym_source(g.sym_source().clone());
        let mut theirs = vec![];
        let change = rng.below(8);
        let some = |rng: &mut Rng| -> Option<Symbol> { SymbolSource::generate_fresh().take(d.nsyms).nth(rng.below(d.nsyms.max(1))) };
        for (i, r) in g.rules().enumerate() {
            let mut rhs: Vec<Symbol> = r.rhs.to_vec();
            let mut lhs = r.lhs;
            if i == at {
                let k = rng.below(rhs.len() + 1);
                match (change, some(rng)) {
                    (0, _) => continue,
                    (1, _) => drop(rhs.pop()),
                    (2, _) => rhs.push(r.lhs),
                    (3, Some(x)) => lhs = x,
                    (4, Some(x)) => rhs.insert(k, x),
                    (5 | 6, Some(x)) if k < rhs.len() => rhs[k] = x,
                    (7, _) if k + 1 < rhs.len() => rhs.swap(k, k + 1),
                    _ => {}
                }
            }
            theirs.push((lhs.usize(), rhs.iter().map(|s| s.usize()).collect()));
            other.add_rule(CfgRule::new(lhs, rhs, r.history));
        }
        if at == mine.len() && change > 1 && !mine.is_empty() {
            let r = g.rules().next().unwrap();
            theirs.push(mine[0].clone());
            other.add_rule(r.clone());
        }
        same(g, &other, &mine, &theirs, ctx)?;
    }
    // what earlier states showed, they still show
    for s in &scratch.seen {
        check!(s.g.stringify_to_bnf() == s.bnf, "kept-view", "an earlier clone showed {:?} and now shows {:?}", s.bnf, s.g.stringify_to_bnf());
    }
    if scratch.seen.len() > 4 {
        let i = rng.below(scratch.seen.len());
        scratch.seen.swap_remove(i);
    }
    named.truncate(6);
    scratch.seen.push(Seen { g: g.clone(), rules: mine, bnf: text, named });
    Ok(())
}
