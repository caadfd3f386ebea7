//! Operations clients perform on the grammars they hold, and how they are drawn.
use crate::core::*;
use crate::generator::syms;
use crate::rng::{Rng, mix};
use cfg_classify::CfgClassifyExt;
use cfg_classify::cyclical::Cycles;
use cfg_generate::weighted::Random;
use cfg_generate::weighted::random::{GenRange, Limits};
use cfg_grammar::precedenced_rule::Associativity;
use cfg_grammar::{Cfg, CfgRule};
use cfg_history::earley::History;
use cfg_history::{HistoryNodeWeight, LinkedHistoryNode, RootHistoryNode};
use cfg_sequence::destination::SequenceDestination;
use cfg_sequence::rewrite::SequencesToProductions;
use cfg_sequence::{CfgSequenceExt, Separator, Sequence};
use cfg_symbol::Symbol;
use cfg_symbol::intern::Mapping;
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::cmp::Ordering;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SeqSpec {
    pub lhs: usize,
    pub rhs: usize,
    pub start: u32,
    pub end: Option<u32>,
    /// 0 none, 1 proper, 2 trailing, 3 liberal, 4 interspersed (proper through `intersperse`)
    pub sep: u8,
    pub sep_sym: usize,
    /// 0 inclusive, 1 a..=b, 2 a..b, 3 (..b when start is 0)
    pub form: u8,
    /// keep the builder's left side and separator of the item before
    pub same: bool,
    pub origin: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PrecAlt {
    /// 0 default, 1 left, 2 right, 3 group
    pub assoc: u8,
    pub rhs: Vec<usize>,
    pub origin: u32,
    pub via: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PrecSpec {
    pub lhs: usize,
    /// tightest first
    pub levels: Vec<Vec<PrecAlt>>,
    /// plain alternatives chained behind it
    pub plain: Vec<(usize, Vec<usize>, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RemapOp {
    /// by distinct keys
    Reorder(u64),
    /// by keys with ties
    Coarse(u64),
    RemoveUnused,
    /// remap_symbols with a permutation
    Permute(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CycleOp {
    Free,
    Classify,
    Participants(bool),
    Remove,
    Rewrite,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Sym(u8),
    Next(Option<u8>),
    Lexeme(Option<u8>),
    WithNames(Vec<Option<u8>>),
    Generate(u8),
    Rule { lhs: usize, alts: Vec<(Vec<usize>, u32, Option<u32>)>, via: u8 },
    Seq { items: Vec<SeqSpec>, via: u8 },
    Prec(Vec<PrecSpec>),
    Limit(Option<usize>),
    Binarize,
    Sort,
    SortBy(u8),
    Dedup,
    Reverse,
    Retain(u64),
    Wrap,
    Roots(Vec<usize>),
    Proper(u8),
    Cycles(Vec<CycleOp>),
    Remap(Vec<RemapOp>),
    SourceRemap(u64),
    Truncate(usize),
    Extend(usize),
    Clear,
    Gen(u64),
    Query(u8, u64),
    Clone(usize),
    New(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    Panic { at: u64 },
    Nest { at: u64, who: usize, op: Box<Op> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    pub who: usize,
    pub op: Op,
    pub fault: Option<Fault>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistPlan {
    pub holders: usize,
    /// nonterminals, terminals of the first grammar
    pub nt: usize,
    pub t: usize,
    pub named: bool,
    /// (how many of the first symbols come before, how many symbols nobody mentions)
    #[serde(default)]
    pub pad: (usize, usize),
    pub rules: Vec<(usize, Vec<usize>, Option<u32>)>,
    pub roots: Vec<usize>,
    pub steps: Vec<Step>,
}

pub const NAMES: &[&str] = &["a", "b", "start", "", "g3", "root", "é", "x y", "a", "\"q\""];

// ---------------------------------------------------------------- state

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RuleDump {
    pub lhs: usize,
    pub rhs: Vec<usize>,
    pub history: History,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dump {
    pub nsyms: usize,
    pub rules: Vec<RuleDump>,
    pub roots: Vec<usize>,
    /// start, inner, end, root
    pub wrapped: Vec<[usize; 4]>,
    pub names: Vec<Option<String>>,
    pub limit: Option<usize>,
}

pub fn dump(g: &Cfg) -> Dump {
    let end = g.rule_rhs_len_allowed_range().end;
    Dump {
        nsyms: g.num_syms(),
        rules: g
            .rules()
            .map(|r| RuleDump { lhs: r.lhs.usize(), rhs: r.rhs.iter().map(|s| s.usize()).collect(), history: r.history })
            .collect(),
        roots: g.roots().iter().map(|s| s.usize()).collect(),
        wrapped: g
            .wrapped_roots()
            .iter()
            .map(|w| [w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize(), w.root.usize()])
            .collect(),
        names: g.sym_source().names().iter().map(|n| n.as_ref().map(|n| n.to_string())).collect(),
        limit: if end == usize::MAX { None } else { Some(end) },
    }
}

impl Dump {
    pub fn plain(&self) -> crate::lang::Rules {
        self.rules.iter().map(|r| (r.lhs, r.rhs.clone())).collect()
    }
    pub fn hash(&self) -> u64 {
        let mut h = FNV0;
        h = fnv(h, &(self.nsyms as u64).to_le_bytes());
        for r in &self.rules {
            h = fnv(h, &[255, r.lhs as u8]);
            for &s in &r.rhs {
                h = fnv(h, &[s as u8]);
            }
            h = fnv(h, &r.history.origin.id.to_le_bytes());
        }
        for &r in &self.roots {
            h = fnv(h, &[254, r as u8]);
        }
        h
    }
    pub fn short(&self) -> String {
        let rules: Vec<String> = self
            .rules
            .iter()
            .map(|r| {
                let o = if r.history.origin.is_null() { "-".to_string() } else { r.history.origin.id.to_string() };
                format!("{}::={:?}#{}", r.lhs, r.rhs, o)
            })
            .collect();
        format!("[{} syms; {}; roots {:?}]", self.nsyms, rules.join(" "), self.roots)
    }
}

/// What differs between two observed states.
pub fn diff(a: &Dump, b: &Dump) -> Option<String> {
    if a == b {
        return None;
    }
    let mut out = vec![];
    if a.nsyms != b.nsyms {
        out.push(format!("{} vs {} symbols", a.nsyms, b.nsyms));
    }
    if a.rules != b.rules {
        let i = a.rules.iter().zip(&b.rules).take_while(|(x, y)| x == y).count();
        out.push(format!(
            "rules ({} vs {}) differ from number {i}: {:?} vs {:?}",
            a.rules.len(),
            b.rules.len(),
            a.rules.get(i),
            b.rules.get(i)
        ));
    }
    if a.roots != b.roots {
        out.push(format!("roots {:?} vs {:?}", a.roots, b.roots));
    }
    if a.wrapped != b.wrapped {
        out.push(format!("wrapped roots {:?} vs {:?}", a.wrapped, b.wrapped));
    }
    if a.names != b.names {
        out.push(format!("names {:?} vs {:?}", a.names, b.names));
    }
    if a.limit != b.limit {
        out.push(format!("length limit {:?} vs {:?}", a.limit, b.limit));
    }
    Some(out.join("; "))
}

/// A grammar with the same observable state, built from nothing.
pub fn rebuild(d: &Dump) -> Cfg {
    let mut g = Cfg::new();
    let mut s: Vec<Symbol> = vec![];
    for i in 0..d.nsyms {
        s.push(g.next_sym(d.names.get(i).cloned().flatten().map(Cow::Owned)));
    }
    if d.limit.is_some() {
        g.limit_rhs_len(d.limit);
    }
    for r in &d.rules {
        g.add_rule(CfgRule::new(s[r.lhs], r.rhs.iter().map(|&x| s[x]).collect::<Vec<_>>(), r.history));
    }
    g.set_roots(d.roots.iter().map(|&x| s[x]).collect::<Vec<_>>());
    let w: Vec<cfg_grammar::WrappedRoot> = d
        .wrapped
        .iter()
        .map(|w| cfg_grammar::WrappedRoot {
            start_of_input: s[w[0]],
            inner_root: s[w[1]],
            end_of_input: s[w[2]],
            root: s[w[3]],
        })
        .collect();
    g.set_wrapped_roots(&w);
    g
}

pub fn origin_history(origin: u32, weight: Option<u32>) -> History {
    let h: History = RootHistoryNode::Origin { origin: origin as usize }.into();
    match weight {
        None => h,
        Some(w) => HistoryNodeWeight { prev: h, weight: w as f64 / 1000.0 + 1e-7 }.into(),
    }
}

/// The history given to a sequence: every third one is weighted.
pub fn seq_history(origin: u32) -> History {
    origin_history(origin, if origin % 3 == 0 { Some(origin % 90 + 1) } else { None })
}

/// The history of a precedenced alternative; one in three is added without any.
pub fn alt_history(a: &PrecAlt) -> History {
    if a.via % 3 == 2 {
        History::new(0)
    } else {
        seq_history(a.origin)
    }
}

thread_local! {
    static PAD: std::cell::Cell<(usize, usize)> = const { std::cell::Cell::new((0, 0)) };
}

/// How many symbols no rule of the plan uses.
pub fn padding() -> usize {
    PAD.get().1
}

/// The number of the symbol a plan calls `i`, in a grammar of `n` symbols.
pub fn place(i: usize, n: usize) -> usize {
    let (split, pad) = PAD.get();
    if i < split { i % n } else { (i + pad) % n }
}

pub fn initial(plan: &HistPlan) -> Cfg {
    PAD.set((plan.pad.0, plan.pad.1.min(300)));
    let mut g = Cfg::new();
    let n = plan.nt + plan.t;
    let mut s = vec![];
    for i in 0..n {
        if i == plan.pad.0 {
            for _ in 0..PAD.get().1 {
                g.next_sym(None);
            }
        }
        let name = if plan.named { Some(Cow::Owned(format!("s{i}"))) } else { None };
        s.push(g.next_sym(name));
    }
    for (i, (l, r, w)) in plan.rules.iter().enumerate() {
        let rhs: Vec<Symbol> = r.iter().map(|&x| s[x % n]).collect();
        g.rule(s[*l % n]).history(origin_history(i as u32 + 1, *w)).rhs(rhs);
    }
    g.set_roots(plan.roots.iter().map(|&x| s[x % n]).collect::<Vec<_>>());
    g
}

// ---------------------------------------------------------------- applying

/// What an operation returned.
pub enum Ret {
    None,
    Syms(Vec<usize>),
    Parts(Vec<u32>),
    Nulling(Cfg),
    Mapping(Mapping, Vec<bool>),
    Bool(bool),
    Text(String),
    Cycles(Vec<CycleAnswer>),
}

pub enum CycleAnswer {
    Free(bool),
    /// the rules it reported, with its flag
    Rules(Vec<(usize, Vec<usize>, bool)>),
    Mutated(CycleOp),
    Participants(bool, Vec<(usize, Vec<usize>)>),
}

/// Called at every callback invocation; may throw or run other operations.
pub type Tick<'a> = &'a RefCell<dyn FnMut() + 'a>;

/// The bounds of a sequence, said with exclusive ones where possible.
fn bounds(it: &SeqSpec) -> (std::ops::Bound<u32>, std::ops::Bound<u32>) {
    use std::ops::Bound::*;
    (
        if it.start > 0 { Excluded(it.start - 1) } else { Unbounded },
        match it.end {
            Some(e) => Excluded(e + 1),
            None => Unbounded,
        },
    )
}

pub fn no_tick() {}

pub fn permutation(seed: u64, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    Rng::new(seed).shuffle(&mut p);
    p
}
pub fn key(seed: u64, i: usize) -> u64 {
    mix(seed ^ mix(i as u64 + 1))
}
pub fn coarse(seed: u64, i: usize) -> u64 {
    key(seed, i) % 3
}

pub fn keep(mask: u64, lhs: usize, rhs: &[usize]) -> bool {
    let h = fnv(fnv(FNV0, &[lhs as u8]), &rhs.iter().map(|&x| x as u8).collect::<Vec<_>>());
    mask >> (mix(h) % 64) & 1 == 1
}

pub fn compare(kind: u8, a: &CfgRule, b: &CfgRule) -> Ordering {
    match kind % 4 {
        0 => a.rhs.len().cmp(&b.rhs.len()),
        1 => b.lhs.cmp(&a.lhs),
        2 => a.history.origin.id.cmp(&b.history.origin.id),
        _ => (b.rhs.len(), b.lhs).cmp(&(a.rhs.len(), a.lhs)),
    }
}

fn sep_of(spec: &SeqSpec, s: &dyn Fn(usize) -> Symbol) -> Separator {
    match spec.sep {
        1 | 4 => Separator::Proper(s(spec.sep_sym)),
        2 => Separator::Trailing(s(spec.sep_sym)),
        3 => Separator::Liberal(s(spec.sep_sym)),
        _ => Separator::Null,
    }
}

pub fn name(i: u8) -> &'static str {
    NAMES[i as usize % NAMES.len()]
}

/// Deterministic entropy for the generation operation.
#[derive(Clone)]
pub struct GenSrc {
    pub seed: u64,
    pub at: u64,
}
impl GenRange for GenSrc {
    fn generate(&mut self, limit: f64) -> f64 {
        self.at += 1;
        if self.at > 3000 {
            throw_cut();
        }
        (mix(self.seed ^ self.at) >> 11) as f64 / (1u64 << 53) as f64 * limit
    }
    fn mutate_start(&mut self, n: u64) {
        self.seed = mix(self.seed ^ n);
    }
}

/// Whether generation from `start` could go on forever without drawing entropy: a cycle through
/// symbols with a single alternative.
pub fn deterministic_loop(d: &Dump, start: usize) -> bool {
    let single: Vec<Option<usize>> = (0..d.nsyms)
        .map(|s| {
            let mut it = d.rules.iter().enumerate().filter(|(_, r)| r.lhs == s);
            match (it.next(), it.next()) {
                (Some((k, _)), None) => Some(k),
                _ => None,
            }
        })
        .collect();
    let close = |from: Vec<usize>, only_single: bool| {
        let mut seen = vec![false; d.nsyms];
        let mut todo = from;
        while let Some(s) = todo.pop() {
            for (k, r) in d.rules.iter().enumerate() {
                if r.lhs == s && (!only_single || single[s] == Some(k)) {
                    for &x in &r.rhs {
                        if !seen[x] {
                            seen[x] = true;
                            todo.push(x);
                        }
                    }
                }
            }
        }
        seen
    };
    if start >= d.nsyms {
        return false;
    }
    let mut reach = close(vec![start], false);
    reach[start] = true;
    (0..d.nsyms).any(|s| reach[s] && single[s].is_some() && close(vec![s], true)[s])
}

/// Applies an operation of the workload to real code. `other` is the grammar an Extend reads.
pub fn apply(g: &mut Cfg, op: &Op, other: Option<&Cfg>, tick: Tick) -> Ret {
    let n = g.num_syms().max(1);
    let all = syms(n);
    let s = |i: usize| all[place(i, n)];
    let t = || (tick.borrow_mut())();
    match op {
        Op::Sym(k) => {
            let mut out = vec![];
            match SYMS[*k as usize % SYMS.len()] {
                0 => out.extend(g.sym::<0>()),
                1 => out.extend(g.sym::<1>()),
                2 => out.extend(g.sym::<2>()),
                3 => out.extend(g.sym::<3>()),
                9 => out.extend(g.sym::<9>()),
                17 => out.extend(g.sym::<17>()),
                _ => out.extend(g.sym::<40>()),
            }
            Ret::Syms(out.iter().map(|s| s.usize()).collect())
        }
        Op::Next(nm) => Ret::Syms(vec![g.next_sym(nm.map(|i| Cow::Borrowed(name(i)))).usize()]),
        Op::Lexeme(nm) => Ret::Syms(vec![g.lexeme(nm.map(|i| Cow::Borrowed(name(i)))).usize()]),
        Op::WithNames(ns) => {
            let nm = |i: usize| ns.get(i).copied().flatten().map(name);
            let out: Vec<Symbol> = match ns.len() {
                0 => vec![],
                1 => g.sym_source_mut().with_names([nm(0)]).to_vec(),
                2 => g.sym_source_mut().with_names([nm(0), nm(1)]).to_vec(),
                3 => g.sym_source_mut().with_names([nm(0), nm(1), nm(2)]).to_vec(),
                _ => g.sym_source_mut().with_names(std::array::from_fn::<_, 8, _>(nm)).to_vec(),
            };
            Ret::Syms(out.iter().map(|s| s.usize()).collect())
        }
        Op::Generate(k) => {
            let out: Vec<usize> = g.sym_source_mut().generate().take(*k as usize % 71).map(|s| s.usize()).collect();
            Ret::Syms(out)
        }
        Op::Rule { lhs, alts, via } => {
            let lhs = s(*lhs);
            let mut parts = vec![];
            match via % 3 {
                0 => {
                    for (rhs, origin, w) in alts {
                        let rhs: Vec<Symbol> = rhs.iter().map(|&x| s(x)).collect();
                        parts.push(g.add_rule(CfgRule::new(lhs, rhs, origin_history(*origin, *w))));
                    }
                }
                1 => {
                    let mut b = g.rule(lhs);
                    for (rhs, origin, w) in alts {
                        let rhs: Vec<Symbol> = rhs.iter().map(|&x| s(x)).collect();
                        // no origin and no weight is spelled by saying nothing
                        if *origin != 0 || w.is_some() {
                            b = b.history(origin_history(*origin, *w));
                        }
                        b = b.rhs(rhs);
                    }
                }
                _ => {
                    let mut b = g.rule(lhs);
                    for (rhs, origin, w) in alts {
                        let rhs: Vec<Symbol> = rhs.iter().map(|&x| s(x)).collect();
                        b = match w {
                            Some(w) if *origin == 0 => b.rhs_with_linked_history(
                                rhs,
                                LinkedHistoryNode::Weight { weight: *w as f64 / 1000.0 + 1e-7 },
                            ),
                            _ => b.rhs_with_history(rhs, origin_history(*origin, *w)),
                        };
                    }
                }
            }
            Ret::Parts(parts)
        }
        Op::Seq { items, via } => {
            let mut specs: Vec<Sequence> = vec![];
            match via % 3 {
                0 => {
                    let mut b: Option<_> = None;
                    let mut b0 = Some(g.sequence(s(items.first().map_or(0, |i| i.lhs))));
                    for (k, it) in items.iter().enumerate() {
                        let mut cur = if k == 0 { b0.take().unwrap() } else { b.take().unwrap() };
                        if k == 0 || !it.same {
                            cur = cur.sequence(s(it.lhs));
                            // a new sequence starts without a separator: none is spelled by saying nothing
                            cur = match sep_of(it, &s) {
                                Separator::Null if it.form % 2 == 0 => cur,
                                _ if it.sep == 4 => cur.intersperse(s(it.sep_sym)),
                                sep => cur.separator(sep),
                            };
                        }
                        let h = it.origin.map(seq_history);
                        if let (Some(h), true) = (h, it.form % 8 != 7) {
                            cur = cur.history(h);
                        }
                        let r = s(it.rhs);
                        cur = match (it.form % 8, it.end) {
                            (1, Some(e)) => cur.rhs_with_range(r, it.start..=e),
                            (2, Some(e)) => cur.range(it.start..e + 1).rhs(r),
                            (3, Some(e)) if it.start == 0 => cur.rhs_with_range(r, ..e + 1),
                            (4, Some(e)) if it.start == 0 => cur.range(..=e).rhs(r),
                            (3..=5, None) if it.start == 0 => cur.rhs_with_range(r, ..),
                            (5..=6, _) => cur.rhs_with_range(r, bounds(it)),
                            (1..=4, None) => cur.rhs_with_range(r, it.start..),
                            (7, _) => cur.inclusive(it.start, it.end).rhs_with_history(r, h),
                            _ => cur.inclusive(it.start, it.end).rhs(r),
                        };
                        b = Some(cur);
                    }
                }
                v => {
                    // through a list of sequences and one rewriter
                    for it in items {
                        let mut q = Sequence {
                            lhs: s(it.lhs),
                            rhs: s(it.rhs),
                            start: it.start,
                            end: it.end,
                            separator: sep_of(it, &s),
                            history: it.origin.map(seq_history),
                        };
                        if it.form % 8 > 3 {
                            // the same, said with the methods of the sequence itself
                            let sep = q.separator;
                            q.start = 7;
                            q.end = Some(3);
                            q.separator = Separator::Trailing(q.rhs);
                            q = q.separator(sep);
                            q = match (it.form % 8, it.end) {
                                (4, Some(e)) if it.start == 0 => q.range(..=e),
                                (5, Some(e)) if it.start == 0 => q.range(..e + 1),
                                (4 | 5, None) if it.start == 0 => q.range(..),
                                (4, Some(e)) => q.range(it.start..=e),
                                (5, Some(e)) => q.range(it.start..e + 1),
                                (4 | 5, None) => q.range(it.start..),
                                (6, _) => q.range(bounds(it)),
                                _ => q.inclusive(it.start, it.end),
                            };
                        }
                        specs.push(q);
                    }
                    if v == 2 {
                        // the list itself built with the builder
                        let copy = std::mem::take(&mut specs);
                        let first = copy.first().map_or(s(0), |q| q.lhs);
                        let mut b = (&mut specs).sequence(first);
                        for q in copy {
                            b = b.sequence(q.lhs);
                            if !matches!(q.separator, Separator::Null) {
                                b = b.separator(q.separator);
                            }
                            b = match q.history {
                                Some(h) if q.start % 2 == 0 => b.inclusive(q.start, q.end).history(h).rhs(q.rhs),
                                h => b.inclusive(q.start, q.end).rhs_with_history(q.rhs, h),
                            };
                        }
                        drop(b);
                    }
                    let mut rw = SequencesToProductions::new(g);
                    for q in specs {
                        rw.rewrite(q);
                    }
                }
            }
            Ret::None
        }
        Op::Prec(items) => {
            // one chain of builders for all of them
            enum At<'a> {
                Rule(cfg_grammar::rule_builder::RuleBuilder<'a>),
                Prec(cfg_grammar::precedenced_rule::PrecedencedRuleBuilder<'a>),
            }
            let mut at = At::Rule(cfg_grammar::rule_builder::RuleBuilder::new(g));
            for it in items {
                let lhs = s(it.lhs);
                let mut b = match at {
                    At::Rule(r) => r.precedenced_rule(lhs),
                    At::Prec(p) => p.precedenced_rule(lhs),
                };
                for (k, level) in it.levels.iter().enumerate() {
                    if k > 0 {
                        b = b.lower_precedence();
                    }
                    for alt in level {
                        b = match alt.assoc {
                            1 => b.associativity(Associativity::Left),
                            2 => b.associativity(Associativity::Right),
                            3 => b.associativity(Associativity::Group),
                            _ => b,
                        };
                        let rhs: Vec<Symbol> = alt.rhs.iter().map(|&x| s(x)).collect();
                        let h = alt_history(alt);
                        b = match alt.via % 3 {
                            0 => b.history(h).rhs(rhs),
                            1 => b.rhs_with_history(rhs, h),
                            _ => b.rhs(rhs),
                        };
                    }
                }
                at = At::Prec(b);
                for (lhs, rhs, o) in &it.plain {
                    let rhs: Vec<Symbol> = rhs.iter().map(|&x| s(x)).collect();
                    let r = match at {
                        At::Rule(r) => r.rule(s(*lhs)),
                        At::Prec(p) => p.rule(s(*lhs)),
                    };
                    at = At::Rule(r.rhs_with_history(rhs, seq_history(*o)));
                }
            }
            if let At::Prec(p) = at {
                let _ = p.finalize();
            }
            Ret::None
        }
        Op::Limit(l) => {
            g.limit_rhs_len(l.map(|l| l.clamp(2, 64)));
            Ret::None
        }
        Op::Binarize => Ret::Nulling(g.binarize_and_eliminate_nulling_rules()),
        Op::Sort => {
            g.sort();
            Ret::None
        }
        Op::SortBy(k) => {
            g.sort_by(|a, b| {
                t();
                compare(*k, a, b)
            });
            Ret::None
        }
        Op::Dedup => {
            g.dedup();
            Ret::None
        }
        Op::Reverse => {
            g.reverse();
            Ret::None
        }
        Op::Retain(mask) => {
            g.retain(|r| {
                t();
                keep(*mask, r.lhs.usize(), &r.rhs.iter().map(|s| s.usize()).collect::<Vec<_>>())
            });
            Ret::None
        }
        Op::Wrap => {
            g.wrap_input();
            Ret::None
        }
        Op::Roots(rs) => {
            g.set_roots(rs.iter().map(|&x| s(x)).collect::<Vec<_>>());
            Ret::None
        }
        Op::Proper(k) => match k % 3 {
            0 => Ret::Bool(g.make_proper()),
            1 => {
                let u = g.usefulness();
                u.remove_useless_rules(g);
                Ret::None
            }
            _ => {
                let roots = g.roots().to_vec();
                let u = g.usefulness_with_roots(&roots);
                u.remove_useless_rules(g);
                Ret::None
            }
        },
        Op::Cycles(ops) => {
            let mut out = vec![];
            let mut c = Cycles::new(g);
            for o in ops {
                match o {
                    CycleOp::Free => out.push(CycleAnswer::Free(c.cycle_free())),
                    CycleOp::Classify => out.push(CycleAnswer::Rules(
                        c.classify()
                            .map(|(r, f)| (r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect(), f))
                            .collect(),
                    )),
                    CycleOp::Participants(b) => out.push(CycleAnswer::Participants(
                        *b,
                        c.cycle_participants(*b)
                            .map(|r| (r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect()))
                            .collect(),
                    )),
                    CycleOp::Remove => {
                        c.remove_cycles();
                        out.push(CycleAnswer::Mutated(o.clone()));
                    }
                    CycleOp::Rewrite => {
                        c.rewrite_cycles();
                        out.push(CycleAnswer::Mutated(o.clone()));
                    }
                }
            }
            Ret::Cycles(out)
        }
        Op::Remap(ops) => {
            let mut done = vec![];
            let mut r = g.remap();
            for o in ops {
                let res = run(|| match o {
                    RemapOp::Reorder(seed) => r.reorder_symbols(|a, b| {
                        t();
                        key(*seed, a.usize()).cmp(&key(*seed, b.usize()))
                    }),
                    RemapOp::Coarse(seed) => r.reorder_symbols(|a, b| {
                        t();
                        coarse(*seed, a.usize()).cmp(&coarse(*seed, b.usize()))
                    }),
                    RemapOp::RemoveUnused => r.remove_unused_symbols(),
                    RemapOp::Permute(seed) => {
                        let p = permutation(*seed, n);
                        r.remap_symbols(|x| {
                            t();
                            all[p[x.usize()]]
                        })
                    }
                });
                match res {
                    Outcome::Done(()) => done.push(true),
                    Outcome::Injected => done.push(false),
                    Outcome::Cut => throw_cut(),
                    Outcome::Panicked(m) => std::panic::resume_unwind(Box::new(format!("remap: {m}"))),
                }
            }
            Ret::Mapping(r.get_mapping(), done)
        }
        Op::SourceRemap(seed) => {
            let p = permutation(*seed, n);
            g.sym_source_mut().remap_symbols(|x| {
                t();
                all[p[x.usize()]]
            });
            Ret::None
        }
        Op::Truncate(k) => {
            g.sym_source_mut().truncate((*k).max(1));
            Ret::None
        }
        Op::Extend(_) => {
            if let Some(o) = other {
                g.extend(o);
            }
            Ret::None
        }
        Op::Clear => {
            g.clear_rules();
            Ret::None
        }
        Op::Gen(seed) => {
            let Some(&start) = g.roots().first() else { return Ret::None };
            if deterministic_loop(&dump(g), start.usize()) {
                return Ret::None;
            }
            let mut src = GenSrc { seed: *seed, at: 0 };
            let r = g.random(
                start,
                Some(Limits { terminals: 40, negative_rule_attempts: 3 }),
                &mut src,
                &[],
                |_sym, _rng| {
                    t();
                    Some('x')
                },
            );
            Ret::Text(format!("{r:?} {}", src.at))
        }
        Op::Query(k, seed) => Ret::Text(crate::query::answer(g, *k, *seed)),
        Op::Clone(_) | Op::New(_) => Ret::None,
    }
}

/// How many symbols `Op::Sym` asks for at once.
pub const SYMS: [usize; 7] = [0, 1, 2, 3, 9, 17, 40];

// ---------------------------------------------------------------- drawing

/// Weights of the kinds of operation, per property.
pub fn draw_op(prop: &str, rng: &mut Rng, base: usize, nt: usize, holders: usize, origin: &mut u32) -> Op {
    #[rustfmt::skip]
    let kinds: &[(&str, usize)] = match prop {
        "C09" => &[("sym", 4), ("rule", 10), ("seq", 3), ("prec", 2), ("limit", 4), ("bin", 2), ("sort", 3), ("sortby", 4), ("dedup", 2), ("reverse", 5), ("retain", 4), ("wrap", 3), ("roots", 2), ("proper", 2), ("cycles", 2), ("remap", 5), ("sremap", 2), ("extend", 4), ("clear", 1), ("gen", 1), ("clone", 9), ("new", 1), ("query", 2), ("trunc", 1)],
        "C10" => &[("sym", 2), ("rule", 6), ("seq", 1), ("limit", 3), ("sort", 1), ("sortby", 8), ("retain", 8), ("wrap", 3), ("roots", 1), ("remap", 16), ("sremap", 5), ("gen", 3), ("bin", 1), ("reverse", 1), ("query", 2), ("proper", 1)],
        "C11" => &[("sym", 1), ("rule", 10), ("seq", 6), ("prec", 4), ("limit", 7), ("bin", 2), ("sort", 1), ("reverse", 1), ("retain", 1), ("wrap", 4), ("roots", 1), ("proper", 1), ("cycles", 2), ("remap", 2), ("extend", 6), ("clone", 3), ("clear", 2), ("dedup", 1), ("sortby", 1)],
        "C12" => &[("sym", 14), ("rule", 4), ("seq", 3), ("prec", 2), ("limit", 3), ("bin", 2), ("wrap", 3), ("remap", 5), ("sremap", 3), ("clone", 3), ("trunc", 4), ("proper", 1), ("query", 1), ("cycles", 1), ("roots", 1), ("clear", 1)],
        "C13" => &[("sym", 3), ("rule", 5), ("seq", 1), ("limit", 2), ("retain", 4), ("wrap", 3), ("roots", 3), ("remap", 18), ("proper", 2), ("bin", 1), ("clear", 1), ("cycles", 1)],
        "C14" => &[("sym", 1), ("rule", 8), ("limit", 8), ("bin", 4), ("sort", 2), ("sortby", 3), ("dedup", 3), ("reverse", 3), ("retain", 2), ("wrap", 3), ("roots", 1), ("proper", 3), ("cycles", 4), ("remap", 4), ("extend", 2), ("clone", 1), ("seq", 3), ("prec", 3)],
        "C15" => &[("sym", 1), ("rule", 9), ("limit", 8), ("sort", 2), ("sortby", 3), ("dedup", 4), ("reverse", 5), ("retain", 2), ("wrap", 4), ("roots", 2), ("proper", 6), ("extend", 3), ("clone", 1), ("seq", 1), ("prec", 1), ("bin", 1), ("remap", 1), ("cycles", 1)],
        "C16" => &[("rule", 8), ("limit", 2), ("bin", 10), ("reverse", 1), ("retain", 1), ("wrap", 2), ("roots", 1), ("proper", 1), ("extend", 1), ("seq", 2), ("sort", 1), ("sortby", 1), ("retain", 1), ("remap", 1)],
        "C17" => &[("rule", 8), ("unit", 8), ("cycles", 12), ("limit", 2), ("reverse", 1), ("retain", 2), ("wrap", 2), ("roots", 3), ("proper", 1), ("seq", 1), ("bin", 1), ("sort", 1), ("sortby", 1), ("remap", 1)],
        "C18" => &[("rule", 4), ("seq", 12), ("prec", 10), ("limit", 4), ("retain", 1), ("sym", 1), ("bin", 1), ("roots", 1), ("sort", 1), ("sortby", 1), ("remap", 1)],
        "C19" => &[("sym", 1), ("rule", 5), ("unit", 1), ("seq", 12), ("prec", 2), ("limit", 3), ("bin", 2), ("sort", 1), ("sortby", 1), ("dedup", 1), ("reverse", 1), ("retain", 1), ("wrap", 3), ("roots", 2), ("proper", 2), ("cycles", 4), ("remap", 4), ("gen", 3), ("query", 4)],
        "C21" | "C22" | "C23" | "C24" | "C25" | "C27" => &[("sym", 2), ("rule", 8), ("unit", 2), ("seq", 1), ("prec", 1), ("limit", 2), ("bin", 1), ("sort", 1), ("sortby", 2), ("dedup", 1), ("reverse", 3), ("retain", 4), ("wrap", 2), ("roots", 4), ("proper", 2), ("cycles", 1), ("remap", 2), ("extend", 1), ("query", 3), ("clone", 2), ("trunc", 1), ("clear", 1)],
        _ => &[("sym", 2), ("rule", 6), ("unit", 2), ("seq", 2), ("prec", 1), ("limit", 2), ("bin", 2), ("sort", 1), ("reverse", 1), ("retain", 2), ("wrap", 2), ("roots", 2), ("proper", 2), ("cycles", 1), ("remap", 2), ("extend", 1), ("query", 14), ("clone", 1), ("trunc", 1), ("clear", 1)],
    };
    let ws: Vec<usize> = kinds.iter().map(|k| k.1).collect();
    let lhs = |rng: &mut Rng| if rng.chance(92) { rng.below(nt.max(1)) } else { rng.below(base + 4) };
    let any = |rng: &mut Rng| if rng.chance(94) { rng.below(base.max(1)) } else { rng.below(base + 12) };
    let term = |rng: &mut Rng| nt + rng.below((base - nt).max(1));
    let nm = |rng: &mut Rng| if rng.chance(60) { Some(rng.below(NAMES.len()) as u8) } else { None };
    match kinds[rng.weighted(&ws)].0 {
        "sym" => match rng.below(5) {
            0 => Op::Sym(if rng.chance(4) { rng.below(SYMS.len()) } else { rng.below(4) } as u8),
            1 => Op::Next(nm(rng)),
            2 => Op::Lexeme(nm(rng)),
            3 => {
                let k = if rng.chance(5) { 8 } else { rng.range(1, 3) };
                Op::WithNames((0..k).map(|_| nm(rng)).collect())
            }
            _ => Op::Generate(if rng.chance(92) { rng.below(5) } else { rng.range(20, 70) } as u8),
        },
        "rule" => {
            let l = lhs(rng);
            let k = if rng.chance(2) { rng.range(3, 12) } else { rng.weighted(&[0, 6, 2]) };
            let long = matches!(prop, "C11" | "C14" | "C15");
            let mut alts: Vec<(Vec<usize>, u32, Option<u32>)> = (0..k)
                .map(|_| {
                    let mut n = rng.weighted(if long { &[2, 4, 5, 5, 4, 3, 2, 1] } else { &[3, 5, 6, 3, 1, 1] });
                    if rng.chance(2) {
                        n = rng.range(8, if matches!(prop, "C11" | "C12" | "C13" | "C14") { 40 } else { 14 });
                    }
                    *origin += 1;
                    let w = if rng.chance(25) { Some(rng.range(1, 5000) as u32) } else { None };
                    let o = if rng.chance(7) { 0 } else { *origin };
                    ((0..n).map(|_| any(rng)).collect(), o, w)
                })
                .collect();
            // the same right-hand side again
            if let Some(a) = alts.last().cloned() {
                if rng.chance(12) {
                    *origin += 1;
                    let w = if rng.chance(40) { Some(rng.range(1, 5000) as u32) } else { None };
                    alts.push((a.0, *origin, w));
                }
            }
            Op::Rule { lhs: l, alts, via: rng.below(3) as u8 }
        }
        "unit" => {
            *origin += 1;
            Op::Rule { lhs: rng.below(nt.max(1)), alts: vec![(vec![rng.below(nt.max(1))], *origin, None)], via: 0 }
        }
        "seq" => {
            let k = rng.weighted(&[0, 6, 3, 1]);
            let items = (0..k)
                .map(|_| {
                    let mut start = *rng.pick(&[0, 0, 1, 1, 2, 3, 4, 5, 6]);
                    if rng.chance(4) {
                        start = rng.range(7, 24) as u32;
                    }
                    let end = match rng.below(3) {
                        0 => None,
                        1 => Some(start),
                        _ if rng.chance(5) => Some(start + rng.range(7, 40) as u32),
                        _ => Some(start + rng.below(7) as u32),
                    };
                    *origin += 1;
                    SeqSpec {
                        lhs: lhs(rng),
                        rhs: if rng.chance(70) { term(rng) } else { any(rng) },
                        start,
                        end,
                        sep: rng.below(5) as u8,
                        sep_sym: if rng.chance(85) { term(rng) } else { any(rng) },
                        form: rng.below(8) as u8,
                        same: rng.chance(30),
                        origin: if rng.chance(40) { Some(*origin) } else { None },
                    }
                })
                .collect();
            Op::Seq { items, via: rng.below(3) as u8 }
        }
        "prec" => {
            let k = rng.weighted(&[0, 5, 2]);
            let items = (0..k)
                .map(|_| {
                    let l = lhs(rng);
                    let nl = if rng.chance(6) { rng.range(4, 7) } else { rng.range(1, 3) };
                    let levels = (0..nl)
                        .map(|_| {
                            let na = if rng.chance(3) { rng.range(4, 7) } else { rng.weighted(&[1, 5, 4, 1]) };
                            (0..na)
                                .map(|_| {
                                    *origin += 1;
                                    let op = term(rng);
                                    let op2 = term(rng);
                                    let mut rhs = match rng.below(9) {
                                        0 | 1 | 2 => vec![l, op, l],
                                        3 => vec![op, l],
                                        4 => vec![l, op],
                                        5 => vec![op, l, op2],
                                        6 => vec![op],
                                        7 => vec![l, op, l, op2, l],
                                        _ => vec![op, l, l],
                                    };
                                    // any mixture
                                    if rng.chance(8) {
                                        rhs = (0..rng.below(7))
                                            .map(|_| if rng.chance(45) { l } else if rng.chance(80) { term(rng) } else { any(rng) })
                                            .collect();
                                    }
                                    PrecAlt { assoc: rng.below(4) as u8, rhs, origin: *origin, via: rng.weighted(&[4, 4, 1]) as u8 }
                                })
                                .collect()
                        })
                        .collect();
                    let plain = (0..rng.weighted(&[3, 1]))
                        .map(|_| {
                            *origin += 1;
                            (lhs(rng), vec![term(rng)], *origin)
                        })
                        .collect();
                    PrecSpec { lhs: l, levels, plain }
                })
                .collect();
            Op::Prec(items)
        }
        "limit" if rng.chance(4) => Op::Limit(Some(rng.range(6, 20))),
        "limit" => Op::Limit(*rng.pick(&[None, Some(2), Some(2), Some(2), Some(3), Some(3), Some(4), Some(5)])),
        "bin" => Op::Binarize,
        "sort" => Op::Sort,
        "sortby" => Op::SortBy(rng.below(4) as u8),
        "dedup" => Op::Dedup,
        "reverse" => Op::Reverse,
        "retain" => Op::Retain(rng.u64() | rng.u64() | rng.u64()),
        "wrap" => Op::Wrap,
        "roots" => {
            let k = rng.weighted(&[1, 5, 3]);
            Op::Roots((0..k).map(|_| if rng.chance(85) { rng.below(nt.max(1)) } else { any(rng) }).collect())
        }
        "proper" => Op::Proper(rng.below(3) as u8),
        "cycles" => {
            let mut v = vec![];
            let ask = |rng: &mut Rng, v: &mut Vec<CycleOp>| {
                for _ in 0..rng.below(3) {
                    v.push(match rng.below(4) {
                        0 | 1 => CycleOp::Free,
                        2 => CycleOp::Classify,
                        _ => CycleOp::Participants(rng.chance(50)),
                    });
                }
            };
            ask(rng, &mut v);
            for _ in 0..rng.weighted(&[1, 8, 2]) {
                v.push(if rng.chance(60) { CycleOp::Rewrite } else { CycleOp::Remove });
                ask(rng, &mut v);
            }
            Op::Cycles(v)
        }
        "remap" => {
            let k = rng.range(1, 3);
            if rng.chance(if prop == "C10" { 45 } else { 25 }) {
                Op::Remap((0..k).map(|_| RemapOp::Permute(rng.u64())).collect())
            } else {
                Op::Remap(
                    (0..k)
                        .map(|_| match rng.below(if prop == "C13" { 4 } else { 5 }) {
                            0 | 1 => RemapOp::RemoveUnused,
                            2 => RemapOp::Coarse(rng.u64()),
                            _ => RemapOp::Reorder(rng.u64()),
                        })
                        .collect(),
                )
            }
        }
        "sremap" => Op::SourceRemap(rng.u64()),
        "trunc" => Op::Truncate(rng.below(base + 12)),
        "extend" => Op::Extend(rng.below(holders)),
        "clear" => Op::Clear,
        "gen" => Op::Gen(rng.u64()),
        "clone" => Op::Clone(rng.below(holders)),
        "new" => Op::New(rng.below(holders)),
        _ => Op::Query(rng.below(crate::query::KINDS as usize) as u8, rng.u64()),
    }
}

pub fn has_callback(op: &Op) -> bool {
    match op {
        Op::SortBy(_) | Op::Retain(_) | Op::SourceRemap(_) | Op::Gen(_) => true,
        Op::Remap(v) => v.iter().any(|o| !matches!(o, RemapOp::RemoveUnused)),
        _ => false,
    }
}

pub fn generate(prop: &str, rng: &mut Rng) -> HistPlan {
    let lang = matches!(prop, "C15" | "C16" | "C17" | "C18");
    let exact = crate::exact::PROPS.contains(&prop);
    // now and then a grammar whose rules and symbols do not fit in a machine word
    let wide = if exact { rng.chance(2) } else { !lang && rng.chance(3) };
    // and now and then a grammar in which everything hangs on one long chain
    let deep = !wide && rng.chance(4);
    let (nt, t) = if wide {
        (rng.range(12, 26), rng.range(4, 14))
    } else if deep {
        (rng.range(6, 20), rng.range(1, 3))
    } else {
        (
            // and now and then longer chains and cycles
            if lang && prop != "C18" && rng.chance(6) {
                rng.range(5, 8)
            } else {
                rng.range(if prop == "C17" || exact { 2 } else { 1 }, if lang { 4 } else if exact { 6 } else { 5 })
            },
            rng.range(1, if lang { 3 } else if exact { 5 } else { 4 }),
        )
    };
    let base = nt + t;
    let holders = match prop {
        "C09" => rng.range(2, 4),
        "C10" | "C11" | "C12" | "C15" | "C16" | "C20" | "C14" => rng.range(1, 2),
        _ if exact => rng.range(1, 2),
        _ => 1,
    };
    let mut origin = 100;
    let nr = if wide { rng.range(30, 75) } else if deep { rng.range(0, 5) } else { if nt > 6 { rng.range(6, 14) } else { rng.range(if lang { 1 } else { 0 }, if lang { 7 } else { 8 }) } };
    let nullable = if prop == "C16" || (exact && rng.chance(60)) { 3 } else { 1 };
    // grammars with few conflicts: alternatives that begin with a terminal of their own
    let deterministic = exact && rng.chance(if prop == "C24" { 60 } else { 20 });
    let mut rules: Vec<(usize, Vec<usize>, Option<u32>)> = (0..nr)
        .map(|_| {
            let mut n = rng.weighted(&[nullable, 3, 4, 3, 1, 1]);
            if exact && rng.chance(2) {
                n = if rng.chance(25) { rng.range(14, 32) } else { rng.range(6, 14) };
            }
            let mut rhs: Vec<usize> = (0..n).map(|_| rng.below(base)).collect();
            if deterministic && rng.chance(70) {
                if let Some(f) = rhs.first_mut() {
                    *f = nt + rng.below(t);
                }
            }
            (
                rng.below(nt),
                rhs,
                if rng.chance(20) { Some(rng.range(1, 4000) as u32) } else { None },
            )
        })
        .collect();
    let cyclic = match prop {
        "C17" => 75,
        "C14" | "C09" | "C20" | "C19" => 25,
        _ if exact => 10,
        _ => 0,
    };
    if rng.chance(cyclic) {
        // a ring of unit rules, possibly a second one through it
        for _ in 0..rng.range(1, if wide { 6 } else { 2 }) {
            let mut ring: Vec<usize> = (0..nt).collect();
            rng.shuffle(&mut ring);
            ring.truncate(if rng.chance(15) { rng.range(4, 10) } else { rng.range(2, 4) });
            for k in 0..ring.len() {
                rules.push((ring[k], vec![ring[(k + 1) % ring.len()]], None));
            }
        }
        rng.shuffle(&mut rules);
    }
    if wide && matches!(prop, "C20" | "C21" | "C25") && rng.chance(40) {
        // sentences longer than numbers count: each symbol stands for several of the next one
        let mut chain: Vec<usize> = (0..nt).collect();
        rng.shuffle(&mut chain);
        rules.retain(|_| rng.chance(40));
        rules.retain(|r| !chain[..12.min(nt) - 1].contains(&r.0) || rng.chance(10));
        for k in 0..11.min(nt - 1) {
            let n = rng.range(6, 9);
            rules.push((chain[k], vec![chain[k + 1]; n], None));
        }
        rules.push((chain[11.min(nt - 1)], vec![nt], None));
        rng.shuffle(&mut rules);
    }
    let mut first = None;
    if deep {
        let mut chain: Vec<usize> = (0..nt).collect();
        rng.shuffle(&mut chain);
        if rng.chance(30) {
            chain.sort();
            if rng.chance(50) {
                chain.reverse();
            }
        }
        first = Some(chain[0]);
        let plain = rng.chance(40);
        let mut doubled = 0;
        for k in 0..nt {
            let mut rhs = match chain.get(k + 1) {
                Some(&x) => vec![x],
                None => match rng.below(5) {
                    0 => break,
                    1 => vec![*rng.pick(&chain)],
                    2 | 3 => vec![],
                    _ => vec![nt + rng.below(t)],
                },
            };
            if k + 1 < nt && doubled < 4 && rng.chance(20) {
                doubled += 1;
                rhs.push(rhs[0]);
            }
            if !plain && rng.chance(25) {
                rhs.push(nt + rng.below(t));
            }
            if !plain && rng.chance(25) {
                rhs.insert(0, nt + rng.below(t));
            }
            rules.push((chain[k], rhs, None));
        }
        match rng.below(4) {
            0 => {}
            1 => rules.reverse(),
            _ => rng.shuffle(&mut rules),
        }
    }
    if rng.chance(15) {
        // a rule twice, one behind the other
        if let Some(k) = (0..rules.len()).next_back() {
            let k = rng.below(k + 1);
            let mut r = rules[k].clone();
            r.2 = if rng.chance(50) { Some(rng.range(1, 4000) as u32) } else { None };
            rules.insert(k + 1, r);
        }
    }
    let roots = (0..rng.weighted(&[2, 12, 4, 1, 1]))
        .map(|_| match first {
            Some(x) if rng.chance(70) => x,
            _ => rng.below(nt),
        })
        .collect();
    let n = match prop {
        "C09" | "C10" | "C20" | "C12" => rng.range(2, 14),
        "C18" | "C16" | "C17" | "C15" => rng.range(1, 6),
        _ if wide => rng.range(1, 4),
        _ => rng.range(2, 10),
    };
    let mut steps = vec![];
    for k in 0..n {
        let who = if k == 0 { 0 } else { rng.below(holders) };
        let op = draw_op(prop, rng, base, nt, holders, &mut origin);
        let mut fault = None;
        let p = if prop == "C10" { 65 } else { 30 };
        if has_callback(&op) && rng.chance(p) {
            let at = match rng.below(3) {
                0 => rng.below(4),
                1 => rng.below(12),
                _ => rng.below(40),
            } as u64;
            fault = Some(if (prop == "C10" && rng.chance(75)) || holders == 1 || rng.chance(35) {
                Fault::Panic { at }
            } else {
                Fault::Nest {
                    at,
                    who: rng.below(holders),
                    op: Box::new(draw_op(prop, rng, base, nt, holders, &mut origin)),
                }
            });
        }
        steps.push(Step { who, op, fault });
    }
    // symbol numbers beyond the words of bit sets
    let pad = match rng.below(200) {
        0..=9 => (rng.below(base), rng.range(22, 34)),
        10..=19 => (rng.below(base), rng.range(54, 66)),
        20..=22 => (rng.below(base), rng.range(118, 132)),
        23 => (rng.below(base), rng.range(248, 262)),
        _ => (0, 0),
    };
    HistPlan { holders, nt, t, named: rng.chance(50), pad, rules, roots, steps }
}
