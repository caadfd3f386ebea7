//! C01-C05: the random generator driven by simulated entropy.
use crate::check;
use crate::core::*;
use crate::entropy::in_process;
use crate::lang::{self, Rules};
use crate::rng::{Rng, mix};
use cfg_generate::weighted::random::{ByteSource, GenRange, Limits, RandomGenError};
use cfg_generate::weighted::{NegativeRule, Random};
use cfg_grammar::Cfg;
use cfg_history::{HistoryNodeWeight, RootHistoryNode, earley::History};
use cfg_symbol::{Symbol, SymbolSource};
use rand::rngs::SmallRng;
use rand::{RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RuleSpec {
    pub lhs: usize,
    pub rhs: Vec<usize>,
    /// Weight in thousandths; None = unweighted.
    pub weight: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Window {
    pub at: u64,
    pub len: u64,
    /// 0 stuck at zero, 1 stuck just below the limit, 2 stuck at the limit, 3 repeats one value,
    /// 4 the source dies (its callback panics).
    pub kind: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Entropy {
    Small(u64),
    Bytes(Vec<u8>),
    Src { seed: u64, windows: Vec<Window> },
    Thread(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenPlan {
    pub nsyms: usize,
    pub rules: Vec<RuleSpec>,
    pub start: usize,
    pub negs: Vec<(usize, usize)>,
    pub terminals: Option<u64>,
    pub attempts: u64,
    /// Per symbol: 0 none, 1..=4 fixed character, 5.. drawn from a set.
    pub chars: Vec<u8>,
    pub entropy: Entropy,
    pub limit_rhs: Option<usize>,
    pub calls: usize,
    /// The to_char callback panics at this call.
    pub crash_at: Option<u64>,
    /// A nested generation runs inside this call of to_char.
    pub nest_at: Option<u64>,
    pub os_seed: u64,
}

const POOL: &[&str] = &[
    "a", "b", "ab", "ba", "aa", "bb", "abc", "aab", "é", "aé", "bab", "c", "ca", "abab", "cc",
    "aaaaa", "babab", "aaaaaaaaa", "abababababab", "bbbbbbbb", "ééé", "aabaabaab", "bé",
];
const CHARS: [char; 4] = ['a', 'b', 'c', 'é'];
const DRAWN: [&[char]; 3] = [&['a', 'b'], &['a', 'b', 'c'], &['b', 'é']];
const DRAW_CAP: u64 = 6_000;
const CHAR_CAP: u64 = 90;

// ---------------------------------------------------------------- entropy sources

pub struct Shared {
    draws: Cell<u64>,
    mutates: Cell<u64>,
    max_attempt: Cell<i64>,
    /// Backtracks of the current call by place: by how many characters came before it.
    places: RefCell<BTreeMap<u64, u64>>,
    /// The most terminals the output of the current call has had.
    longest: Cell<u64>,
    stuck: Cell<u64>,
    died: Cell<u64>,
    cap: u64,
}
impl Shared {
    fn new(cap: u64) -> Rc<Self> {
        Rc::new(Shared {
            draws: Cell::new(0),
            mutates: Cell::new(0),
            max_attempt: Cell::new(-1),
            places: RefCell::new(BTreeMap::new()),
            longest: Cell::new(0),
            stuck: Cell::new(0),
            died: Cell::new(0),
            cap,
        })
    }
    fn draw(&self) -> u64 {
        let d = self.draws.get();
        self.draws.set(d + 1);
        if d > self.cap {
            throw_cut();
        }
        d
    }
}

/// Simulated entropy: a seeded stream with fault windows in simulated time (draws so far).
#[derive(Clone)]
pub struct Src {
    seed: u64,
    pos: u64,
    windows: Rc<Vec<Window>>,
    /// Characters of the output so far, in this line of generation.
    emitted: u64,
    /// Terminals of the output so far, in this line of generation.
    produced: u64,
    /// What has been generated in this line of generation.
    line: Line,
    pub shared: Rc<Shared>,
}
/// A list that shares its beginning with the lines it was cut from.
pub type Line = Option<Rc<Piece>>;
pub struct Piece {
    prev: Line,
    sym: usize,
    ch: Option<char>,
}
fn read_line(line: &Line) -> (Vec<usize>, Vec<char>) {
    let (mut syms, mut chars) = (vec![], vec![]);
    let mut at = line;
    while let Some(piece) = at {
        syms.push(piece.sym);
        chars.extend(piece.ch);
        at = &piece.prev;
    }
    syms.reverse();
    chars.reverse();
    (syms, chars)
}
/// Tells a source about the output, so that it knows where a backtrack has led to.
trait Follow {
    fn terminal(&mut self) {}
    fn character(&mut self, _sym: usize, _ch: Option<char>) {}
    fn line(&self) -> Option<(Vec<usize>, Vec<char>)> {
        None
    }
    fn begin(&mut self) {}
}
impl Follow for Src {
    fn terminal(&mut self) {
        self.produced += 1;
        self.shared.longest.set(self.shared.longest.get().max(self.produced));
    }
    fn character(&mut self, sym: usize, ch: Option<char>) {
        self.emitted += ch.is_some() as u64;
        self.line = Some(Rc::new(Piece { prev: self.line.take(), sym, ch }));
    }
    fn line(&self) -> Option<(Vec<usize>, Vec<char>)> {
        Some(read_line(&self.line))
    }
    fn begin(&mut self) {
        self.emitted = 0;
        self.produced = 0;
        self.line = None;
    }
}
impl Follow for CountedRng {}
impl Follow for ByteSource<CountedBytes> {}
impl Follow for rand::rngs::ThreadRng {}
impl Src {
    fn frac(&mut self) -> f64 {
        let now = self.shared.draw();
        self.pos += 1;
        for w in self.windows.iter() {
            if now >= w.at && now - w.at < w.len {
                self.shared.stuck.set(self.shared.stuck.get() + 1);
                match w.kind {
                    0 => return 0.0,
                    1 => return 1.0 - 1e-9,
                    2 => return 1.0,
                    3 => return (mix(w.at ^ self.seed) >> 11) as f64 / (1u64 << 53) as f64,
                    _ => {
                        self.shared.died.set(self.shared.died.get() + 1);
                        throw_injected()
                    }
                }
            }
        }
        (mix(self.seed ^ self.pos.wrapping_mul(0x9E3779B97F4A7C15)) >> 11) as f64 / (1u64 << 53) as f64
    }
}
impl GenRange for Src {
    fn generate(&mut self, limit: f64) -> f64 {
        self.frac() * limit
    }
    fn mutate_start(&mut self, attempt_number: u64) {
        self.shared.draw();
        self.shared.mutates.set(self.shared.mutates.get() + 1);
        *self.shared.places.borrow_mut().entry(self.emitted).or_insert(0) += 1;
        self.shared
            .max_attempt
            .set(self.shared.max_attempt.get().max(attempt_number as i64));
        self.seed = mix(self.seed ^ attempt_number.wrapping_add(0x5bd1e995));
    }
}

#[derive(Clone)]
pub struct CountedBytes {
    bytes: Rc<Vec<u8>>,
    at: usize,
    shared: Rc<Shared>,
    exhausted: Rc<Cell<u64>>,
}
impl Iterator for CountedBytes {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.shared.draw();
        let r = self.bytes.get(self.at).copied();
        self.at += 1;
        if r.is_none() {
            self.exhausted.set(self.exhausted.get() + 1);
        }
        r
    }
}

#[derive(Clone)]
pub struct CountedRng {
    inner: SmallRng,
    shared: Rc<Shared>,
}
impl RngCore for CountedRng {
    fn next_u32(&mut self) -> u32 {
        self.shared.draw();
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.shared.draw();
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        self.shared.draw();
        self.inner.fill_bytes(dst)
    }
}

// ---------------------------------------------------------------- building

pub fn weight_history(w: Option<u32>, lhs: Symbol) -> History {
    let root: History = RootHistoryNode::Rule { lhs }.into();
    match w {
        None => root,
        Some(w) => HistoryNodeWeight { prev: root, weight: w as f64 / 1000.0 + 1e-7 }.into(),
    }
}

pub fn syms(n: usize) -> Vec<Symbol> {
    SymbolSource::generate_fresh().take(n).collect()
}

fn build(plan: &GenPlan) -> Cfg {
    let mut g = Cfg::new();
    let mut s = vec![];
    for _ in 0..plan.nsyms {
        s.push(g.next_sym(None));
    }
    for r in &plan.rules {
        let rhs: Vec<Symbol> = r.rhs.iter().map(|&x| s[x]).collect();
        g.rule(s[r.lhs]).history(weight_history(r.weight, s[r.lhs])).rhs(rhs);
    }
    if let Some(n) = plan.limit_rhs {
        g.limit_rhs_len(Some(n));
    }
    g
}

pub fn rules_of(g: &Cfg) -> Rules {
    g.rules()
        .map(|r| (r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect()))
        .collect()
}

/// Plans a minimiser may produce are rejected when generation could loop without drawing entropy.
fn valid(plan: &GenPlan) -> bool {
    if plan.nsyms == 0 || plan.nsyms > 300 || plan.start >= plan.nsyms {
        return false;
    }
    if plan.rules.len() > 120 || plan.calls > 8 {
        return false;
    }
    for r in &plan.rules {
        if r.lhs >= plan.nsyms || r.rhs.iter().any(|&s| s >= plan.nsyms) || r.rhs.len() > 300 {
            return false;
        }
    }
    // Among several alternatives, one has to have a positive weight.
    let positive = |r: &RuleSpec| r.weight != Some(0);
    for r in &plan.rules {
        let mut others = plan.rules.iter().filter(|x| x.lhs == r.lhs);
        if !positive(r) && others.clone().count() > 1 && !others.any(positive) {
            return false;
        }
    }
    if plan.limit_rhs.is_some_and(|n| !(2..=64).contains(&n)) {
        return false;
    }
    if plan.chars.len() != plan.nsyms {
        return false;
    }
    for &(s, i) in &plan.negs {
        if s >= plan.nsyms || i >= POOL.len() || !plan.rules.iter().any(|r| r.lhs == s) {
            return false;
        }
    }
    // nonterminals with a single alternative must not form a cycle among themselves
    let neg = |s: usize| plan.negs.iter().any(|n| n.0 == s);
    let single = |s: usize| !neg(s) && plan.rules.iter().filter(|r| r.lhs == s).count() == 1;
    let mut mark = vec![0u8; plan.nsyms];
    fn visit(s: usize, plan: &GenPlan, single: &dyn Fn(usize) -> bool, mark: &mut [u8]) -> bool {
        if mark[s] == 1 {
            return false;
        }
        if mark[s] == 2 {
            return true;
        }
        mark[s] = 1;
        if single(s) {
            for r in plan.rules.iter().filter(|r| r.lhs == s) {
                for &x in &r.rhs {
                    if !visit(x, plan, single, mark) {
                        return false;
                    }
                }
            }
        }
        mark[s] = 2;
        true
    }
    (0..plan.nsyms).all(|s| visit(s, plan, &single, &mut mark))
}

pub fn generate(prop: &str, rng: &mut Rng) -> GenPlan {
    loop {
        let nt = rng.range(1, 4);
        let nn = if rng.chance(4) { rng.range(6, 16) } else { rng.range(1, 5) };
        let want_negs = match prop {
            "C02" => rng.range(1, 3),
            "C03" => rng.below(3),
            _ => {
                if rng.chance(60) {
                    rng.range(1, 2)
                } else {
                    0
                }
            }
        };
        // now and then symbol numbers beyond the words of bit sets
        let idle = if rng.chance(8) { rng.range(20, 62) } else if rng.chance(2) { rng.range(110, 270) } else { 0 };
        let nsyms = nt + nn + want_negs + idle;
        let mut ids: Vec<usize> = (0..nsyms).collect();
        rng.shuffle(&mut ids);
        let terms = ids[..nt].to_vec();
        let nons = ids[nt..nt + nn].to_vec();
        let negs = ids[nt + nn..nt + nn + want_negs].to_vec();
        let neg_rate = if want_negs > 0 { rng.range(10, 45) } else { 0 };
        let term_rate = rng.range(45, 85);
        let max_len = rng.range(1, 4);
        let weighted = rng.chance(40);
        let mut rules = vec![];
        // Layered style: later nonterminals are closer to terminals, the last is a character class.
        let layered = rng.chance(65);
        if layered {
            for (k, &lhs) in nons.iter().enumerate() {
                if k + 1 == nn {
                    for &t in &terms {
                        if rng.chance(85) {
                            let weight = if weighted { Some(*rng.pick(&[100, 1000, 3000])) } else { None };
                            rules.push(RuleSpec { lhs, rhs: vec![t], weight });
                        }
                    }
                    rules.push(RuleSpec { lhs, rhs: vec![terms[0]], weight: None });
                    continue;
                }
                for _ in 0..rng.weighted(&[0, 3, 4, 3]) {
                    let mut rhs = vec![];
                    for _ in 0..rng.range(1, 4) {
                        if rng.chance(neg_rate + 10) && !negs.is_empty() {
                            rhs.push(*rng.pick(&negs));
                        }
                        if rng.chance(15) {
                            rhs.push(*rng.pick(&terms));
                        } else if rng.chance(15) {
                            rhs.push(*rng.pick(&nons));
                        } else {
                            rhs.push(nons[rng.range(k + 1, nn - 1)]);
                        }
                    }
                    let weight = if weighted && rng.chance(50) { Some(*rng.pick(&[10, 500, 1000, 2500])) } else { None };
                    rules.push(RuleSpec { lhs, rhs, weight });
                }
                if rng.chance(20) {
                    rules.push(RuleSpec { lhs, rhs: vec![], weight: None });
                }
            }
        }
        for &lhs in &nons {
            if layered {
                break;
            }
            for _ in 0..rng.weighted(&[0, 2, 4, 3, 1]) {
                let len = rng.below(max_len + 1);
                let mut rhs = vec![];
                for _ in 0..len {
                    if rng.chance(neg_rate) {
                        rhs.push(*rng.pick(&negs));
                    } else if rng.chance(term_rate) {
                        rhs.push(*rng.pick(&terms));
                    } else {
                        rhs.push(*rng.pick(&nons));
                    }
                }
                let weight = if weighted && rng.chance(70) {
                    Some(*rng.pick(&[1, 10, 500, 1000, 2500, 7000]))
                } else {
                    None
                };
                rules.push(RuleSpec { lhs, rhs, weight });
            }
        }
        for &lhs in &negs {
            rules.push(RuleSpec { lhs, rhs: vec![], weight: None });
            if rng.chance(10) {
                rules.push(RuleSpec { lhs, rhs: vec![*rng.pick(&terms)], weight: None });
            }
        }
        rng.shuffle(&mut rules);
        let mut neg_list = vec![];
        for &s in &negs {
            for _ in 0..if rng.chance(4) { rng.range(3, 9) } else { rng.weighted(&[0, 6, 2]) } {
                let i = if rng.chance(65) { rng.below(6) } else { rng.below(POOL.len()) };
                neg_list.push((s, i));
            }
        }
        let chars: Vec<u8> = (0..nsyms)
            .map(|s| {
                if !terms.contains(&s) {
                    return 0;
                }
                if layered && rng.chance(80) {
                    return 1 + terms.iter().position(|&t| t == s).unwrap() as u8;
                }
                match rng.below(10) {
                    0 => 0,
                    1 | 2 => 5 + rng.below(3) as u8,
                    x if x < 6 => 1,
                    x if x < 8 => 2,
                    8 => 3,
                    _ => 4,
                }
            })
            .collect();
        let entropy = match rng.weighted(&[20, 15, 55, 10]) {
            0 => Entropy::Small(rng.u64()),
            1 => {
                let n = rng.below(40);
                Entropy::Bytes(
                    (0..n)
                        .map(|_| match rng.below(6) {
                            0 => 0,
                            1 => 255,
                            _ => rng.u64() as u8,
                        })
                        .collect(),
                )
            }
            2 => {
                let mut windows = vec![];
                let n = rng.weighted(&[8, 4, 2, 1]);
                for _ in 0..n {
                    windows.push(Window {
                        at: rng.below(60) as u64,
                        len: *rng.pick(&[1, 2, 5, 20, 80, 10_000]),
                        kind: rng.weighted(&[4, 3, 2, 4, 1]) as u8,
                    });
                }
                Entropy::Src { seed: rng.u64(), windows }
            }
            _ => Entropy::Thread(rng.u64()),
        };
        let limited = rng.chance(75);
        let plan = GenPlan {
            nsyms,
            start: if rng.chance(3) { ids[rng.below(nsyms)] } else { nons[0] },
            rules,
            negs: neg_list,
            terminals: if limited { Some(if layered && rng.chance(60) { *rng.pick(&[20, 40, 60, 70]) } else { *rng.pick(&[0, 1, 2, 3, 5, 8, 13, 30, 60, 70]) }) } else { None },
            attempts: *rng.pick(&[0, 1, 2, 3, 7, 20, 50, 1000]),
            chars,
            entropy,
            limit_rhs: if rng.chance(35) { Some(rng.range(2, 3)) } else { None },
            calls: if rng.chance(3) { rng.range(4, 8) } else { rng.weighted(&[0, 6, 3, 1]) },
            crash_at: if rng.chance(8) { Some(rng.below(12) as u64) } else { None },
            nest_at: if rng.chance(if prop == "C04" { 60 } else { 10 }) { Some(rng.below(8) as u64) } else { None },
            os_seed: rng.u64(),
        };
        let mut plan = plan;
        // some alternatives are never chosen, unless they are the only ones
        if weighted && rng.chance(20) {
            for _ in 0..rng.range(1, 2) {
                let k = rng.below(plan.rules.len().max(1));
                if let Some(r) = plan.rules.get_mut(k) {
                    r.weight = Some(0);
                }
            }
        }
        // some symbols have many alternatives
        if rng.chance(5) {
            let lhs = *rng.pick(&nons);
            for _ in 0..rng.range(4, 24) {
                let mut rhs: Vec<usize> = (0..rng.below(4)).map(|_| *rng.pick(&terms)).collect();
                if rng.chance(neg_rate) {
                    rhs.insert(rng.below(rhs.len() + 1), *rng.pick(&negs));
                }
                let weight = if weighted && rng.chance(40) { Some(*rng.pick(&[1, 10, 500, 1000, 2500, 7000])) } else { None };
                let at = rng.below(plan.rules.len() + 1);
                plan.rules.insert(at, RuleSpec { lhs, rhs, weight });
            }
        }
        // and some are long
        if rng.chance(3) {
            let k = rng.below(plan.rules.len().max(1));
            let n = if rng.chance(10) { rng.range(250, 280) } else { rng.range(5, 20) };
            if let Some(r) = plan.rules.get_mut(k) {
                while !r.rhs.is_empty() && r.rhs.len() < n {
                    let i = rng.below(r.rhs.len());
                    let at = rng.below(r.rhs.len() + 1);
                    r.rhs.insert(at, r.rhs[i]);
                }
            }
        }
        if valid(&plan) {
            return plan;
        }
    }
}

// ---------------------------------------------------------------- execution

type GenResult = Result<(Vec<Symbol>, Vec<char>), RandomGenError>;

#[derive(Clone, Debug, PartialEq)]
pub enum CallOut {
    Ok(Vec<usize>, Vec<char>),
    Limit,
    Attempts,
    Crashed,
    Cut,
    Panicked(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct CallRec {
    pub out: CallOut,
    pub chars_called: u64,
    pub mutates: Option<u64>,
    pub max_attempt: Option<i64>,
    /// Backtracks at the busiest place, as the source saw them.
    pub busiest: Option<u64>,
    /// The most terminals the output has had, as the source saw it.
    pub longest: Option<u64>,
    /// What the source saw generated in its line of generation.
    pub line: Option<(Vec<usize>, Vec<char>)>,
    pub draws: u64,
    pub stuck: u64,
    pub died: u64,
    pub exhausted: u64,
}

struct CallArgs<'a> {
    g: &'a Cfg,
    start: Symbol,
    limits: Option<Limits>,
    negs: &'a [NegativeRule],
    chars: &'a [u8],
    crash_at: Option<u64>,
    nest_at: Option<u64>,
    nested: &'a dyn Fn(),
}

fn call_to_char<R: GenRange + Follow>(a: &CallArgs, count: &Cell<u64>, sym: Symbol, r: &mut R) -> Option<char> {
    let k = count.get();
    count.set(k + 1);
    r.terminal();
    if a.crash_at == Some(k) {
        throw_injected();
    }
    if k > CHAR_CAP * 40 {
        throw_cut();
    }
    if a.nest_at == Some(k) {
        (a.nested)();
    }
    let ch = match a.chars.get(sym.usize()).copied().unwrap_or(0) {
        0 => None,
        c @ 1..=4 => Some(CHARS[c as usize - 1]),
        c => {
            let set = DRAWN[(c as usize - 5) % 3];
            let x = r.generate(set.len() as f64) as usize;
            Some(set[x.min(set.len() - 1)])
        }
    };
    r.character(sym.usize(), ch);
    ch
}

fn one_call<R: GenRange + Clone + Follow>(a: &CallArgs, r: &mut R) -> (CallOut, u64) {
    let count = Cell::new(0u64);
    r.begin();
    let out = run(|| -> GenResult {
        a.g.random(a.start, a.limits, r, a.negs, |s, r: &mut R| call_to_char(a, &count, s, r))
    });
    (convert(out), count.get())
}

fn convert(out: Outcome<GenResult>) -> CallOut {
    match out {
        Outcome::Done(Ok((syms, chars))) => CallOut::Ok(syms.iter().map(|s| s.usize()).collect(), chars),
        Outcome::Done(Err(RandomGenError::LimitExceeded)) => CallOut::Limit,
        Outcome::Done(Err(RandomGenError::NegativeRuleAttemptsExceeded)) => CallOut::Attempts,
        Outcome::Injected => CallOut::Crashed,
        Outcome::Cut => CallOut::Cut,
        Outcome::Panicked(m) => CallOut::Panicked(m),
    }
}

fn limits_of(plan: &GenPlan, terminals: Option<u64>) -> Option<Limits> {
    terminals.map(|t| Limits { terminals: t, negative_rule_attempts: plan.attempts })
}

/// Executes all calls of the plan on `g` with a fresh source. Returns the records and three
/// draws of the source afterwards.
fn run_calls(plan: &GenPlan, g: &Cfg, terminals: Option<u64>, nested: &dyn Fn()) -> (Vec<CallRec>, Vec<u64>) {
    let s = syms(plan.nsyms);
    let negs: Vec<NegativeRule> = plan
        .negs
        .iter()
        .map(|&(sym, i)| NegativeRule { sym: s[sym], chars: POOL[i] })
        .collect();
    let mut recs = vec![];
    let shared = Shared::new(DRAW_CAP);
    let mk_args = |call: usize| CallArgs {
        g,
        start: s[plan.start],
        limits: limits_of(plan, terminals),
        negs: &negs,
        chars: &plan.chars,
        crash_at: if call == 0 { plan.crash_at } else { None },
        nest_at: plan.nest_at,
        nested,
    };
    macro_rules! go {
        ($r:expr, $known:expr, $exh:expr) => {{
            let mut r = $r;
            for call in 0..plan.calls.max(1) {
                shared.max_attempt.set(-1);
                shared.places.borrow_mut().clear();
                shared.longest.set(0);
                shared.mutates.set(0);
                shared.draws.set(0);
                let (st0, di0, ex0) = (shared.stuck.get(), shared.died.get(), $exh.get());
                let args = mk_args(call);
                let (out, chars_called) = one_call(&args, &mut r);
                recs.push(CallRec {
                    out,
                    chars_called,
                    mutates: if $known { Some(shared.mutates.get()) } else { None },
                    max_attempt: if $known { Some(shared.max_attempt.get()) } else { None },
                    busiest: if $known { Some(shared.places.borrow().values().copied().max().unwrap_or(0)) } else { None },
                    longest: if $known { Some(shared.longest.get()) } else { None },
                    line: r.line(),
                    draws: shared.draws.get(),
                    stuck: shared.stuck.get() - st0,
                    died: shared.died.get() - di0,
                    exhausted: $exh.get() - ex0,
                });
            }
            shared.draws.set(0);
            let mut after = vec![];
            for _ in 0..3 {
                match run(|| r.generate(1.0)) {
                    Outcome::Done(x) => after.push((x * 1e15) as u64),
                    _ => after.push(u64::MAX),
                }
            }
            after
        }};
    }
    let exh = Rc::new(Cell::new(0u64));
    let after = match &plan.entropy {
        Entropy::Small(seed) => go!(
            CountedRng { inner: SmallRng::seed_from_u64(*seed), shared: shared.clone() },
            false,
            exh
        ),
        Entropy::Bytes(b) => go!(
            ByteSource::new(CountedBytes {
                bytes: Rc::new(b.clone()),
                at: 0,
                shared: shared.clone(),
                exhausted: exh.clone()
            }),
            false,
            exh
        ),
        Entropy::Src { seed, windows } => go!(
            Src { seed: *seed, pos: 0, windows: Rc::new(windows.clone()), emitted: 0, produced: 0, line: None, shared: shared.clone() },
            true,
            exh
        ),
        Entropy::Thread(_) => {
            for call in 0..plan.calls.max(1) {
                let args = mk_args(call);
                let count = Cell::new(0u64);
                // Without a seam for cutting the thread RNG itself, the terminal limit bounds the run.
                let lim = Some(Limits {
                    terminals: terminals.unwrap_or(CHAR_CAP).min(CHAR_CAP),
                    negative_rule_attempts: plan.attempts,
                });
                let out = run(|| -> GenResult {
                    g.with_thread_rng(args.start, lim, args.negs, |s, r: &mut rand::rngs::ThreadRng| {
                        call_to_char(&args, &count, s, r)
                    })
                });
                recs.push(CallRec {
                    out: convert(out),
                    chars_called: count.get(),
                    mutates: None,
                    max_attempt: None,
                    busiest: None,
                    longest: None,
                    line: None,
                    draws: 0,
                    stuck: 0,
                    died: 0,
                    exhausted: 0,
                });
            }
            vec![]
        }
    };
    (recs, after)
}

/// The thread RNG cannot be cut by the simulator, so only grammars whose expansion cannot run away
/// without terminals are given to it.
fn thread_safe_grammar(plan: &GenPlan) -> bool {
    // no recursion at all among nonterminals
    let mut mark = vec![0u8; plan.nsyms];
    fn visit(s: usize, plan: &GenPlan, mark: &mut [u8]) -> bool {
        if mark[s] == 1 {
            return false;
        }
        if mark[s] == 2 {
            return true;
        }
        mark[s] = 1;
        for r in plan.rules.iter().filter(|r| r.lhs == s) {
            for &x in &r.rhs {
                if !visit(x, plan, mark) {
                    return false;
                }
            }
        }
        mark[s] = 2;
        true
    }
    (0..plan.nsyms).all(|s| visit(s, plan, &mut mark))
}

fn note(ctx: &mut Ctx, plan: &GenPlan, recs: &[CallRec]) {
    for r in recs {
        ctx.steps += 1 + r.draws + r.chars_called;
        let kind = match &r.out {
            CallOut::Ok(..) => "ok",
            CallOut::Limit => "limit-exceeded",
            CallOut::Attempts => "attempts-exceeded",
            CallOut::Crashed => "crashed",
            CallOut::Cut => "cut-by-step-budget",
            CallOut::Panicked(_) => "panicked",
        };
        ctx.probe(&format!("outcome:{kind}"));
        if r.out == CallOut::Crashed {
            ctx.fault(if r.died > 0 { "entropy-source-died" } else { "to_char-callback-panic" });
        }
        if r.stuck > 0 {
            ctx.fault("entropy-stuck");
        }
        if r.exhausted > 0 {
            ctx.fault("entropy-exhausted");
        }
        if r.mutates.unwrap_or(0) > 0 {
            ctx.probe("backtracked");
            if r.mutates.unwrap_or(0) > 1 {
                ctx.probe("backtracked-repeatedly");
            }
            if matches!(r.out, CallOut::Ok(..)) {
                ctx.probe("ok-after-backtracking");
            }
        }
        if plan.nest_at.is_some_and(|n| r.chars_called > n) {
            ctx.fault("nested-generation");
        }
        ctx.event(format!("{:?} {:?} {:?}", r.out, r.mutates, r.draws));
        ctx.sched(&format!("{:?}/{:?}", r.out, r.mutates));
        ctx.state(fnv(FNV0, format!("{:?}", r.out).as_bytes()));
    }
}

pub fn exec(prop: &str, plan: &GenPlan, ctx: &mut Ctx) -> Res {
    if !valid(plan) {
        return Ok(());
    }
    if matches!(plan.entropy, Entropy::Thread(_)) && !thread_safe_grammar(plan) {
        ctx.probe("skipped:thread-rng-with-recursion");
        return Ok(());
    }
    let os = if let Entropy::Thread(s) = plan.entropy { s } else { plan.os_seed };
    crate::entropy::set_os_entropy(os);
    let g = match run(|| build(plan)) {
        Outcome::Done(g) => g,
        // construction is not what these properties are about
        _ => return viol("build", "building the grammar panicked"),
    };
    let before = rules_of(&g);
    let nested_plan = GenPlan { nest_at: None, crash_at: Some(3), calls: 1, ..plan.clone() };
    let nested_done = Cell::new(0u64);
    let nested = || {
        // Re-entrant use of the same grammar, with its own source, cut short by a crash.
        nested_done.set(nested_done.get() + 1);
        if !matches!(nested_plan.entropy, Entropy::Thread(_)) {
            let _ = run_calls(&nested_plan, &g, Some(10), &|| {});
        }
    };
    let (recs, after) = run_calls(plan, &g, plan.terminals, &nested);
    note(ctx, plan, &recs);
    let nsyms = g.num_syms();
    let mut terminal = vec![true; nsyms];
    for (l, _) in &before {
        terminal[*l] = false;
    }
    for r in &recs {
        if let CallOut::Panicked(m) = &r.out {
            return viol("panic", format!("random() panicked: {m}"));
        }
    }
    match prop {
        "C01" | "C02" => {
            for r in &recs {
                if let CallOut::Ok(res, chars) = &r.out {
                    ctx.nontrivial |= !res.is_empty();
                    check!(res.iter().all(|&s| s < nsyms && terminal[s]), "nonterminal-in-output", "output {:?} contains a nonterminal; rules {:?}", res, before);
                    if res.len() > 100 {
                        ctx.probe("output-too-long-to-recognise");
                        continue;
                    }
                    // character of every terminal
                    let has = |s: usize| plan.chars.get(s).copied().unwrap_or(0) != 0;
                    if prop == "C01" {
                        let expect: Vec<usize> = res.iter().copied().filter(|&s| has(s)).collect();
                        check!(expect.len() == chars.len(), "characters", "output {:?} gave {} characters, to_char gives {}", res, chars.len(), expect.len());
                        for (&s, &c) in expect.iter().zip(chars) {
                            let ok = match plan.chars[s] {
                                k @ 1..=4 => CHARS[k as usize - 1] == c,
                                k => DRAWN[(k as usize - 5) % 3].contains(&c),
                            };
                            check!(ok, "characters", "terminal {s} printed as {c:?} in {:?}/{:?}", res, chars);
                        }
                        if let Some((syms, texts)) = &r.line {
                            ctx.probe("compared-with-the-line-of-the-source");
                            check!(syms == res && texts == chars, "characters", "output {:?} {:?}, but to_char was asked for {:?} and gave {:?}", res, chars, syms, texts);
                        }
                        let neg = |s: usize, _i: usize| {
                            if plan.negs.iter().any(|n| n.0 == s) { Some(true) } else { None }
                        };
                        check!(
                            lang::derives(nsyms, &before, &terminal, plan.start, res, neg),
                            "not-in-language",
                            "output {:?} (string {:?}) is not derivable from {} in {:?} (negative rules {:?})",
                            res, chars.iter().collect::<String>(), plan.start, before, plan.negs
                        );
                        ctx.probe("recognised");
                    } else {
                        let mut off = vec![0usize];
                        for &s in res {
                            off.push(off.last().unwrap() + has(s) as usize);
                        }
                        if *off.last().unwrap() != chars.len() {
                            continue; // C01's business
                        }
                        let free = lang::derives(nsyms, &before, &terminal, plan.start, res, |s, _| {
                            if plan.negs.iter().any(|n| n.0 == s) { Some(true) } else { None }
                        });
                        if !free {
                            continue; // C01's business
                        }
                        let neg = |s: usize, i: usize| {
                            let mut found = false;
                            for &(n, p) in &plan.negs {
                                if n == s {
                                    found = true;
                                    let forb: Vec<char> = POOL[p].chars().collect();
                                    if chars[off[i]..].starts_with(&forb) {
                                        return Some(false);
                                    }
                                }
                            }
                            if found { Some(true) } else { None }
                        };
                        let ok = lang::derives(nsyms, &before, &terminal, plan.start, res, neg);
                        if ok && !plan.negs.is_empty() {
                            ctx.probe("lookahead-respected");
                        }
                        check!(
                            ok,
                            "lookahead-violated",
                            "string {:?} of output {:?} has no derivation from {} respecting the negative rules {:?} in {:?}",
                            chars.iter().collect::<String>(), res, plan.start,
                            plan.negs.iter().map(|&(s, p)| (s, POOL[p])).collect::<Vec<_>>(), before
                        );
                    }
                }
            }
        }
        "C03" => c03(plan, &g, &recs, ctx)?,
        "C04" => {
            let sibling = sibling(plan);
            // The same calls: on a clone, on a rebuilt grammar in another process image with other
            // operating-system entropy, and without the nested activity.
            if !matches!(plan.entropy, Entropy::Thread(_)) {
                let clone = g.clone();
                let (r2, a2) = run_calls(plan, &clone, plan.terminals, &|| {});
                ctx.steps += 1;
                compare(&recs, &r2, "on a clone, without nested activity")?;
                check!(after == a2, "source-state", "source state differs after the same calls on a clone: {:?} {:?}", after, a2);
                let (r4, _) = run_calls(plan, &g, plan.terminals, &|| {});
                compare(&recs, &r4, "repeated on the same object")?;
                if let Outcome::Done(other) = run(|| build(&sibling)) {
                    let _ = run_calls(&sibling, &other, Some(10), &|| {});
                    ctx.probe("another-grammar-in-between");
                    let (r6, _) = run_calls(plan, &g, plan.terminals, &|| {});
                    compare(&recs, &r6, "after generating from a similar grammar")?;
                }
            }
            // Byte-identical environment except for what must not matter.
            let seeds: &[u64] = if matches!(plan.entropy, Entropy::Thread(_)) { &[0] } else { &[1, 2] };
            for &k in seeds {
                let p2 = plan.clone();
                let p3 = if k == 2 { Some(sibling.clone()) } else { None };
                let os2 = if k == 0 { os } else { mix(plan.os_seed ^ k) };
                let r = in_process(os2, move || {
                    if let Some(p3) = p3 {
                        // this process has generated from a similar grammar before
                        if let Outcome::Done(other) = run(|| build(&p3)) {
                            let _ = run_calls(&p3, &other, Some(10), &|| {});
                        }
                    }
                    let g = match run(|| build(&p2)) {
                        Outcome::Done(g) => g,
                        _ => return None,
                    };
                    Some(run_calls(&p2, &g, p2.terminals, &|| {}))
                });
                ctx.fault("process-restart-with-new-hash-seed");
                match r {
                    Ok(Some((r3, a3))) => {
                        if k != 0 {
                            compare(&recs, &r3, "in a process with other operating-system entropy")?;
                            check!(after == a3, "source-state", "source state differs in another process: {:?} {:?}", after, a3);
                        } else {
                            // with_thread_rng: same OS entropy, same result
                            let p4 = plan.clone();
                            let again = in_process(os2, move || {
                                let g = build(&p4);
                                run_calls(&p4, &g, p4.terminals, &|| {})
                            });
                            if let Ok((r5, _)) = again {
                                compare(&r3, &r5, "with_thread_rng under the same operating-system entropy")?;
                            }
                        }
                    }
                    _ => return viol("panic", "generation panicked in a second process image"),
                }
            }
            ctx.nontrivial |= recs.iter().any(|r| matches!(&r.out, CallOut::Ok(v, _) if !v.is_empty()));
        }
        _ => {}
    }
    check!(rules_of(&g) == before, "grammar-changed", "generation changed the grammar");
    Ok(())
}

/// A grammar of the same shape whose terminals are exchanged.
fn sibling(plan: &GenPlan) -> GenPlan {
    let terms: Vec<usize> = (0..plan.nsyms).filter(|&s| plan.rules.iter().all(|r| r.lhs != s)).collect();
    let mut p = GenPlan { nest_at: None, crash_at: None, calls: 1, ..plan.clone() };
    for r in &mut p.rules {
        for s in &mut r.rhs {
            if let Some(i) = terms.iter().position(|t| t == s) {
                *s = terms[(i + 1) % terms.len()];
            }
        }
    }
    p
}

fn compare(a: &[CallRec], b: &[CallRec], what: &str) -> Res {
    for (x, y) in a.iter().zip(b) {
        if x.out != y.out {
            return viol("not-reproducible", format!("{:?} versus {:?} {what}", x.out, y.out));
        }
        if x.draws != y.draws || x.chars_called != y.chars_called {
            return viol(
                "not-reproducible",
                format!("same result but {}/{} draws and {}/{} to_char calls {what}", x.draws, y.draws, x.chars_called, y.chars_called),
            );
        }
    }
    Ok(())
}

fn c03(plan: &GenPlan, g: &Cfg, recs: &[CallRec], ctx: &mut Ctx) -> Res {
    let thread = matches!(plan.entropy, Entropy::Thread(_));
    let limit = if thread {
        Some(plan.terminals.unwrap_or(CHAR_CAP).min(CHAR_CAP))
    } else {
        plan.terminals
    };
    let Some(limit) = limit else {
        for r in recs {
            check!(r.out != CallOut::Limit, "limit-without-limit", "LimitExceeded without limits");
        }
        return Ok(());
    };
    for r in recs {
        match &r.out {
            CallOut::Ok(res, _) => {
                ctx.nontrivial = true;
                check!(res.len() as u64 <= limit, "too-long", "{} terminals with a limit of {limit}", res.len());
            }
            CallOut::Limit => {
                ctx.nontrivial = true;
                check!(r.chars_called >= limit, "early-limit", "LimitExceeded after {} terminals with a limit of {limit}", r.chars_called);
            }
            CallOut::Attempts => {
                ctx.nontrivial = true;
                check!(!plan.negs.is_empty(), "attempts-without-rules", "NegativeRuleAttemptsExceeded without negative rules");
            }
            _ => {}
        }
        if plan.negs.is_empty() {
            check!(r.chars_called <= limit + 1, "late-limit", "{} terminals were produced before stopping at a limit of {limit}", r.chars_called);
        }
        if let (Some(m), Some(a), Some(used)) = (r.mutates, r.max_attempt, r.busiest) {
            match &r.out {
                CallOut::Ok(..) | CallOut::Limit => {
                    check!(used <= plan.attempts, "attempts-overrun", "{used} backtracks at one place ({m} in all) with a limit of {} and result {:?}", plan.attempts, r.out);
                }
                CallOut::Attempts => {
                    check!(used >= plan.attempts, "early-attempts", "NegativeRuleAttemptsExceeded after {used} backtracks at one place ({m} in all), limit {}", plan.attempts);
                    check!(m >= used, "attempt-numbering", "attempt {a} was announced after only {m} backtracks");
                }
                _ => {}
            }
            check!(
                m <= (plan.attempts + 1).saturating_mul(r.chars_called + 1),
                "attempts-overrun",
                "{m} backtracks over {} produced terminals with a limit of {} per place", r.chars_called, plan.attempts
            );
        }
    }
    // How many backtracks the same entropy needs when they are unlimited decides the outcome.
    if !thread && !plan.negs.is_empty() {
        let lavish = GenPlan { attempts: 4_000, ..plan.clone() };
        let (free, _) = run_calls(&lavish, g, plan.terminals, &|| {});
        if let (Some(x), Some(y)) = (recs.first(), free.first()) {
            if let (CallOut::Ok(..), Some(needed)) = (&y.out, y.busiest) {
                if needed > plan.attempts {
                    check!(x.out == CallOut::Attempts, "attempts-overrun", "{needed} backtracks are needed at one place, the limit is {}, yet {:?}", plan.attempts, x.out);
                    ctx.probe("attempts-limit-decides");
                } else {
                    check!(x.out == y.out, "early-attempts", "{needed} backtracks are needed at one place and {} allowed, yet {:?} instead of {:?}", plan.attempts, x.out, y.out);
                    ctx.probe("attempts-limit-suffices");
                    if needed == plan.attempts {
                        ctx.probe("attempts-limit-just-suffices");
                    }
                }
            }
        }
    }
    // Limits only cut off.
    if !thread {
        let (free, _) = run_calls(plan, g, Some(u64::MAX), &|| {});
        if let (Some(x), Some(y)) = (recs.first(), free.first()) {
            if let (Some(longest), Some(most)) = (x.longest, y.longest) {
                if most > limit {
                    check!(
                        matches!(x.out, CallOut::Limit | CallOut::Crashed | CallOut::Cut),
                        "late-limit",
                        "the output had {most} terminals at one time with a limit of {limit}, yet {:?}", x.out
                    );
                    check!(longest <= limit + 1, "late-limit", "the output grew to {longest} terminals with a limit of {limit}");
                    ctx.probe("terminal-limit-decides");
                    if !matches!(y.out, CallOut::Ok(ref b, _) if b.len() as u64 > limit) {
                        ctx.probe("terminal-limit-before-backtracking");
                    }
                } else {
                    check!(x.out != CallOut::Limit, "early-limit", "LimitExceeded at {limit}, but the same entropy never gives more than {most} terminals");
                }
            }
            match (&x.out, &y.out) {
                (CallOut::Ok(a, s), CallOut::Ok(b, t)) => {
                    check!(a == b && s == t, "limit-changes-output", "limited run gave {:?}, unlimited {:?}", a, b);
                    ctx.probe("limited-equals-unlimited");
                }
                (CallOut::Ok(a, _), y) if !matches!(y, CallOut::Cut) => {
                    return viol("limit-changes-output", format!("limited run gave {:?}, unlimited {:?}", a, y));
                }
                (CallOut::Limit, CallOut::Ok(b, _)) if plan.negs.is_empty() => {
                    check!(b.len() as u64 > limit, "early-limit", "LimitExceeded at {limit}, but the same entropy gives only {} terminals", b.len());
                }
                _ => {}
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

const NEVER: u32 = u32::MAX;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WeightPlan {
    /// Weights in thousandths; 0 = unweighted (weight 1), `NEVER` = weight 0.
    pub weights: Vec<u32>,
    pub weights2: Vec<u32>,
    /// 0 grid, 1 bytes, 2 PRNG single, 3 PRNG pair, 4 the exact share of each alternative
    pub mode: u8,
    pub n: usize,
    pub seed: u64,
    pub limit_rhs: bool,
    pub depth: usize,
    /// Which terminal each alternative begins with: alternatives may read alike.
    #[serde(default)]
    pub alike: Vec<usize>,
}

pub fn generate_weights(rng: &mut Rng) -> WeightPlan {
    let n1 = if rng.chance(10) { rng.range(8, 40) } else { rng.range(1, 7) };
    let n2 = if rng.chance(5) { rng.range(5, 30) } else { rng.range(2, 4) };
    let mut ws = |n: usize| -> Vec<u32> {
        let style = rng.below(6);
        let mut v: Vec<u32> = (0..n)
            .map(|_| match style {
                0 => 0,
                1 => *rng.pick(&[1, 10, 100, 1000, 5000]),
                2 => rng.range(1, 3000) as u32,
                3 => *rng.pick(&[0, 500, 1000, 2000, 250]),
                5 => *rng.pick(&[1, 7, 1000, 1_000_000, 123_456_789, 4_000_000_000]),
                _ => *rng.pick(&[NEVER, NEVER, 0, 1000, 400]),
            })
            .collect();
        if v.iter().all(|&w| w == NEVER) {
            v[0] = 0;
        }
        v
    };
    let weights = ws(n1);
    let weights2 = ws(n2);
    let alike = match rng.below(3) {
        0 => (0..n1).map(|i| rng.below(i + 1)).collect(),
        1 => {
            let mut v: Vec<usize> = (0..n1).collect();
            for i in 1..n1 {
                if rng.chance(40) {
                    v[i] = v[i - 1];
                }
            }
            v
        }
        _ => vec![],
    };
    let mode = rng.weighted(&[4, 3, 2, 3, 4]) as u8;
    WeightPlan {
        alike: if mode == 4 { vec![] } else { alike },
        weights,
        weights2,
        mode,
        n: 600,
        seed: rng.u64(),
        limit_rhs: rng.chance(40),
        depth: if rng.chance(5) { rng.range(3, 5) } else { rng.below(3) },
    }
}

#[derive(Clone)]
struct Const {
    frac: f64,
    shared: Rc<Shared>,
}
impl GenRange for Const {
    fn generate(&mut self, limit: f64) -> f64 {
        self.shared.draw();
        self.frac * limit
    }
    fn mutate_start(&mut self, _: u64) {}
}

pub fn exec_weights(plan: &WeightPlan, ctx: &mut Ctx) -> Res {
    if plan.weights.is_empty() || plan.weights.len() > 64 || plan.weights2.is_empty() || plan.weights2.len() > 64 || plan.n == 0 || plan.n > 20_000 || plan.depth > 5 {
        return Ok(());
    }
    let mut g = Cfg::new();
    if [&plan.weights, &plan.weights2].iter().any(|w| w.iter().all(|&w| w == NEVER)) {
        return Ok(());
    }
    let wh = |w: u32, l: Symbol| weight_history(if w == 0 { None } else { Some(if w == NEVER { 0 } else { w }) }, l);
    let [start, a, b] = g.sym();
    let mut ta = vec![];
    let pad = g.next_sym(None);
    for _ in &plan.weights {
        ta.push(g.next_sym(None));
    }
    let group: Vec<usize> = (0..ta.len()).map(|i| plan.alike.get(i).copied().unwrap_or(i) % ta.len()).collect();
    for (&w, &t) in plan.weights.iter().zip(&group) {
        // longer right-hand sides so that a length limit splits them
        let mut rhs = vec![ta[t]];
        rhs.extend(std::iter::repeat_n(pad, plan.depth));
        g.rule(a).history(wh(w, a)).rhs(&rhs);
    }
    let mut tb = vec![];
    for &w in &plan.weights2 {
        let t = g.next_sym(None);
        tb.push(t);
        g.rule(b).history(wh(w, b)).rhs([t]);
    }
    if plan.mode == 3 {
        g.rule(start).rhs([a, b]);
    } else {
        g.rule(start).rhs([a]);
    }
    if plan.limit_rhs {
        g.limit_rhs_len(Some(2));
    }
    let eff = |ws: &[u32]| -> Vec<f64> {
        let v: Vec<f64> = ws.iter().map(|&w| if w == 0 { 1.0 } else if w == NEVER { 0.0 } else { w as f64 / 1000.0 }).collect();
        let t: f64 = v.iter().sum();
        v.iter().map(|x| x / t).collect()
    };
    // alternatives that read alike are counted together
    let mut pa = vec![0.0; ta.len()];
    let mut members = vec![0; ta.len()];
    for (p, &t) in eff(&plan.weights).into_iter().zip(&group) {
        pa[t] = f64::min(pa[t] + p, 1.0);
        members[t] += 1;
    }
    if plan.weights.contains(&NEVER) {
        ctx.probe("alternatives-of-weight-zero");
    }
    if members.iter().any(|&m| m > 1) {
        ctx.probe("alternatives-that-read-alike");
    }
    let pb = eff(&plan.weights2);
    if plan.mode == 4 {
        return exact_shares(plan, &g, start, &ta, &pa, &members, ctx);
    }
    let n = if plan.mode == 1 { 256 } else { plan.n };
    let mut counts = vec![vec![0u64; tb.len()]; ta.len()];
    let mut rng = SmallRng::seed_from_u64(plan.seed);
    let shared = Shared::new(1_000_000);
    for i in 0..n {
        let out = run(|| match plan.mode {
            0 => {
                let mut r = Const { frac: (i as f64 + 0.5) / n as f64, shared: shared.clone() };
                g.random(start, None, &mut r, &[], |_, _: &mut Const| None)
            }
            1 => {
                let mut r = ByteSource::new(vec![i as u8, i as u8, i as u8].into_iter());
                g.random(start, None, &mut r, &[], |_, _| None)
            }
            _ => g.random(start, None, &mut rng, &[], |_, _: &mut SmallRng| None),
        });
        ctx.steps += 1;
        let res = match out {
            Outcome::Done(Ok((s, _))) => s,
            Outcome::Done(Err(e)) => return viol("error", format!("{e:?} without limits")),
            Outcome::Panicked(m) => return viol("panic", m),
            _ => return viol("panic", "unexpected"),
        };
        let ia = ta.iter().position(|t| res.first() == Some(t));
        let ib = if plan.mode == 3 { tb.iter().position(|t| res.last() == Some(t)) } else { Some(0) };
        match (ia, ib) {
            (Some(x), Some(y)) => counts[x][y] += 1,
            _ => return viol("no-choice", format!("output {res:?} shows no alternative")),
        }
    }
    ctx.event(format!("{counts:?}"));
    ctx.sched(&format!("{counts:?}"));
    ctx.state(fnv(FNV0, format!("{counts:?}").as_bytes()));
    ctx.nontrivial = ta.len() > 1;
    ctx.probe(&format!("mode:{}", ["uniform-grid", "byte-sweep", "prng", "prng-pair"][plan.mode.min(3) as usize]));
    let nf = n as f64;
    for x in 0..ta.len() {
        let row: u64 = counts[x].iter().sum();
        let exp = nf * pa[x];
        let tol = match plan.mode {
            0 => (2.0 + 1e-6 * nf) * (members[x] as f64).max(1.0),
            1 => 3.0 * (members[x] as f64).max(1.0),
            _ => 7.0 * (nf * pa[x] * (1.0 - pa[x])).sqrt() + 7.0,
        };
        check!(
            (row as f64 - exp).abs() <= tol,
            "disproportionate",
            "alternative {x} of weights {:?} was chosen {row} times out of {n}, expected {exp:.1} +- {tol:.1} (mode {})",
            plan.weights, plan.mode
        );
        if plan.mode == 3 {
            for y in 0..tb.len() {
                let p = pa[x] * pb[y];
                let exp = nf * p;
                let tol = 7.0 * (nf * p * (1.0 - p)).sqrt() + 7.0;
                check!(
                    (counts[x][y] as f64 - exp).abs() <= tol,
                    "dependent",
                    "pair ({x},{y}) of weights {:?} x {:?} was chosen {} times out of {n}, expected {exp:.1} +- {tol:.1}",
                    plan.weights, plan.weights2, counts[x][y]
                );
            }
        }
    }
    Ok(())
}

/// Which part of the entropy leads to which alternative: the ends of every part are found by
/// bisection, so that alternatives far lighter than any grid are measured as well.
fn exact_shares(plan: &WeightPlan, g: &Cfg, start: Symbol, ta: &[Symbol], pa: &[f64], members: &[usize], ctx: &mut Ctx) -> Res {
    let shared = Shared::new(1_000_000);
    let mut asked = 0u64;
    let mut choice = |frac: f64| -> Res<usize> {
        asked += 1;
        let mut r = Const { frac, shared: shared.clone() };
        let res = match run(|| g.random(start, None, &mut r, &[], |_, _: &mut Const| None)) {
            Outcome::Done(Ok((s, _))) => s,
            Outcome::Done(Err(e)) => return viol("error", format!("{e:?} without limits")),
            Outcome::Panicked(m) => return viol("panic", m),
            _ => return viol("panic", "unexpected"),
        };
        match ta.iter().position(|t| res.first() == Some(t)) {
            Some(x) => Ok(x),
            None => viol("no-choice", format!("output {res:?} shows no alternative")),
        }
    };
    let top = 1.0 - f64::EPSILON;
    let grid = 64;
    let mut points: Vec<(f64, usize)> = vec![];
    for i in 0..=grid {
        let f = (i as f64 / grid as f64).min(top);
        points.push((f, choice(f)?));
    }
    let mut share = vec![0.0; ta.len()];
    let mut parts = vec![];
    let mut stack: Vec<((f64, usize), (f64, usize))> = points.windows(2).rev().map(|w| (w[0], w[1])).collect();
    while let Some((lo, hi)) = stack.pop() {
        let mid = (lo.0 + hi.0) / 2.0;
        if lo.1 == hi.1 || mid <= lo.0 || mid >= hi.0 || hi.0 - lo.0 < 1e-15 {
            share[lo.1] += mid - lo.0;
            share[hi.1] += hi.0 - mid;
            if parts.last() != Some(&hi.1) {
                parts.push(hi.1);
            }
            continue;
        }
        let m = (mid, choice(mid)?);
        stack.push((m, hi));
        stack.push((lo, m));
    }
    ctx.steps += asked;
    ctx.event(format!("{parts:?} {share:?}"));
    ctx.sched(&format!("{parts:?}"));
    ctx.state(fnv(FNV0, format!("{share:?}").as_bytes()));
    ctx.nontrivial = ta.len() > 1;
    ctx.probe("mode:exact-shares");
    if pa.iter().any(|&p| p > 0.0 && p < 1e-6) {
        ctx.probe("very-light-alternative");
    }
    for x in 0..ta.len() {
        // alternatives that read alike may lie apart, with parts narrower than the first grid
        let tol = 1e-12 + pa[x] * 1e-3 + if members[x] > 1 || members.contains(&0) { 0.5 } else { 0.0 };
        check!(
            (share[x] - pa[x]).abs() <= tol,
            "disproportionate",
            "alternative {x} of weights {:?} is chosen for a share of {:e} of the entropy instead of {:e}",
            plan.weights,
            share[x],
            pa[x]
        );
    }
    Ok(())
}
