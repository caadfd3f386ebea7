//! Every analysis the crates offer, answered as text.
use crate::core::*;
use crate::generator::syms;
use crate::rng::Rng;
use cfg_classify::CfgClassifyExt;
use cfg_classify::cyclical::Cycles;
use cfg_classify::lr::{Lr0Item, Lr0Items};
use cfg_grammar::{Cfg, RhsPropertyMode, SymbolBitSet};
use cfg_predict_distance::{DistanceDirection, MinimalDistance};
use cfg_predict_sets::{CfgSetsExt, LastSets, PerSymbolSets, PredictSets};
use cfg_symbol::Symbol;
use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, SymbolBitMatrix};
use std::fmt::Write;

pub const KINDS: u8 = 20;

fn set(s: &SymbolBitSet) -> String {
    format!("{}:{:?}", s.space(), s.iter().map(|x| x.usize()).collect::<Vec<_>>())
}
fn sets(m: &PerSymbolSets) -> String {
    let mut o = String::new();
    for (k, v) in m {
        let _ = write!(o, "{}:{}{:?} ", k.usize(), v.has_none, v.list.iter().map(|x| x.usize()).collect::<Vec<_>>());
    }
    o
}
fn matrix(m: &SymbolBitMatrix, all: &[Symbol]) -> String {
    let mut o = String::new();
    for &r in all {
        let _ = write!(o, "{:?} ", m.iter_row_syms(r).map(|x| x.usize()).collect::<Vec<_>>());
    }
    o
}

/// A set drawn over the grammar's symbols.
fn drawn(g: &Cfg, rng: &mut Rng, all: &[Symbol]) -> SymbolBitSet {
    let mut p = SymbolBitSet::from_elem(g, false);
    for &s in all {
        if rng.chance(35) {
            p.set(s, true);
        }
    }
    p
}

pub fn raw(g: &mut Cfg, kind: u8, seed: u64) -> String {
    let mut rng = Rng::new(seed);
    let n = g.num_syms();
    let all = syms(n);
    let rules: Vec<usize> = g.rules().map(|r| r.rhs.len()).collect();
    match kind % KINDS {
        0 => sets(g.first_sets().predict_sets()),
        1 => sets(g.follow_sets().predict_sets()),
        2 => sets(LastSets::new(g).predict_sets()),
        3 => {
            let f = g.first_sets();
            let mut o = sets(g.follow_sets_with_first(&f).predict_sets());
            for _ in 0..3 {
                let k = rng.below(4);
                let s: Vec<Symbol> = (0..k).filter_map(|_| all.get(rng.below(n.max(1))).copied()).collect();
                let v = f.first_set_for_string(&s);
                let _ = write!(o, "| {} {:?}", v.has_none, v.list.iter().map(|x| x.usize()).collect::<Vec<_>>());
            }
            o
        }
        4 => {
            let t = g.ll_parse_table();
            let c = t.classify();
            c.classes().iter().map(|(k, v)| format!("{}:{v:?} ", k.usize())).collect()
        }
        5 => {
            let r = g.recursion();
            r.recursive_rules()
                .map(|r| format!("{}::={:?} {:?} ", r.rule.lhs.usize(), r.rule.rhs.iter().map(|x| x.usize()).collect::<Vec<_>>(), r.recursion))
                .collect()
        }
        6 => {
            let r = g.recursion();
            r.minimal_distances()
                .map(|r| format!("{}::={:?} {:?} {:?} ", r.rule.lhs.usize(), r.rule.rhs.len(), r.recursion, r.distances))
                .collect()
        }
        7 => {
            let u = g.usefulness();
            let mut o = format!("{} {} {} ", u.all_useful(), u.all_productive(), u.all_reachable());
            for &s in &all {
                let _ = write!(o, "{} ", u.productivity(s));
            }
            for r in u.useless_rules(g) {
                let x = r.usefulness();
                let _ = write!(o, "| {} {} {}", r.rule().lhs.usize(), x.reachable, x.productive);
            }
            for r in g.rules() {
                let x = u.usefulness(r).usefulness();
                let _ = write!(o, "/{}{}", x.reachable, x.productive);
            }
            o
        }
        8 => {
            let k = rng.range(1, 3);
            let roots: Vec<Symbol> = (0..k).filter_map(|_| all.get(rng.below(n.max(1))).copied()).collect();
            let u = g.usefulness_with_roots(&roots);
            u.useless_rules(g).map(|r| format!("{}:{:?} ", r.rule().lhs.usize(), r.usefulness())).collect()
        }
        9 => {
            let mut dots = vec![];
            if !rules.is_empty() {
                for _ in 0..rng.range(1, 3) {
                    let r = rng.below(rules.len());
                    dots.push((r, rng.below(rules[r] + 1)));
                }
            }
            let dir = [DistanceDirection::Forward, DistanceDirection::Backward, DistanceDirection::Symmetric][rng.below(3)];
            let mut m = MinimalDistance::new(g);
            format!("{:?}", m.minimal_distances(&dots, dir))
        }
        10 => format!("{} {} {}", set(&g.nulling_symbols()), set(&g.terminal_symbols()), set(&g.unused_symbols())),
        11 => {
            let mut a = drawn(g, &mut rng, &all);
            let mut b = a.clone();
            g.rhs_closure_for_all(&mut a);
            g.rhs_closure_for_any(&mut b);
            format!("{} {}", set(&a), set(&b))
        }
        12 => {
            let mut nl = g.nulling_symbols();
            g.rhs_closure(&mut nl, RhsPropertyMode::All);
            set(&nl)
        }
        13 => {
            let mut v: Vec<Option<u32>> = (0..n).map(|_| if rng.chance(40) { Some(rng.below(6) as u32) } else { None }).collect();
            g.rhs_closure_with_values(&mut v);
            format!("{v:?}")
        }
        14 => format!(
            "{} / {} / {}",
            matrix(&g.reachability_matrix(), &all),
            matrix(&g.unit_derivation_matrix(), &all),
            matrix(&g.direct_derivation_matrix(), &all)
        ),
        15 => {
            // LR(0) closure and advance of drawn items
            let mut items = Lr0Items { map: Default::default() };
            let list: Vec<Vec<Symbol>> = g.rules().map(|r| r.rhs.to_vec()).collect();
            for _ in 0..rng.range(1, 2) {
                if list.is_empty() {
                    break;
                }
                let r = rng.below(list.len());
                items.map.insert(r as u32, Lr0Item { rhs: list[r].clone(), dot: rng.below(list[r].len() + 1) as u32 });
            }
            let mut b = g.lr0_closure_builder();
            b.closure(&mut items);
            let mut o = format!("{items:?}");
            for &s in all.iter().take(48) {
                let _ = write!(o, "|{:?}", b.advance(&items, s));
            }
            o
        }
        16 => {
            // the machine builder augments its grammar, so it works on a copy
            let mut c = g.clone();
            let Some(&start) = all.get(rng.below(n.max(1))) else { return String::new() };
            let out = format!("{:?}", c.lr0_fsm_builder().make_lr0_fsm(start));
            out
        }
        17 => {
            let mut c = Cycles::new(&*g);
            let f = c.cycle_free();
            format!("{f} {:?}", c.classify().map(|x| x.1).collect::<Vec<_>>())
        }
        18 => {
            let mut o = g.stringify_to_bnf();
            for d in g.column(if rng.chance(10) { rng.below(20) } else { rng.below(5) }) {
                let _ = write!(o, "{d:?}");
            }
            let _ = write!(o, "{} {}", g.is_empty(), g.has_roots());
            o
        }
        _ => {
            // an interrupted query: a set with too little space makes the closure give up half-way
            let mut small = SymbolBitSet::new();
            small.reserve(rng.below(n.max(1)).max(1));
            let first = all.first().copied();
            if let Some(f) = first {
                small.set(f, true);
            }
            let mode = if rng.chance(50) { RhsPropertyMode::All } else { RhsPropertyMode::Any };
            match run(|| g.rhs_closure(&mut small, mode)) {
                Outcome::Done(()) => set(&small),
                _ => "gave up".into(),
            }
        }
    }
}

/// A query never takes the simulator down; a panic is an answer like any other.
pub fn answer(g: &mut Cfg, kind: u8, seed: u64) -> String {
    match run(|| raw(g, kind, seed)) {
        Outcome::Done(s) => s,
        Outcome::Panicked(m) => format!("panicked: {}", m.split(" at ").next().unwrap_or("")),
        _ => "interrupted".into(),
    }
}
