//! C19: the same documents and operations in several simulated processes whose operating system
//! hands out different entropy (hash seeds); the transcripts must be identical.
use crate::core::*;
use crate::entropy::in_process;
use crate::hist;
use crate::load;
use crate::ops::{self, CycleAnswer, HistPlan, Ret, dump};
use crate::query;
use crate::rng::Rng;
use cfg_grammar::Cfg;
use cfg_load::{CfgLoadAdvancedExt, CfgLoadExt};
use cfg_regexp_logic::CfgRegexpExt;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt::Write;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HashPlan {
    /// 0 no document, 1 basic, 2 advanced, 3 regular expression
    pub kind: u8,
    pub doc: String,
    pub grammar: HistPlan,
    pub queries: Vec<(u8, u64)>,
    /// entropy of each process, and how many hash maps it made before
    pub processes: Vec<(u64, u8)>,
}

pub fn generate(rng: &mut Rng) -> HashPlan {
    let kind = rng.weighted(&[5, 3, 4, 2]) as u8;
    let doc = match kind {
        1 => load::generate("C06", rng).new,
        2 => load::generate("C07", rng).new,
        3 if rng.chance(50) => crate::regex::generate(rng).regexp,
        3 => load::regexp(rng),
        _ => String::new(),
    };
    let mut grammar = ops::generate("C19", rng);
    for s in &mut grammar.steps {
        s.fault = None;
        s.who = 0;
    }
    HashPlan {
        kind,
        doc,
        grammar,
        queries: (0..rng.below(5)).map(|_| (rng.below(query::KINDS as usize) as u8, rng.u64())).collect(),
        processes: (0..rng.range(2, 4)).map(|_| (rng.u64(), rng.below(5) as u8)).collect(),
    }
}

fn show(g: &Cfg, out: &mut Vec<String>) {
    out.push(format!("{:?}", dump(g)));
    let mut map: Vec<(String, usize)> = g.sym_source().name_map().into_iter().map(|(k, v)| (k.to_string(), v.usize())).collect();
    map.sort();
    out.push(format!("{map:?}"));
}

fn lexer_map(m: &mut cfg_regexp_logic::LexerMap, out: &mut Vec<String>) {
    let mut s = String::new();
    for (k, v) in &m.classes {
        let _ = write!(s, "{:?}={} ", k.iter().collect::<Vec<_>>(), v.usize());
    }
    out.push(s);
    m.compute();
    let mut s = String::new();
    for c in ['a', 'b', 'c', 'x', '0', '\\', '"', 'é', '\u{10FFFF}', 'T', '\n'] {
        let _ = write!(s, "{c:?}={:?} ", m.get(c).iter().map(|x| x.usize()).collect::<Vec<_>>());
    }
    out.push(s);
}

/// Everything one process observes.
fn transcript(p: &HashPlan) -> Vec<String> {
    let mut out = vec![];
    let mut g = match p.kind {
        1 => match Cfg::load(&p.doc) {
            Ok(g) => g,
            Err(e) => {
                out.push(format!("{e:?}"));
                ops::initial(&p.grammar)
            }
        },
        2 => match Cfg::load_advanced(&p.doc) {
            Ok(mut a) => {
                out.push(format!("{:?} {:?} {:?}", a.actions, a.sym_map, a.sbs.iter().map(|x| x.usize()).collect::<Vec<_>>()));
                lexer_map(&mut a.lexer_map, &mut out);
                a.cfg
            }
            Err(e) => {
                out.push(format!("{e:?}"));
                ops::initial(&p.grammar)
            }
        },
        3 => match Cfg::from_regexp(&p.doc) {
            Ok((g, mut m)) => {
                lexer_map(&mut m, &mut out);
                g
            }
            Err(_) => {
                out.push("refused".into());
                ops::initial(&p.grammar)
            }
        },
        _ => ops::initial(&p.grammar),
    };
    show(&g, &mut out);
    for step in &p.grammar.steps {
        let pre = dump(&g);
        let Some(op) = hist::normalise(&step.op, &pre) else { continue };
        let other = g.clone();
        let tick = RefCell::new(ops::no_tick);
        let r = run(|| ops::apply(&mut g, &op, Some(&other), &tick));
        let text = match r {
            Outcome::Done(r) => match r {
                Ret::None => String::new(),
                Ret::Syms(v) => format!("{v:?}"),
                Ret::Parts(v) => format!("{v:?}"),
                Ret::Nulling(g) => format!("{:?}", dump(&g)),
                Ret::Mapping(m, _) => format!("{m:?}"),
                Ret::Bool(b) => format!("{b}"),
                Ret::Text(t) => t,
                Ret::Cycles(v) => v
                    .iter()
                    .map(|a| match a {
                        CycleAnswer::Free(b) => format!("{b};"),
                        CycleAnswer::Rules(v) => format!("{v:?};"),
                        CycleAnswer::Participants(b, v) => format!("{b} {v:?};"),
                        CycleAnswer::Mutated(_) => ";".into(),
                    })
                    .collect(),
            },
            Outcome::Panicked(m) => {
                out.push(format!("{} panicked: {m}", hist::op_name(&op)));
                return out;
            }
            _ => "unwound".into(),
        };
        out.push(format!("{}: {text}", hist::op_name(&op)));
        show(&g, &mut out);
    }
    for &(k, seed) in &p.queries {
        out.push(format!("query {k}: {}", query::answer(&mut g, k, seed)));
    }
    if let Outcome::Done(t) = run(|| g.to_bnf()) {
        out.push(t);
    }
    out
}

pub fn exec(p: &HashPlan, ctx: &mut Ctx) -> Res {
    if !hist::valid(&p.grammar) || p.processes.is_empty() || p.processes.len() > 6 || p.queries.len() > 10 {
        return Ok(());
    }
    let mut first: Option<Vec<String>> = None;
    for (k, &(seed, warm)) in p.processes.iter().enumerate() {
        ctx.fault("hash-seed-change");
        let q = p.clone();
        let got = in_process(seed ^ 0x5eed, move || {
            for _ in 0..warm {
                std::hint::black_box(std::collections::HashMap::<u8, u8>::new());
            }
            match run(|| transcript(&q)) {
                Outcome::Done(t) => t,
                Outcome::Panicked(m) => vec![format!("panicked: {m}")],
                _ => vec![],
            }
        });
        let Ok(got) = got else { return viol("process-died", "a simulated process died") };
        ctx.steps += got.len() as u64;
        match &first {
            None => {
                for l in &got {
                    ctx.event(l);
                    ctx.state(fnv(FNV0, l.as_bytes()));
                }
                ctx.sched(&format!("{} {}", p.kind, got.len()));
                ctx.nontrivial = got.len() > 2;
                first = Some(got);
            }
            Some(f) => {
                if *f != got {
                    let i = f.iter().zip(&got).take_while(|(a, b)| a == b).count();
                    return viol(
                        "entropy-dependent",
                        format!("process {k} differs from the first at line {i}: {:?} vs {:?}", f.get(i), got.get(i)),
                    );
                }
            }
        }
    }
    Ok(())
}
