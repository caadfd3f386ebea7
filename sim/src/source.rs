//! C12: histories of a symbol source of any width, up to exhaustion of its symbol space.
use crate::check;
use crate::core::*;
use crate::ops::{NAMES, name, permutation};
use crate::rng::Rng;
use cfg_symbol::{Symbol, SymbolPrimitive, SymbolSource};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SrcOp {
    Sym(u8),
    Next(Option<u8>),
    WithNames(Vec<Option<u8>>),
    Generate(usize),
    /// up to that distance from the end of the symbol space, then on
    Fill(usize),
    Truncate(usize),
    Remap(u64, Option<usize>),
    Clone(usize),
    Fresh(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SourcePlan {
    pub width: u8,
    pub holders: usize,
    pub source_steps: Vec<(usize, SrcOp)>,
}

pub fn generate(rng: &mut Rng) -> SourcePlan {
    let width = [8, 8, 8, 16, 32, 32][rng.below(6)];
    let holders = rng.range(1, 3);
    let n = if rng.chance(4) { rng.range(17, 36) } else { rng.range(2, 16) };
    let mut wide_fill = false;
    let nm = |rng: &mut Rng| if rng.chance(60) { Some(rng.below(NAMES.len()) as u8) } else { None };
    let source_steps = (0..n)
        .map(|_| {
            let op = match rng.weighted(&[4, 6, 4, 4, 3, 5, 3, 2, 1]) {
                0 => SrcOp::Sym(if rng.chance(4) { rng.below(7) } else { rng.below(5) } as u8),
                1 => SrcOp::Next(nm(rng)),
                2 => SrcOp::WithNames((0..if rng.chance(4) { rng.range(4, 12) } else { rng.below(4) }).map(|_| nm(rng)).collect()),
                3 => SrcOp::Generate(rng.below(40)),
                4 => {
                    if width == 16 && (wide_fill || !rng.chance(6)) {
                        SrcOp::Generate(rng.below(300))
                    } else {
                        wide_fill = width == 16;
                        SrcOp::Fill(rng.below(6))
                    }
                }
                5 => SrcOp::Truncate(match rng.below(3) {
                    0 => rng.range(1, 8),
                    1 => rng.range(1, 60),
                    _ => rng.range(1, 300),
                }),
                6 => SrcOp::Remap(rng.u64(), if rng.chance(30) { Some(rng.below(10)) } else { None }),
                7 => SrcOp::Clone(rng.below(holders)),
                _ => SrcOp::Fresh(rng.below(200)),
            };
            (rng.below(holders), op)
        })
        .collect();
    SourcePlan { width, holders, source_steps }
}

pub fn exec(plan: &SourcePlan, ctx: &mut Ctx) -> Res {
    if plan.holders == 0 || plan.holders > 4 || plan.source_steps.len() > 40 {
        return Ok(());
    }
    match plan.width {
        8 => history::<NonZeroU8>(plan, ctx),
        16 => history::<NonZeroU16>(plan, ctx),
        _ => history::<NonZeroU32>(plan, ctx),
    }
}

type Names = Vec<Option<String>>;

fn history<T: SymbolPrimitive + PartialEq + std::fmt::Debug + 'static>(plan: &SourcePlan, ctx: &mut Ctx) -> Res {
    let mut real: Vec<SymbolSource<T>> = (0..plan.holders).map(|_| SymbolSource::new()).collect();
    let mut model: Vec<Names> = vec![vec![]; plan.holders];
    // even the smallest symbol space has room for this many
    let room = T::MAX as usize - 2;
    for (k, (who, op)) in plan.source_steps.iter().enumerate() {
        let who = who % plan.holders;
        let live = model[who].len();
        ctx.steps += 1;
        ctx.sched(&format!("{who}{}", op_label(op)));
        let s = &mut real[who];
        // names the operation should give to new symbols, and what it handed out
        let mut want: Names = vec![];
        let mut got: Vec<usize> = vec![];
        let outcome = match op {
            SrcOp::Sym(n) => {
                want = vec![None; [0, 1, 2, 3, 4, 11, 33][*n as usize % 7]];
                run(|| match n % 7 {
                    0 => got.extend(s.sym::<0>().iter().map(|x| x.usize())),
                    1 => got.extend(s.sym::<1>().iter().map(|x| x.usize())),
                    2 => got.extend(s.sym::<2>().iter().map(|x| x.usize())),
                    3 => got.extend(s.sym::<3>().iter().map(|x| x.usize())),
                    4 => got.extend(s.sym::<4>().iter().map(|x| x.usize())),
                    5 => got.extend(s.sym::<11>().iter().map(|x| x.usize())),
                    _ => got.extend(s.sym::<33>().iter().map(|x| x.usize())),
                })
            }
            SrcOp::Next(n) => {
                want = vec![n.map(|n| name(n).to_string())];
                run(|| got.push(s.next_sym(n.map(|n| Cow::Borrowed(name(n)))).usize()))
            }
            SrcOp::WithNames(v) => {
                let v: Vec<Option<&'static str>> = v.iter().take(if v.len() < 6 { 3 } else { 6 }).map(|n| n.map(name)).collect();
                want = v.iter().map(|n| n.map(|n| n.to_string())).collect();
                run(|| match v[..] {
                    [] => {}
                    [a] => got.extend(s.with_names([a]).iter().map(|x| x.usize())),
                    [a, b] => got.extend(s.with_names([a, b]).iter().map(|x| x.usize())),
                    [a, b, c] => got.extend(s.with_names([a, b, c]).iter().map(|x| x.usize())),
                    _ => got.extend(s.with_names(std::array::from_fn::<_, 6, _>(|k| v[k])).iter().map(|x| x.usize())),
                })
            }
            SrcOp::Generate(n) => {
                want = vec![None; (*n).min(400)];
                run(|| got.extend(s.generate().take((*n).min(400)).map(|x| x.usize())))
            }
            SrcOp::Fill(short) => {
                let n = if T::MAX == u32::MAX { 30 } else { (room + 3).saturating_sub(live + short) };
                want = vec![None; n];
                run(|| got.extend(s.generate().take(n).map(|x| x.usize())))
            }
            SrcOp::Truncate(n) => {
                let n = (*n).clamp(1, T::MAX as usize);
                model[who].truncate(n);
                ctx.probe(if n < live { "truncated" } else { "truncated-upwards" });
                run(|| s.truncate(n))
            }
            SrcOp::Remap(seed, crash) => {
                let all: Vec<Symbol<T>> = SymbolSource::<T>::generate_fresh().take(live.min(room)).collect();
                let p = permutation(*seed, all.len());
                let mut calls = 0;
                let r = run(|| {
                    s.remap_symbols(|x| {
                        if *crash == Some(calls) {
                            throw_injected();
                        }
                        calls += 1;
                        all[p[x.usize()]]
                    })
                });
                match r {
                    Outcome::Injected => {
                        ctx.fault("callback-panic");
                        Outcome::Done(())
                    }
                    Outcome::Done(()) => {
                        let old = model[who].clone();
                        for (i, &to) in p.iter().enumerate() {
                            model[who][to] = old[i].clone();
                        }
                        Outcome::Done(())
                    }
                    other => other,
                }
            }
            SrcOp::Clone(from) => {
                let from = from % plan.holders;
                model[who] = model[from].clone();
                real[who] = real[from].clone();
                Outcome::Done(())
            }
            SrcOp::Fresh(n) => {
                let n = (*n).min(room - 1);
                let mut x = None;
                let r = run(|| x = SymbolSource::<T>::generate_fresh().nth(n));
                if let Some(x) = x {
                    check!(x.usize() == n, "fresh-numbering", "generate_fresh().nth({n}) is symbol {}", x.usize());
                    let u: u32 = x.into();
                    check!(u as usize == n, "fresh-numbering", "symbol {n} converts to {u}");
                }
                r
            }
        };
        match outcome {
            Outcome::Done(()) => {
                let expect: Vec<usize> = (live..live + want.len()).collect();
                check!(
                    got == expect,
                    "not-fresh",
                    "{} with {live} live symbols handed out {:?}, expected {:?}",
                    op_label(op),
                    head(&got),
                    head(&expect)
                );
                if !want.is_empty() {
                    model[who].extend(want);
                    ctx.nontrivial = true;
                }
            }
            Outcome::Panicked(m) => {
                let n = real[who].num_syms();
                check!(
                    live + want.len() > room,
                    "allocation-fails",
                    "{} panicked with {live} symbols live and room for {room}: {m}",
                    op_label(op)
                );
                ctx.fault("symbol-space-exhausted");
                for (i, x) in got.iter().enumerate() {
                    check!(*x == live + i, "not-fresh", "handed out {x} as number {i} after {live} live symbols");
                }
                check!(
                    n >= live && n <= live + want.len() && n >= room.min(live + want.len()),
                    "lost-count",
                    "after running out of symbols there are {n} symbols, {live} before, {} asked for",
                    want.len()
                );
                model[who].extend(want.into_iter().take(n - live));
            }
            _ => return viol("stray", "stray unwinding"),
        }
        for h in 0..plan.holders {
            let (r, m) = (&real[h], &model[h]);
            check!(r.num_syms() == m.len(), "count", "step {k} {}: {} symbols, expected {}", op_label(op), r.num_syms(), m.len());
            let names = r.names();
            check!(names.len() == m.len(), "names-misaligned", "step {k} {}: {} names for {} symbols", op_label(op), names.len(), m.len());
            for (i, (a, b)) in names.iter().zip(m).enumerate() {
                check!(a.as_deref() == b.as_deref(), "name-lost", "step {k} {}: symbol {i} is called {:?}, expected {:?}", op_label(op), a.as_deref(), b);
            }
        }
        let probe: Vec<Symbol> = SymbolSource::<NonZeroU32>::generate_fresh().take(model[who].len().min(40)).collect();
        for (i, &x) in probe.iter().enumerate() {
            let m = model[who][i].as_deref();
            check!(real[who].original_name_of(x) == m, "name-queries", "original_name_of({i}) is {:?}, expected {m:?}", real[who].original_name_of(x));
            let shown = real[who].name_of(x);
            match m {
                Some(m) => check!(shown == m, "name-queries", "name_of({i}) is {shown:?}, expected {m:?}"),
                None => {}
            }
        }
        let map = real[who].name_map();
        for (n, x) in &map {
            check!(
                model[who].get(x.usize()).is_some_and(|m| m.as_deref() == Some(&**n)),
                "name-queries",
                "name_map has {:?} for {}",
                &**n,
                x.usize()
            );
        }
        for n in model[who].iter().flatten() {
            check!(map.contains_key(n.as_str()), "name-queries", "name_map misses {n:?}");
        }
        ctx.event(format!("{k}: {} by {who} -> {} symbols", op_label(op), model[who].len()));
        let mut h = fnv(FNV0, &[plan.width]);
        h = fnv(h, &(model[who].len() as u64).to_le_bytes());
        for n in model[who].iter().take(64) {
            h = fnv(h, n.as_deref().unwrap_or("-").as_bytes());
        }
        ctx.state(h);
    }
    Ok(())
}

fn head(v: &[usize]) -> Vec<usize> {
    if v.len() <= 6 { v.to_vec() } else { vec![v[0], v[1], v[v.len() - 2], v[v.len() - 1]] }
}

fn op_label(op: &SrcOp) -> &'static str {
    match op {
        SrcOp::Sym(_) => "sym",
        SrcOp::Next(_) => "next_sym",
        SrcOp::WithNames(_) => "with_names",
        SrcOp::Generate(_) => "generate",
        SrcOp::Fill(_) => "fill",
        SrcOp::Truncate(_) => "truncate",
        SrcOp::Remap(..) => "remap_symbols",
        SrcOp::Clone(_) => "clone",
        SrcOp::Fresh(_) => "generate_fresh",
    }
}
