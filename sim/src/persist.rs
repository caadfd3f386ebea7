//! C08: checkpoints of symbols, names, sets, mappings and rule ids on a disk that crashes and
//! decays, read back by a restarted process.
use crate::check;
use crate::core::*;
use crate::disk::{self, Damage};
use crate::entropy::in_process;
use crate::ops::{self, HistPlan, Op, RemapOp, Ret};
use crate::rng::Rng;
use cfg_grammar::{Cfg, SymbolBitSet};
use cfg_history::earley::{EventId, ExternalDottedRule, ExternalOrigin, MinimalDistance};
use cfg_symbol::intern::Mapping;
use cfg_symbol::{Symbol, SymbolName, SymbolPrimitive, SymbolSource};
use nanoserde::{DeBin, SerBin};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::RefCell;
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PersistPlan {
    /// 0 symbols, 1 names, 2 set, 3 mapping, 4 rule ids, 5 everything in one file
    pub kind: u8,
    /// 0 miniserde JSON, 1 nanoserde binary (symbols, ids), 2 serde JSON (symbols, mapping, ids)
    pub format: u8,
    pub width: u8,
    pub read_width: u8,
    pub values: [Vec<u32>; 2],
    pub names: [Vec<Option<String>>; 2],
    pub sets: [(usize, Vec<usize>); 2],
    /// grammars whose remapping gives the mappings
    pub grammar: HistPlan,
    pub remaps: [Vec<RemapOp>; 2],
    pub block: usize,
    pub damage: Vec<Damage>,
    pub os: u64,
    /// what is done with the restored values
    pub later: Vec<u32>,
}

/// One file with everything (the reader and writer are the crates' implementations, put together
/// by miniserde's derive).
#[derive(miniserde::Serialize, miniserde::Deserialize)]
struct Checkpoint {
    symbols: Vec<Symbol>,
    names: Vec<Option<SymbolName>>,
    set: SymbolBitSet,
    mapping: Mapping,
    origins: Vec<ExternalOrigin>,
}

const NASTY: &[&str] = &[
    "", "a", "start", "\"", "\\", "\\\"", "\n", "\t\r", "\u{0}", "\u{1f}", "\u{7f}", "é", "\u{FFFD}", "\u{10FFFF}", "\u{D7FF}\u{E000}", "null", "[1]", "{}", "a b", "/", "\u{8}\u{c}", "\u{2028}", "🯰", "x\u{301}",
];

/// Any characters, for a text of any length up to some hundreds.
fn any_name(rng: &mut Rng) -> String {
    let len = if rng.chance(15) { rng.range(13, 300) } else { rng.below(13) };
    (0..len)
        .map(|_| match rng.below(6) {
            0 => char::from(rng.below(32) as u8),
            1 => *rng.pick(&['"', '\\', '/', '\u{7f}', 'u', '0', ',', ']', '}']),
            2 => char::from_u32(rng.below(0x800) as u32).unwrap_or('x'),
            3 => char::from_u32(rng.below(0x110000) as u32).unwrap_or('\u{FFFE}'),
            _ => char::from(b'a' + rng.below(26) as u8),
        })
        .collect()
}

pub fn generate(rng: &mut Rng) -> PersistPlan {
    let kind = rng.weighted(&[4, 3, 3, 4, 2, 3]) as u8;
    let format = match kind {
        0 | 4 => rng.below(3) as u8,
        3 => [0, 0, 2][rng.below(3)],
        _ => 0,
    };
    let width = [8, 16, 32][rng.below(3)];
    let read_width = if rng.chance(75) { width } else { [8, 16, 32][rng.below(3)] };
    let value = |rng: &mut Rng| -> u32 {
        match rng.below(6) {
            0 => rng.below(4) as u32,
            1 => 250 + rng.below(10) as u32,
            2 => 65530 + rng.below(10) as u32,
            3 => u32::MAX - 1 - rng.below(3) as u32,
            4 => rng.below(300) as u32,
            _ => (rng.u64() >> (32 + rng.below(32))) as u32,
        }
    };
    let mut values = [vec![], vec![]];
    for v in &mut values {
        // now and then far more than a handful
        for _ in 0..if rng.chance(4) { rng.range(8, 80) } else { rng.below(8) } {
            let x = value(rng);
            v.push(x);
        }
    }
    let mut names = [vec![], vec![]];
    for v in &mut names {
        for _ in 0..if rng.chance(4) { rng.range(7, 80) } else { rng.below(7) } {
            v.push(match rng.below(5) {
                0 => None,
                4 => Some(any_name(rng)),
                1 => Some(format!("{}{}", rng.pick(NASTY), rng.pick(NASTY))),
                _ => Some(rng.pick(NASTY).to_string()),
            });
        }
    }
    let mut sets = [(0, vec![]), (0, vec![])];
    for s in &mut sets {
        let space = *rng.pick(&[0, 1, 5, 31, 32, 33, 63, 64, 65, 100, 128, 257, 300]);
        let n = if rng.chance(10) { rng.range(8, 80) } else { rng.below(8) };
        *s = (space, (0..n).map(|_| rng.below(space.max(1))).collect());
    }
    let mut grammar = ops::generate("C13", rng);
    grammar.steps.clear();
    let mut remaps = [vec![], vec![]];
    for r in &mut remaps {
        for _ in 0..if rng.chance(4) { rng.range(3, 10) } else { rng.below(3) } {
            r.push(match rng.below(3) {
                0 => RemapOp::RemoveUnused,
                1 => RemapOp::Reorder(rng.u64()),
                _ => RemapOp::Coarse(rng.u64()),
            });
        }
    }
    let block = *rng.pick(&[1, 4, 8, 16, 64, 512]);
    let mut p = PersistPlan {
        kind,
        format,
        width,
        read_width,
        values,
        names,
        sets,
        grammar,
        remaps,
        block,
        damage: vec![],
        os: rng.u64(),
        later: (0..rng.below(6)).map(|_| rng.below(200) as u32).collect(),
    };
    let len = match run(|| bytes_of(&p, 1)) {
        Outcome::Done(b) => b.len(),
        _ => 0,
    };
    p.damage = match rng.below(5) {
        0 => vec![],
        1 => vec![Damage::Short(rng.below(len + 1))],
        _ => disk::draw(rng, len, block, b"0123456789,[]{}\"\\nul:-.e \0\xff\x01"),
    };
    p
}

// ---------------------------------------------------------------- values

fn symbols<T: SymbolPrimitive>(values: &[u32]) -> Vec<Symbol<T>> {
    // any symbol a source of this width can hand out; high ones only exist in restored form
    values
        .iter()
        .map(|&v| {
            let v = v.min(T::MAX - 1);
            if v < 70_000 {
                // the last value of a narrow space is read, sources stop just below it
                if v + 3 < T::MAX {
                    return SymbolSource::<T>::generate_fresh().nth(v as usize).expect("symbol");
                }
            }
            miniserde::json::from_str(&v.to_string()).unwrap_or_else(|_| Symbol::first())
        })
        .collect()
}

fn table(names: &[Option<String>]) -> Vec<Option<SymbolName>> {
    let mut s: SymbolSource = SymbolSource::new();
    for n in names {
        s.next_sym(n.clone().map(Cow::Owned));
    }
    s.names()
}

fn bitset(space: usize, bits: &[usize]) -> SymbolBitSet {
    let mut s: SymbolSource = SymbolSource::new();
    let all: Vec<Symbol> = s.generate().take(space).collect();
    let mut set = SymbolBitSet::new();
    set.reset(&s);
    for &b in bits {
        if let Some(&x) = all.get(b) {
            set.set(x, true);
        }
    }
    set
}

fn mapping(p: &PersistPlan, i: usize) -> Mapping {
    let mut g = ops::initial(&p.grammar);
    let ops: Vec<RemapOp> = p.remaps[i].iter().filter(|o| !matches!(o, RemapOp::Permute(_))).cloned().collect();
    let tick = RefCell::new(ops::no_tick);
    match ops::apply(&mut g, &Op::Remap(ops), None, &tick) {
        Ret::Mapping(m, _) => m,
        _ => Mapping::default(),
    }
}

type Ids = ((Vec<ExternalOrigin>, Vec<EventId>), (Vec<MinimalDistance>, Vec<ExternalDottedRule>));

fn ids(values: &[u32]) -> Ids {
    let dotted = |&v: &u32| {
        let text = format!("{{\"id\":{v},\"pos\":{}}}", v.rotate_left(9));
        miniserde::json::from_str(&text).unwrap_or(ExternalDottedRule::null())
    };
    (
        (values.iter().map(|&id| ExternalOrigin { id }).collect(), values.iter().map(|&id| EventId { id: !id }).collect()),
        (values.iter().map(|&distance| MinimalDistance { distance }).collect(), values.iter().map(dotted).collect()),
    )
}

fn checkpoint(p: &PersistPlan, i: usize) -> Checkpoint {
    Checkpoint {
        symbols: symbols(&p.values[i]),
        names: table(&p.names[i]),
        set: bitset(p.sets[i].0, &p.sets[i].1),
        mapping: mapping(p, i),
        origins: ids(&p.values[i]).0.0,
    }
}

fn to_bin<T: SerBin>(xs: &[T], out: &mut Vec<u8>) {
    for x in xs {
        x.ser_bin(out);
    }
}

fn symbol_bytes<T: SymbolPrimitive + serde::Serialize>(p: &PersistPlan, i: usize) -> Vec<u8> {
    let s = symbols::<T>(&p.values[i]);
    match p.format {
        2 => serde_json::to_vec(&s).expect("serde"),
        _ => miniserde::json::to_string(&s).into_bytes(),
    }
}

/// What the checkpoint writer puts in the file.
fn bytes_of(p: &PersistPlan, i: usize) -> Vec<u8> {
    match p.kind {
        0 if p.format == 1 => {
            let mut out = vec![];
            to_bin(&symbols::<NonZeroU32>(&p.values[i]), &mut out);
            out
        }
        0 => match p.width {
            8 => symbol_bytes::<NonZeroU8>(p, i),
            16 => symbol_bytes::<NonZeroU16>(p, i),
            _ => symbol_bytes::<NonZeroU32>(p, i),
        },
        1 => miniserde::json::to_string(&table(&p.names[i])).into_bytes(),
        2 => miniserde::json::to_string(&bitset(p.sets[i].0, &p.sets[i].1)).into_bytes(),
        3 if p.format == 2 => serde_json::to_vec(&mapping(p, i)).expect("serde"),
        3 => miniserde::json::to_string(&mapping(p, i)).into_bytes(),
        4 => {
            let x = ids(&p.values[i]);
            match p.format {
                1 => {
                    let mut out = vec![];
                    to_bin(&x.0.0, &mut out);
                    to_bin(&x.0.1, &mut out);
                    to_bin(&x.1.0, &mut out);
                    to_bin(&x.1.1, &mut out);
                    out
                }
                2 => serde_json::to_vec(&x).expect("serde"),
                _ => miniserde::json::to_string(&x).into_bytes(),
            }
        }
        _ => miniserde::json::to_string(&checkpoint(p, i)).into_bytes(),
    }
}

// ---------------------------------------------------------------- what the restarted process sees

/// Everything observable of restored values, as text, including what further use gives.
fn use_set(set: &SymbolBitSet, later: &[u32]) -> String {
    let mut s = set.clone();
    let all: Vec<Symbol> = SymbolSource::generate_fresh().take(s.space()).collect();
    let mut out = format!("space {} members {:?} all {} ", s.space(), s.iter().map(|x| x.usize()).collect::<Vec<_>>(), s.all());
    for &l in later {
        if let Some(&x) = all.get(l as usize % all.len().max(1)) {
            s.set(x, l % 3 != 0);
        }
    }
    let mut t = s.clone();
    t.negate();
    out += &format!("{:?} ", t.iter().map(|x| x.usize()).collect::<Vec<_>>());
    t.union(&s);
    t.reserve(s.space() + 7);
    s.reserve(s.space() + later.len());
    out += &format!("{:?} {:?} {}", t.iter().map(|x| x.usize()).collect::<Vec<_>>(), s.bit_vec(), t.all());
    for &x in &all {
        out.push(if set[x] { '1' } else { '0' });
    }
    out
}

fn show_mapping(m: &Mapping) -> String {
    format!(
        "{:?} {:?}",
        m.to_internal.iter().map(|x| x.map(|x| x.usize())).collect::<Vec<_>>(),
        m.to_external.iter().map(|x| x.usize()).collect::<Vec<_>>()
    )
}

fn use_mapping(m: &Mapping, later: &[u32]) -> String {
    let mut m2 = m.clone();
    // a later renumbering: rotate the internal symbols
    let n = m.to_external.len();
    let mut next = Mapping::new(n);
    let all: Vec<Symbol> = SymbolSource::generate_fresh().take(n).collect();
    let r = later.first().copied().unwrap_or(1) as usize;
    next.to_external = (0..n).map(|i| all[(i + r) % n]).collect();
    for (i, x) in next.to_external.clone().into_iter().enumerate() {
        next.to_internal[x.usize()] = Some(all[i]);
    }
    m2.translate(&next);
    format!("{} then {}", show_mapping(m), show_mapping(&m2))
}

fn use_symbols<T: SymbolPrimitive>(v: &[Symbol<T>]) -> String {
    v.iter()
        .map(|x| {
            let n: u32 = (*x).into();
            format!("{} {n} ", x.usize())
        })
        .collect()
}

fn use_names(v: &[Option<SymbolName>], later: &[u32]) -> String {
    let mut g = Cfg::new();
    for n in v {
        g.next_sym(n.as_ref().map(|n| Cow::Borrowed(&**n)));
    }
    for &l in later {
        g.next_sym(Some(Cow::Owned(format!("later{l}"))));
    }
    let src = g.sym_source();
    let mut m: Vec<(String, usize)> = src.name_map().into_iter().map(|(k, v)| (k.to_string(), v.usize())).collect();
    m.sort();
    let all: Vec<Symbol> = SymbolSource::generate_fresh().take(g.num_syms()).collect();
    format!(
        "{:?} {:?} {:?}",
        v.iter().map(|n| n.as_ref().map(|n| n.to_string())).collect::<Vec<_>>(),
        all.iter().map(|&s| src.name_of(s).to_string()).collect::<Vec<_>>(),
        m
    )
}

enum Read {
    Refused,
    /// what was read, and what further use of it showed (if it could be used)
    Got(String),
}

fn read_symbols<T: SymbolPrimitive + for<'a> serde::Deserialize<'a>>(p: &PersistPlan, text: &str) -> Read {
    let r: Option<Vec<Symbol<T>>> = match p.format {
        2 => serde_json::from_str(text).ok(),
        _ => miniserde::json::from_str(text).ok(),
    };
    match r {
        Some(v) => Read::Got(use_symbols(&v)),
        None => Read::Refused,
    }
}

fn read_bin<T: DeBin>(n: usize, at: &mut usize, b: &[u8]) -> Option<Vec<T>> {
    let mut out = vec![];
    for _ in 0..n {
        out.push(T::de_bin(at, b).ok()?);
    }
    Some(out)
}

/// Reads the file as the restarted process does. `usable`: the content is known to be intact.
fn read(p: &PersistPlan, bytes: &[u8], count: usize, usable: bool) -> Read {
    let show_ids = |x: &Ids| format!("{x:?}");
    if p.format == 1 && p.kind == 0 {
        let mut at = 0;
        return match read_bin::<Symbol>(count, &mut at, bytes) {
            Some(v) => Read::Got(use_symbols(&v)),
            None => Read::Refused,
        };
    }
    if p.format == 1 && p.kind == 4 {
        let mut at = 0;
        let at = &mut at;
        let r = (|| Some(((read_bin(count, at, bytes)?, read_bin(count, at, bytes)?), (read_bin(count, at, bytes)?, read_bin(count, at, bytes)?))))();
        return match r {
            Some(x) => Read::Got(show_ids(&x)),
            None => Read::Refused,
        };
    }
    let Ok(text) = std::str::from_utf8(bytes) else { return Read::Refused };
    let later: &[u32] = &p.later;
    macro_rules! got {
        ($r:expr, $show:expr) => {
            match $r {
                Ok(v) => Read::Got(if usable { $show(&v) } else { String::from("read") }),
                Err(_) => Read::Refused,
            }
        };
    }
    match p.kind {
        0 => match p.read_width {
            8 => read_symbols::<NonZeroU8>(p, text),
            16 => read_symbols::<NonZeroU16>(p, text),
            _ => read_symbols::<NonZeroU32>(p, text),
        },
        1 => match miniserde::json::from_str::<Vec<Option<SymbolName>>>(text) {
            Ok(v) => Read::Got(use_names(&v, later)),
            Err(_) => Read::Refused,
        },
        2 => got!(miniserde::json::from_str::<SymbolBitSet>(text), |v: &SymbolBitSet| use_set(v, later)),
        3 if p.format == 2 => got!(serde_json::from_str::<Mapping>(text), |v: &Mapping| use_mapping(v, later)),
        3 => match miniserde::json::from_str::<Mapping>(text) {
            Ok(v) => Read::Got(if usable { use_mapping(&v, later) } else { show_mapping(&v) }),
            Err(_) => Read::Refused,
        },
        4 if p.format == 2 => got!(serde_json::from_str::<Ids>(text), show_ids),
        4 => got!(miniserde::json::from_str::<Ids>(text), show_ids),
        _ => got!(miniserde::json::from_str::<Checkpoint>(text), |c: &Checkpoint| use_checkpoint(c, later)),
    }
}

fn use_checkpoint(c: &Checkpoint, later: &[u32]) -> String {
    format!(
        "{} | {} | {} | {} | {:?}",
        use_symbols(&c.symbols),
        use_names(&c.names, later),
        use_set(&c.set, later),
        use_mapping(&c.mapping, later),
        c.origins
    )
}

/// What the process that never restarted sees.
fn twin(p: &PersistPlan, i: usize) -> String {
    let later: &[u32] = &p.later;
    match p.kind {
        0 if p.format == 1 => use_symbols(&symbols::<NonZeroU32>(&p.values[i])),
        0 => match p.width {
            8 => use_symbols(&symbols::<NonZeroU8>(&p.values[i])),
            16 => use_symbols(&symbols::<NonZeroU16>(&p.values[i])),
            _ => use_symbols(&symbols::<NonZeroU32>(&p.values[i])),
        },
        1 => use_names(&table(&p.names[i]), later),
        2 => use_set(&bitset(p.sets[i].0, &p.sets[i].1), later),
        3 => use_mapping(&mapping(p, i), later),
        4 => format!("{:?}", ids(&p.values[i])),
        _ => use_checkpoint(&checkpoint(p, i), later),
    }
}

/// Independent reading of undamaged-looking JSON, for damage that leaves well-formed text.
fn reference(p: &PersistPlan, text: &str) -> Option<Option<String>> {
    use serde_json::Value;
    let max = |w: u8| -> u64 {
        match w {
            8 => u8::MAX as u64,
            16 => u16::MAX as u64,
            _ => u32::MAX as u64,
        }
    };
    let nums = |v: &Value, w: u8| -> Option<Option<Vec<u64>>> {
        let a = v.as_array()?;
        let mut out = vec![];
        let mut ok = true;
        for x in a {
            let n = x.as_u64()?;
            ok &= n < max(w);
            out.push(n);
        }
        Some(if ok { Some(out) } else { None })
    };
    if p.format != 0 {
        return None;
    }
    let v: Value = serde_json::from_str(text).ok()?;
    match p.kind {
        0 => Some(nums(&v, p.read_width)?.map(|v| v.iter().map(|n| format!("{n} {n} ")).collect())),
        1 => {
            let mut names = vec![];
            for x in v.as_array()? {
                match x {
                    Value::Null => names.push(None),
                    Value::String(s) => names.push(Some(s.clone())),
                    _ => return None,
                }
            }
            Some(Some(use_names(&table(&names), &p.later)))
        }
        3 => {
            let o = v.as_object()?;
            if o.len() != 2 || text.matches("\"to_").count() != 2 {
                return None;
            }
            let mut internal = vec![];
            let mut ok = true;
            for x in o.get("to_internal")?.as_array()? {
                internal.push(match x {
                    Value::Null => None,
                    x => {
                        let n = x.as_u64()?;
                        ok &= n < max(32);
                        Some(n)
                    }
                });
            }
            let external = nums(o.get("to_external")?, 32)?;
            Some(match external {
                Some(e) if ok => Some(format!("{internal:?} {e:?}")),
                _ => None,
            })
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- the run

pub fn exec(plan: &PersistPlan, ctx: &mut Ctx) -> Res {
    let p = plan;
    if !crate::hist::valid(&p.grammar) || p.sets.iter().any(|s| s.0 > 400) || p.kind > 5 || p.later.len() > 20 || p.values.iter().any(|v| v.len() > 100) || p.names.iter().any(|v| v.len() > 100) {
        return Ok(());
    }
    let p = &{
        let mut q = p.clone();
        if !matches!((q.kind, q.format), (0 | 4, _) | (3, 2)) {
            q.format = 0;
        }
        if q.kind != 0 || q.format == 1 {
            q.read_width = q.width;
        }
        q
    };
    ctx.steps += 2;
    let old = must("writer-panics", "writing the old checkpoint", || bytes_of(p, 0))?;
    let new = must("writer-panics", "writing the checkpoint", || bytes_of(p, 1))?;
    let stored = disk::store(&old, &new, p.block, &p.damage, ctx);
    let which = if stored == new {
        Some(1)
    } else if stored == old && (p.format != 1 || p.values[0].len() == p.values[1].len()) {
        Some(0)
    } else {
        None
    };
    ctx.sched(&format!("{} {} {}", p.kind, p.format, p.width));
    let count = p.values[which.unwrap_or(1)].len();
    let same_width = p.read_width == p.width;
    let expected = match which {
        Some(i) if same_width => Some(must("writer-panics", "using the values", || twin(p, i))?),
        _ => None,
    };
    ctx.fault("restart");
    let (pp, bytes) = (p.clone(), stored.clone());
    let usable = which.is_some();
    let outcome = in_process(p.os, move || match run(|| read(&pp, &bytes, count, usable)) {
        Outcome::Done(Read::Got(s)) => Ok(Some(s)),
        Outcome::Done(Read::Refused) => Ok(None),
        Outcome::Panicked(m) => Err(m),
        _ => Err("unwound".into()),
    });
    let shown = String::from_utf8_lossy(&stored).to_string();
    let got = match outcome {
        Ok(Ok(g)) => g,
        Ok(Err(m)) => return viol("reader-panics", format!("reading {shown:?} panicked: {m}")),
        Err(_) => return viol("reader-panics", format!("reading {shown:?} ended the process")),
    };
    ctx.event(format!("kind {} format {} {} bytes -> {:?}", p.kind, p.format, stored.len(), got));
    ctx.state(fnv(FNV0, &stored));
    if let Some(want) = expected {
        ctx.nontrivial = true;
        ctx.probe("intact-restart");
        match &got {
            None => return viol("checkpoint-refused", format!("an intact checkpoint is refused: {shown:?}")),
            Some(g) => check!(*g == want, "restored-differently", "checkpoint {shown:?} restored as {g}, was {want}"),
        }
        return Ok(());
    }
    if same_width && stored.len() < new.len() && new.starts_with(&stored) {
        ctx.nontrivial = true;
        ctx.probe("truncated");
        check!(got.is_none(), "truncated-accepted", "the first {} of {} bytes of a checkpoint are accepted: {shown:?} as {:?}", stored.len(), new.len(), got);
        return Ok(());
    }
    if let Ok(text) = std::str::from_utf8(&stored) {
        if let Some(want) = reference(p, text) {
            ctx.nontrivial = true;
            ctx.probe(if same_width { "well-formed-damage" } else { "other-width" });
            let got = if p.kind == 3 && usable { got.as_ref().map(|g| g.split(" then ").next().unwrap_or("").to_string()) } else { got.clone() };
            check!(
                got == want,
                "damaged-reading",
                "{shown:?} (written with {} bits, read with {}) reads as {got:?}, expected {want:?}",
                p.width,
                p.read_width
            );
            return Ok(());
        }
    }
    ctx.probe("damaged");
    Ok(())
}
