//! C26: regular expressions read back from damaged storage, translated, transformed and used
//! for matching and for generation.
use crate::check;
use crate::core::*;
use crate::disk::{self, Damage};
use crate::generator::rules_of;
use crate::ops::{GenSrc, deterministic_loop, dump};
use crate::rng::Rng;
use cfg_classify::CfgClassifyExt;
use cfg_generate::weighted::random::{GenRange, Limits, Random, RandomGenError};
use cfg_grammar::Cfg;
use cfg_regexp_logic::{CfgRegexpExt, LexerMap, RegexpError};
use cfg_symbol::Symbol;
use regex_syntax::hir::{Class, Hir, HirKind};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RegexPlan {
    pub regexp: String,
    pub older: String,
    pub block: usize,
    pub damage: Vec<Damage>,
    /// seed of the strings tried
    pub strings: u64,
    /// what happens to the grammar between the uses
    pub steps: Vec<u8>,
    pub entropy: u64,
}

/// Longest string that is tried.
const WORD: usize = 60;

const LITERALS: &[&str] = &["a", "b", "c", "A", "x", "0", "9", "_", "é", "É", "ü", "ß", "漢", "🯰", "\\.", "\\n", "\\x{7f}", "\\x{80}", "\\x{ff}", "\\x{100}", "\\u{10FFFF}", "\\x{0}", "\\x{D7FF}", "\\x{E000}", "ab", "aé", "éa", "k", "K", "\\*", "-", " "];
const CLASSES: &[&str] = &["[a-c]", "[^a]", "\\d", "\\w", "\\s", ".", "[é-ü]", "[\\x{D7F0}-\\x{E010}]", "[^\\x{0}-\\x{10FFFE}]", "\\pL", "[a-z&&[^m]]", "[[:alpha:]]", "[a&&b]", "[^b-y]", "[\\x{7e}-\\x{81}]", "[\\x{fe}-\\x{101}]", "[aé漢]", "[a-a]", "(?-u:\\d)", "(?s:.)", "\\D", "[ab-dx-z]", "[\\x{0}-\\x{10FFFF}]", "(?i:k)", "(?i:é)", "(?i:ab)", "(?-u:[a-c])", "[a-mk-z]", "[é]", "[\\x{10FFFE}-\\x{10FFFF}]"];
const REPS: &[&str] = &["*", "+", "?", "{2}", "{0,2}", "{1,3}", "{2,4}", "{3,}", "{0}", "*?", "+?", "??", "{1,}", "{0,1}", "{4}", "{2,3}", "{5,6}", "{0,5}", "{1}", "{8}", "{7,9}", "{0,8}", "{12}", "{1,11}", "{9,}"];

/// A class of a few drawn ranges, sometimes next to each other or overlapping.
fn class(rng: &mut Rng) -> String {
    let mut s = String::from(if rng.chance(20) { "[^" } else { "[" });
    for _ in 0..if rng.chance(8) { rng.range(4, 40) } else { rng.range(1, 3) } {
        let from = match rng.below(6) {
            0 => 0x78 + rng.below(16) as u32,
            1 => 0xf8 + rng.below(16) as u32,
            2 => 0xd7f8 + rng.below(8) as u32,
            3 => rng.below(0xd000) as u32,
            _ => 'a' as u32 + rng.below(20) as u32,
        };
        let to = from + [0, 1, 2, 5, 300][rng.weighted(&[3, 3, 3, 2, 1])];
        let to = if (0xd800..0xe000).contains(&to) { 0xd7ff } else { to };
        s += &format!("\\x{{{from:x}}}");
        if to > from {
            s += &format!("-\\x{{{to:x}}}");
        }
    }
    s + "]"
}

/// `pool`: parts written before, which come up again now and then.
fn expr(rng: &mut Rng, depth: usize, pool: &mut Vec<String>) -> String {
    if !pool.is_empty() && rng.chance(14) {
        return rng.pick(pool).clone();
    }
    let k = if depth == 0 { rng.below(2) } else { rng.weighted(&[4, 3, 4, 4, 3, 1]) };
    let s = match k {
        0 => (*rng.pick(LITERALS)).to_string(),
        1 if rng.chance(15) => class(rng),
        1 => (*rng.pick(CLASSES)).to_string(),
        2 if rng.chance(15) => {
            // two parts that are nearly the same
            let mut alts: Vec<String> = (0..rng.range(2, 3)).map(|_| expr(rng, depth - 1, pool)).collect();
            let (open, rep) = (*rng.pick(&["(?:", "("]), *rng.pick(&["", "", "?", "*", "{2}", "{1,2}"]));
            let one = format!("{open}{}){rep}", alts.join("|"));
            let k = rng.below(alts.len());
            match rng.below(3) {
                0 => alts[k] = expr(rng, depth - 1, pool),
                1 => alts[k].push_str(*rng.pick(LITERALS)),
                _ => {
                    alts.remove(k);
                }
            }
            let rep = if rng.chance(70) { rep } else { *rng.pick(REPS) };
            let two = format!("{open}{}){rep}", alts.join("|"));
            let between = if rng.chance(50) { *rng.pick(LITERALS) } else { "" };
            if rng.chance(70) { format!("{one}{between}{two}") } else { format!("{one}|{between}{two}") }
        }
        2 | 3 if rng.chance(5) => {
            // many simple parts
            let parts: Vec<String> = (0..if rng.chance(10) { rng.range(15, 40) } else { rng.range(5, 14) }).map(|_| expr(rng, 0, pool)).collect();
            if k == 2 { parts.concat() } else { format!("({})", parts.join("|")) }
        }
        4 if rng.chance(4) => {
            let top = if rng.chance(30) { 50 } else { 24 };
            let (a, b) = (rng.range(13, top), rng.below(6));
            let x = expr(rng, 0, pool);
            match rng.below(3) {
                0 => format!("(?:{x}){{{a}}}"),
                1 => format!("(?:{x}){{{},{a}}}", b + 1),
                _ => format!("(?:{x}){{{b},{a}}}"),
            }
        }
        2 => (0..rng.range(2, 4)).map(|_| expr(rng, depth - 1, pool)).collect(),
        3 => {
            let alts: Vec<String> = (0..rng.range(1, 3)).map(|_| if rng.chance(10) { String::new() } else { expr(rng, depth - 1, pool) }).collect();
            match rng.below(4) {
                0 => format!("(?:{})", alts.join("|")),
                1 => format!("(?<n{depth}{}>{})", rng.below(100), alts.join("|")),
                _ => format!("({})", alts.join("|")),
            }
        }
        4 => {
            let x = expr(rng, depth - 1, pool);
            format!("(?:{x}){}", rng.pick(REPS))
        }
        _ => (*rng.pick(&["^", "$", "\\b", "(?m:^)", "\\A", "(", ")", "[", "*", "{", "(?", "\\", "[z-a]", "a{3,2}", "(?P<", "\\q", ""])).to_string(),
    };
    if k < 5 && s.len() < 60 && !s.contains("?<") {
        pool.push(s.clone());
    }
    s
}

pub fn generate(rng: &mut Rng) -> RegexPlan {
    let depth = if rng.chance(3) { 4 } else { rng.range(0, 3) };
    let mut pool = vec![];
    let regexp = if rng.chance(15) { format!("{}|{}", expr(rng, depth, &mut pool), expr(rng, 1, &mut pool)) } else { expr(rng, depth, &mut pool) };
    let older = if rng.chance(50) { expr(rng, 2, &mut pool) } else { regexp.chars().rev().collect() };
    let block = *rng.pick(&[1, 2, 4, 8]);
    let damage = if rng.chance(55) { vec![] } else { disk::draw(rng, regexp.len(), block, b"()|*+?{}[]^$\\.-,a1\xc3\x80&:") };
    RegexPlan {
        regexp,
        older,
        block,
        damage,
        strings: rng.u64(),
        steps: (0..rng.below(4)).map(|_| rng.below(9) as u8).collect(),
        entropy: rng.u64(),
    }
}

// ---------------------------------------------------------------- reference

fn in_class(c: &Class, ch: char) -> bool {
    match c {
        Class::Unicode(u) => u.ranges().iter().any(|r| r.start() <= ch && ch <= r.end()),
        Class::Bytes(b) => b.ranges().iter().any(|r| (r.start() as u32) <= ch as u32 && ch as u32 <= r.end() as u32),
    }
}

/// Positions (as bits) where a match that began at one of `from` can end.
fn ends(h: &Hir, cs: &[char], from: u64) -> u64 {
    match h.kind() {
        HirKind::Empty => from,
        HirKind::Literal(l) => {
            let mut cur = from;
            for c in std::str::from_utf8(&l.0).unwrap_or("\u{FFFD}").chars() {
                let mut next = 0;
                for (i, x) in cs.iter().enumerate() {
                    if cur >> i & 1 == 1 && *x == c {
                        next |= 1 << (i + 1);
                    }
                }
                cur = next;
            }
            cur
        }
        HirKind::Class(c) => {
            let mut next = 0;
            for (i, x) in cs.iter().enumerate() {
                if from >> i & 1 == 1 && in_class(c, *x) {
                    next |= 1 << (i + 1);
                }
            }
            next
        }
        HirKind::Look(_) => 0,
        HirKind::Repetition(r) => {
            let mut cur = from;
            for _ in 0..r.min.min(70) {
                cur = ends(&r.sub, cs, cur);
            }
            let mut all = cur;
            let mut left = r.max.map(|m| m - r.min);
            while cur != 0 && left != Some(0) {
                cur = ends(&r.sub, cs, cur) & !all;
                all |= cur;
                left = left.map(|x| x - 1);
            }
            all
        }
        HirKind::Capture(c) => ends(&c.sub, cs, from),
        HirKind::Concat(v) => v.iter().fold(from, |f, x| ends(x, cs, f)),
        HirKind::Alternation(v) => v.iter().fold(0, |a, x| a | ends(x, cs, from)),
    }
}

fn is_match(h: &Hir, cs: &[char]) -> bool {
    ends(h, cs, 1) >> cs.len() & 1 == 1
}

fn pick_char(rng: &mut Rng, ranges: &[(char, char)]) -> Option<char> {
    let (a, b) = *ranges.get(rng.below(ranges.len().max(1)))?;
    let n = b as u32 - a as u32;
    for _ in 0..4 {
        let x = match rng.below(4) {
            0 => a as u32,
            1 => b as u32,
            2 => a as u32 + n.min(1),
            _ => a as u32 + rng.below(n as usize + 1) as u32,
        };
        if let Some(c) = char::from_u32(x) {
            return Some(c);
        }
    }
    Some(a)
}

/// A string the expression matches.
fn sample(h: &Hir, rng: &mut Rng, out: &mut Vec<char>) -> bool {
    if out.len() > WORD {
        return false;
    }
    match h.kind() {
        HirKind::Empty => true,
        HirKind::Literal(l) => {
            out.extend(std::str::from_utf8(&l.0).unwrap_or("").chars());
            true
        }
        HirKind::Class(c) => {
            let r: Vec<(char, char)> = match c {
                Class::Unicode(u) => u.ranges().iter().map(|r| (r.start(), r.end())).collect(),
                Class::Bytes(b) => b.ranges().iter().map(|r| (r.start() as char, r.end() as char)).collect(),
            };
            match pick_char(rng, &r) {
                Some(c) => {
                    out.push(c);
                    true
                }
                None => false,
            }
        }
        HirKind::Look(_) => true,
        HirKind::Repetition(r) => {
            let top = r.max.unwrap_or(r.min.saturating_add(3)).min(r.min.saturating_add(4));
            let mut n = r.min as usize + rng.below((top.max(r.min) - r.min) as usize + 1);
            if let Some(max) = r.max.filter(|&m| m <= WORD as u32 && m >= r.min) {
                if rng.chance(30) {
                    n = (max as usize).saturating_sub(rng.below(2)).max(r.min as usize);
                }
            }
            n < 100 && (0..n).all(|_| sample(&r.sub, rng, out))
        }
        HirKind::Capture(c) => sample(&c.sub, rng, out),
        HirKind::Concat(v) => v.iter().all(|x| sample(x, rng, out)),
        HirKind::Alternation(v) => sample(&v[rng.below(v.len())], rng, out),
    }
}

fn neighbours(c: char) -> impl Iterator<Item = char> {
    let prev = match c {
        '\u{E000}' => Some('\u{D7FF}'),
        _ => (c as u32).checked_sub(1).and_then(char::from_u32),
    };
    let next = match c {
        '\u{D7FF}' => Some('\u{E000}'),
        _ => char::from_u32(c as u32 + 1),
    };
    prev.into_iter().chain(next).chain([c])
}

fn strings(h: &Hir, seed: u64) -> Vec<Vec<char>> {
    let mut rng = Rng::new(seed);
    let mut out: Vec<Vec<char>> = vec![vec![], vec!['a']];
    let mut alphabet: Vec<char> = vec!['a', 'b', 'é', '0', '\u{10FFFF}', '\u{FF}', '\u{C3}', '\u{A9}'];
    for _ in 0..8 {
        let mut s = vec![];
        if sample(h, &mut rng, &mut s) && s.len() <= WORD {
            for &c in &s {
                alphabet.extend(neighbours(c));
            }
            // the UTF-8 bytes of a string are not the string
            if rng.chance(20) {
                let t: String = s.iter().collect();
                out.push(t.bytes().map(|b| b as char).take(WORD).collect());
            }
            for _ in 0..3 {
                let mut t = s.clone();
                for _ in 0..rng.range(1, 2) {
                    let c = *rng.pick(&alphabet);
                    match rng.below(4) {
                        0 if !t.is_empty() => {
                            let k = rng.below(t.len());
                            t.remove(k);
                        }
                        1 if !t.is_empty() => {
                            let k = rng.below(t.len());
                            t[k] = c;
                        }
                        2 if !t.is_empty() => {
                            let k = rng.below(t.len());
                            let x = t[k];
                            t.insert(k, x);
                        }
                        _ => t.insert(rng.below(t.len() + 1), c),
                    }
                }
                if t.len() <= WORD {
                    out.push(t);
                }
            }
            out.push(s);
        }
    }
    out.sort();
    out.dedup();
    out
}

// ---------------------------------------------------------------- the run

pub fn exec(plan: &RegexPlan, ctx: &mut Ctx) -> Res {
    if plan.regexp.len() > 1500 || plan.older.len() > 1500 || plan.damage.len() > 20 || plan.steps.len() > 12 {
        return Ok(());
    }
    let bytes = disk::store(plan.older.as_bytes(), plan.regexp.as_bytes(), plan.block, &plan.damage, ctx);
    let text = String::from_utf8_lossy(&bytes).into_owned();
    ctx.sched(&text);
    ctx.state(fnv(FNV0, text.as_bytes()));
    let hir = regex_syntax::Parser::new().parse(&text);
    // keep the workload small: counted repetitions of what damage made of the text
    if let Ok(h) = &hir {
        if h.properties().minimum_len().unwrap_or(0) > 300 || deep(h) > 3000 {
            ctx.probe("skipped:huge");
            return Ok(());
        }
    }
    let got = must("panic", "from_regexp", || Cfg::from_regexp(&text))?;
    let (hir, (mut g, mut map)) = match (hir, got) {
        (Err(_), Err(RegexpError::Syntax(_))) => {
            ctx.probe("rejected-syntax");
            return Ok(());
        }
        (Err(e), got) => return viol("accepted", format!("{text:?} is no regular expression ({e}), but the answer was {:?}", got.map(|_| ()))),
        (Ok(h), Err(e)) => {
            check!(!h.properties().look_set().is_empty(), "refused", "{e:?} for {text:?}");
            check!(e == RegexpError::UnsupportedAssertion, "refused", "{e:?} for {text:?}");
            ctx.probe("rejected-assertion");
            return Ok(());
        }
        (Ok(h), Ok(x)) => {
            check!(h.properties().look_set().is_empty(), "accepted", "{text:?} has assertions and was accepted");
            (h, x)
        }
    };
    ctx.probe("translated");
    ctx.event(format!("{text:?}: {} rules", g.rules().count()));
    must("panic", "LexerMap::compute", || map.compute())?;
    check!(g.roots().len() == 1, "roots", "{text:?} has roots {:?}", g.roots());
    lookup(&text, &g, &map)?;
    let words = strings(&hir, plan.strings);
    let verdicts: Vec<bool> = words.iter().map(|w| is_match(&hir, w)).collect();
    if verdicts.iter().any(|x| *x) && verdicts.iter().any(|x| !*x) {
        ctx.nontrivial = true;
    }
    recognise(&text, "", &g, &map, &words, &verdicts)?;
    sentences(&text, "", &g, &map, &hir, plan.entropy, ctx)?;
    for (k, step) in plan.steps.iter().enumerate() {
        if g.rules().count() > 300 {
            break;
        }
        ctx.steps += 1;
        let what = transform(&mut g, &mut map, *step)?;
        ctx.sched(what);
        let after = format!(" after {what}");
        recognise(&text, &after, &g, &map, &words, &verdicts)?;
        sentences(&text, &after, &g, &map, &hir, plan.entropy ^ (k as u64 + 1), ctx)?;
    }
    Ok(())
}

/// How large the translation of counted repetitions may become.
fn deep(h: &Hir) -> u64 {
    match h.kind() {
        HirKind::Repetition(r) => (r.min as u64 + r.max.unwrap_or(r.min) as u64 + 2).saturating_add(deep(&r.sub)),
        HirKind::Capture(c) => deep(&c.sub),
        HirKind::Concat(v) | HirKind::Alternation(v) => v.iter().map(deep).sum(),
        HirKind::Literal(l) => l.0.len() as u64,
        _ => 1,
    }
}

fn transform(g: &mut Cfg, map: &mut LexerMap, step: u8) -> Res<&'static str> {
    Ok(match step {
        0 => {
            must("panic", "limit_rhs_len", || g.limit_rhs_len(Some(2)))?;
            "limit_rhs_len(2)"
        }
        1 => {
            must("panic", "limit_rhs_len", || g.limit_rhs_len(Some(3)))?;
            "limit_rhs_len(3)"
        }
        2 => {
            must("panic", "make_proper", || g.make_proper())?;
            "make_proper"
        }
        3 => {
            g.sort();
            "sort"
        }
        4 => {
            let c = g.clone();
            *g = c;
            "clone"
        }
        5 => {
            must("panic", "LexerMap::compute", || map.compute())?;
            "compute again"
        }
        6 => {
            *map = map.clone();
            "clone of the map"
        }
        7 => {
            g.dedup();
            "dedup"
        }
        _ => {
            g.reverse();
            g.reverse();
            "reverse twice"
        }
    })
}

/// The character map agrees with its classes around all their boundaries.
fn lookup(text: &str, g: &Cfg, map: &LexerMap) -> Res {
    let mut try_out: BTreeSet<char> = ['\0', 'a', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{10FFFE}', '\u{10FFFF}'].into_iter().collect();
    let classes: Vec<(Vec<(char, char)>, Symbol)> = map.classes.iter().map(|(k, v)| (k.iter().collect(), *v)).collect();
    for (ranges, _) in &classes {
        for (a, b) in ranges.iter().take(12).chain(ranges.iter().rev().take(4)) {
            try_out.extend(neighbours(*a));
            try_out.extend(neighbours(*b));
        }
    }
    let terminals = g.terminal_symbols();
    for &c in &try_out {
        let got = must("panic", "LexerMap::get", || map.get(c).to_vec())?;
        let have: BTreeSet<Symbol> = got.iter().copied().collect();
        check!(have.len() == got.len(), "lookup", "{c:?} is looked up as {got:?} in {text:?}");
        let want: BTreeSet<Symbol> = classes
            .iter()
            .filter(|(r, _)| r.iter().any(|&(a, b)| if a == b { a == c } else { a <= c && c < b }))
            .map(|x| x.1)
            .collect();
        check!(have == want, "lookup", "{c:?} is looked up as {have:?}, its classes are {want:?}, in {text:?}");
        for s in have {
            check!(terminals[s], "lookup", "{c:?} is looked up as {s:?}, which has rules, in {text:?}");
        }
    }
    Ok(())
}

fn recognise(text: &str, after: &str, g: &Cfg, map: &LexerMap, words: &[Vec<char>], verdicts: &[bool]) -> Res {
    let rules = rules_of(g);
    let start = g.roots()[0];
    for (w, want) in words.iter().zip(verdicts) {
        let got = crate::load::matches(g.num_syms(), &rules, start, w, |c| map.get(c).iter().map(|s| s.usize()).collect());
        check!(got == *want, "language", "the grammar of {text:?}{after} {} {:?}", if got { "accepts" } else { "rejects" }, w.iter().collect::<String>());
    }
    Ok(())
}

/// Everything the translated grammar generates is matched by the expression.
fn sentences(text: &str, after: &str, g: &Cfg, map: &LexerMap, hir: &Hir, seed: u64, ctx: &mut Ctx) -> Res {
    let start = g.roots()[0];
    if deterministic_loop(&dump(g), start.usize()) {
        return Ok(());
    }
    for k in 0..3u64 {
        let mut src = GenSrc { seed: seed ^ (k << 40), at: 0 };
        let r = run(|| {
            g.random(start, Some(Limits { terminals: WORD as u64 - 4, negative_rule_attempts: 1 }), &mut src, &[], |sym, rng| {
                let ranges: Vec<(char, char)> = map.classes.iter().find(|c| *c.1 == sym).map(|c| c.0.iter().collect()).unwrap_or_default();
                let x = rng.generate(ranges.len() as f64) as usize;
                let &(a, b) = ranges.get(x)?;
                // half-open, except for the last character
                let n = (b as u32).saturating_sub(a as u32);
                let at = a as u32 + (rng.generate(n as f64) as u32).min(n.saturating_sub(1));
                char::from_u32(at).or(Some(a))
            })
        });
        match r {
            Outcome::Done(Ok((syms, chars))) => {
                if chars.len() == syms.len() && chars.len() <= WORD {
                    ctx.probe("generated-sentences");
                    check!(
                        is_match(hir, &chars),
                        "sentence",
                        "the grammar of {text:?}{after} generates {:?}, which the expression does not match",
                        chars.iter().collect::<String>()
                    );
                }
            }
            Outcome::Done(Err(RandomGenError::LimitExceeded)) => ctx.probe("generation-over-limit"),
            Outcome::Panicked(m) => return viol("panic", format!("generation from the grammar of {text:?}{after} panicked: {m}")),
            _ => {}
        }
    }
    Ok(())
}
