//! C06, C07: grammar documents read back from a disk that crashes and decays.
use crate::check;
use crate::core::*;
use crate::disk::{self, Damage};
use crate::lang::Space;
use crate::rng::Rng;
use cfg_grammar::Cfg;
use cfg_load::advanced::AdvancedGrammar;
use cfg_load::{CfgLoadAdvancedExt, CfgLoadExt};
use cfg_symbol::Symbol;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LoadPlan {
    pub old: String,
    pub new: String,
    pub block: usize,
    pub damage: Vec<Damage>,
    /// Replacement text instead of refusing when the bytes are not UTF-8.
    pub lossy: bool,
}

// ---------------------------------------------------------------- documents

const NAMES: &[&str] = &["a", "b", "ab", "a1", "_x", "start", "B", "expr", "lexer1", "Regexp", "x_9", "lexe", "lexer_", "lexers", "Lexer", "g3", "A", "Ab", "a_", "aa", "l", "e", "zZ", "Zz0", "aZ9", "Z", "z", "Q_0"];
/// Long names that only differ late.
const LONG: &[&str] = &[
    "additive_expression_of_the_grammar_a",
    "additive_expression_of_the_grammar_b",
    "additive_expression_of_the_grammar_",
    "a23456789_123456789_123456789_123456789_123456789_123456789_123456789_1",
    "a23456789_123456789_123456789_123456789_123456789_123456789_123456789_2",
    "a23456789_12345",
    "a23456789_12346",
];
const LITS: &[&str] = &[
    "b", "c", "bc", "aa", "", "x y", "::=", "q\\\"r", "\\\\", "é", "zzt", "\u{D7FF}", "0", "ab\n", "\u{10FFFF}", "\u{10FFFE}", "/", "~", "ÿ", "\u{7f}", "\u{80}", "if", "B", "C", "BC", "If", "while_a_long_keyword_that_is_rather_long_1", "while_a_long_keyword_that_is_rather_long_2",
];
/// Regular expressions with strings they match and strings they do not.
const REGEXPS: &[(&str, &[&str], &[&str])] = &[
    ("test(er)?", &["test", "tester"], &["teste", "tes", "", "testerer", "uest"]),
    ("[a-c]+", &["a", "c", "abc", "bb"], &["", "d", "ad", "`"]),
    ("x|yz", &["x", "yz"], &["y", "z", "xz", ""]),
    ("(ab)*", &["", "ab", "abab"], &["a", "ba", "aba"]),
    ("a{2,3}", &["aa", "aaa"], &["a", "aaaa", ""]),
    ("[^b]", &["a", "c", "é", "0"], &["b", ""]),
    ("", &[""], &["a"]),
    ("b", &["b"], &["c", "a", ""]),
    ("(x|y)z*", &["x", "y", "xz", "yzz"], &["z", "", "xy"]),
    (".", &["a", "é", "\u{10FFFF}"], &["\n", "", "aa"]),
    ("[0-9]+(q|rs)", &["1q", "23rs"], &["q", "1", "1r", ":q"]),
];
const BAD_REGEXPS: &[&str] = &["(", "a{3,2}", "[z-a]", "*", "^a", "a$", "\\\\b", "a**{", "(?P<n>"];

fn ws(rng: &mut Rng, out: &mut String, need: bool) {
    // lines and columns beyond a byte
    if rng.chance(1) && rng.chance(20) {
        let c = *rng.pick(&[' ', '\n', '\t']);
        for _ in 0..rng.range(30, 300) {
            out.push(c);
        }
    }
    let n = if need { rng.range(1, 2) } else { rng.weighted(&[3, 4, 1]) };
    for _ in 0..n {
        if rng.chance(1) && rng.chance(30) {
            // other characters that may or may not be white space
            out.push(*rng.pick(&['\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{200b}', '\u{2028}', '\u{3000}', '\u{feff}', '\0']));
        } else {
            out.push(*rng.pick(&[' ', ' ', ' ', '\n', '\t']));
        }
    }
}

fn name(rng: &mut Rng) -> &'static str {
    match rng.below(100) {
        0..=71 => NAMES[rng.below(6)],
        72 => *rng.pick(&["__lex0", "__lex1", "___lex0", "__lex2"]),
        73..=94 => *rng.pick(NAMES),
        _ => *rng.pick(LONG),
    }
}

/// Number of alternatives of a rule.
fn alternatives(rng: &mut Rng) -> usize {
    if rng.chance(2) { rng.range(4, 20) } else { rng.weighted(&[1, 6, 2, 1]) }
}

/// Number of parts of an alternative.
fn parts(rng: &mut Rng) -> usize {
    if rng.chance(2) { rng.range(5, 20) } else { rng.range(1, 4) }
}

/// Number of rules of a document.
fn size(rng: &mut Rng) -> usize {
    if rng.chance(3) { rng.range(12, 36) } else { rng.range(1, 6) }
}

fn basic_doc(rng: &mut Rng) -> String {
    let mut s = String::new();
    ws(rng, &mut s, false);
    // some documents are about long names
    let long = rng.chance(8);
    let name = |rng: &mut Rng| if long && rng.chance(70) { *rng.pick(LONG) } else { name(rng) };
    for _ in 0..size(rng) {
        s.push_str(name(rng));
        ws(rng, &mut s, false);
        s.push_str("::=");
        ws(rng, &mut s, false);
        for a in 0..alternatives(rng) {
            if a > 0 {
                s.push('|');
                ws(rng, &mut s, false);
            }
            for _ in 0..parts(rng) {
                if rng.chance(8) {
                    s.push('(');
                    ws(rng, &mut s, false);
                    s.push(')');
                } else {
                    s.push_str(name(rng));
                    match rng.below(8) {
                        0 => {
                            ws(rng, &mut s, false);
                            s.push('*')
                        }
                        1 => {
                            ws(rng, &mut s, false);
                            s.push('+')
                        }
                        _ => {}
                    }
                }
                ws(rng, &mut s, true);
            }
        }
        s.push(';');
        ws(rng, &mut s, false);
    }
    s
}

/// Any characters, written with escapes where they need them (and sometimes where they don't).
fn literal(rng: &mut Rng, s: &mut String) {
    let len = if rng.chance(5) { rng.range(20, 80) } else { rng.range(1, 5) };
    for _ in 0..len {
        let c = match rng.below(8) {
            0 => *rng.pick(&['"', '\\', '\n', '\t', ' ', ';', '}']),
            1 => char::from_u32(rng.below(0x110000) as u32).unwrap_or('\u{E000}'),
            2 => char::from(0x20 + rng.below(0x5f) as u8),
            3 => char::from_u32(rng.below(0x300) as u32).unwrap_or('x'),
            _ => *rng.pick(&['a', 'b', 'c', 'B']),
        };
        if c == '"' || c == '\\' || rng.chance(3) {
            s.push('\\');
        }
        s.push(c);
    }
}

fn adv_rule(rng: &mut Rng, s: &mut String, lhs: &str) {
    s.push_str(lhs);
    ws(rng, s, false);
    s.push_str("::=");
    ws(rng, s, false);
    let alts = alternatives(rng);
    if alts == 0 && rng.chance(40) {
        s.push('>');
        ws(rng, s, false);
        s.push_str(name(rng));
    }
    for a in 0..alts {
        if a > 0 {
            s.push('|');
            ws(rng, s, false);
        }
        let n = parts(rng);
        for f in 0..n {
            match rng.below(12) {
                0..=3 => {
                    s.push('"');
                    match rng.below(20) {
                        0 => literal(rng, s),
                        1..=10 => s.push_str(LITS[rng.below(4)]),
                        _ => s.push_str(*rng.pick(LITS)),
                    }
                    s.push('"');
                }
                4 | 5 => {
                    s.push_str(if rng.chance(96) { "Regexp" } else { "Foo" });
                    ws(rng, s, false);
                    s.push('(');
                    ws(rng, s, false);
                    s.push('"');
                    s.push_str(if rng.chance(94) { rng.pick(REGEXPS).0 } else { *rng.pick(BAD_REGEXPS) });
                    s.push('"');
                    ws(rng, s, false);
                    s.push(')');
                }
                _ => {
                    s.push_str(name(rng));
                    match rng.below(8) {
                        0 => s.push('*'),
                        1 => s.push('+'),
                        _ => {}
                    }
                }
            }
            ws(rng, s, false);
            if f + 1 < n {
                s.push('~');
                ws(rng, s, false);
            }
        }
        if rng.chance(20) {
            s.push('>');
            ws(rng, s, false);
            s.push_str(name(rng));
            ws(rng, s, false);
        }
    }
    s.push(';');
    ws(rng, s, false);
}

fn advanced_doc(rng: &mut Rng) -> String {
    let mut s = String::new();
    ws(rng, &mut s, false);
    let lex_names = ["T", "U", "tok", "_l"];
    for _ in 0..size(rng) {
        if rng.chance(25) {
            s.push_str("lexer");
            ws(rng, &mut s, false);
            s.push('{');
            ws(rng, &mut s, false);
            for _ in 0..if rng.chance(4) { rng.below(9) } else { rng.range(1, 3) } {
                let lhs = if rng.chance(5) { name(rng) } else { rng.pick(&lex_names) };
                adv_rule(rng, &mut s, lhs);
            }
            s.push('}');
            ws(rng, &mut s, false);
        } else {
            let lhs = name(rng);
            adv_rule(rng, &mut s, lhs);
        }
    }
    s
}

/// A regular expression, mostly a valid one.
pub fn regexp(rng: &mut Rng) -> String {
    let one = |rng: &mut Rng| if rng.chance(92) { rng.pick(REGEXPS).0 } else { *rng.pick(BAD_REGEXPS) };
    match rng.below(3) {
        0 => one(rng).to_string(),
        1 => format!("({}|{})", one(rng), one(rng)),
        _ => format!("{}({}){{1,4}}x+", one(rng), one(rng)),
    }
}

pub fn generate(prop: &str, rng: &mut Rng) -> LoadPlan {
    let mk = |rng: &mut Rng| if prop == "C06" { basic_doc(rng) } else { advanced_doc(rng) };
    let new = mk(rng);
    // an older version of the same document, or another one
    let old = match rng.below(3) {
        0 => new.chars().rev().filter(|c| *c != '"').collect::<String>(),
        1 => {
            let mut t = new.clone();
            if let Some(p) = t.find(';') {
                t = format!("{} {}", &t[p + 1..], &t[..=p]);
            }
            t
        }
        _ => mk(rng),
    };
    let block = *rng.pick(&[1, 2, 4, 8, 16, 32]);
    let interesting = b";|*+()~>{}\": =\n\\ a_9#\0\x80\xc3@z'\r-,.";
    let damage = disk::draw(rng, new.len(), block, interesting);
    LoadPlan { old, new, block, damage, lossy: rng.chance(50) }
}

// ---------------------------------------------------------------- reference reader

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Str(String),
    Op(&'static str),
    /// Not a token. `loose` = unterminated string, whose reported place is not fixed.
    Bad { loose: bool },
}

struct At {
    tok: Tok,
    line: u32,
    col: u32,
}

fn tokens(text: &str, advanced: bool) -> Vec<At> {
    let cs: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let (mut i, mut line, mut col) = (0, 1, 1);
    let step = |i: &mut usize, line: &mut u32, col: &mut u32| {
        if cs[*i] == '\n' {
            *line += 1;
            *col = 1;
        } else {
            *col += 1;
        }
        *i += 1;
    };
    let ident_start = |c: char| c.is_ascii_alphabetic() || c == '_';
    let ident_part = |c: char| c.is_ascii_alphanumeric() || c == '_';
    while i < cs.len() {
        let (l, c) = (line, col);
        let ch = cs[i];
        let tok = if ch == ' ' || ch == '\n' || ch == '\t' {
            step(&mut i, &mut line, &mut col);
            continue;
        } else if ident_start(ch) {
            let mut s = String::new();
            while i < cs.len() && ident_part(cs[i]) {
                s.push(cs[i]);
                step(&mut i, &mut line, &mut col);
            }
            if advanced && s == "lexer" { Tok::Op("lexer") } else { Tok::Id(s) }
        } else if ch == ':' && cs.get(i + 1) == Some(&':') && cs.get(i + 2) == Some(&'=') {
            for _ in 0..3 {
                step(&mut i, &mut line, &mut col);
            }
            Tok::Op("::=")
        } else if advanced && ch == '"' {
            step(&mut i, &mut line, &mut col);
            let mut s = String::new();
            let mut closed = false;
            while i < cs.len() {
                if cs[i] == '"' {
                    step(&mut i, &mut line, &mut col);
                    closed = true;
                    break;
                }
                if cs[i] == '\\' {
                    step(&mut i, &mut line, &mut col);
                    if i >= cs.len() {
                        break;
                    }
                }
                s.push(cs[i]);
                step(&mut i, &mut line, &mut col);
            }
            if closed { Tok::Str(s) } else { Tok::Bad { loose: true } }
        } else {
            let ops: &[(char, &'static str)] = if advanced {
                &[(';', ";"), ('|', "|"), ('+', "+"), ('*', "*"), ('~', "~"), ('(', "("), (')', ")"), ('{', "{"), ('}', "}"), ('>', ">")]
            } else {
                &[(';', ";"), ('|', "|"), ('+', "+"), ('*', "*"), ('(', "("), (')', ")")]
            };
            match ops.iter().find(|o| o.0 == ch) {
                Some(o) => {
                    step(&mut i, &mut line, &mut col);
                    Tok::Op(o.1)
                }
                None => Tok::Bad { loose: false },
            }
        };
        let bad = matches!(tok, Tok::Bad { .. });
        out.push(At { tok, line: l, col: c });
        if bad {
            break;
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
enum Item {
    Name(String, char), // ' ', '*', '+'
    Lit(String),
    Call(String, String),
}

#[derive(Clone, Debug)]
struct RefRule {
    lhs: String,
    items: Vec<Item>,
    action: Option<String>,
}

/// Err = index of the first offending token (tokens.len() at the end of the text).
struct P<'a> {
    t: &'a [At],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i).map(|a| &a.tok)
    }
    fn is(&self, op: &str) -> bool {
        matches!(self.peek(), Some(Tok::Op(o)) if *o == op)
    }
    fn eat(&mut self, op: &str) -> Result<(), usize> {
        if self.is(op) {
            self.i += 1;
            Ok(())
        } else {
            Err(self.i)
        }
    }
    fn ident(&mut self) -> Result<String, usize> {
        match self.peek() {
            Some(Tok::Id(s)) => {
                self.i += 1;
                Ok(s.clone())
            }
            _ => Err(self.i),
        }
    }
}

fn parse_basic(t: &[At]) -> Result<Vec<RefRule>, usize> {
    let mut p = P { t, i: 0 };
    let mut rules = vec![];
    loop {
        let lhs = p.ident()?;
        p.eat("::=")?;
        if p.is(";") {
            p.i += 1;
            rules.push(RefRule { lhs, items: vec![], action: None });
        } else {
            loop {
                let mut items = vec![];
                loop {
                    if p.is("(") {
                        p.i += 1;
                        p.eat(")")?;
                    } else {
                        let n = p.ident()?;
                        let rep = if p.is("*") {
                            p.i += 1;
                            '*'
                        } else if p.is("+") {
                            p.i += 1;
                            '+'
                        } else {
                            ' '
                        };
                        items.push(Item::Name(n, rep));
                    }
                    if !(p.is("(") || matches!(p.peek(), Some(Tok::Id(_)))) {
                        break;
                    }
                }
                rules.push(RefRule { lhs: lhs.clone(), items, action: None });
                if p.is("|") {
                    p.i += 1;
                } else {
                    break;
                }
            }
            p.eat(";")?;
        }
        if p.peek().is_none() {
            return Ok(rules);
        }
    }
}

fn parse_adv_rule(p: &mut P, rules: &mut Vec<RefRule>) -> Result<(), usize> {
    let lhs = p.ident()?;
    p.eat("::=")?;
    if p.is(";") {
        p.i += 1;
        rules.push(RefRule { lhs, items: vec![], action: None });
        return Ok(());
    }
    if p.is(">") {
        p.i += 1;
        let a = p.ident()?;
        p.eat(";")?;
        rules.push(RefRule { lhs, items: vec![], action: Some(a) });
        return Ok(());
    }
    loop {
        let mut items = vec![];
        let mut action = None;
        loop {
            match p.peek() {
                Some(Tok::Str(s)) => {
                    p.i += 1;
                    items.push(Item::Lit(s.clone()));
                }
                _ => {
                    let n = p.ident()?;
                    if p.is("(") {
                        p.i += 1;
                        match p.peek() {
                            Some(Tok::Str(s)) => {
                                p.i += 1;
                                items.push(Item::Call(n, s.clone()));
                            }
                            _ => return Err(p.i),
                        }
                        p.eat(")")?;
                    } else if p.is("*") {
                        p.i += 1;
                        items.push(Item::Name(n, '*'));
                    } else if p.is("+") {
                        p.i += 1;
                        items.push(Item::Name(n, '+'));
                    } else {
                        items.push(Item::Name(n, ' '));
                    }
                }
            }
            if p.is("~") {
                p.i += 1;
            } else {
                break;
            }
        }
        if p.is(">") {
            p.i += 1;
            action = Some(p.ident()?);
        }
        rules.push(RefRule { lhs: lhs.clone(), items, action });
        if p.is("|") {
            p.i += 1;
        } else {
            break;
        }
    }
    p.eat(";")
}

fn parse_advanced(t: &[At]) -> Result<(Vec<RefRule>, Vec<RefRule>), usize> {
    let mut p = P { t, i: 0 };
    let (mut rules, mut lex) = (vec![], vec![]);
    loop {
        if p.is("lexer") {
            p.i += 1;
            p.eat("{")?;
            loop {
                parse_adv_rule(&mut p, &mut lex)?;
                if p.is("}") {
                    break;
                }
            }
            p.i += 1;
        } else {
            parse_adv_rule(&mut p, &mut rules)?;
        }
        if p.peek().is_none() {
            return Ok((rules, lex));
        }
    }
}

// ---------------------------------------------------------------- comparison

fn named(cfg: &Cfg) -> Res<BTreeMap<String, Symbol>> {
    let mut m = BTreeMap::new();
    for (n, s) in cfg.sym_source().names().into_iter().zip(cfg_symbol::SymbolSource::generate_fresh()) {
        let s: Symbol = s;
        if let Some(n) = n {
            let n: &str = &n;
            if n.starts_with("__byte") {
                continue;
            }
            if m.insert(n.to_string(), s).is_some() {
                return viol("duplicate-name", format!("two symbols are named {n:?}"));
            }
        }
    }
    Ok(m)
}

/// Checks rules 1..=n by origin, in order, against the reference. `resolve` judges one item.
fn compare_rules(
    cfg: &Cfg,
    names: &BTreeMap<String, Symbol>,
    reference: &[&RefRule],
    mut item: impl FnMut(&Item, Symbol) -> Res,
) -> Res {
    let mut next = 0u32;
    let mut seen = vec![];
    for r in cfg.rules() {
        let id = r.history.origin.id;
        if r.history.origin.is_null() || id == 0 {
            continue;
        }
        if id as usize > reference.len() {
            continue;
        }
        check!(id > next, "rule-order", "rule with origin {id} after {next}");
        next = id;
        seen.push(id);
        let want = reference[id as usize - 1];
        check!(
            names.get(&want.lhs) == Some(&r.lhs),
            "wrong-rule",
            "rule {id}: left side {} should be {:?}", cfg.sym_source().name_of(r.lhs), want.lhs
        );
        check!(
            r.rhs.len() == want.items.len(),
            "wrong-rule",
            "rule {id} {want:?} was loaded with {} symbols", r.rhs.len()
        );
        for (it, &s) in want.items.iter().zip(r.rhs.iter()) {
            item(it, s)?;
        }
    }
    check!(
        seen.len() == reference.len(),
        "lost-rule",
        "rules with origins {seen:?} of {} written rules {reference:?}", reference.len()
    );
    Ok(())
}

fn check_rep(cfg: &Cfg, names: &BTreeMap<String, Symbol>, name: &str, rep: char, sym: Symbol) -> Res {
    let Some(&x) = names.get(name) else {
        return viol("lost-name", format!("no symbol named {name:?}"));
    };
    if rep == ' ' {
        check!(sym == x, "wrong-rule", "{name:?} was loaded as {}", cfg.sym_source().name_of(sym));
        return Ok(());
    }
    check!(!names.values().any(|&n| n == sym), "wrong-rule", "{name}{rep} was loaded as the named symbol {}", cfg.sym_source().name_of(sym));
    // the anonymous symbol's language over named symbols
    let space = Space::new(2, 128, 7);
    let n = cfg.num_syms();
    let mut term = vec![None; n];
    for &s in names.values() {
        term[s.usize()] = Some(1);
    }
    term[x.usize()] = Some(0);
    let rules = crate::generator::rules_of(cfg);
    let langs = space.solve(n, &rules, &term);
    let mut want = space.empty();
    let one = space.unit(0);
    let mut acc = space.eps();
    for k in 0..=space.max_len {
        if k > 0 || rep == '*' {
            space.union_into(&mut want, &acc);
        }
        acc = space.concat(&acc, &one);
    }
    check!(langs[sym.usize()] == want, "wrong-repetition", "{name}{rep}: {}", space.describe_diff(&want, &langs[sym.usize()]));
    Ok(())
}

pub fn exec(prop: &str, plan: &LoadPlan, ctx: &mut Ctx) -> Res {
    if plan.new.len() > 4000 || plan.old.len() > 4000 || plan.damage.len() > 20 {
        return Ok(());
    }
    let bytes = disk::store(plan.old.as_bytes(), plan.new.as_bytes(), plan.block, &plan.damage, ctx);
    ctx.steps += bytes.len() as u64;
    let text = match String::from_utf8(bytes) {
        Ok(t) => t,
        Err(e) => {
            ctx.probe("not-utf8");
            if !plan.lossy {
                return Ok(());
            }
            String::from_utf8_lossy(e.as_bytes()).into_owned()
        }
    };
    ctx.sched(&text);
    ctx.state(fnv(FNV0, text.as_bytes()));
    ctx.nontrivial = text != plan.new || plan.damage.is_empty();
    ctx.probe(if text == plan.new { "document-intact" } else { "document-damaged" });
    if prop == "C06" { basic(&text, ctx) } else { advanced(&text, ctx) }
}

fn basic(text: &str, ctx: &mut Ctx) -> Res {
    let t = tokens(text, false);
    let bad = t.iter().position(|a| matches!(a.tok, Tok::Bad { .. }));
    let reference = match bad {
        Some(i) => Err(i),
        None => parse_basic(&t),
    };
    let got = must("panic", "load", || Cfg::load(text))?;
    ctx.event(format!("{} {}", reference.is_ok(), got.is_ok()));
    let (rules, cfg) = match (reference, got) {
        (Err(_), Err(e)) => {
            ctx.probe("rejected");
            // the reader may tokenize the whole text first or not; only the first bad character
            // of a text that is otherwise a viable prefix has one right place
            if let Some(i) = bad {
                ctx.probe("rejected-by-tokenizer");
                let parse_first = matches!(parse_basic(&t), Err(k) if k < i);
                if !parse_first {
                    check!((e.line, e.col) == (t[i].line, t[i].col), "wrong-place", "{e} for the character at {}:{} of {text:?}", t[i].line, t[i].col);
                }
            }
            return Ok(());
        }
        (Ok(r), Err(e)) => return viol("refused", format!("{e} for the well-formed {text:?} ({} rules)", r.len())),
        (Err(i), Ok(_)) => return viol("accepted", format!("{text:?} was accepted; token {i} is wrong")),
        (Ok(r), Ok(c)) => (r, c),
    };
    ctx.probe("accepted");
    let names = named(&cfg)?;
    let mut want: BTreeSet<&str> = BTreeSet::new();
    for r in &rules {
        want.insert(&r.lhs);
        for i in &r.items {
            if let Item::Name(n, _) = i {
                want.insert(n);
            }
        }
    }
    check!(
        names.keys().map(|s| s.as_str()).collect::<BTreeSet<_>>() == want,
        "wrong-names",
        "names {:?} instead of {want:?}", names.keys()
    );
    check!(cfg.roots() == [names[&rules[0].lhs]], "wrong-root", "roots {:?} of {text:?}", cfg.roots());
    let refs: Vec<&RefRule> = rules.iter().collect();
    let mut reps = 0;
    compare_rules(&cfg, &names, &refs, |it, s| match it {
        Item::Name(n, rep) => {
            reps += (*rep != ' ') as u32;
            check_rep(&cfg, &names, n, *rep, s)
        }
        _ => Ok(()),
    })?;
    for r in cfg.rules() {
        let id = r.history.origin.id;
        let user = !r.history.origin.is_null() && id >= 1 && id as usize <= rules.len();
        if !user {
            check!(!names.values().any(|&s| s == r.lhs), "extra-rule", "extra rule for {}", cfg.sym_source().name_of(r.lhs));
        }
    }
    if reps == 0 {
        // print, store, load again
        check!(cfg.rules().count() == rules.len(), "extra-rule", "{} rules instead of {}", cfg.rules().count(), rules.len());
        check!(cfg.num_syms() == want.len(), "wrong-names", "{} symbols for {} names", cfg.num_syms(), want.len());
        let printed = must("panic", "to_bnf", || cfg.to_bnf())?;
        let again = match must("panic", "load", || Cfg::load(&printed))? {
            Ok(g) => g,
            Err(e) => return viol("round-trip", format!("{printed:?} does not load: {e}")),
        };
        let show = |g: &Cfg| {
            g.rules()
                .map(|r| (r.lhs, r.rhs.to_vec(), r.history.origin))
                .collect::<Vec<_>>()
        };
        check!(show(&cfg) == show(&again), "round-trip", "{printed:?} loads as {:?} instead of {:?}", show(&again), show(&cfg));
        check!(cfg.roots() == again.roots(), "round-trip", "roots {:?} {:?}", cfg.roots(), again.roots());
        check!(cfg.sym_source().names() == again.sym_source().names(), "round-trip", "names");
        ctx.probe("printed-and-reloaded");
    }
    Ok(())
}

fn regexp_ok(s: &str) -> bool {
    match regex_syntax::Parser::new().parse(s) {
        Ok(h) => h.properties().look_set().is_empty(),
        Err(_) => false,
    }
}

fn advanced(text: &str, ctx: &mut Ctx) -> Res {
    let t = tokens(text, true);
    let reference = parse_advanced(&t);
    let got = must("panic", "load_advanced", || Cfg::load_advanced(text))?;
    ctx.event(format!("{} {}", reference.is_ok(), got.is_ok()));
    let ((rules, lex), g) = match (reference, got) {
        (Err(i), Err(e)) => {
            ctx.probe("rejected");
            match t.get(i) {
                None => ctx.probe("rejected-at-end"),
                Some(At { tok: Tok::Bad { loose: true }, .. }) => ctx.probe("rejected-unterminated-string"),
                Some(a) => {
                    ctx.probe("rejected-at-token");
                    check!((e.line, e.col) == (a.line, a.col), "wrong-place", "reported at {}:{} ({}) but token {:?} at {}:{} of {text:?} is the first wrong one", e.line, e.col, e.reason, a.tok, a.line, a.col);
                }
            }
            return Ok(());
        }
        (Err(i), Ok(_)) => return viol("accepted", format!("{text:?} was accepted; token {i} is wrong")),
        (Ok((r, l)), got) => {
            // meaning
            let parser: BTreeSet<&str> = r.iter().map(|x| x.lhs.as_str()).collect();
            let mut bad = None;
            for x in &l {
                if parser.contains(x.lhs.as_str()) {
                    bad = Some(format!("{} is defined by parser and lexer", x.lhs));
                }
            }
            for x in r.iter().chain(&l) {
                for i in &x.items {
                    if let Item::Call(f, a) = i {
                        if f != "Regexp" {
                            bad = Some(format!("function {f}"));
                        } else if !regexp_ok(a) {
                            bad = Some(format!("bad regexp {a:?}"));
                        }
                    }
                }
            }
            match (bad, got) {
                (Some(_), Err(_)) => {
                    ctx.probe("rejected-by-meaning");
                    return Ok(());
                }
                (Some(why), Ok(_)) => return viol("accepted", format!("{text:?} was accepted: {why}")),
                (None, Err(e)) => return viol("refused", format!("{e} for the well-formed {text:?}")),
                (None, Ok(g)) => ((r, l), g),
            }
        }
    };
    ctx.probe("accepted");
    let all: Vec<&RefRule> = rules.iter().chain(&lex).collect();
    let mut want: BTreeSet<String> = BTreeSet::new();
    let mut lits: Vec<String> = vec![];
    for r in &all {
        want.insert(r.lhs.clone());
        for i in &r.items {
            match i {
                Item::Name(n, _) => {
                    want.insert(n.clone());
                }
                Item::Lit(s) => {
                    if !lits.contains(s) {
                        lits.push(s.clone());
                    }
                }
                _ => {}
            }
        }
    }
    let AdvancedGrammar { cfg, mut lexer_map, sbs, actions, sym_map } = g;
    must("panic", "LexerMap::compute", || lexer_map.compute())?;
    let names = named(&cfg)?;
    // the names made for the literals are none of the written ones
    let mut made: Vec<Symbol> = vec![];
    for (k, l) in lits.iter().enumerate() {
        let name = names.keys().find(|n| !want.contains(*n) && n.starts_with("__") && n.trim_start_matches('_') == format!("lex{k}"));
        let Some(name) = name.cloned() else {
            return viol("wrong-names", format!("names {:?} have none for literal {l:?}, number {k}", names.keys()));
        };
        made.push(names[&name]);
        want.insert(name);
    }
    check!(
        names.keys().cloned().collect::<BTreeSet<_>>() == want,
        "wrong-names",
        "names {:?} instead of {want:?}", names.keys()
    );
    check!(
        sym_map == names,
        "wrong-sym-map",
        "sym_map {sym_map:?} but names {names:?}"
    );
    check!(cfg.roots() == [names[&all[0].lhs]], "wrong-root", "roots {:?} of {text:?}", cfg.roots());
    let mut regexps: Vec<(String, Symbol)> = vec![];
    compare_rules(&cfg, &names, &all, |it, s| match it {
        Item::Name(n, rep) => check_rep(&cfg, &names, n, *rep, s),
        Item::Lit(l) => {
            let k = lits.iter().position(|x| x == l).unwrap();
            let want = made[k];
            check!(s == want, "wrong-rule", "literal {l:?} was loaded as {}", cfg.sym_source().name_of(s));
            Ok(())
        }
        Item::Call(_, a) => {
            check!(!names.values().any(|&n| n == s), "wrong-rule", "regexp {a:?} was loaded as {}", cfg.sym_source().name_of(s));
            regexps.push((a.clone(), s));
            Ok(())
        }
    })?;
    // literals
    let around = |c: char| -> Vec<char> {
        let mut v = vec!['a', 'b', 'c', 'd', 'é', '\0'];
        for d in [-2i64, -1, 1, 2, 256, -256] {
            if let Some(x) = char::from_u32((c as i64 + d).max(0) as u32) {
                v.push(x);
            }
        }
        if c == '\u{D7FF}' {
            v.push('\u{E000}');
        }
        v.retain(|&x| x != c);
        v
    };
    let terminals = must("panic", "terminal_symbols", || cfg.terminal_symbols())?;
    for (k, l) in lits.iter().enumerate() {
        let lhs = made[k];
        let mut n = 0;
        for r in cfg.rules().filter(|r| r.lhs == lhs) {
            n += 1;
            let cs: Vec<char> = l.chars().collect();
            check!(r.rhs.len() == cs.len(), "wrong-literal", "literal {l:?} has a rule with {} symbols", r.rhs.len());
            for (&c, &s) in cs.iter().zip(r.rhs.iter()) {
                check!(terminals[s], "wrong-literal", "a character of literal {l:?} is not a terminal");
                let got = must("panic", "LexerMap::get", || lexer_map.get(c).to_vec())?;
                check!(got.contains(&s), "wrong-literal", "{c:?} of literal {l:?} does not match its symbol {s:?}: {got:?}");
                for d in around(c) {
                    let got = must("panic", "LexerMap::get", || lexer_map.get(d).to_vec())?;
                    check!(!got.contains(&s), "wrong-literal", "{d:?} matches the symbol of {c:?} in literal {l:?}");
                }
            }
        }
        check!(n > 0, "wrong-literal", "no rule for literal {l:?}");
        ctx.probe("literal-checked");
    }
    // regular expressions of the workload, by example
    for (a, s) in &regexps {
        if let Some(e) = REGEXPS.iter().find(|e| e.0 == a) {
            ctx.probe("regexp-checked");
            let rules = crate::generator::rules_of(&cfg);
            for (strings, yes) in [(e.1, true), (e.2, false)] {
                for w in strings {
                    let cs: Vec<char> = w.chars().collect();
                    let ok = matches(cfg.num_syms(), &rules, *s, &cs, |c| lexer_map.get(c).iter().map(|s| s.usize()).collect());
                    check!(ok == yes, "wrong-regexp", "regexp {a:?} {} {w:?}", if ok { "matches" } else { "does not match" });
                }
            }
        }
    }
    // lexemes
    let mut lexical: BTreeSet<Symbol> = lex.iter().map(|r| names[&r.lhs]).collect();
    for k in 0..lits.len() {
        lexical.insert(made[k]);
    }
    let got: BTreeSet<Symbol> = sbs.iter().collect();
    check!(got == lexical, "wrong-lexemes", "lexeme set {got:?} instead of {lexical:?}");
    check!(sbs.space() == cfg.num_syms(), "wrong-lexemes", "lexeme set has space for {} of {} symbols", sbs.space(), cfg.num_syms());
    // actions
    let want: BTreeMap<usize, Option<String>> = all.iter().enumerate().map(|(i, r)| (i + 1, r.action.clone())).collect();
    check!(actions == want, "wrong-actions", "actions {actions:?} instead of {want:?}");
    // no other rules for named symbols
    for r in cfg.rules() {
        let id = r.history.origin.id;
        let user = !r.history.origin.is_null() && id >= 1 && id as usize <= all.len();
        let lexrule = made.contains(&r.lhs);
        if !user && !lexrule {
            check!(!names.values().any(|&s| s == r.lhs), "extra-rule", "extra rule for {}", cfg.sym_source().name_of(r.lhs));
        }
    }
    Ok(())
}

/// Recognizer in which a character matches a set of terminals.
pub fn matches(nsyms: usize, rules: &crate::lang::Rules, start: Symbol, cs: &[char], of: impl Fn(char) -> Vec<usize>) -> bool {
    let n = cs.len();
    let mut span = vec![vec![0u64; n + 1]; nsyms];
    for (i, &c) in cs.iter().enumerate() {
        for s in of(c) {
            if s < nsyms {
                span[s][i] |= 1 << (i + 1);
            }
        }
    }
    loop {
        let mut changed = false;
        for (lhs, rhs) in rules {
            for i in 0..=n {
                let mut cur = 1u64 << i;
                for &s in rhs {
                    let mut next = 0;
                    while cur != 0 {
                        next |= span[s][cur.trailing_zeros() as usize];
                        cur &= cur - 1;
                    }
                    cur = next;
                }
                if span[*lhs][i] | cur != span[*lhs][i] {
                    span[*lhs][i] |= cur;
                    changed = true;
                }
            }
        }
        if !changed {
            return span[start.usize()][0] >> n & 1 == 1;
        }
    }
}
