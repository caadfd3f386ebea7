//! C09-C18, C20: histories of operations by several holders of grammars, with crashing and
//! re-entrant callbacks, judged from the states before and after every operation.
use crate::check;
use crate::core::*;
use crate::generator::syms;
use crate::lang::{Lang, Rules, Space};
use crate::ops::*;
use crate::sparse::{self, LRule};
use cfg_grammar::Cfg;
use cfg_history::earley::History;
use cfg_symbol::intern::Mapping;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub fn op_name(op: &Op) -> &'static str {
    match op {
        Op::Sym(_) => "sym",
        Op::Next(_) => "next_sym",
        Op::Lexeme(_) => "lexeme",
        Op::WithNames(_) => "with_names",
        Op::Generate(_) => "generate",
        Op::Rule { .. } => "rule",
        Op::Seq { .. } => "sequence",
        Op::Prec(_) => "precedence",
        Op::Limit(_) => "limit_rhs_len",
        Op::Binarize => "eliminate_nulling",
        Op::Sort => "sort",
        Op::SortBy(_) => "sort_by",
        Op::Dedup => "dedup",
        Op::Reverse => "reverse",
        Op::Retain(_) => "retain",
        Op::Wrap => "wrap_input",
        Op::Roots(_) => "set_roots",
        Op::Proper(_) => "remove_useless",
        Op::Cycles(_) => "cycles",
        Op::Remap(_) => "remap",
        Op::SourceRemap(_) => "source_remap",
        Op::Truncate(_) => "truncate",
        Op::Extend(_) => "extend",
        Op::Clear => "clear_rules",
        Op::Gen(_) => "generate_random",
        Op::Query(..) => "query",
        Op::Clone(_) => "clone",
        Op::New(_) => "new",
    }
}

/// Operations whose unexpected panic breaks the property itself.
fn focus(prop: &str, op: &Op) -> bool {
    match prop {
        "C10" => has_callback(op),
        "C11" => matches!(op, Op::Rule { .. } | Op::Seq { .. } | Op::Prec(_) | Op::Limit(_) | Op::Binarize | Op::Wrap | Op::Extend(_)),
        "C12" => matches!(op, Op::Sym(_) | Op::Next(_) | Op::Lexeme(_) | Op::WithNames(_) | Op::Generate(_) | Op::Truncate(_)),
        "C13" => matches!(op, Op::Remap(_)),
        "C14" => matches!(op, Op::Rule { .. } | Op::Limit(_) | Op::Binarize | Op::Sort | Op::SortBy(_) | Op::Dedup | Op::Reverse | Op::Retain(_) | Op::Wrap | Op::Proper(_) | Op::Cycles(_) | Op::Remap(_) | Op::Seq { .. } | Op::Prec(_)),
        "C15" => matches!(op, Op::Rule { .. } | Op::Limit(_) | Op::Sort | Op::SortBy(_) | Op::Dedup | Op::Reverse | Op::Retain(_) | Op::Wrap | Op::Proper(_) | Op::Extend(_)),
        "C16" => matches!(op, Op::Binarize),
        "C17" => matches!(op, Op::Cycles(_)),
        "C18" => matches!(op, Op::Seq { .. } | Op::Prec(_)),
        _ => false,
    }
}

struct World {
    holders: Vec<Option<Cfg>>,
}

fn max_used(d: &Dump) -> usize {
    let mut m = 0;
    for r in &d.rules {
        m = m.max(r.lhs + 1);
        for &s in &r.rhs {
            m = m.max(s + 1);
        }
    }
    for &r in &d.roots {
        m = m.max(r + 1);
    }
    for w in &d.wrapped {
        for &s in w {
            m = m.max(s + 1);
        }
    }
    m
}

/// Keeps an operation within the documented preconditions.
pub fn normalise(op: &Op, pre: &Dump) -> Option<Op> {
    if pre.nsyms == 0 && !matches!(op, Op::Sym(_) | Op::Next(_) | Op::Lexeme(_) | Op::WithNames(_) | Op::Generate(_) | Op::Clone(_) | Op::New(_)) {
        return None;
    }
    let small = pre.rules.len() < 90 && pre.nsyms < 120 + crate::ops::padding();
    Some(match op {
        Op::Truncate(k) => Op::Truncate((*k).max(max_used(pre)).max(1)),
        Op::Remap(v) => {
            let perm = v.iter().any(|o| matches!(o, RemapOp::Permute(_)));
            let v: Vec<RemapOp> = v.iter().filter(|o| matches!(o, RemapOp::Permute(_)) == perm).take(4).cloned().collect();
            Op::Remap(v)
        }
        Op::Seq { items, via } => {
            if !small {
                return None;
            }
            let mut items: Vec<SeqSpec> = items.iter().take(4).cloned().collect();
            if items.is_empty() {
                return None;
            }
            for it in &mut items {
                it.start = it.start.min(40);
                if let Some(e) = it.end {
                    it.end = Some(e.clamp(it.start, it.start + 60));
                    if it.form % 4 >= 2 && it.end == Some(0) {
                        it.form = 0;
                    }
                }
            }
            // "same" only exists for the chained builder
            for k in 0..items.len() {
                if k == 0 || via % 3 != 0 {
                    items[k].same = false;
                }
                if items[k].same {
                    items[k].lhs = items[k - 1].lhs;
                    items[k].sep = items[k - 1].sep;
                    items[k].sep_sym = items[k - 1].sep_sym;
                }
            }
            Op::Seq { items, via: *via }
        }
        Op::Rule { lhs, alts, via } => {
            if !small || alts.iter().any(|a| a.0.len() > 40) {
                return None;
            }
            Op::Rule { lhs: *lhs, alts: alts.iter().take(14).cloned().collect(), via: *via }
        }
        Op::Prec(v) => {
            if !small || v.len() > 3 || v.iter().any(|p| p.levels.is_empty() || p.levels.len() > 7) {
                return None;
            }
            op.clone()
        }
        Op::Extend(_) | Op::Wrap | Op::Limit(_) | Op::Binarize if !small => return None,
        Op::WithNames(v) => Op::WithNames(if v.len() > 3 && v.len() != 8 { v[..3].to_vec() } else { v.clone() }),
        _ => op.clone(),
    })
}

// ---------------------------------------------------------------- running one step

enum Did {
    Skipped,
    Done(Ret),
    Injected,
    Panicked(String),
}

struct Stepped {
    pre: Dump,
    post: Dump,
    op: Op,
    did: Did,
    /// what Extend read
    other: Option<Dump>,
}

fn twin_check(pre: &Dump, op: &Op, other: Option<&Dump>, did: &Did, post: &Dump, ctx: &mut Ctx) -> Res {
    let nm = op_name(op);
    if matches!(did, Did::Done(Ret::Mapping(_, done)) if done.iter().any(|d| !d)) {
        return Ok(());
    }
    let mut twin = match run(|| rebuild(pre)) {
        Outcome::Done(t) => t,
        _ => return Ok(()),
    };
    if dump(&twin) != *pre {
        // a state that cannot be rebuilt through the API (over-long rules): not comparable
        ctx.probe("twin-not-rebuildable");
        return Ok(());
    }
    let o = other.map(rebuild);
    let plain = RefCell::new(no_tick);
    let r = run(|| apply(&mut twin, op, o.as_ref(), &plain));
    ctx.probe("twin-compared");
    match (did, r) {
        (Did::Done(a), Outcome::Done(b)) => {
            if let Some(d) = diff(post, &dump(&twin)) {
                return viol(
                    &format!("history-dependent-{nm}"),
                    format!("{nm} on a grammar with this history and on a freshly built equal grammar differ: {d}; before: {}", pre.short()),
                );
            }
            let same = match (a, &b) {
                (Ret::Text(x), Ret::Text(y)) => x == y,
                (Ret::Syms(x), Ret::Syms(y)) => x == y,
                (Ret::Parts(x), Ret::Parts(y)) => x == y,
                (Ret::Bool(x), Ret::Bool(y)) => x == y,
                (Ret::Nulling(x), Ret::Nulling(y)) => dump(x) == dump(y),
                (Ret::Mapping(x, _), Ret::Mapping(y, _)) => x.to_internal == y.to_internal && x.to_external == y.to_external,
                _ => true,
            };
            if !same {
                let text = match (a, &b) {
                    (Ret::Text(x), Ret::Text(y)) => format!("{x} vs {y}"),
                    _ => String::new(),
                };
                return viol(
                    &format!("history-dependent-answer-{nm}"),
                    format!("{op:?} answers differently than on a freshly built equal grammar: {text}; state {}", pre.short()),
                );
            }
            Ok(())
        }
        (Did::Panicked(m), Outcome::Done(_)) => viol(
            &format!("history-dependent-panic-{nm}"),
            format!("{nm} panicked ({m}) but works on a freshly built equal grammar; state {}", pre.short()),
        ),
        (Did::Done(_), Outcome::Panicked(m)) => viol(
            &format!("history-dependent-panic-{nm}"),
            format!("{nm} panics on a freshly built equal grammar only ({m}); state {}", pre.short()),
        ),
        _ => Ok(()),
    }
}

impl World {
    fn snapshot(&self, except: usize) -> Vec<Option<Dump>> {
        self.holders
            .iter()
            .enumerate()
            .map(|(i, h)| if i == except { None } else { h.as_ref().map(dump) })
            .collect()
    }

    fn compare_others(&self, before: &[Option<Dump>], op: &Op) -> Res {
        for (i, b) in before.iter().enumerate() {
            if let (Some(b), Some(h)) = (b, self.holders.get(i).and_then(|h| h.as_ref())) {
                if let Some(d) = diff(b, &dump(h)) {
                    return viol(
                        &format!("leak-{}", op_name(op)),
                        format!("{} on one holder changed what holder {i} observes: {d}", op_name(op)),
                    );
                }
            }
        }
        Ok(())
    }

    /// Runs an operation of `who`; a nested operation runs inside its callbacks.
    fn step(&mut self, prop: &str, who: usize, op: &Op, fault: Option<&Fault>, depth: usize, ctx: &mut Ctx) -> Res<Option<Stepped>> {
        let n = self.holders.len();
        let Some(h) = self.holders[who].as_ref() else { return Ok(None) };
        let pre = dump(h);
        let Some(op) = normalise(op, &pre) else { return Ok(None) };
        ctx.steps += 1;
        ctx.sched(&format!("{who}{}{}", op_name(&op), if depth > 0 { "*" } else { "" }));
        let sees_others = prop == "C09";
        let mut before = if sees_others { self.snapshot(who) } else { vec![] };
        match &op {
            Op::Clone(from) => {
                let from = from % n;
                if from != who {
                    if let Some(src) = self.holders[from].as_ref() {
                        let d = dump(src);
                        let c = src.clone();
                        if sees_others {
                            if let Some(x) = diff(&d, &dump(&c)) {
                                return viol("clone-differs", format!("a clone observes something else than its original: {x}"));
                            }
                        }
                        self.holders[who] = Some(c);
                        ctx.probe("clones");
                    }
                }
                let post = self.holders[who].as_ref().map(dump).unwrap_or(pre.clone());
                if sees_others {
                    self.compare_others(&before, &op)?;
                }
                return Ok(Some(Stepped { pre, post, op, did: Did::Skipped, other: None }));
            }
            Op::New(from) => {
                let from = from % n;
                let d = self.holders[from].as_ref().map(dump);
                if let Some(d) = d {
                    if let Outcome::Done(g) = run(|| rebuild(&d)) {
                        self.holders[who] = Some(g);
                    }
                }
                let post = self.holders[who].as_ref().map(dump).unwrap_or(pre.clone());
                return Ok(Some(Stepped { pre, post, op, did: Did::Skipped, other: None }));
            }
            _ => {}
        }
        let mut other: Option<Cfg> = None;
        if let Op::Extend(from) = &op {
            let from = from % n;
            let o = self.holders[from].as_ref().map(|o| o.clone());
            match o {
                Some(o) if o.num_syms() <= pre.nsyms && o.rules().count() < 90 => other = Some(o),
                _ => return Ok(None),
            }
        }
        let other_dump = other.as_ref().map(dump);
        let mut g = self.holders[who].take().expect("holder");
        let mut inner: Res = Ok(());
        let mut calls = 0u64;
        let mut threw = false;
        let outcome = {
            let tick = RefCell::new(|| {
                calls += 1;
                match fault {
                    Some(Fault::Panic { at }) if *at + 1 == calls => {
                        threw = true;
                        throw_injected();
                    }
                    Some(Fault::Nest { at, who: w, op: nested }) if *at + 1 == calls && depth == 0 => {
                        let w = w % n;
                        if self.holders[w].is_some() && inner.is_ok() {
                            ctx.fault("reentrant-operation");
                            match self.step(prop, w, nested, None, 1, ctx) {
                                Ok(Some(st)) => {
                                    if sees_others {
                                        before[w] = Some(st.post.clone());
                                    }
                                    ctx.event(format!("  nested {} by {w}: {}", op_name(&st.op), st.post.short()));
                                    inner = judge(prop, &st, false, ctx);
                                }
                                Ok(None) => {}
                                Err(v) => inner = Err(v),
                            }
                        }
                    }
                    _ => {}
                }
            });
            run(|| apply(&mut g, &op, other.as_ref(), &tick))
        };
        drop(other);
        if threw {
            ctx.fault("callback-panic");
        }
        let did = match outcome {
            Outcome::Done(r) => Did::Done(r),
            Outcome::Injected => Did::Injected,
            Outcome::Cut => Did::Skipped,
            Outcome::Panicked(m) => Did::Panicked(m),
        };
        let post = match run(|| dump(&g)) {
            Outcome::Done(d) => d,
            _ => return viol("unreadable-state", format!("the grammar cannot be read after {}", op_name(&op))),
        };
        self.holders[who] = Some(g);
        inner?;
        if sees_others {
            self.compare_others(&before, &op)?;
        }
        Ok(Some(Stepped { pre, post, op, did, other: other_dump }))
    }
}

// ---------------------------------------------------------------- oracles

fn nullable(nsyms: usize, rules: &Rules) -> Vec<bool> {
    let mut v = vec![false; nsyms];
    loop {
        let mut ch = false;
        for (l, r) in rules {
            if !v[*l] && r.iter().all(|&s| v[s]) {
                v[*l] = true;
                ch = true;
            }
        }
        if !ch {
            return v;
        }
    }
}

/// Symbols that derive a string of at least one terminal.
fn bearing(nsyms: usize, rules: &Rules) -> Vec<bool> {
    let prod = productive(nsyms, rules);
    let mut v = vec![true; nsyms];
    for (l, _) in rules {
        v[*l] = false;
    }
    loop {
        let mut ch = false;
        for (l, r) in rules {
            if !v[*l] && r.iter().all(|&s| prod[s]) && r.iter().any(|&s| v[s]) {
                v[*l] = true;
                ch = true;
            }
        }
        if !ch {
            return v;
        }
    }
}

fn productive(nsyms: usize, rules: &Rules) -> Vec<bool> {
    let mut v = vec![true; nsyms];
    for (l, _) in rules {
        v[*l] = false;
    }
    loop {
        let mut ch = false;
        for (l, r) in rules {
            if !v[*l] && r.iter().all(|&s| v[s]) {
                v[*l] = true;
                ch = true;
            }
        }
        if !ch {
            return v;
        }
    }
}

fn reachable(nsyms: usize, rules: &Rules, roots: &[usize]) -> Vec<bool> {
    let mut v = vec![false; nsyms];
    for &r in roots {
        v[r] = true;
    }
    loop {
        let mut ch = false;
        for (l, r) in rules {
            if v[*l] {
                for &s in r {
                    if !v[s] {
                        v[s] = true;
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            return v;
        }
    }
}

/// Paths of length >= 1 through unit rules between different symbols.
fn unit_reach(nsyms: usize, rules: &Rules) -> Vec<Vec<bool>> {
    let mut m = vec![vec![false; nsyms]; nsyms];
    for (l, r) in rules {
        if r.len() == 1 && r[0] != *l {
            m[*l][r[0]] = true;
        }
    }
    for k in 0..nsyms {
        for i in 0..nsyms {
            if m[i][k] {
                for j in 0..nsyms {
                    if m[k][j] {
                        m[i][j] = true;
                    }
                }
            }
        }
    }
    m
}

/// Terminal numbering of an expected grammar: the terminals its rules use get their own index
/// (up to six), all other terminals share one.
fn terminals(nsyms: usize, rules: &Rules) -> (Vec<Option<usize>>, usize) {
    let mut has = vec![false; nsyms];
    for (l, _) in rules {
        has[*l] = true;
    }
    let mut term = vec![None; nsyms];
    let mut t = 1;
    for (_, r) in rules {
        for &s in r {
            if !has[s] && term[s].is_none() {
                if t < 7 {
                    term[s] = Some(t);
                    t += 1;
                } else {
                    term[s] = Some(0);
                }
            }
        }
    }
    for s in 0..nsyms {
        if !has[s] && term[s].is_none() {
            term[s] = Some(0);
        }
    }
    (term, t)
}

/// Solves the expected and the actual grammar over the expected grammar's terminals.
fn both(class: &str, exp_nsyms: usize, exp: &Rules, post: &Dump, budget: usize) -> Res<(Space, Vec<Lang>, Vec<Lang>)> {
    let (term, t) = terminals(exp_nsyms, exp);
    let space = Space::new(t, budget, 9);
    let a = space.solve(exp_nsyms, exp, &term);
    for r in &post.rules {
        if r.lhs < exp_nsyms && term[r.lhs].is_some() {
            return viol(class, format!("symbol {} had no rules and got {} ::= {:?}", r.lhs, r.lhs, r.rhs));
        }
    }
    let b = space.solve(post.nsyms, &post.plain(), &term);
    Ok((space, a, b))
}

fn same_languages(class: &str, exp_nsyms: usize, exp: &Rules, pre: &Dump, post: &Dump, scope: &mut dyn FnMut(usize) -> bool, ctx: &mut Ctx) -> Res {
    let (space, a, b) = both(class, exp_nsyms, exp, post, 1500)?;
    ctx.probe("languages-compared");
    for s in 0..pre.nsyms.min(exp_nsyms).min(post.nsyms) {
        if scope(s) && a[s] != b[s] {
            return viol(
                class,
                format!("language of symbol {s}: {}; before {}; after {}", space.describe_diff(&a[s], &b[s]), pre.short(), post.short()),
            );
        }
        if scope(s) && space.count(&a[s]) > 1 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

fn bag<T: std::fmt::Debug>(xs: impl Iterator<Item = T>) -> BTreeMap<String, isize> {
    let mut m = BTreeMap::new();
    for x in xs {
        *m.entry(format!("{x:?}")).or_insert(0) += 1;
    }
    m
}
/// first element with more copies in a than in b
fn excess(a: &BTreeMap<String, isize>, b: &BTreeMap<String, isize>) -> Option<String> {
    a.iter().find(|(k, v)| b.get(*k).copied().unwrap_or(0) < **v).map(|(k, _)| k.clone())
}
fn full(r: &RuleDump) -> (usize, Vec<usize>, History) {
    (r.lhs, r.rhs.clone(), r.history)
}
fn same_rules(class: &str, what: &str, a: &[RuleDump], b: &[RuleDump]) -> Res {
    let (x, y) = (bag(a.iter().map(full)), bag(b.iter().map(full)));
    if let Some(k) = excess(&x, &y) {
        return viol(class, format!("{what}: rule is lost or changed: {k}"));
    }
    if let Some(k) = excess(&y, &x) {
        return viol(class, format!("{what}: rule is new or changed: {k}"));
    }
    Ok(())
}
fn contains_rules(class: &str, what: &str, big: &[RuleDump], small: &[RuleDump]) -> Res {
    let (x, y) = (bag(big.iter().map(full)), bag(small.iter().map(full)));
    if let Some(k) = excess(&y, &x) {
        return viol(class, format!("{what}: rule is lost or changed: {k}"));
    }
    Ok(())
}

/// Expands the helper symbols introduced by an operation (>= first).
fn expand(rules: &[RuleDump], first: usize, rhs: &[usize], depth: usize) -> Option<Vec<usize>> {
    if depth > 40 {
        return None;
    }
    let mut out = vec![];
    for &s in rhs {
        if s < first {
            out.push(s);
        } else {
            let mut it = rules.iter().filter(|r| r.lhs == s);
            let r = it.next()?;
            if it.next().is_some() {
                return None;
            }
            out.extend(expand(rules, first, &r.rhs, depth + 1)?);
        }
    }
    Some(out)
}

/// The dots of a rule split for limit 2 stand for positions of the original rule.
fn traced(class: &str, built: &[RuleDump], first: usize, r: &RuleDump, origin: u32, offset: usize, depth: usize) -> Res {
    use cfg_history::earley::rule_dot::RuleDot;
    if depth > 40 {
        return Ok(());
    }
    let mut at = offset;
    for (i, &s) in r.rhs.iter().enumerate() {
        if s >= first {
            if let Some(h) = built.iter().find(|h| h.lhs == s) {
                traced(class, built, first, h, origin, at, depth + 1)?;
            }
        }
        let want = RuleDot::new(origin, at as u32).trace();
        let got = r.history.dot(i).trace();
        // the ends of a helper are dots of the rule above it
        check!(
            got == want || (depth > 0 && i == 0),
            class,
            "dot {i} of {} ::= {:?} traces to {got:?} instead of {want:?}",
            r.lhs,
            r.rhs
        );
        at += expand(built, first, &[s], 0).map_or(0, |x| x.len());
    }
    if depth == 0 {
        let (want, got) = (RuleDot::new(origin, at as u32).trace(), r.history.dot(r.rhs.len()).trace());
        check!(got == want, class, "the last dot of {} ::= {:?} traces to {got:?} instead of {want:?}", r.lhs, r.rhs);
    }
    Ok(())
}

/// The rules an operation built from user rules: one top rule per original, helpers expand to it.
fn split_faithfully(class: &str, originals: &[RuleDump], built: &[RuleDump], first: usize, limit: Option<usize>) -> Res {
    let want = bag(originals.iter().map(|r| (r.lhs, r.rhs.clone(), r.history.origin.id, r.history.weight)));
    let mut got = vec![];
    for r in built {
        if r.lhs < first {
            match expand(built, first, &r.rhs, 0) {
                Some(x) => {
                    if limit == Some(2) && r.rhs.iter().any(|&s| s >= first) {
                        traced(class, built, first, r, r.history.origin.id, 0, 0)?;
                    }
                    got.push((r.lhs, x, r.history.origin.id, r.history.weight));
                }
                None => return viol(class, format!("a helper of {} ::= {:?} does not have exactly one rule", r.lhs, r.rhs)),
            }
        } else if limit == Some(2) && !r.history.origin.is_null() {
            return viol(class, format!("helper rule {} ::= {:?} carries origin {}", r.lhs, r.rhs, r.history.origin.id));
        }
    }
    let got = bag(got.into_iter());
    if let Some(k) = excess(&want, &got) {
        return viol(class, format!("no rule stands for the original (lhs, rhs, origin, weight) {k}"));
    }
    if let Some(k) = excess(&got, &want) {
        return viol(class, format!("a rule (lhs, expanded rhs, origin, weight) stands for no original: {k}"));
    }
    Ok(())
}

/// The rules a sequence became carry its origin and weight; without a history, those of its left side
/// the origin 0 and the others none.
fn sequence_origins(class: &str, n: usize, items: &[SeqSpec], new: &[RuleDump], limit: Option<usize>) -> Res {
    type Id = (u32, Option<u32>);
    let top = |it: &SeqSpec| -> Id { it.origin.map_or((0, None), |o| (seq_history(o).origin.id, seq_history(o).weight)) };
    let id = |r: &RuleDump| -> Id { (r.history.origin.id, r.history.weight) };
    for it in items {
        let l = place(it.lhs, n);
        check!(
            new.iter().any(|r| r.lhs == l && id(r) == top(it)),
            class,
            "no rule of {l} carries the origin and weight {:?} of its sequence; new rules {new:?}",
            top(it)
        );
    }
    for r in new.iter().filter(|r| r.lhs < n) {
        let mine: Vec<&SeqSpec> = items.iter().filter(|it| place(it.lhs, n) == r.lhs && top(it) == id(r)).collect();
        check!(!mine.is_empty(), class, "{} ::= {:?} carries {:?}, which no sequence of it had", r.lhs, r.rhs, id(r));
        let named = mine.iter().all(|it| it.origin.is_some());
        if !named && mine.iter().any(|it| it.origin.is_some()) {
            continue;
        }
        // everything below it belongs to the same sequence
        let below: Id = if named { id(r) } else { (!0, None) };
        let mut seen: BTreeSet<usize> = r.rhs.iter().copied().filter(|&s| s >= n).collect();
        let mut work: Vec<usize> = seen.iter().copied().collect();
        while let Some(s) = work.pop() {
            let own: Vec<&RuleDump> = new.iter().filter(|q| q.lhs == s).collect();
            for q in &own {
                let part = limit == Some(2) && own.len() == 1 && q.rhs.len() == 2;
                check!(
                    id(q) == below || part && q.history.origin.is_null() && q.history.weight == below.1,
                    class,
                    "{} ::= {:?}, part of a sequence of {}, carries {:?} instead of {below:?}",
                    q.lhs,
                    q.rhs,
                    r.lhs,
                    id(q)
                );
                for &x in &q.rhs {
                    if x >= n && seen.insert(x) {
                        work.push(x);
                    }
                }
            }
        }
    }
    Ok(())
}

fn minus(big: &[RuleDump], small: &[RuleDump]) -> Vec<RuleDump> {
    let mut out = big.to_vec();
    for s in small {
        if let Some(i) = out.iter().position(|r| r == s) {
            out.remove(i);
        }
    }
    out
}

fn spec_rules(op: &Op, n: usize) -> Vec<RuleDump> {
    match op {
        Op::Rule { lhs, alts, .. } => alts
            .iter()
            .map(|(rhs, o, w)| RuleDump {
                lhs: place(*lhs, n),
                rhs: rhs.iter().map(|&x| place(x, n)).collect(),
                history: origin_history(*o, *w),
            })
            .collect(),
        _ => vec![],
    }
}

// ---- remapping

fn check_remap(class: &str, st: &Stepped, ops: &[RemapOp], mapping: &Mapping, done: &[bool]) -> Res {
    let (pre, post) = (&st.pre, &st.post);
    let n = pre.nsyms;
    let done_ops: Vec<&RemapOp> = ops.iter().zip(done).filter(|(_, d)| **d).map(|(o, _)| o).collect();
    // external -> internal
    let mut to: Vec<Option<usize>>;
    let removing = done_ops.iter().any(|o| matches!(o, RemapOp::RemoveUnused));
    if ops.iter().any(|o| matches!(o, RemapOp::Permute(_))) {
        to = (0..n).map(Some).collect();
        for o in &done_ops {
            if let RemapOp::Permute(seed) = o {
                let p = permutation(*seed, n);
                for x in to.iter_mut() {
                    *x = x.map(|i| p[i]);
                }
            }
        }
        check!(post.nsyms == n, class, "{} symbols became {}", n, post.nsyms);
    } else {
        to = mapping.to_internal.iter().map(|x| x.map(|s| s.usize())).collect();
        let from: Vec<usize> = mapping.to_external.iter().map(|s| s.usize()).collect();
        check!(to.len() == n, class, "to_internal covers {} of {} symbols", to.len(), n);
        check!(from.len() == post.nsyms, class, "to_external covers {} of {} remaining symbols", from.len(), post.nsyms);
        for (i, &e) in from.iter().enumerate() {
            check!(
                e < n && to[e] == Some(i),
                class,
                "to_external[{i}] = {e} but to_internal[{e}] = {:?}",
                to.get(e)
            );
        }
        for (e, i) in to.iter().enumerate() {
            if let Some(i) = i {
                check!(
                    *i < post.nsyms && from[*i] == e,
                    class,
                    "to_internal[{e}] = {i} but to_external[{i}] = {:?} ({} symbols remain)",
                    from.get(*i),
                    post.nsyms
                );
            }
        }
        let mut kept = vec![!removing; n];
        for r in &pre.rules {
            kept[r.lhs] = true;
            for &s in &r.rhs {
                kept[s] = true;
            }
        }
        for &r in &pre.roots {
            kept[r] = true;
        }
        for w in &pre.wrapped {
            for &s in w {
                kept[s] = true;
            }
        }
        for e in 0..n {
            check!(
                to[e].is_some() == kept[e],
                class,
                "symbol {e} {} but is mapped to {:?}; before {}",
                if kept[e] { "is in use" } else { "is in no rule and no root" },
                to[e],
                pre.short()
            );
        }
        if let [RemapOp::Reorder(seed)] = done_ops[..] {
            for w in from.windows(2) {
                check!(key(*seed, w[0]) <= key(*seed, w[1]), class, "symbols {} and {} are not in the requested order", w[0], w[1]);
            }
        }
        if let [RemapOp::Coarse(seed)] = done_ops[..] {
            for w in from.windows(2) {
                check!(coarse(*seed, w[0]) <= coarse(*seed, w[1]), class, "symbols {} and {} are not in the requested order", w[0], w[1]);
            }
        }
    }
    let tr = |s: usize| to[s].unwrap_or(usize::MAX);
    let want: Vec<RuleDump> = pre
        .rules
        .iter()
        .map(|r| RuleDump { lhs: tr(r.lhs), rhs: r.rhs.iter().map(|&s| tr(s)).collect(), history: r.history })
        .collect();
    same_rules(class, "translated rules", &want, &post.rules)?;
    let roots: Vec<usize> = pre.roots.iter().map(|&r| tr(r)).collect();
    check!(roots == post.roots, class, "roots {:?} should be {:?}", post.roots, roots);
    let wrapped: Vec<[usize; 4]> = pre.wrapped.iter().map(|w| w.map(tr)).collect();
    check!(wrapped == post.wrapped, class, "wrapped roots {:?} should be {:?}", post.wrapped, wrapped);
    let mut names: Vec<Option<String>> = vec![None; post.nsyms];
    for e in 0..n {
        if let Some(i) = to[e] {
            names[i] = pre.names.get(e).cloned().flatten();
        }
    }
    let mut got = post.names.clone();
    got.resize(post.nsyms, None);
    check!(names == got, class, "names {:?} should be {:?}", post.names, names);
    check!(pre.limit == post.limit, class, "the length limit changed");
    Ok(())
}

// ---- per property

fn judge(prop: &str, st: &Stepped, after_fault: bool, ctx: &mut Ctx) -> Res {
    if let Did::Panicked(m) = &st.did {
        if focus(prop, &st.op) {
            return viol(
                &format!("panic-{}", op_name(&st.op)),
                format!("{:?} panicked: {m}; state {}", st.op, st.pre.short()),
            );
        }
    }
    match prop {
        "C09" => twin_check(&st.pre, &st.op, st.other.as_ref(), &st.did, &st.post, ctx),
        "C10" => judge10(st, after_fault, ctx),
        "C11" => judge11(st, ctx),
        "C12" => judge12(st, ctx),
        "C13" => judge13(st, ctx),
        "C14" => judge14(st, ctx),
        "C15" => judge15(st, ctx),
        "C16" => judge16(st, ctx),
        "C17" => judge17(st, ctx),
        "C18" => judge18(st, ctx),
        "C20" => judge20(st, ctx),
        _ => Ok(()),
    }
}

fn judge10(st: &Stepped, after_fault: bool, ctx: &mut Ctx) -> Res {
    let (pre, post) = (&st.pre, &st.post);
    let nm = op_name(&st.op);
    let class = format!("crash-{nm}");
    let rest_same = |rules: bool| -> Res {
        let mut p = post.clone();
        if !rules {
            p.rules = pre.rules.clone();
        }
        match diff(pre, &p) {
            None => Ok(()),
            Some(d) => viol(&class, format!("after a panic in the callback of {nm}: {d}")),
        }
    };
    if let Op::Remap(ops) = &st.op {
        if let Did::Done(Ret::Mapping(m, done)) = &st.did {
            if done.iter().any(|d| !d) {
                ctx.nontrivial = true;
                if done.iter().all(|d| !d) {
                    rest_same(true)?;
                }
                return check_remap(&class, st, ops, m, done);
            }
        }
    }
    match &st.did {
        Did::Injected => {
            ctx.nontrivial = true;
            match &st.op {
                Op::Retain(mask) => {
                    rest_same(false)?;
                    // in order, nothing kept by the predicate is missing, nothing is new
                    let mut it = post.rules.iter().peekable();
                    for r in &pre.rules {
                        if it.peek() == Some(&r) {
                            it.next();
                        } else if keep(*mask, r.lhs, &r.rhs) {
                            return viol(&class, format!("rule {} ::= {:?} was not rejected but is gone; before {} after {}", r.lhs, r.rhs, pre.short(), post.short()));
                        }
                    }
                    if let Some(r) = it.next() {
                        return viol(&class, format!("rule {} ::= {:?} appeared or moved", r.lhs, r.rhs));
                    }
                    Ok(())
                }
                Op::SortBy(_) => {
                    rest_same(false)?;
                    same_rules(&class, "after a panic in the comparison", &pre.rules, &post.rules)
                }
                _ => rest_same(true),
            }
        }
        _ if after_fault => twin_check(pre, &st.op, st.other.as_ref(), &st.did, post, ctx),
        _ => Ok(()),
    }
}

fn judge11(st: &Stepped, ctx: &mut Ctx) -> Res {
    let (pre, post) = (&st.pre, &st.post);
    let nm = op_name(&st.op);
    if let Did::Panicked(_) = st.did {
        return Ok(());
    }
    let want = match &st.op {
        Op::Limit(l) => l.map(|l| l.clamp(2, 64)),
        Op::Binarize => Some(2),
        Op::Clone(_) | Op::New(_) => post.limit,
        _ => pre.limit,
    };
    check!(post.limit == want, "limit-lost", "{nm}: the length limit is {:?} instead of {:?}", post.limit, want);
    if let Some(l) = want {
        ctx.nontrivial = true;
        for r in &post.rules {
            check!(
                r.rhs.len() <= l,
                &format!("over-long-{nm}"),
                "after {nm} rule {} ::= {:?} is longer than the limit {l}",
                r.lhs,
                r.rhs
            );
        }
    }
    if !matches!(st.did, Did::Done(_)) {
        return Ok(());
    }
    let fits = |r: &&RuleDump| want.is_none_or(|l| r.rhs.len() <= l);
    let class = format!("fitting-rule-changed-{nm}");
    match &st.op {
        Op::Limit(_) => {
            let small: Vec<RuleDump> = pre.rules.iter().filter(fits).cloned().collect();
            contains_rules(&class, nm, &post.rules, &small)?;
        }
        Op::Rule { .. } => {
            let mut small = pre.rules.clone();
            let specs = spec_rules(&st.op, pre.nsyms);
            small.extend(specs.iter().filter(fits).cloned());
            contains_rules(&class, nm, &post.rules, &small)?;
            if let Did::Done(Ret::Parts(p)) = &st.did {
                if !p.is_empty() {
                    let added = post.rules.len() as i64 - pre.rules.len() as i64;
                    let sum: i64 = p.iter().map(|&x| x as i64).sum();
                    check!(added == sum, "wrong-parts", "add_rule reported {sum} parts, {added} rules were added");
                }
            }
        }
        Op::Extend(_) => {
            let mut small = pre.rules.clone();
            small.extend(st.other.iter().flat_map(|o| o.rules.iter()).filter(fits).cloned());
            contains_rules(&class, nm, &post.rules, &small)?;
        }
        Op::Seq { .. } | Op::Prec(_) | Op::Wrap => contains_rules(&class, nm, &post.rules, &pre.rules)?,
        _ => {}
    }
    Ok(())
}

fn judge12(st: &Stepped, ctx: &mut Ctx) -> Res {
    let (pre, post) = (&st.pre, &st.post);
    let nm = op_name(&st.op);
    if let Did::Panicked(_) = st.did {
        return Ok(());
    }
    check!(
        post.names.len() == post.nsyms,
        "names-misaligned",
        "after {nm}: {} names for {} symbols",
        post.names.len(),
        post.nsyms
    );
    check!(
        max_used(post) <= post.nsyms,
        "dead-symbol-used",
        "after {nm}: a symbol in use is not live ({} symbols): {}",
        post.nsyms,
        post.short()
    );
    if !matches!(st.did, Did::Done(_)) {
        return Ok(());
    }
    if let Did::Done(Ret::Syms(s)) = &st.did {
        ctx.nontrivial = true;
        let want: Vec<usize> = (pre.nsyms..pre.nsyms + s.len()).collect();
        check!(*s == want, "allocation", "{nm} handed out {s:?}, {} symbols were live", pre.nsyms);
        check!(post.nsyms == pre.nsyms + s.len(), "allocation", "{nm} handed out {} symbols, num_syms went from {} to {}", s.len(), pre.nsyms, post.nsyms);
        let given: Vec<Option<String>> = match &st.op {
            Op::Next(n) | Op::Lexeme(n) => vec![n.map(|i| name(i).to_string())],
            Op::WithNames(v) => v.iter().map(|n| n.map(|i| name(i).to_string())).collect(),
            _ => vec![None; s.len()],
        };
        check!(post.names[pre.nsyms..] == given[..], "new-name", "{nm}: names {:?}, given {:?}", &post.names[pre.nsyms..], given);
        let k = match &st.op {
            Op::Sym(k) => Some(crate::ops::SYMS[*k as usize % crate::ops::SYMS.len()]),
            Op::Generate(k) => Some(*k as usize % 71),
            _ => None,
        };
        if let Some(k) = k {
            check!(s.len() == k, "allocation", "{nm} handed out {} symbols instead of {k}", s.len());
        }
    }
    match &st.op {
        Op::Remap(ops) => {
            if let Did::Done(Ret::Mapping(m, done)) = &st.did {
                return check_remap("remap-names", st, ops, m, done);
            }
        }
        Op::SourceRemap(seed) => {
            let p = permutation(*seed, pre.nsyms);
            for (i, n) in pre.names.iter().enumerate() {
                check!(post.names[p[i]] == *n, "source-remap-names", "name of {i} moved to {} is {:?}, was {:?}", p[i], post.names[p[i]], n);
            }
        }
        Op::Truncate(k) => {
            let want = (*k).min(pre.nsyms);
            check!(
                post.nsyms == want && post.names[..] == pre.names[..want],
                "truncate",
                "truncate({k}) of {} symbols left {} symbols, names {:?}",
                pre.nsyms,
                post.nsyms,
                post.names
            );
        }
        _ => {
            check!(post.nsyms >= pre.nsyms, "symbols-lost", "{nm}: {} symbols became {}", pre.nsyms, post.nsyms);
            check!(post.names[..pre.nsyms] == pre.names[..], "names-changed", "{nm}: names {:?} became {:?}", pre.names, post.names);
            // a helper must not be a symbol that was live before: rules of live symbols that the
            // operation did not mention stay the same set of left sides
            if let Op::Rule { .. } | Op::Limit(_) | Op::Wrap = &st.op {
                let specs = spec_rules(&st.op, pre.nsyms);
                let mut may: BTreeSet<usize> = pre.rules.iter().map(|r| r.lhs).collect();
                may.extend(specs.iter().map(|r| r.lhs));
                for r in &post.rules {
                    check!(
                        r.lhs >= pre.nsyms || may.contains(&r.lhs),
                        "live-symbol-reused",
                        "{nm} gave the live symbol {} a rule",
                        r.lhs
                    );
                }
            }
        }
    }
    Ok(())
}

fn judge13(st: &Stepped, ctx: &mut Ctx) -> Res {
    if let (Op::Remap(ops), Did::Done(Ret::Mapping(m, done))) = (&st.op, &st.did) {
        ctx.nontrivial = true;
        return check_remap("remap", st, ops, m, done);
    }
    Ok(())
}

fn mutators(ops: &[CycleOp]) -> Vec<CycleOp> {
    ops.iter().filter(|o| matches!(o, CycleOp::Remove | CycleOp::Rewrite)).cloned().collect()
}

fn judge14(st: &Stepped, ctx: &mut Ctx) -> Res {
    let (pre, post) = (&st.pre, &st.post);
    let Did::Done(ret) = &st.did else { return Ok(()) };
    let nm = op_name(&st.op);
    let class = format!("provenance-{nm}");
    if !pre.rules.is_empty() {
        ctx.nontrivial = true;
    }
    match &st.op {
        Op::Limit(l) => split_faithfully(&class, &pre.rules, &post.rules, pre.nsyms, l.map(|l| l.clamp(2, 64))),
        Op::Rule { .. } => {
            contains_rules(&class, nm, &post.rules, &pre.rules)?;
            let new = minus(&post.rules, &pre.rules);
            split_faithfully(&class, &spec_rules(&st.op, pre.nsyms), &new, pre.nsyms, post.limit)
        }
        Op::Extend(_) => {
            contains_rules(&class, nm, &post.rules, &pre.rules)?;
            let new = minus(&post.rules, &pre.rules);
            let o: Vec<RuleDump> = st.other.iter().flat_map(|o| o.rules.iter().cloned()).collect();
            split_faithfully(&class, &o, &new, pre.nsyms, post.limit)
        }
        Op::Sort | Op::SortBy(_) => same_rules(&class, nm, &pre.rules, &post.rules),
        Op::Dedup => {
            contains_rules(&class, nm, &pre.rules, &post.rules)?;
            // of equal neighbours the first stays, as it is
            let mut want = pre.rules.clone();
            want.dedup_by(|a, b| a.lhs == b.lhs && a.rhs == b.rhs);
            check!(want == post.rules, &class, "dedup left {:?} of {:?}", post.rules, pre.rules);
            Ok(())
        }
        Op::Reverse => {
            let want: Vec<RuleDump> = pre
                .rules
                .iter()
                .map(|r| RuleDump { lhs: r.lhs, rhs: r.rhs.iter().rev().copied().collect(), history: r.history })
                .collect();
            same_rules(&class, nm, &want, &post.rules)
        }
        Op::Retain(mask) => {
            let want: Vec<RuleDump> = pre.rules.iter().filter(|r| keep(*mask, r.lhs, &r.rhs)).cloned().collect();
            same_rules(&class, nm, &want, &post.rules)
        }
        Op::Proper(_) => contains_rules(&class, nm, &pre.rules, &post.rules),
        Op::Wrap => contains_rules(&class, nm, &post.rules, &pre.rules),
        Op::Seq { items, .. } => {
            contains_rules(&class, nm, &post.rules, &pre.rules)?;
            sequence_origins(&class, pre.nsyms, items, &minus(&post.rules, &pre.rules), post.limit)
        }
        Op::Prec(items) => {
            contains_rules(&class, nm, &post.rules, &pre.rules)?;
            let new = minus(&post.rules, &pre.rules);
            let id = |h: &History| (h.origin.id, h.weight);
            let mut want: Vec<_> = items.iter().flat_map(|it| it.levels.iter().flatten()).map(|a| id(&alt_history(a))).collect();
            want.extend(items.iter().flat_map(|it| it.plain.iter()).map(|(_, _, o)| id(&seq_history(*o))));
            let want = bag(want.into_iter());
            let got = bag(new.iter().map(|r| id(&r.history)));
            if let Some(k) = excess(&want, &got) {
                return viol(&class, format!("no rule carries (origin, weight) {k} of an alternative; new rules {new:?}"));
            }
            if post.limit.is_none_or(|l| l == 2) {
                // all others are glue
                let named = bag(new.iter().filter(|r| !r.history.origin.is_null()).map(|r| id(&r.history)));
                if let Some(k) = excess(&named, &want) {
                    return viol(&class, format!("a rule carries (origin, weight) {k}, which no alternative had; new rules {new:?}"));
                }
            }
            Ok(())
        }
        Op::Cycles(ops) => match mutators(ops)[..] {
            [] => same_rules(&class, nm, &pre.rules, &post.rules),
            [CycleOp::Remove] => contains_rules(&class, nm, &pre.rules, &post.rules),
            [CycleOp::Rewrite] => {
                let m = unit_reach(pre.nsyms, &pre.plain());
                let stays = |r: &&RuleDump| !(r.rhs.len() == 1 && (r.rhs[0] == r.lhs || m[r.rhs[0]][r.lhs]));
                let keepers = bag(pre.rules.iter().filter(stays).map(|r| r.history));
                let all = bag(pre.rules.iter().map(|r| r.history));
                let got = bag(post.rules.iter().map(|r| r.history));
                if let Some(k) = excess(&keepers, &got) {
                    return viol(&class, format!("no rule carries the history {k} any more; before {} after {}", pre.short(), post.short()));
                }
                // rules that tie a root to the symbol that took its place carry no user's origin
                let named = bag(
                    post.rules
                        .iter()
                        .filter(|r| !r.history.origin.is_null() && !(r.history.origin.id == 0 && r.rhs.len() == 1 && post.roots.contains(&r.lhs)))
                        .map(|r| r.history),
                );
                if let Some(k) = excess(&named, &all) {
                    return viol(&class, format!("a rule carries a history it did not have: {k}; before {} after {}", pre.short(), post.short()));
                }
                // translated symbols stay in one cycle class
                Ok(())
            }
            _ => Ok(()),
        },
        Op::Remap(ops) => {
            if let Ret::Mapping(m, done) = ret {
                return check_remap(&class, st, ops, m, done);
            }
            Ok(())
        }
        Op::Binarize => {
            let Ret::Nulling(res) = ret else { return Ok(()) };
            let nullg = dump(res);
            let ids: BTreeSet<(usize, u32)> = pre.rules.iter().map(|r| (r.lhs, r.history.origin.id)).collect();
            for r in post.rules.iter().chain(&nullg.rules) {
                if r.lhs < pre.nsyms && !r.history.origin.is_null() {
                    check!(
                        ids.contains(&(r.lhs, r.history.origin.id)),
                        &class,
                        "rule {} ::= {:?} carries origin {}, which no rule of {} had",
                        r.lhs,
                        r.rhs,
                        r.history.origin.id,
                        r.lhs
                    );
                }
            }
            let rules = pre.plain();
            let (nl, pr) = (nullable(pre.nsyms, &rules), productive(pre.nsyms, &rules));
            for r in &pre.rules {
                if r.rhs.is_empty() || !r.rhs.iter().all(|&s| pr[s] && !nl[s]) {
                    continue;
                }
                let found = post.rules.iter().any(|q| {
                    q.lhs == r.lhs
                        && q.history.origin == r.history.origin
                        && q.history.weight == r.history.weight
                        && if r.rhs.len() <= 2 {
                            q == r
                        } else {
                            expand(&post.rules, pre.nsyms, &q.rhs, 0).as_deref() == Some(&r.rhs[..])
                        }
                });
                check!(found, &class, "no rule stands for {} ::= {:?} with origin {} any more; after {}", r.lhs, r.rhs, r.history.origin.id, post.short());
            }
            // a rule with nullable symbols leaves its non-empty remainders with its origin
            for r in &pre.rules {
                if r.rhs.len() == 2 && r.rhs.iter().all(|&s| pr[s]) {
                    for k in 0..2 {
                        let (gone, kept) = (r.rhs[k], r.rhs[1 - k]);
                        if nl[gone] && !nl[kept] {
                            let found = post.rules.iter().any(|q| {
                                q.lhs == r.lhs
                                    && q.rhs == [kept]
                                    && q.history.origin == r.history.origin
                                    && q.history.weight == r.history.weight
                                    && q.history.nullable().map(|(s, right)| (s.usize(), right)) == Some((gone, k == 1))
                            });
                            check!(found, &class, "{} ::= {:?} (origin {}) left no {} ::= [{}] with that origin, its weight and the note which symbol is gone; after {}", r.lhs, r.rhs, r.history.origin.id, r.lhs, kept, post.short());
                        }
                    }
                }
            }
            Ok(())
        }
        Op::Gen(_) | Op::Query(..) | Op::Sym(_) | Op::Next(_) | Op::Lexeme(_) | Op::WithNames(_) | Op::Generate(_) | Op::Roots(_) | Op::Truncate(_) | Op::SourceRemap(_) => {
            same_rules(&class, nm, &pre.rules, &post.rules)
        }
        _ => Ok(()),
    }
}

fn judge15(st: &Stepped, ctx: &mut Ctx) -> Res {
    let (pre, post) = (&st.pre, &st.post);
    let Did::Done(_) = &st.did else { return Ok(()) };
    let nm = op_name(&st.op);
    let class = format!("language-{nm}");
    let rules = pre.plain();
    let mut all = |_: usize| true;
    match &st.op {
        Op::Limit(_) | Op::Sort | Op::SortBy(_) | Op::Dedup | Op::Sym(_) | Op::Next(_) | Op::Lexeme(_) | Op::WithNames(_) | Op::Generate(_) | Op::Roots(_) => {
            same_languages(&class, pre.nsyms, &rules, pre, post, &mut all, ctx)
        }
        Op::Wrap => {
            same_languages(&class, pre.nsyms, &rules, pre, post, &mut all, ctx)?;
            check!(
                post.roots.len() == pre.roots.len() && post.wrapped.len() == pre.roots.len(),
                &class,
                "{} roots, {} wrapped roots after wrapping {} roots",
                post.roots.len(),
                post.wrapped.len(),
                pre.roots.len()
            );
            for (k, w) in post.wrapped.iter().enumerate() {
                let [start, inner, end, root] = *w;
                check!(inner == pre.roots[k] && root == post.roots[k], &class, "wrapped root {k} is {w:?}, old root {}, new root {}", pre.roots[k], post.roots[k]);
                check!(
                    start >= pre.nsyms && end >= pre.nsyms && root >= pre.nsyms && start != end && root != start && root != end,
                    &class,
                    "wrapping did not allocate new symbols: {w:?}"
                );
                check!(!post.rules.iter().any(|r| r.lhs == start || r.lhs == end), &class, "start or end of input has rules");
                // the new root over an expected grammar with exactly one rule for it
                let mut e = rules.clone();
                e.push((root, vec![start, inner, end]));
                let n = post.nsyms.max(root + 1);
                let mut has: Vec<bool> = vec![false; n];
                for (l, _) in &e {
                    has[*l] = true;
                }
                let mut term: Vec<Option<usize>> = vec![None; n];
                let mut t = 3;
                for s in 0..n {
                    if s == start {
                        term[s] = Some(1);
                    } else if s == end {
                        term[s] = Some(2);
                    } else if s < pre.nsyms && !has[s] {
                        let used = e.iter().any(|(_, r)| r.contains(&s));
                        term[s] = Some(if used && t < 7 {
                            t += 1;
                            t - 1
                        } else {
                            0
                        });
                    }
                }
                let space = Space::new(t, 8000, 6);
                let a = space.solve(n, &e, &term);
                let b = space.solve(n, &post.plain(), &term);
                check!(a[root] == b[root], &class, "wrapped root {root}: {}; after {}", space.describe_diff(&a[root], &b[root]), post.short());
            }
            Ok(())
        }
        Op::Rule { .. } => {
            let mut e = rules.clone();
            e.extend(spec_rules(&st.op, pre.nsyms).iter().map(|r| (r.lhs, r.rhs.clone())));
            same_languages(&class, pre.nsyms, &e, pre, post, &mut all, ctx)
        }
        Op::Extend(_) => {
            let mut e = rules.clone();
            e.extend(st.other.iter().flat_map(|o| o.plain()));
            same_languages(&class, pre.nsyms, &e, pre, post, &mut all, ctx)
        }
        Op::Retain(mask) => {
            let e: Rules = rules.iter().filter(|(l, r)| keep(*mask, *l, r)).cloned().collect();
            same_languages(&class, pre.nsyms, &e, pre, post, &mut all, ctx)
        }
        Op::Proper(_) => {
            let pr = productive(pre.nsyms, &rules);
            let re = reachable(pre.nsyms, &rules, &pre.roots);
            let want: Vec<RuleDump> = pre.rules.iter().filter(|r| re[r.lhs] && r.rhs.iter().all(|&s| pr[s])).cloned().collect();
            same_rules(&format!("{class}-exact"), "removal of useless rules", &want, &post.rules)?;
            let roots = pre.roots.clone();
            same_languages(&class, pre.nsyms, &rules, pre, post, &mut |s| roots.contains(&s), ctx)
        }
        Op::Reverse => {
            let (space, a, b) = both(&class, pre.nsyms, &rules, post, 1500)?;
            for s in 0..pre.nsyms {
                let want = space.reverse(&a[s]);
                check!(want == b[s], &class, "reversed language of {s}: {}; before {} after {}", space.describe_diff(&want, &b[s]), pre.short(), post.short());
                if space.count(&a[s]) > 1 {
                    ctx.nontrivial = true;
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

fn judge16(st: &Stepped, ctx: &mut Ctx) -> Res {
    let (pre, post) = (&st.pre, &st.post);
    let (Op::Binarize, Did::Done(Ret::Nulling(res))) = (&st.op, &st.did) else { return Ok(()) };
    let nullg = dump(res);
    let rules = pre.plain();
    for r in &post.rules {
        check!((1..=2).contains(&r.rhs.len()), "nulling-length", "rule {} ::= {:?} has {} symbols; before {}", r.lhs, r.rhs, r.rhs.len(), pre.short());
    }
    let (space, a, b) = both("nulling-language", pre.nsyms, &rules, post, 1500)?;
    for s in 0..pre.nsyms {
        let want = space.without_eps(&a[s]);
        check!(
            want == b[s],
            "nulling-language",
            "language of {s} without the empty string: {}; before {} after {}",
            space.describe_diff(&want, &b[s]),
            pre.short(),
            post.short()
        );
        if space.has_eps(&a[s]) && space.count(&a[s]) > 1 {
            ctx.nontrivial = true;
        }
    }
    let (empties, bears) = (nullable(pre.nsyms, &rules), bearing(pre.nsyms, &rules));
    for r in &post.rules {
        check!(
            r.lhs >= pre.nsyms || !empties[r.lhs] || bears[r.lhs],
            "nulling-leftover",
            "rule {} ::= {:?} is left, though {} derived nothing but the empty string; before {} after {}",
            r.lhs,
            r.rhs,
            r.lhs,
            pre.short(),
            post.short()
        );
    }
    let want = nullable(pre.nsyms, &rules);
    let got = nullable(nullg.nsyms.max(pre.nsyms), &nullg.plain());
    for s in 0..pre.nsyms {
        check!(
            want[s] == got[s],
            "nulling-grammar",
            "symbol {s} {} the empty string before, in the nulling grammar it {}; before {} nulling grammar {}",
            if want[s] { "derived" } else { "did not derive" },
            if got[s] { "does" } else { "does not" },
            pre.short(),
            nullg.short()
        );
    }
    Ok(())
}

fn judge17(st: &Stepped, ctx: &mut Ctx) -> Res {
    let (pre, post) = (&st.pre, &st.post);
    let (Op::Cycles(ops), Did::Done(Ret::Cycles(answers))) = (&st.op, &st.did) else { return Ok(()) };
    let muts = mutators(ops);
    let rules = pre.plain();
    let m = unit_reach(pre.nsyms, &rules);
    let cyclic = (0..pre.nsyms).any(|s| m[s][s]);
    if cyclic && !muts.is_empty() {
        ctx.nontrivial = true;
    }
    // answers
    let total = muts.len();
    let mut seen = 0;
    let flags = |rules: &[(usize, Vec<usize>)], n: usize| -> (bool, Vec<bool>) {
        let rs: Rules = rules.to_vec();
        let m = unit_reach(n, &rs);
        let free = (0..n).all(|s| !m[s][s]);
        // a rule A ::= A alone is no cycle
        let f = rs.iter().map(|(l, r)| r.len() == 1 && m[r[0]][*l]).collect();
        (free, f)
    };
    for a in answers {
        let current: Option<(Rules, usize)> = if seen == total {
            Some((post.plain(), post.nsyms))
        } else if seen == 0 {
            Some((rules.clone(), pre.nsyms))
        } else {
            None
        };
        match a {
            CycleAnswer::Mutated(_) => seen += 1,
            CycleAnswer::Free(b) => {
                if let Some((rs, n)) = current {
                    let (free, _) = flags(&rs, n);
                    check!(
                        *b == free,
                        "stale-cycle-free",
                        "cycle_free says {b} after {seen} changes, the current rules {:?} {}",
                        rs,
                        if free { "have no cycle" } else { "have a cycle" }
                    );
                }
            }
            CycleAnswer::Rules(list) => {
                let plain: Vec<(usize, Vec<usize>)> = list.iter().map(|x| (x.0, x.1.clone())).collect();
                let n = plain.iter().flat_map(|(l, r)| r.iter().chain([l])).max().map_or(0, |x| x + 1);
                let (_, f) = flags(&plain, n);
                for (x, want) in list.iter().zip(&f) {
                    check!(x.2 == *want, "wrong-classification", "classify says {} ::= {:?} {} in a cycle of the current rules {:?}", x.0, x.1, if x.2 { "takes part" } else { "takes no part" }, plain);
                }
                if let Some((rs, _)) = current {
                    let (a, b) = (bag(plain.iter()), bag(rs.iter()));
                    check!(a == b, "stale-classification", "classify reports rules {plain:?}, the grammar has {rs:?}");
                }
            }
            CycleAnswer::Participants(want, list) => {
                if let Some((rs, n)) = current {
                    let (_, f) = flags(&rs, n);
                    let must = bag(rs.iter().zip(&f).filter(|(_, f)| **f == *want).map(|(r, _)| r.clone()));
                    let got = bag(list.iter().cloned());
                    if let Some(k) = excess(&must, &got) {
                        return viol("wrong-participants", format!("cycle_participants({want}) misses {k} of {rs:?}"));
                    }
                    if let Some(k) = excess(&got, &must) {
                        return viol("wrong-participants", format!("cycle_participants({want}) wrongly has {k} of {rs:?}"));
                    }
                }
            }
        }
    }
    match muts.first() {
        None => same_rules("cycle-query-mutates", "cycle queries", &pre.rules, &post.rules),
        Some(first) => {
            let mp = unit_reach(post.nsyms, &post.plain());
            for s in 0..post.nsyms {
                check!(!mp[s][s], "cycle-left", "symbol {s} is still in a cycle of unit rules; before {} after {}", pre.short(), post.short());
            }
            if muts.iter().all(|m| *m == CycleOp::Rewrite) {
                check!(post.roots.len() == pre.roots.len(), "cycle-roots", "roots {:?} became {:?}", pre.roots, post.roots);
                let (space, a, b) = both("cycle-language", pre.nsyms, &rules, post, 1500)?;
                for (&r, &q) in pre.roots.iter().zip(&post.roots) {
                    check!(
                        a[r] == b[q],
                        "cycle-language",
                        "language of root {r}: {}; before {} after {}",
                        space.describe_diff(&a[r], &b[q]),
                        pre.short(),
                        post.short()
                    );
                }
            } else if *first == CycleOp::Remove && total == 1 {
                let partakes = |r: &RuleDump| r.rhs.len() == 1 && m[r.rhs[0]][r.lhs];
                let want: Vec<RuleDump> = pre.rules.iter().filter(|r| !partakes(r)).cloned().collect();
                same_rules("cycle-removal", "removal of the rules of cycles", &want, &post.rules)?;
            }
            Ok(())
        }
    }
}

fn labelled(rules: &[RuleDump], labels: bool) -> Vec<LRule> {
    rules
        .iter()
        .map(|r| LRule {
            lhs: r.lhs,
            rhs: r.rhs.clone(),
            label: if labels && !r.history.origin.is_null() { Some(r.history.origin.id) } else { None },
        })
        .collect()
}

fn compare_sparse(class: &str, exp_nsyms: usize, exp: &[LRule], pre: &Dump, post: &Dump, labels: bool, bounds: &[usize], ctx: &mut Ctx) -> Res {
    let mut term = vec![true; exp_nsyms.max(post.nsyms)];
    for s in term.iter_mut().skip(pre.nsyms) {
        *s = false;
    }
    for r in exp {
        term[r.lhs] = false;
    }
    for r in &post.rules {
        if r.lhs < pre.nsyms && term[r.lhs] {
            return viol(class, format!("symbol {} had no rules and got {} ::= {:?}", r.lhs, r.lhs, r.rhs));
        }
    }
    let got_rules = labelled(&post.rules, labels);
    for &bound in bounds {
        let Some(a) = sparse::solve(exp_nsyms, exp, &term, bound, 300) else { continue };
        // helper symbols may have more strings than the symbols compared
        let Some(b) = sparse::solve(post.nsyms, &got_rules, &term, bound, 1500) else {
            ctx.probe("too-many-helper-strings");
            continue;
        };
        ctx.probe(if labels { "trees-compared" } else { "strings-compared" });
        for s in 0..pre.nsyms {
            if a[s] != b[s] {
                let show = |x: &Vec<u32>| -> String {
                    x.iter().map(|&v| if v & sparse::LABEL != 0 { format!("({} ", v & !sparse::LABEL) } else { format!("{v} ") }).collect()
                };
                let lost = a[s].difference(&b[s]).next().map(|x| format!("lost: {}", show(x)));
                let new = b[s].difference(&a[s]).next().map(|x| format!("new: {}", show(x)));
                return viol(
                    class,
                    format!(
                        "symbol {s} {}: {} {}; before {} after {}",
                        if labels { "derivation trees" } else { "language" },
                        lost.unwrap_or_default(),
                        new.unwrap_or_default(),
                        pre.short(),
                        post.short()
                    ),
                );
            }
            if a[s].len() > 2 {
                ctx.nontrivial = true;
            }
        }
        return Ok(());
    }
    ctx.probe("too-many-strings");
    Ok(())
}

/// One or more repetitions without a final separator: rewritten with the left side itself as the recursive symbol.
fn recursive_top(it: &SeqSpec) -> bool {
    it.start == 1 && it.end.is_none() && matches!(it.sep, 0 | 1 | 4)
}

/// The rules before plus rules for the sequences, written down independently of the rewriter.
/// `recursive`: with the behaviour of the recorded finding.
fn sequence_rules(pre: &Dump, items: &[SeqSpec], recursive: bool) -> (usize, Vec<LRule>) {
    let n = pre.nsyms;
    let mut e = labelled(&pre.rules, false);
    let mut next = n;
    let add = |e: &mut Vec<LRule>, lhs: usize, rhs: Vec<usize>| e.push(LRule { lhs, rhs, label: None });
    for it in items {
        let (lhs, x, sep) = (place(it.lhs, n), place(it.rhs, n), place(it.sep_sym, n));
        let (proper, trailing) = match it.sep {
            2 => (false, true),
            3 => (true, true),
            _ => (true, false),
        };
        let glue: Vec<usize> = if it.sep == 0 { vec![] } else { vec![sep] };
        if recursive && recursive_top(it) {
            add(&mut e, lhs, vec![x]);
            let mut r = vec![lhs];
            r.extend(&glue);
            r.push(x);
            add(&mut e, lhs, r);
            continue;
        }
        if it.start == 0 {
            add(&mut e, lhs, vec![]);
            if it.end == Some(0) {
                continue;
            }
        }
        let lo = it.start.max(1);
        // chain[k]: exactly k+1 elements with separators between them
        let hi = it.end.unwrap_or(lo).max(lo);
        let mut chain = vec![];
        for k in 1..=hi {
            let c = next;
            next += 1;
            if k == 1 {
                add(&mut e, c, vec![x]);
            } else {
                let mut r = vec![chain[chain.len() - 1]];
                r.extend(&glue);
                r.push(x);
                add(&mut e, c, r);
            }
            chain.push(c);
        }
        let mut tops: Vec<usize> = (lo..=hi).map(|k| chain[k as usize - 1]).collect();
        if it.end.is_none() {
            let w = next;
            next += 1;
            add(&mut e, w, vec![chain[lo as usize - 1]]);
            let mut r = vec![w];
            r.extend(&glue);
            r.push(x);
            add(&mut e, w, r);
            tops = vec![w];
        }
        for t in tops {
            if proper {
                add(&mut e, lhs, vec![t]);
            }
            if trailing {
                add(&mut e, lhs, vec![t, sep]);
            }
        }
    }
    (next, e)
}

/// What each sequence came to, with its element and separator taken as they are: every number of
/// repetitions, however large, up to a little above the last bound.
fn sequence_counts(pre: &Dump, post: &Dump, items: &[SeqSpec], ctx: &mut Ctx) -> Res {
    let n = pre.nsyms;
    let lefts: BTreeSet<usize> = items.iter().map(|it| place(it.lhs, n)).collect();
    for l in lefts {
        let mine: Vec<&SeqSpec> = items.iter().filter(|it| place(it.lhs, n) == l).collect();
        let mut atoms = BTreeSet::new();
        for it in &mine {
            atoms.insert(place(it.rhs, n));
            if it.sep != 0 {
                atoms.insert(place(it.sep_sym, n));
            }
        }
        if atoms.contains(&l) || mine.len() > 1 && mine.iter().any(|it| recursive_top(it)) {
            continue;
        }
        let most = mine.iter().map(|it| it.end.unwrap_or(it.start + 3)).max().unwrap_or(0) as usize + 1;
        let bound = 2 * most + 1;
        let mut want = sparse::Strs::new();
        for it in &mine {
            let (x, sep) = (place(it.rhs, n) as u32, place(it.sep_sym, n) as u32);
            for k in it.start as usize..=it.end.map_or(bound, |e| e as usize) {
                let mut s = vec![];
                for i in 0..k {
                    if i > 0 && it.sep != 0 {
                        s.push(sep);
                    }
                    s.push(x);
                }
                let mut t = s.clone();
                if k > 0 {
                    t.push(sep);
                }
                let both = match it.sep {
                    2 => vec![t],
                    3 => vec![s, t],
                    _ => vec![s],
                };
                want.extend(both.into_iter().filter(|s| s.len() <= bound));
            }
        }
        // the rules that are new, and those below them
        let mut old: Vec<&Vec<usize>> = pre.rules.iter().filter(|r| r.lhs == l).map(|r| &r.rhs).collect();
        let mut rules = vec![];
        for r in &post.rules {
            if atoms.contains(&r.lhs) {
                continue;
            }
            if r.lhs == l {
                if let Some(i) = old.iter().position(|o| **o == r.rhs) {
                    old.remove(i);
                    continue;
                }
            }
            rules.push(r);
        }
        let mut below = BTreeSet::from([l]);
        loop {
            let before = below.len();
            for r in &rules {
                if below.contains(&r.lhs) {
                    below.extend(r.rhs.iter().copied());
                }
            }
            if below.len() == before {
                break;
            }
        }
        let rules: Vec<LRule> = rules
            .into_iter()
            .filter(|r| below.contains(&r.lhs))
            .map(|r| LRule { lhs: r.lhs, rhs: r.rhs.clone(), label: None })
            .collect();
        let mut term = vec![false; post.nsyms];
        for &a in &atoms {
            term[a] = true;
        }
        let Some(got) = sparse::solve(post.nsyms, &rules, &term, bound, 600) else {
            ctx.probe("too-many-repetitions");
            continue;
        };
        ctx.probe("repetitions-counted");
        if got[l] != want {
            let lost = want.difference(&got[l]).next().map(|x| format!("lost: {x:?}"));
            let new = got[l].difference(&want).next().map(|x| format!("new: {x:?}"));
            return viol(
                "sequence-counts",
                format!("the sequences of {l}: {} {}; before {} after {}", lost.unwrap_or_default(), new.unwrap_or_default(), pre.short(), post.short()),
            );
        }
    }
    Ok(())
}

fn judge18(st: &Stepped, ctx: &mut Ctx) -> Res {
    let (pre, post) = (&st.pre, &st.post);
    let Did::Done(_) = &st.did else { return Ok(()) };
    let n = pre.nsyms;
    match &st.op {
        Op::Seq { items, .. } => {
            const BOUNDS: &[usize] = &[14, 10, 7, 5, 4, 3, 2];
            sequence_counts(pre, post, items, ctx)?;
            let (next, e) = sequence_rules(pre, items, false);
            let r = compare_sparse("sequence-language", next, &e, pre, post, false, BOUNDS, ctx);
            let Err(v) = r else { return Ok(()) };
            if items.iter().any(recursive_top) {
                // exactly the recorded finding, or something else?
                let (next, e) = sequence_rules(pre, items, true);
                if compare_sparse("sequence-language", next, &e, pre, post, false, BOUNDS, ctx).is_ok() {
                    return viol("sequence-recursive-left-side", v.msg);
                }
            }
            Err(v)
        }
        Op::Prec(items) => {
            let mut e: Vec<RuleDump> = pre.rules.clone();
            let mut next = n;
            let null: History = cfg_history::RootHistoryNode::NoOp.into();
            let mut long = false;
            for it in items {
                let lhs = place(it.lhs, n);
                let levels: Vec<usize> = (0..it.levels.len()).map(|k| next + k).collect();
                next += levels.len();
                let loosest = levels[levels.len() - 1];
                for (k, alts) in it.levels.iter().enumerate() {
                    if k > 0 {
                        e.push(RuleDump { lhs: levels[k], rhs: vec![levels[k - 1]], history: null });
                    }
                    let tighter = if k == 0 { levels[0] } else { levels[k - 1] };
                    for a in alts {
                        let rhs: Vec<usize> = a.rhs.iter().map(|&x| place(x, n)).collect();
                        long |= post.limit.is_some_and(|l| l > 2 && rhs.len() > l);
                        let places: Vec<usize> = (0..rhs.len()).filter(|&i| rhs[i] == lhs).collect();
                        let mut out = rhs.clone();
                        for &p in &places {
                            out[p] = match a.assoc {
                                3 => loosest,
                                2 if Some(&p) == places.last() => levels[k],
                                0 | 1 if Some(&p) == places.first() => levels[k],
                                _ => tighter,
                            };
                        }
                        e.push(RuleDump { lhs: levels[k], rhs: out, history: alt_history(a) });
                    }
                }
                e.push(RuleDump { lhs, rhs: vec![loosest], history: null });
                for (l, r, o) in &it.plain {
                    long |= post.limit.is_some_and(|x| x > 2 && r.len() > x);
                    e.push(RuleDump { lhs: place(*l, n), rhs: r.iter().map(|&x| place(x, n)).collect(), history: seq_history(*o) });
                }
            }
            compare_sparse("precedence-language", next, &labelled(&e, false), pre, post, false, &[7, 5, 4, 3, 2], ctx)?;
            if !long {
                compare_sparse("precedence-trees", next, &labelled(&e, true), pre, post, true, &[12, 11, 10, 9, 8, 6, 4], ctx)?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// A grammar of the same outline, for what a query might have kept from an earlier one.
fn sibling(d: &Dump, seed: u64) -> Dump {
    let mut rng = crate::rng::Rng::new(seed);
    let mut s = d.clone();
    let lhs: Vec<bool> = (0..d.nsyms).map(|x| d.rules.iter().any(|r| r.lhs == x)).collect();
    let turned = |x: usize| (1..=d.nsyms).map(|k| (x + k) % d.nsyms).find(|&y| lhs[y] == lhs[x]).unwrap_or(x);
    match rng.below(6) {
        0 => s.rules.iter_mut().flat_map(|r| r.rhs.iter_mut()).for_each(|x| *x = if lhs[*x] { *x } else { turned(*x) }),
        1 => s.rules.iter_mut().flat_map(|r| r.rhs.iter_mut()).for_each(|x| *x = turned(*x)),
        2 => s.rules.iter_mut().for_each(|r| r.rhs.reverse()),
        3 => s.rules.iter_mut().for_each(|r| {
            if let Some(&x) = r.rhs.first().filter(|_| r.rhs.len() < d.limit.unwrap_or(9).min(9)) {
                r.rhs.push(x);
            }
        }),
        4 => s.rules.iter_mut().for_each(|r| {
            r.rhs.pop();
        }),
        _ => s.roots = s.roots.iter().map(|&x| turned(x)).collect(),
    }
    s
}

fn judge20(st: &Stepped, ctx: &mut Ctx) -> Res {
    if let Op::Query(k, with) = &st.op {
        ctx.nontrivial = true;
        if let Some(d) = diff(&st.pre, &st.post) {
            return viol("query-mutates", format!("query {k} changed the grammar: {d}"));
        }
        twin_check(&st.pre, &st.op, st.other.as_ref(), &st.did, &st.post, ctx)?;
        if let Did::Done(Ret::Text(here)) = &st.did {
            // the same question to an equal grammar in another process image
            let seed = st.pre.hash() ^ *with;
            if seed % 3 != 2 {
                let (pre, kind, with) = (&st.pre, *k, *with);
                let before = if seed % 3 == 1 { Some(sibling(pre, seed / 3)) } else { None };
                let there = crate::entropy::in_process(seed, || {
                    if let Some(d) = &before {
                        let _ = run(|| crate::query::answer(&mut rebuild(d), kind, with));
                    }
                    run(|| {
                        let mut twin = rebuild(pre);
                        if dump(&twin) != *pre {
                            return None;
                        }
                        Some(crate::query::answer(&mut twin, kind, with))
                    })
                });
                if let Ok(Outcome::Done(Some(there))) = there {
                    ctx.probe("asked-another-process");
                    if *here != there {
                        return viol(
                            "answer-depends-on-the-process",
                            format!("{:?} answers {here} here and {there} in a process that {}; state {}", st.op, match &before {
                                Some(d) => format!("asked it of {} before", d.short()),
                                None => "did nothing else".into(),
                            }, st.pre.short()),
                        );
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the run

pub fn valid(plan: &HistPlan) -> bool {
    plan.holders >= 1
        && plan.holders <= 6
        && plan.nt >= 1
        && plan.nt + plan.t <= 40
        && plan.rules.len() <= 120
        && plan.steps.len() <= 40
        && plan.rules.iter().all(|r| r.1.len() <= 40)
}

pub fn exec(prop: &str, plan: &HistPlan, ctx: &mut Ctx) -> Res {
    if !valid(plan) {
        return Ok(());
    }
    let first = match run(|| initial(plan)) {
        Outcome::Done(g) => g,
        _ => return Ok(()),
    };
    let mut w = World { holders: vec![None; plan.holders] };
    for h in w.holders.iter_mut() {
        *h = Some(first.clone());
    }
    drop(first);
    let mut scratch = crate::exact::Scratch::default();
    let mut faulted = vec![false; plan.holders];
    for (k, step) in plan.steps.iter().enumerate() {
        let who = step.who % plan.holders;
        let st = match w.step(prop, who, &step.op, step.fault.as_ref(), 0, ctx)? {
            Some(st) => st,
            None => continue,
        };
        let outcome = match &st.did {
            Did::Skipped => "skipped",
            Did::Done(_) => "done",
            Did::Injected => "callback crashed",
            Did::Panicked(_) => "panicked",
        };
        ctx.event(format!("{k}: {} by {who} {outcome} -> {}", op_name(&st.op), st.post.short()));
        if let Did::Done(Ret::Text(t)) = &st.did {
            ctx.event(t);
        }
        ctx.state(st.post.hash());
        if prop == "C09" && w.holders.iter().filter(|h| h.is_some()).count() > 1 && st.pre.hash() != st.post.hash() {
            ctx.nontrivial = true;
        }
        judge(prop, &st, faulted[who], ctx)?;
        if matches!(st.did, Did::Injected) {
            faulted[who] = true;
        }
        if let Did::Done(Ret::Mapping(_, done)) = &st.did {
            faulted[who] |= done.iter().any(|d| !d);
        }
        if let Op::Clone(from) = &st.op {
            faulted[who] = faulted[from % plan.holders];
        }
        if matches!(st.did, Did::Panicked(_)) {
            // outside this property: the state is unknown, end here
            ctx.probe("ended-by-unrelated-panic");
            return Ok(());
        }
        if crate::exact::PROPS.contains(&prop) {
            if let Some(h) = &mut w.holders[who] {
                crate::exact::check_state(prop, h, &st.post, k as u64, &mut scratch, ctx)?;
            }
        }
        if prop == "C12" {
            if let Some(h) = &w.holders[who] {
                name_queries(h, &st.post)?;
            }
        }
    }
    Ok(())
}

/// name_of, original_name_of, names and name_map tell the same story.
fn name_queries(g: &Cfg, d: &Dump) -> Res {
    let src = g.sym_source();
    for (i, s) in syms(d.nsyms).into_iter().enumerate() {
        let n = d.names[i].as_deref();
        check!(src.original_name_of(s) == n, "name-queries", "original_name_of({i}) = {:?}, names() has {:?}", src.original_name_of(s), n);
        if let Some(n) = n {
            check!(src.name_of(s) == n, "name-queries", "name_of({i}) = {:?}, names() has {n:?}", src.name_of(s));
        }
    }
    let map = src.name_map();
    for (k, v) in &map {
        let i = v.usize();
        check!(
            i < d.nsyms && d.names[i].as_deref() == Some(&**k),
            "name-queries",
            "name_map has {:?} for {i}, whose name is {:?}",
            &**k,
            d.names.get(i)
        );
    }
    for n in d.names.iter().flatten() {
        check!(map.contains_key(n.as_str()), "name-queries", "name_map misses {n:?}");
    }
    Ok(())
}
