//! Which scenario decides which property.
use crate::core::*;
use crate::rng::Rng;
use crate::*;
use serde_json::Value;

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

/// (quick runs, thorough runs)
pub fn budget(prop: &str) -> (u64, u64) {
    match prop {
        "C05" => (80_000, 3_000_000),
        "C04" => (150_000, 5_000_000),
        "C06" | "C07" => (300_000, 20_000_000),
        "C19" => (60_000, 4_000_000),
        "C18" => (30_000, 1_000_000),
        "C26" => (300_000, 6_000_000),
        "C23" | "C24" | "C25" | "C21" | "C22" | "C27" => (300_000, 10_000_000),
        "C11" | "C15" => (250_000, 15_000_000),
        "C14" => (250_000, 15_000_000),
        _ => (400_000, 30_000_000),
    }
}

/// The plan of a run: workload, schedule and faults, all decided by the run's seed.
pub fn plan(prop: &str, seed: u64) -> Value {
    let mut rng = Rng::new(seed);
    let v = match prop {
        "C01" | "C02" | "C03" | "C04" => serde_json::to_value(generator::generate(prop, &mut rng)),
        "C05" => serde_json::to_value(generator::generate_weights(&mut rng)),
        "C12" if rng.chance(35) => serde_json::to_value(source::generate(&mut rng)),
        "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C20" | "C21" | "C22" | "C23" | "C24" | "C25" | "C27" => serde_json::to_value(ops::generate(prop, &mut rng)),
        "C08" => serde_json::to_value(persist::generate(&mut rng)),
        "C19" => serde_json::to_value(hash::generate(&mut rng)),
        "C26" => serde_json::to_value(regex::generate(&mut rng)),
        "C06" | "C07" => serde_json::to_value(load::generate(prop, &mut rng)),
        _ => panic!("unknown property {prop}"),
    };
    v.expect("plan to JSON")
}

/// Executes a plan. Plans that do not parse (a minimiser's candidates) do nothing.
pub fn exec(prop: &str, plan: &Value, ctx: &mut Ctx) -> Res {
    macro_rules! parse {
        ($t:ty) => {
            match <$t as serde::Deserialize>::deserialize(plan) {
                Ok(p) => p,
                Err(_) => return Ok(()),
            }
        };
    }
    match prop {
        "C01" | "C02" | "C03" | "C04" => generator::exec(prop, &parse!(generator::GenPlan), ctx),
        "C05" => generator::exec_weights(&parse!(generator::WeightPlan), ctx),
        "C12" if plan.get("source_steps").is_some() => source::exec(&parse!(source::SourcePlan), ctx),
        "C09" | "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C20" | "C21" | "C22" | "C23" | "C24" | "C25" | "C27" => hist::exec(prop, &parse!(ops::HistPlan), ctx),
        "C08" => persist::exec(&parse!(persist::PersistPlan), ctx),
        "C19" => hash::exec(&parse!(hash::HashPlan), ctx),
        "C26" => regex::exec(&parse!(regex::RegexPlan), ctx),
        "C06" | "C07" => load::exec(prop, &parse!(load::LoadPlan), ctx),
        _ => panic!("unknown property {prop}"),
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C05" => "a run = one grammar with drawn weights and one entropy stream feeding hundreds of generations; non-trivial = the expanded symbol has at least two alternatives",
        "C01" | "C02" | "C03" | "C04" => "a run = one grammar, one simulated entropy source with fault windows, limits, negative rules and callback crashes, drawn from the run's seed; non-trivial = at least one call finished with output (C03: with an outcome the limits decide)",
        "C06" | "C07" => "a run = an older and a newer document written through the simulated disk, a crash with drawn damage, and a load of what survived; non-trivial = the stored text was damaged, or is intact on purpose",
        "C08" => "a run = a drawn history of symbols, names, sets or mappings, a checkpoint written through the simulated disk, a crash with drawn damage and a restart; non-trivial = the bytes read back decide the outcome (intact, truncated or well-formed damage)",
        "C09" => "a run = a history of operations by several holders of clones in a drawn interleaving, operations nested in callbacks and callback crashes included; non-trivial = an operation changed one holder while others were alive",
        "C10" => "a run = a history in which drawn callback calls panic and are caught; non-trivial = a panic was delivered inside an operation",
        "C11" => "a run = a history of operations; non-trivial = an operation ran while a length limit was in force",
        "C12" => "a run = a history over grammars, or over symbol sources of drawn widths; non-trivial = symbols were handed out",
        "C13" => "a run = a history with remappings; non-trivial = a remapping ran",
        "C14" => "a run = a history over rules with distinct origins and weights; non-trivial = a transformation ran on a grammar with rules",
        "C15" => "a run = a history of transformations; non-trivial = a compared language has at least two strings",
        "C16" => "a run = a history with nulling eliminations; non-trivial = a symbol that derives the empty string and something else was eliminated",
        "C17" => "a run = a history with cycle queries and rewrites; non-trivial = a grammar with a unit cycle was rewritten",
        "C18" => "a run = a history with sequence and precedence declarations; non-trivial = a compared set of derivations has more than two members",
        "C19" => "a run = one workload executed in several simulated processes with different hash seeds; non-trivial = the workload produced more than two observations",
        "C20" => "a run = a history of operations, interrupted operations and queries; non-trivial = a query was compared with its answer on a fresh grammar",
        "C21" | "C23" | "C24" | "C25" | "C22" => match prop {
            "C21" => "a run = a history of operations with all symbol sets, closures, matrices and usefulness answers computed after every step; non-trivial = a closure added symbols",
            "C23" => "a run = a history of operations with all FIRST, FOLLOW and LAST sets computed after every step; non-trivial = a nullable nonterminal also derives something else",
            "C24" => "a run = a history of operations classified after every step; non-trivial = a grammar had both classes",
            "C25" => "a run = a history of operations with distances to drawn positions after every step; non-trivial = a distance crosses rules",
            _ => "a run = a history of operations with closures, advances and a machine after every step; non-trivial = a machine of three or more states without the recorded clash",
        },
        "C27" => "a run = a history of operations with every view of the grammar compared with its rules after every step, and with the views of earlier states; non-trivial = two different grammars were compared",
        "C26" => "a run = an expression written through the simulated disk, read back, translated, transformed and used for matching and generation; non-trivial = the tried strings include matching and other ones",
        _ => "a run = one seeded plan",
    }
}

pub fn state_measure(prop: &str) -> &'static str {
    match prop {
        "C05" => "distinct vectors of choice counts",
        "C01" | "C02" | "C03" | "C04" => "distinct results of generation calls (output symbols and characters, or the error)",
        "C06" | "C07" | "C26" => "distinct texts read back from the simulated disk",
        "C08" => "distinct byte strings read back from the simulated disk",
        "C12" => "distinct dumps of grammar states, and distinct states of symbol sources",
        "C19" => "distinct observation lines of the workloads",
        _ => "distinct dumps of grammar states (rules, histories, roots, names)",
    }
}

/// (components running real code, components stubbed)
pub fn components(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let os = "operating-system entropy (getrandom replaced by the simulator's stream)";
    let disk = "disk (in-memory blocks with torn, short, lost, stale and flipped writes)";
    let callbacks = "callbacks (predicates, comparisons, symbol maps: the workload's, with drawn panics and nested operations)";
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" => (
            vec!["cfg-generate (Random, weighted choice, ByteSource, with_thread_rng)", "cfg-grammar", "cfg-symbol", "cfg-history", "rand::rngs::SmallRng and ThreadRng algorithms"],
            vec!["entropy source in most runs (simulated GenRange with fault windows)", "to_char callback (the workload's)", os],
        ),
        "C06" | "C07" => (vec!["cfg-load", "cfg-regexp-logic and tiny-earley as used by cfg-load", "cfg-sequence", "cfg-grammar", "cfg-symbol", "cfg-history"], vec![disk, os]),
        "C26" => (vec!["cfg-regexp-logic", "regex-syntax", "cfg-sequence", "cfg-grammar", "cfg-generate", "cfg-classify", "cfg-symbol", "cfg-history"], vec![disk, "entropy source (simulated GenRange)", "to_char callback (the workload's)", os]),
        "C08" => (vec!["cfg-symbol", "cfg-grammar (SymbolBitSet)", "cfg-history", "miniserde and nanoserde readers and writers"], vec![disk, os]),
        "C12" => (vec!["cfg-symbol", "cfg-grammar", "cfg-sequence", "cfg-classify", "cfg-symbol-bit-matrix"], vec![callbacks, os]),
        "C19" => (vec!["cfg-load", "cfg-sequence", "cfg-grammar", "cfg-classify", "cfg-predict-sets", "cfg-predict-distance", "cfg-symbol", "std's RandomState"], vec![disk, os]),
        _ => (
            vec!["cfg-grammar", "cfg-symbol", "cfg-symbol-bit-matrix", "cfg-sequence", "cfg-classify", "cfg-predict-sets", "cfg-predict-distance", "cfg-history", "cfg-generate (in histories of C10)"],
            vec![callbacks, os],
        ),
    }
}

pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "sampling: a clean batch is evidence over the explored runs, not proof",
        "single-threaded use: Cfg holds Rc and cannot be shared between threads",
    ];
    match prop {
        "C05" => v.push("frequencies from pseudo-random streams are compared with 7 standard deviations; the uniform grid and the byte sweep are exact up to rounding"),
        "C15" | "C16" | "C17" | "C18" => v.push("languages are compared on all strings up to a length chosen by the number of terminals (at most 9 symbols), not on all strings"),
        "C06" | "C07" => v.push("the reference reader in load.rs is the specification of the document format"),
        "C26" => v.push("regex-syntax parses the expression for both sides; strings have at most 28 characters"),
        "C11" => v.push("limits below 2 are not set: limit_rhs_len(Some(0 or 1)) does not terminate and has no meaning"),
        _ => {}
    }
    v
}
