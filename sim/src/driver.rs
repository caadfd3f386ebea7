//! Seeded search over plans, in worker processes the driver can lose without losing the verdict.
use crate::core::*;
use crate::entropy::in_process;
use crate::rng::mix;
use crate::scen;
use crate::shrink;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Worker processes; a seed's verdict does not depend on their number.
fn workers() -> u64 {
    std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).filter(|&n| n > 0).unwrap_or(8)
}
/// One run out of this many is executed twice and its event logs compared.
const SELF_CHECK_EVERY: u64 = 37;
/// A run that uses this much processor time is taken for a hang.
const HANG_CPU_S: f64 = 20.0;
fn shrink_s() -> u64 {
    std::env::var("SIM_SHRINK_S").ok().and_then(|s| s.parse().ok()).unwrap_or(45)
}

pub fn run_seed(prop: &str, seed: u64, index: u64) -> u64 {
    mix(mix(seed ^ 0x5151) ^ fnv(FNV0, prop.as_bytes()) ^ mix(index))
}

pub struct Ran {
    pub ctx: Ctx,
    pub res: Res,
}

/// One simulated run, on a fresh thread whose operating-system entropy is part of the seed.
pub fn execute(prop: &str, plan: &Value, os: u64, log: bool) -> Ran {
    let r = in_process(os, || {
        let mut ctx = Ctx::new(log);
        ctx.digest = fnv(ctx.digest, plan.to_string().as_bytes());
        let res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scen::exec(prop, plan, &mut ctx))) {
            Ok(r) => r,
            Err(_) => viol("unexpected-panic", format!("panic outside a guarded call: {}", take_panic())),
        };
        Ran { ctx, res }
    });
    match r {
        Ok(r) => r,
        Err(_) => Ran { ctx: Ctx::new(false), res: viol("unexpected-panic", "the run's thread died") },
    }
}

fn limit(resource: libc::__rlimit_resource_t, value: u64) {
    let l = libc::rlimit { rlim_cur: value, rlim_max: value };
    unsafe { libc::setrlimit(resource, &l) };
}

struct Finding {
    property: String,
    class: String,
    text: String,
}

fn verif_dir() -> PathBuf {
    std::env::var("SIM_VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn findings() -> Vec<Finding> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        // KNOWN property=<id> class=<class> <what fails>
        if let Some(rest) = line.strip_prefix("KNOWN property=") {
            let mut it = rest.splitn(3, ' ');
            let property = it.next().unwrap_or("").to_string();
            let class = it.next().unwrap_or("").trim_start_matches("class=").to_string();
            out.push(Finding { property, class, text: it.next().unwrap_or("").to_string() });
        }
    }
    out
}

// ---------------------------------------------------------------- worker

fn write_u64s(path: &Path, xs: &BTreeSet<u64>) {
    let mut bytes = Vec::with_capacity(xs.len() * 8);
    for x in xs {
        bytes.extend_from_slice(&x.to_le_bytes());
    }
    let _ = std::fs::write(path, bytes);
}
fn read_u64s(path: &Path, into: &mut BTreeSet<u64>) {
    if let Ok(b) = std::fs::read(path) {
        for c in b.chunks_exact(8) {
            into.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

const SET_CAP: usize = 400_000;

/// worker PROP SEED FIRST STRIDE END DIR NAME
fn worker(a: &[String]) -> i32 {
    let prop = a[0].as_str();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, first, stride, end) = (n(1), n(2), n(3), n(4));
    let dir = PathBuf::from(&a[5]);
    let name = &a[6];
    limit(libc::RLIMIT_AS, 6 << 30);
    limit(libc::RLIMIT_CORE, 0);
    let progress = std::fs::File::create(dir.join(format!("{name}.at"))).expect("progress file");
    let known: BTreeSet<String> = findings().into_iter().filter(|f| f.property == prop).map(|f| f.class).collect();
    let stop = dir.join("stop");
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut steps = 0u64;
    let mut events = 0u64;
    let mut selfchecks = 0u64;
    let mut selfcheck_failures = vec![];
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut knowns: BTreeMap<String, u64> = BTreeMap::new();
    let (mut digests, mut states, mut scheds) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let mut samples = vec![];
    let mut violation = Value::Null;
    let mut i = first;
    while i < end {
        if runs % 64 == 0 && stop.exists() {
            break;
        }
        progress.write_at(&(i + 1).to_le_bytes(), 0).expect("progress");
        let s = run_seed(prop, seed, i);
        let plan = scen::plan(prop, s);
        let r = execute(prop, &plan, mix(s ^ 0xE57), false);
        runs += 1;
        steps += r.ctx.steps;
        events += r.ctx.events;
        for (k, v) in &r.ctx.faults {
            *faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.ctx.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.ctx.known {
            *knowns.entry(k.clone()).or_insert(0) += v;
        }
        if r.ctx.nontrivial {
            nontrivial += 1;
            if digests.len() < SET_CAP {
                digests.insert(r.ctx.digest);
            }
            if samples.len() < 2 {
                samples.push(json!({"index": i, "seed": s, "plan": plan, "event_digest": format!("{:016x}", r.ctx.digest)}));
            }
        }
        if states.len() < SET_CAP {
            states.extend(r.ctx.states.iter().copied());
        }
        if scheds.len() < SET_CAP {
            scheds.insert(r.ctx.schedule);
        }
        if i % SELF_CHECK_EVERY == 0 {
            selfchecks += 1;
            let r2 = execute(prop, &plan, mix(s ^ 0xE57), false);
            if r2.ctx.digest != r.ctx.digest || r2.ctx.events != r.ctx.events {
                selfcheck_failures.push(i);
            }
        }
        if let Err(v) = r.res {
            if known.contains(&v.class) {
                *knowns.entry(v.class).or_insert(0) += 1;
            } else {
                violation = json!({"index": i, "class": v.class, "msg": v.msg, "plan": plan, "os": mix(s ^ 0xE57)});
                break;
            }
        }
        i += stride;
    }
    write_u64s(&dir.join(format!("{name}.digests")), &digests);
    write_u64s(&dir.join(format!("{name}.states")), &states);
    write_u64s(&dir.join(format!("{name}.scheds")), &scheds);
    let out = json!({
        "runs": runs, "nontrivial": nontrivial, "steps": steps, "events": events,
        "faults": faults, "probes": probes, "knowns": knowns, "samples": samples,
        "selfchecks": selfchecks, "selfcheck_failures": selfcheck_failures, "violation": violation,
    });
    std::fs::write(dir.join(format!("{name}.json")), out.to_string()).expect("worker result");
    0
}

/// one PLANFILE OUT CPU_SECONDS: PLANFILE = {"property","plan","os","before":[...]}.
fn one(a: &[String]) -> i32 {
    let f: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).expect("plan file")).expect("plan JSON");
    limit(libc::RLIMIT_CPU, a[2].parse().expect("seconds"));
    limit(libc::RLIMIT_AS, 6 << 30);
    limit(libc::RLIMIT_CORE, 0);
    let prop = f["property"].as_str().expect("property");
    if let Some(b) = f["sequence"].as_object() {
        // the runs the process had executed before: for violations that need process history
        let n = |k: &str| b[k].as_u64().expect("sequence");
        let mut i = n("first");
        while i < n("index") {
            let s = run_seed(prop, n("seed"), i);
            execute(prop, &scen::plan(prop, s), mix(s ^ 0xE57), false);
            i += n("stride");
        }
    }
    let r = execute(prop, &f["plan"], f["os"].as_u64().expect("os"), true);
    let out = json!({
        "class": r.res.as_ref().err().map(|v| v.class.clone()),
        "msg": r.res.as_ref().err().map(|v| v.msg.clone()),
        "digest": format!("{:016x}", r.ctx.digest),
        "events": r.ctx.log,
    });
    std::fs::write(&a[1], out.to_string()).expect("result");
    0
}

/// shrink PLANFILE CLASS OUT
fn shrink_cmd(a: &[String]) -> i32 {
    let f: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).expect("plan file")).expect("plan JSON");
    limit(libc::RLIMIT_AS, 6 << 30);
    limit(libc::RLIMIT_CORE, 0);
    let prop = f["property"].as_str().expect("property");
    let os = f["os"].as_u64().expect("os");
    let t = Instant::now();
    let class = a[1].as_str();
    shrink::minimise(
        &f["plan"],
        |p| matches!(execute(prop, p, os, false).res, Err(v) if v.class == class),
        || t.elapsed() < Duration::from_secs(shrink_s()),
        |best| {
            let tmp = format!("{}.tmp", a[2]);
            let _ = std::fs::write(&tmp, best.to_string());
            let _ = std::fs::rename(&tmp, &a[2]);
        },
    );
    0
}

// ---------------------------------------------------------------- parent

fn quiet(cmd: &mut Command) -> &mut Command {
    cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null())
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ticks = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(ticks / 100.0)
}

#[derive(Debug, Clone)]
enum Verdict {
    Fine,
    Violation { class: String, msg: String, digest: String, events: Value },
}

/// Runs one plan in a fresh process.
fn fresh(dir: &Path, tag: &str, file: &Value, cpu: u64) -> Verdict {
    let pf = dir.join(format!("{tag}.plan"));
    let of = dir.join(format!("{tag}.out"));
    let _ = std::fs::remove_file(&of);
    std::fs::write(&pf, file.to_string()).expect("plan file");
    let exe = std::env::current_exe().expect("exe");
    let mut child = quiet(Command::new(exe).arg("one").arg(&pf).arg(&of).arg(cpu.to_string()))
        .spawn()
        .expect("spawn");
    let t = Instant::now();
    let status = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break Some(s);
        }
        if t.elapsed() > Duration::from_secs(cpu * 4 + 20) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(if t.elapsed().as_millis() < 50 { 1 } else { 20 }));
    };
    if let Ok(text) = std::fs::read_to_string(&of) {
        if let Ok(v) = serde_json::from_str::<Value>(&text) {
            return match v["class"].as_str() {
                None => Verdict::Fine,
                Some(c) => Verdict::Violation {
                    class: c.into(),
                    msg: v["msg"].as_str().unwrap_or("").into(),
                    digest: v["digest"].as_str().unwrap_or("").into(),
                    events: v["events"].clone(),
                },
            };
        }
    }
    let (class, msg) = match status {
        None => ("hang", format!("did not finish within {cpu} s of processor time")),
        Some(s) if matches!(s.signal(), Some(libc::SIGXCPU) | Some(libc::SIGKILL)) => {
            ("hang", format!("did not finish within {cpu} s of processor time"))
        }
        Some(s) => ("abort", format!("the process died: {s}")),
    };
    Verdict::Violation { class: class.into(), msg, digest: String::new(), events: Value::Null }
}

struct Slot {
    child: Child,
    name: String,
    first: u64,
    at: u64,
    since_cpu: f64,
    since: Instant,
    done: bool,
}

fn spawn_worker(prop: &str, seed: u64, first: u64, end: u64, dir: &Path, name: String) -> Slot {
    let exe = std::env::current_exe().expect("exe");
    let child = quiet(Command::new(exe).args([
        "worker",
        prop,
        &seed.to_string(),
        &first.to_string(),
        &workers().to_string(),
        &end.to_string(),
        dir.to_str().expect("utf8 dir"),
        &name,
    ]))
    .spawn()
    .expect("spawn worker");
    Slot { child, name, first, at: 0, since_cpu: 0.0, since: Instant::now(), done: false }
}

fn merge(into: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(o) = v.as_object() {
        for (k, x) in o {
            *into.entry(k.clone()).or_insert(0) += x.as_u64().unwrap_or(0);
        }
    }
}

fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let (q, th) = scen::budget(prop);
    let (mut end, cap) = if tier == "thorough" { (th, 1500) } else { (q, 240) };
    if let Ok(n) = std::env::var("SIM_RUNS") {
        end = n.parse().expect("SIM_RUNS");
    }
    let base = verif_dir();
    let dir = base.join("work").join(format!("{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("work dir");
    eprintln!("{prop}: seed {seed}, {end} runs on {} worker processes", workers());
    let mut slots: Vec<Slot> = (0..workers())
        .map(|w| spawn_worker(prop, seed, w, end, &dir, format!("w{w}")))
        .collect();
    let mut names: Vec<String> = slots.iter().map(|s| s.name.clone()).collect();
    // (index, first, kind) of workers that were lost
    let mut lost: Vec<(u64, u64)> = vec![];
    let mut respawned = 0;
    loop {
        let mut alive = 0;
        for k in 0..slots.len() {
            if slots[k].done {
                continue;
            }
            let path = dir.join(format!("{}.at", slots[k].name));
            let at = std::fs::read(&path)
                .ok()
                .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
                .unwrap_or(0);
            let mut dead = None;
            if let Ok(Some(st)) = slots[k].child.try_wait() {
                if st.success() && dir.join(format!("{}.json", slots[k].name)).exists() {
                    slots[k].done = true;
                    continue;
                }
                dead = Some(at);
            } else {
                alive += 1;
                let cpu = cpu_seconds(slots[k].child.id()).unwrap_or(0.0);
                if at != slots[k].at {
                    slots[k].at = at;
                    slots[k].since_cpu = cpu;
                    slots[k].since = Instant::now();
                } else if cpu - slots[k].since_cpu > HANG_CPU_S || slots[k].since.elapsed() > Duration::from_secs(150) {
                    let _ = slots[k].child.kill();
                    let _ = slots[k].child.wait();
                    alive -= 1;
                    dead = Some(at);
                }
            }
            if let Some(at) = dead {
                slots[k].done = true;
                if at == 0 {
                    eprintln!("{prop}: a worker died before its first run");
                    let _ = std::fs::remove_dir_all(&dir);
                    return 2;
                }
                let index = at - 1;
                lost.push((index, slots[k].first));
                // look at it at once, then go on behind it
                respawned += 1;
                if respawned <= 24 && lost.len() < 24 {
                    let name = format!("r{respawned}");
                    names.push(name.clone());
                    slots.push(spawn_worker(prop, seed, index + workers(), end, &dir, name));
                }
                let _ = std::fs::write(dir.join("lost"), format!("{lost:?}"));
            }
        }
        if alive == 0 && slots.iter().all(|s| s.done) {
            break;
        }
        if t0.elapsed() > Duration::from_secs(cap) || lost.len() >= 4 {
            let _ = std::fs::write(dir.join("stop"), "");
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // gather
    let (mut runs, mut nontrivial, mut steps, mut events, mut selfchecks) = (0, 0, 0, 0, 0);
    let mut faults = BTreeMap::new();
    let mut probes = BTreeMap::new();
    let mut knowns = BTreeMap::new();
    let mut samples = vec![];
    let mut bad_self: Vec<u64> = vec![];
    let (mut digests, mut states, mut scheds) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let mut violations: Vec<Value> = vec![];
    for name in &names {
        let Ok(text) = std::fs::read_to_string(dir.join(format!("{name}.json"))) else { continue };
        let v: Value = serde_json::from_str(&text).expect("worker result");
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        runs += n("runs");
        nontrivial += n("nontrivial");
        steps += n("steps");
        events += n("events");
        selfchecks += n("selfchecks");
        merge(&mut faults, &v["faults"]);
        merge(&mut probes, &v["probes"]);
        merge(&mut knowns, &v["knowns"]);
        if let Some(s) = v["samples"].as_array() {
            samples.extend(s.iter().cloned());
        }
        if let Some(s) = v["selfcheck_failures"].as_array() {
            bad_self.extend(s.iter().filter_map(|x| x.as_u64()));
        }
        if !v["violation"].is_null() {
            let mut x = v["violation"].clone();
            x["first"] = json!(name.trim_start_matches(['w', 'r']).parse::<u64>().unwrap_or(0));
            violations.push(x);
        }
        read_u64s(&dir.join(format!("{name}.digests")), &mut digests);
        read_u64s(&dir.join(format!("{name}.states")), &mut states);
        read_u64s(&dir.join(format!("{name}.scheds")), &mut scheds);
    }
    samples.sort_by_key(|s| s["index"].as_u64());
    samples.truncate(3);
    let search_s = t0.elapsed().as_secs_f64();

    // workers that died: confirm in a fresh process
    let mut error = false;
    let mut lost_confirmed = 0;
    for &(index, first) in &lost {
        if lost_confirmed >= 2 {
            break;
        }
        let s = run_seed(prop, seed, index);
        let plan = scen::plan(prop, s);
        let os = mix(s ^ 0xE57);
        let file = json!({"property": prop, "plan": plan, "os": os});
        match fresh(&dir, "confirm", &file, HANG_CPU_S as u64 * 2) {
            Verdict::Violation { class, msg, .. } => {
                lost_confirmed += 1;
                violations.push(json!({"index": index, "class": class, "msg": msg, "plan": plan, "os": os, "first": first}));
            }
            Verdict::Fine => {
                eprintln!("{prop}: run {index} lost its worker but finishes alone");
                let mut f = file.clone();
                f["sequence"] = json!({"seed": seed, "first": first, "stride": workers(), "index": index});
                match fresh(&dir, "confirm", &f, 300) {
                    Verdict::Violation { class, msg, .. } => {
                        violations.push(json!({"index": index, "class": class, "msg": msg, "plan": plan, "os": os, "first": first}));
                    }
                    Verdict::Fine => error = true,
                }
            }
        }
    }
    violations.sort_by_key(|v| v["index"].as_u64());

    let mut code = 0;
    let mut reported = 0;
    if let Some(v) = violations.first() {
        code = 1;
        reported = 1;
        let replay = report(prop, tier, seed, v, &dir, &base);
        println!("VIOLATION property={prop} replay={}", replay.display());
    } else if error || runs == 0 {
        code = 2;
    }
    // known findings: shown by their committed plans
    for f in findings().iter().filter(|f| f.property == prop) {
        let n = knowns.get(&f.class).copied().unwrap_or(0);
        let plan = base.join("findings").join(format!("{}.json", f.class));
        let mut shown = n > 0;
        if let Some(v) = std::fs::read_to_string(&plan).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
            if matches!(fresh(&dir, "known", &v, 30), Verdict::Violation { class, .. } if class == f.class) {
                shown = true;
            }
        }
        if shown {
            println!("KNOWN-FINDING: property={prop} {}", f.text);
        }
    }
    if !bad_self.is_empty() {
        eprintln!("{prop}: {} of {selfchecks} repeated runs differed, first {}", bad_self.len(), bad_self[0]);
    }
    let wall = t0.elapsed().as_secs_f64();
    let (real, stub) = scen::components(prop);
    let evidence = json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": digests.len(),
            "rule": format!("{}; distinct = different digest of plan and event log", scen::rule(prop)),
            "samples": samples,
            "nontrivial_runs": nontrivial,
            "simulated_steps": steps,
            "simulated_events": events,
            "simulated_time": format!("{steps} steps of simulated time; the code has no clock, so time is the simulator's step counter"),
            "runs_per_hour": (runs as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (runs as f64 / search_s * 3600.0) as u64,
            "faults_injected": faults,
            "probes": probes,
            "distinct_states": states.len(),
            "distinct_states_measure": scen::state_measure(prop),
            "distinct_schedules": scheds.len(),
            "determinism_self_checks": selfchecks,
            "determinism_self_check_failures": bad_self.len(),
            "known_findings_observed": knowns,
            "workers_lost": lost.len(),
            "components_real": real,
            "components_stubbed": stub,
        },
        "assumptions": scen::assumptions(prop),
        "wall_s": wall,
        "violations": reported,
    });
    let ev = base.join("evidence");
    let _ = std::fs::create_dir_all(&ev);
    std::fs::write(ev.join(format!("{prop}.json")), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");
    let _ = std::fs::remove_dir_all(&dir);
    eprintln!(
        "{prop}: {runs} runs ({nontrivial} non-trivial, {} distinct), {steps} steps, {wall:.1} s, exit {code}",
        digests.len()
    );
    let _ = std::io::stderr().flush();
    code
}

fn report(prop: &str, tier: &str, seed: u64, v: &Value, dir: &Path, base: &Path) -> PathBuf {
    let class = v["class"].as_str().unwrap_or("").to_string();
    let mut file = json!({"property": prop, "plan": v["plan"], "os": v["os"]});
    let sudden = class == "hang" || class == "abort";
    let first = fresh(dir, "first", &file, if sudden { 40 } else { 120 });
    let mut note = String::new();
    let mut verdict = first.clone();
    match &first {
        Verdict::Violation { class: c, .. } if *c == class => {
            let out = dir.join("best");
            let pf = dir.join("shrink.plan");
            std::fs::write(&pf, file.to_string()).expect("plan");
            if sudden {
                let t = Instant::now();
                let best = shrink::minimise(
                    &v["plan"],
                    |p| {
                        let mut f = file.clone();
                        f["plan"] = p.clone();
                        matches!(fresh(dir, "cand", &f, 5), Verdict::Violation { class: c, .. } if c == class)
                    },
                    || t.elapsed() < Duration::from_secs(shrink_s()),
                    |_| {},
                );
                let _ = std::fs::write(&out, best.to_string());
            } else {
                let exe = std::env::current_exe().expect("exe");
                let mut c = quiet(Command::new(exe).arg("shrink").arg(&pf).arg(&class).arg(&out))
                    .spawn()
                    .expect("spawn");
                let t = Instant::now();
                while let Ok(None) = c.try_wait() {
                    if t.elapsed() > Duration::from_secs(shrink_s() + 15) {
                        let _ = c.kill();
                        let _ = c.wait();
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
            }
            if let Some(best) = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
                let mut f = file.clone();
                f["plan"] = best;
                let again = fresh(dir, "again", &f, if sudden { 40 } else { 120 });
                if matches!(&again, Verdict::Violation { class: c, .. } if *c == class) {
                    file = f;
                    verdict = again;
                }
            }
        }
        _ => {
            // needs what the process did before: replay the worker's whole sequence
            let idx = v["index"].as_u64().unwrap_or(0);
            file["sequence"] = json!({"seed": seed, "first": v["first"].as_u64().unwrap_or(0) % workers(), "stride": workers(), "index": idx});
            verdict = fresh(dir, "sequence", &file, 400);
            note = "reproduced together with the earlier runs of the same process".into();
        }
    }
    let (msg, digest, events) = match &verdict {
        Verdict::Violation { msg, digest, events, .. } => (msg.clone(), digest.clone(), events.clone()),
        Verdict::Fine => {
            note = "NOT reproduced in a fresh process".into();
            (v["msg"].as_str().unwrap_or("").into(), String::new(), Value::Null)
        }
    };
    file["class"] = json!(class);
    file["message"] = json!(msg);
    file["event_digest"] = json!(digest);
    file["events"] = events;
    file["found"] = json!({"tier": tier, "verif_seed": seed, "run": v["index"], "run_seed": run_seed(prop, seed, v["index"].as_u64().unwrap_or(0))});
    if !note.is_empty() {
        file["note"] = json!(note);
    }
    let rd = base.join("replays");
    let _ = std::fs::create_dir_all(&rd);
    let path = rd.join(format!("{prop}-{seed}-{}.json", v["index"]));
    std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("replay file");
    eprintln!("{prop}: run {} violates: [{class}] {msg} {note}", v["index"]);
    path
}

fn replay(a: &[String]) -> i32 {
    let text = std::fs::read_to_string(&a[0]).expect("replay file");
    let f: Value = serde_json::from_str(&text).expect("replay JSON");
    let dir = verif_dir().join("work").join(format!("replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("work dir");
    let r = fresh(&dir, "replay", &f, 400);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Verdict::Violation { class, msg, digest, .. } => {
            println!("VIOLATION property={} replay={}", f["property"].as_str().unwrap_or(""), a[0]);
            println!("class {class}: {msg}");
            let same = f["event_digest"].as_str() == Some(digest.as_str());
            println!("event log {} the recorded one", if same { "identical to" } else { "differs from" });
            1
        }
        Verdict::Fine => {
            println!("no violation");
            0
        }
    }
}

/// digests PROP SEED COUNT [FIRST]: event-log digests, for comparing processes.
fn digests(a: &[String]) -> i32 {
    let n: u64 = a[2].parse().expect("count");
    let seed: u64 = a[1].parse().expect("seed");
    let first: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(0);
    for i in first..n {
        let s = run_seed(&a[0], seed, i);
        let r = execute(&a[0], &scen::plan(&a[0], s), mix(s ^ 0xE57), false);
        println!("{i} {:016x} {:016x} {}", r.ctx.digest, r.ctx.schedule, r.res.is_err());
    }
    0
}

pub fn main(args: &[String]) -> i32 {
    install_hook();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let rest = if args.is_empty() { args } else { &args[1..] };
    match cmd {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = rest.get(1).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            check(&rest[0], &tier, seed)
        }
        "worker" => worker(rest),
        "one" => one(rest),
        "shrink" => shrink_cmd(rest),
        "replay" => replay(rest),
        "digests" => digests(rest),
        "plan" => {
            let seed: u64 = rest[1].parse().expect("seed");
            let i: u64 = rest[2].parse().expect("index");
            println!("{}", serde_json::to_string_pretty(&scen::plan(&rest[0], run_seed(&rest[0], seed, i))).unwrap());
            0
        }
        _ => {
            eprintln!("usage: sim check PROP [tier] | replay FILE | digests PROP SEED N | plan PROP SEED INDEX");
            2
        }
    }
}
