//! Generic minimiser over JSON plans.
use serde_json::Value;

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Idx(usize),
}

fn at_mut<'a>(v: &'a mut Value, path: &[Step]) -> Option<&'a mut Value> {
    let mut cur = v;
    for s in path {
        cur = match s {
            Step::Key(k) => cur.get_mut(k.as_str())?,
            Step::Idx(i) => cur.get_mut(*i)?,
        };
    }
    Some(cur)
}

fn paths(v: &Value, here: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(Step::Idx(i));
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                here.push(Step::Key(k.clone()));
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}

fn variants(v: &Value) -> Vec<Value> {
    match v {
        Value::Number(n) => {
            let mut out = vec![];
            if let Some(x) = n.as_u64() {
                for c in [0, 1, 2, x / 2, x.saturating_sub(1)] {
                    if c < x && !out.contains(&Value::from(c)) {
                        out.push(Value::from(c));
                    }
                }
            }
            out.push(Value::Null);
            out
        }
        Value::String(s) => {
            let cs: Vec<char> = s.chars().collect();
            let mut out = vec![];
            let mut chunk = cs.len() / 2;
            while chunk > 0 && out.len() < 60 {
                let mut i = 0;
                while i < cs.len() && out.len() < 60 {
                    let t: String = cs[..i].iter().chain(&cs[(i + chunk).min(cs.len())..]).collect();
                    out.push(Value::from(t));
                    i += chunk;
                }
                chunk /= 2;
            }
            if cs.len() == 1 {
                out.push(Value::from(""));
            }
            out
        }
        Value::Bool(true) => vec![Value::Bool(false)],
        Value::Array(_) | Value::Object(_) => vec![Value::Null],
        _ => vec![],
    }
}

/// `fails` tells whether a candidate still shows the same violation; `keep_going` bounds the work.
pub fn minimise(
    plan: &Value,
    mut fails: impl FnMut(&Value) -> bool,
    mut keep_going: impl FnMut() -> bool,
    mut improved: impl FnMut(&Value),
) -> Value {
    let mut best = plan.clone();
    loop {
        let mut progress = false;
        // 1. drop chunks of arrays, outermost first
        let mut i = 0;
        loop {
            let mut ps = vec![];
            paths(&best, &mut vec![], &mut ps);
            if i >= ps.len() {
                break;
            }
            let p = ps[i].clone();
            let len = match at_mut(&mut best, &p) {
                Some(Value::Array(a)) => a.len(),
                _ => 0,
            };
            let mut chunk = len.div_ceil(2);
            while chunk >= 1 && len > 0 {
                let mut from = 0;
                loop {
                    let mut cand = best.clone();
                    let Some(Value::Array(a)) = at_mut(&mut cand, &p) else { break };
                    if from >= a.len() {
                        break;
                    }
                    a.drain(from..(from + chunk).min(a.len()));
                    if !keep_going() {
                        return best;
                    }
                    if fails(&cand) {
                        best = cand;
                        improved(&best);
                        progress = true;
                    } else {
                        from += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            i += 1;
        }
        // 2. simplify leaves
        let mut i = 0;
        loop {
            let mut ps = vec![];
            paths(&best, &mut vec![], &mut ps);
            if i >= ps.len() {
                break;
            }
            let p = ps[i].clone();
            loop {
                let cur = match at_mut(&mut best, &p) {
                    Some(v) => v.clone(),
                    None => break,
                };
                let mut hit = false;
                for v in variants(&cur) {
                    let mut cand = best.clone();
                    if let Some(slot) = at_mut(&mut cand, &p) {
                        *slot = v;
                    }
                    if !keep_going() {
                        return best;
                    }
                    if fails(&cand) {
                        best = cand;
                        improved(&best);
                        progress = true;
                        hit = true;
                        break;
                    }
                }
                if !hit {
                    break;
                }
            }
            i += 1;
        }
        if !progress {
            return best;
        }
    }
}
