//! Delta-debugging over the JSON form of a scenario: drop list elements, clear options, shrink
//! numbers, while the same violation class persists.

use std::time::Instant;

use serde_json::Value;

use crate::scenario::Scenario;

type Path = Vec<Seg>;
#[derive(Clone, Debug)]
enum Seg {
    Key(String),
    Idx(usize),
}

fn get<'a>(v: &'a mut Value, p: &[Seg]) -> Option<&'a mut Value> {
    let mut cur = v;
    for s in p {
        cur = match s {
            Seg::Key(k) => cur.get_mut(k)?,
            Seg::Idx(i) => cur.get_mut(i)?,
        };
    }
    Some(cur)
}

fn collect(v: &Value, p: &mut Path, arrays: &mut Vec<Path>, leaves: &mut Vec<Path>) {
    match v {
        Value::Array(a) => {
            arrays.push(p.clone());
            for (i, x) in a.iter().enumerate() {
                p.push(Seg::Idx(i));
                collect(x, p, arrays, leaves);
                p.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                // Absent limits and the default capacity stay: other values would change the cause.
                if k == "prop" || k == "seed" || k == "salt_default" || x.as_u64() == Some(u64::MAX) {
                    continue;
                }
                p.push(Seg::Key(k.clone()));
                collect(x, p, arrays, leaves);
                p.pop();
            }
        }
        Value::Number(_) | Value::Bool(_) => leaves.push(p.clone()),
        _ => {}
    }
}

pub fn shrink(
    sc: &Scenario,
    budget_s: f64,
    mut still_fails: impl FnMut(&Scenario) -> bool,
) -> (Scenario, u64) {
    let start = Instant::now();
    let mut tried = 0u64;
    let mut best = serde_json::to_value(sc).expect("serialize");
    let mut attempt = |cand: &Value, tried: &mut u64| -> bool {
        if start.elapsed().as_secs_f64() > budget_s {
            return false;
        }
        let Ok(s) = serde_json::from_value::<Scenario>(cand.clone()) else { return false };
        *tried += 1;
        still_fails(&s)
    };
    loop {
        let mut progress = false;
        // Arrays: remove chunks, then single elements, outermost first.
        let (mut arrays, mut leaves) = (vec![], vec![]);
        collect(&best, &mut vec![], &mut arrays, &mut leaves);
        arrays.sort_by_key(|p| p.len());
        for p in &arrays {
            let Some(Value::Array(a)) = get(&mut best, p).cloned() else { continue };
            let mut len = a.len();
            let mut chunk = len;
            while chunk >= 1 && len > 0 {
                let mut at = 0;
                while at < len {
                    let mut cand = best.clone();
                    if let Some(Value::Array(x)) = get(&mut cand, p) {
                        let end = (at + chunk).min(x.len());
                        x.drain(at..end);
                    }
                    if attempt(&cand, &mut tried) {
                        best = cand;
                        progress = true;
                        len = match get(&mut best, p) {
                            Some(Value::Array(x)) => x.len(),
                            _ => 0,
                        };
                    } else {
                        at += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        let (mut arrays, mut leaves) = (vec![], vec![]);
        collect(&best, &mut vec![], &mut arrays, &mut leaves);
        for p in &leaves {
            let Some(old) = get(&mut best, p).cloned() else { continue };
            let mut cands = vec![];
            match &old {
                Value::Bool(true) => cands.push(Value::Bool(false)),
                Value::Number(n) => {
                    if let Some(n) = n.as_u64() {
                        for c in [0, 1, n / 2, n.saturating_sub(1)] {
                            if c < n && (c + 1 < n || n <= 16) {
                                cands.push(Value::from(c));
                            }
                        }
                    } else {
                        cands.push(Value::from(0));
                    }
                }
                _ => {}
            }
            for c in cands {
                let mut cand = best.clone();
                *get(&mut cand, p).expect("path") = c;
                if attempt(&cand, &mut tried) {
                    best = cand;
                    progress = true;
                    break;
                }
            }
        }
        if !progress || start.elapsed().as_secs_f64() > budget_s {
            break;
        }
    }
    (serde_json::from_value(best).expect("valid"), tried)
}
