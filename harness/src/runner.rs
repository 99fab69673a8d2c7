//! Generation loop, sharding, shrinking, replay files, evidence.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::monitor::Viol;
use crate::rng::{hash, mix, Rng};

#[derive(Default)]
pub struct Verdict {
    pub viols: Vec<Viol>,
    pub stats: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub inconclusive: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One generated-input search.
pub struct Part {
    pub name: &'static str,
    pub gen: fn(&mut Rng, Tier) -> Value,
    pub run: fn(&Value) -> Verdict,
    /// cases in the quick tier (all shards together); the thorough tier is bounded by time
    pub quick: u64,
    /// relative share of the thorough time
    pub weight: u32,
}

pub struct Known {
    pub id: &'static str,
    pub what: &'static str,
    /// true: still fails as recorded
    pub probe: fn() -> Option<bool>,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub parts: Vec<Part>,
    pub known: Vec<Known>,
    pub assumptions: Vec<&'static str>,
    /// run alone, once, by the parent before the search (e.g. checks that need a compiler)
    pub once: Option<fn(Tier, u64) -> Verdict>,
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    cases: u64,
    inconclusive: u64,
    inconclusive_why: Vec<String>,
    hashes: Vec<u64>,
    stats: BTreeMap<String, u64>,
    per_part: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violation: Option<Value>,
    foreign: u64,
    foreign_note: Vec<String>,
}

pub fn mine(id: &str, v: &[Viol]) -> Vec<Viol> {
    v.iter().filter(|x| x.props.iter().any(|p| p == id || p == "*")).cloned().collect()
}

fn case_seed(seed: u64, prop: &str, part: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash(prop)) ^ hash(part)).wrapping_add(mix(i))
}

fn exec(part: &Part, case: &Value) -> Verdict {
    crate::forked::bump();
    (part.run)(case)
}

/// Run a case of a search without process isolation in a process of its own: code under test that
/// spins, blocks, aborts or eats all memory is a finding like any other.
fn guarded(part: &Part, id: &str, case: &Value, cpu_s: u64, wall_s: u64) -> Vec<Viol> {
    use crate::forked::{run_limited, ForkErr, Outcome};
    let stuck = |kind: &str, msg: String| vec![Viol { props: vec![id.into()], kind: kind.into(), msg, t: 0 }];
    match run_limited(|| Outcome::Val(json!((part.run)(case).viols)), cpu_s, wall_s, Some(6 << 30)) {
        Ok(Outcome::Val(v)) => serde_json::from_value(v).unwrap_or_default(),
        Ok(_) => vec![],
        Err(ForkErr::Spins) => stuck("hang", format!("an operation does not end (more than {cpu_s} s of computing)")),
        Err(ForkErr::Timeout) => stuck("hang", format!("an operation does not end (more than {wall_s} s)")),
        Err(ForkErr::Died(w)) => stuck("abort", format!("the process was ended: {w}")),
    }
}

/// Make a failing case smaller while it keeps failing the same property.
pub fn shrink(part: &Part, id: &str, case: Value, budget: Duration) -> (Value, Vec<Viol>, u64) {
    shrink_by(&|c| exec(part, c).viols, id, case, budget)
}

fn shrink_by(run: &dyn Fn(&Value) -> Vec<Viol>, id: &str, case: Value, budget: Duration) -> (Value, Vec<Viol>, u64) {
    let start = Instant::now();
    let mut evals = 0u64;
    let mut best = case;
    let mut best_v = mine(id, &run(&best));
    if best_v.is_empty() {
        return (best, best_v, 1);
    }
    let kinds: BTreeSet<String> = best_v.iter().map(|v| v.kind.clone()).collect();
    let try_case = |c: &Value, evals: &mut u64| -> Option<Vec<Viol>> {
        *evals += 1;
        let mut v = mine(id, &run(c));
        v.retain(|x| kinds.contains(&x.kind));
        if v.is_empty() {
            None
        } else {
            Some(v)
        }
    };
    loop {
        let mut improved = false;
        let mut paths = vec![];
        collect_paths(&best, &mut vec![], &mut paths);
        // arrays first (largest), then leaves
        paths.sort_by_key(|p| p.len());
        for path in &paths {
            if start.elapsed() > budget {
                return (best, best_v, evals);
            }
            let Some(node) = at(&best, path).cloned() else { continue };
            match node {
                Value::Array(a) if !a.is_empty() => {
                    let mut size = a.len();
                    let mut cur = a;
                    while size >= 1 {
                        let mut i = 0;
                        while i < cur.len() {
                            if start.elapsed() > budget {
                                return (best, best_v, evals);
                            }
                            let mut c = cur.clone();
                            let e = (i + size).min(c.len());
                            c.drain(i..e);
                            let mut n = best.clone();
                            *at_mut(&mut n, path).unwrap() = Value::Array(c.clone());
                            if let Some(v) = try_case(&n, &mut evals) {
                                best = n;
                                best_v = v;
                                cur = c;
                                improved = true;
                            } else {
                                i += size;
                            }
                        }
                        size /= 2;
                    }
                }
                Value::Number(x) => {
                    let mut cands: Vec<Value> = vec![];
                    if let Some(u) = x.as_i64() {
                        if u != 0 {
                            cands.push(json!(0));
                            cands.push(json!(1));
                            cands.push(json!(u / 1_000_000 * 1_000_000));
                            cands.push(json!(u / 1000 * 1000));
                            cands.push(json!(u / 2));
                        }
                    } else if x.is_u64() {
                        cands.push(json!(0));
                        cands.push(json!(1));
                    }
                    for c in cands {
                        if c == node_of(&best, path) {
                            continue;
                        }
                        let mut n = best.clone();
                        *at_mut(&mut n, path).unwrap() = c;
                        if let Some(v) = try_case(&n, &mut evals) {
                            best = n;
                            best_v = v;
                            improved = true;
                            break;
                        }
                    }
                }
                Value::Bool(true) => {
                    let mut n = best.clone();
                    *at_mut(&mut n, path).unwrap() = Value::Bool(false);
                    if let Some(v) = try_case(&n, &mut evals) {
                        best = n;
                        best_v = v;
                        improved = true;
                    }
                }
                Value::String(s) if !s.is_empty() => {
                    for c in [json!(""), json!("Nop"), json!("Now"), json!("Run"), json!("Ref"), json!("Actix"), json!("a")] {
                        if c == Value::String(s.clone()) {
                            continue;
                        }
                        let mut n = best.clone();
                        *at_mut(&mut n, path).unwrap() = c;
                        if let Some(v) = try_case(&n, &mut evals) {
                            best = n;
                            best_v = v;
                            improved = true;
                            break;
                        }
                    }
                }
                Value::Object(_) => {
                    for c in [Value::Null, json!("Nop"), json!("Now"), json!("Default")] {
                        let mut n = best.clone();
                        *at_mut(&mut n, path).unwrap() = c;
                        if let Some(v) = try_case(&n, &mut evals) {
                            best = n;
                            best_v = v;
                            improved = true;
                            break;
                        }
                    }
                }
                _ => {}
            }
        }
        if !improved || start.elapsed() > budget {
            return (best, best_v, evals);
        }
    }
}

fn node_of(v: &Value, path: &[String]) -> Value {
    at(v, path).cloned().unwrap_or(Value::Null)
}
fn at<'a>(v: &'a Value, path: &[String]) -> Option<&'a Value> {
    let mut c = v;
    for p in path {
        c = match c {
            Value::Object(m) => m.get(p)?,
            Value::Array(a) => a.get(p.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}
fn at_mut<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut c = v;
    for p in path {
        c = match c {
            Value::Object(m) => m.get_mut(p)?,
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(c)
}
fn collect_paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    if !cur.is_empty() {
        out.push(cur.clone());
    }
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                cur.push(k.clone());
                collect_paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                collect_paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}

const VERIF: &str = env!("CARGO_MANIFEST_DIR");
pub fn verif_dir() -> String {
    std::path::Path::new(VERIF).parent().unwrap().to_string_lossy().into_owned()
}

fn time_budget(tier: Tier) -> Duration {
    let d = match tier {
        Tier::Quick => 75,
        Tier::Thorough => 600,
    };
    Duration::from_secs(std::env::var("AJV_BUDGET_S").ok().and_then(|x| x.parse().ok()).unwrap_or(d))
}

pub fn worker(prop: &Prop, shard: u64, nshards: u64, tier: Tier, seed: u64, dir: &str) {
    let stop = format!("{dir}/stop");
    crate::forked::map_progress(&format!("{dir}/at{shard}"), true);
    let start = Instant::now();
    let budget = time_budget(tier);
    let mut out = WorkerOut::default();
    let mut seen = BTreeSet::new();
    let wsum: u32 = prop.parts.iter().map(|p| p.weight).sum::<u32>().max(1);
    'parts: for (number, part) in prop.parts.iter().enumerate() {
        let t0 = Instant::now();
        let part_budget = match tier {
            Tier::Quick => budget,
            Tier::Thorough => budget * part.weight / wsum,
        };
        let mut i = shard;
        loop {
            if tier == Tier::Quick && i >= part.quick {
                break;
            }
            if t0.elapsed() > part_budget || start.elapsed() > budget {
                break;
            }
            if std::path::Path::new(&stop).exists() {
                break 'parts;
            }
            let mut rng = Rng::new(case_seed(seed, prop.id, part.name, i));
            crate::forked::note(0, number as u64 + 1);
            crate::forked::note(1, i);
            i += nshards;
            let case = (part.gen)(&mut rng, tier);
            let mut v = exec(part, &case);
            if v.inconclusive.is_some() {
                v = exec(part, &case);
            }
            out.cases += 1;
            *out.per_part.entry(part.name.into()).or_insert(0) += 1;
            if let Some(w) = v.inconclusive {
                out.inconclusive += 1;
                if out.inconclusive_why.len() < 3 {
                    out.inconclusive_why.push(w);
                }
                continue;
            }
            for (k, n) in &v.stats {
                *out.stats.entry(k.clone()).or_insert(0) += n;
            }
            let h = hash(&serde_json::to_string(&case).unwrap());
            if v.nontrivial && seen.insert(h) {
                out.hashes.push(h);
                if out.samples.len() < 1 {
                    out.samples.push(json!({"part": part.name, "case": case.clone(), "observed": v.stats}));
                }
            }
            if !v.viols.is_empty() {
                let m = mine(prop.id, &v.viols);
                if m.is_empty() {
                    out.foreign += 1;
                    if out.foreign_note.len() < 3 {
                        out.foreign_note.push(format!("{:?} {}: {}", v.viols[0].props, v.viols[0].kind, v.viols[0].msg));
                    }
                } else {
                    let _ = std::fs::write(&stop, "");
                    let (small, viols, evals) = shrink(part, prop.id, case.clone(), Duration::from_secs(60));
                    let (c, viols) = if viols.is_empty() { (case, m) } else { (small, viols) };
                    out.violation = Some(json!({
                        "property": prop.id, "part": part.name, "case": c,
                        "violations": viols, "shrink_evaluations": evals, "seed": seed, "index": i - nshards,
                    }));
                    break 'parts;
                }
            }
        }
    }
    std::fs::write(format!("{dir}/out{shard}.json"), serde_json::to_vec(&out).unwrap()).unwrap();
}

/// Corpus of earlier counterexamples and hand-picked cases, replayed before the search.
fn corpus(id: &str) -> Vec<(String, Value)> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(format!("{}/corpus/{id}", verif_dir())) {
        for e in rd.flatten() {
            if e.path().extension().is_some_and(|x| x == "json") {
                if let Ok(s) = std::fs::read(e.path()) {
                    if let Ok(j) = serde_json::from_slice(&s) {
                        v.push((e.path().to_string_lossy().into_owned(), j));
                    }
                }
            }
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

fn write_replay(id: &str, v: &Value) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let h = hash(&v["case"].to_string());
    let path = format!("{dir}/{id}-{h:016x}.json");
    let _ = std::fs::write(&path, serde_json::to_string_pretty(v).unwrap());
    path
}

pub fn check(prop: &Prop, tier: Tier, seed: u64) -> i32 {
    let start = Instant::now();
    let dir = format!("/tmp/ajv-{}-{}", prop.id, std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_var("AJV_SCRATCH", &dir);
    let mut total = WorkerOut::default();
    let mut violation: Option<Value> = None;
    let mut known_lines = vec![];
    for k in &prop.known {
        match (k.probe)() {
            Some(true) => known_lines.push(format!("KNOWN-FINDING: property={} {} {}", prop.id, k.id, k.what)),
            Some(false) => println!("note: known finding {} no longer shows", k.id),
            None => println!("note: probe of known finding {} gave no answer", k.id),
        }
    }
    for l in &known_lines {
        println!("{l}");
    }
    if let Some(f) = prop.once {
        let v = f(tier, seed);
        total.cases += v.stats.get("evaluations").copied().unwrap_or(0);
        for (k, n) in &v.stats {
            *total.stats.entry(k.clone()).or_insert(0) += n;
        }
        let m = mine(prop.id, &v.viols);
        if let Some(w) = v.inconclusive {
            println!("error: {w}");
            let _ = std::fs::remove_dir_all(&dir);
            return 2;
        }
        if !m.is_empty() {
            violation = Some(json!({"property": prop.id, "part": "once", "case": {"tier": format!("{tier:?}"), "seed": seed}, "violations": m}));
        }
    }
    let mut corpus_n = 0;
    if violation.is_none() {
        for (path, j) in corpus(prop.id) {
            let Some(part) = prop.parts.iter().find(|p| j["part"] == p.name) else { continue };
            let v = (part.run)(&j["case"]);
            corpus_n += 1;
            total.cases += 1;
            let m = mine(prop.id, &v.viols);
            if !m.is_empty() {
                violation = Some(json!({"property": prop.id, "part": part.name, "case": j["case"], "violations": m, "corpus": path}));
                break;
            }
        }
    }
    let n = std::env::var("AJV_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8u64);
    if violation.is_none() && !prop.parts.is_empty() {
        let exe = std::env::current_exe().unwrap();
        let mut kids = vec![];
        for shard in 0..n {
            let k = std::process::Command::new(&exe)
                .args(["worker", prop.id, &shard.to_string(), &n.to_string(), if tier == Tier::Quick { "quick" } else { "thorough" }, &seed.to_string(), &dir])
                .spawn()
                .expect("worker");
            kids.push(k);
        }
        let limit = time_budget(tier) + Duration::from_secs(220);
        let mut dead = 0;
        // what each worker is doing, and since when
        let mut at: Vec<(Vec<u64>, Instant)> = kids.iter().map(|_| (vec![], Instant::now())).collect();
        let mut maps: Vec<Option<&[std::sync::atomic::AtomicU64]>> = kids.iter().map(|_| None).collect();
        let mut suspects: Vec<(u64, u64)> = vec![];
        let mut open: Vec<usize> = (0..kids.len()).collect();
        while !open.is_empty() {
            open.retain(|&w| {
                if maps[w].is_none() {
                    maps[w] = crate::forked::map_progress(&format!("{dir}/at{w}"), false);
                }
                let now: Vec<u64> = maps[w].iter().flat_map(|m| m.iter()).map(|x| x.load(std::sync::atomic::Ordering::SeqCst)).collect();
                if now != at[w].0 {
                    at[w] = (now.clone(), Instant::now());
                }
                let gone = match kids[w].try_wait() {
                    Ok(Some(_)) => true,
                    _ => {
                        // stuck in a search that runs in the worker itself
                        let stuck = now.first().is_some_and(|p| *p > 0) && now[3] == 0 && at[w].1.elapsed() > Duration::from_secs(45);
                        if stuck || start.elapsed() > limit {
                            let _ = kids[w].kill();
                            let _ = kids[w].wait();
                            let _ = std::fs::write(format!("{dir}/stop"), "");
                            true
                        } else {
                            false
                        }
                    }
                };
                if gone && !std::path::Path::new(&format!("{dir}/out{w}.json")).exists() && now.first().is_some_and(|p| *p > 0) && now[3] == 0 {
                    suspects.push((now[0] - 1, now[1]));
                    let _ = std::fs::write(format!("{dir}/stop"), "");
                }
                !gone
            });
            std::thread::sleep(Duration::from_millis(20));
        }
        let mut best: Option<(u64, Value)> = None;
        for shard in 0..n {
            let Ok(s) = std::fs::read(format!("{dir}/out{shard}.json")) else {
                dead += 1;
                continue;
            };
            let o: WorkerOut = serde_json::from_slice(&s).unwrap();
            total.cases += o.cases;
            total.inconclusive += o.inconclusive;
            total.inconclusive_why.extend(o.inconclusive_why);
            total.hashes.extend(o.hashes);
            total.foreign += o.foreign;
            total.foreign_note.extend(o.foreign_note);
            for (k, v) in o.stats {
                *total.stats.entry(k).or_insert(0) += v;
            }
            for (k, v) in o.per_part {
                *total.per_part.entry(k).or_insert(0) += v;
            }
            if total.samples.len() < 3 {
                total.samples.extend(o.samples);
            }
            if let Some(v) = o.violation {
                let i = v["index"].as_u64().unwrap_or(0);
                if best.as_ref().is_none_or(|(b, _)| i < *b) {
                    best = Some((i, v));
                }
            }
        }
        violation = best.map(|x| x.1);
        suspects.sort_by_key(|x| x.1);
        for (number, i) in suspects {
            let Some(part) = prop.parts.get(number as usize).filter(|_| violation.is_none()) else { break };
            let case = (part.gen)(&mut Rng::new(case_seed(seed, prop.id, part.name, i)), tier);
            let m = mine(prop.id, &guarded(part, prop.id, &case, 20, 60));
            if !m.is_empty() {
                let (small, viols, evals) = shrink_by(&|c| guarded(part, prop.id, c, 3, 15), prop.id, case.clone(), Duration::from_secs(60));
                let (c, viols) = if viols.is_empty() { (case, m) } else { (small, viols) };
                violation = Some(json!({
                    "property": prop.id, "part": part.name, "case": c,
                    "violations": viols, "shrink_evaluations": evals, "seed": seed, "index": i,
                }));
            }
        }
        if dead > 0 && violation.is_none() {
            println!("error: {dead} worker results missing");
            let _ = std::fs::remove_dir_all(&dir);
            return 2;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut h = total.hashes.clone();
    h.sort();
    h.dedup();
    let distinct = h.len() as u64 + total.stats.get("once_distinct").copied().unwrap_or(0);
    let ev = json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": total.cases,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": total.samples,
            "cases_per_search": total.per_part,
            "corpus_cases": corpus_n,
            "inconclusive": total.inconclusive,
            "observed": total.stats,
            "known_findings": known_lines,
            "cases_with_violations_of_other_properties_only": total.foreign,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u64,
    });
    let edir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&edir);
    let mut f = std::fs::File::create(format!("{edir}/{}.json", prop.id)).unwrap();
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {} inconclusive, {:.1} s",
        prop.id,
        total.cases,
        distinct,
        total.inconclusive,
        start.elapsed().as_secs_f64()
    );
    for w in total.inconclusive_why.iter().take(3) {
        println!("note: inconclusive: {w}");
    }
    for w in total.foreign_note.iter().take(3) {
        println!("note: {} case(s) violate other properties only, e.g. {w}", total.foreign);
    }
    if let Some(v) = violation {
        let path = write_replay(prop.id, &v);
        for x in v["violations"].as_array().unwrap_or(&vec![]).iter().take(3) {
            println!("  {}: {}", x["kind"].as_str().unwrap_or(""), x["msg"].as_str().unwrap_or(""));
        }
        println!("VIOLATION property={} replay={}", prop.id, path);
        return 1;
    }
    if total.cases > 0 && total.inconclusive * 2 > total.cases {
        println!("error: most cases were inconclusive");
        return 2;
    }
    0
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let j: Value = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("json");
    let id = j["property"].as_str().unwrap_or("");
    let Some(prop) = props.iter().find(|p| p.id == id) else {
        println!("unknown property {id}");
        return 2;
    };
    let dir = format!("/tmp/ajv-replay-{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_var("AJV_SCRATCH", &dir);
    let v = match prop.parts.iter().find(|p| j["part"] == p.name) {
        // a case that does not come back is watched from outside
        Some(part) if j["violations"].as_array().is_some_and(|v| v.iter().any(|x| x["kind"] == "hang" || x["kind"] == "abort")) => {
            Verdict { viols: guarded(part, id, &j["case"], 20, 60), ..Default::default() }
        }
        Some(part) => (part.run)(&j["case"]),
        None => match prop.once {
            Some(f) => f(
                if j["case"]["tier"] == "Thorough" { Tier::Thorough } else { Tier::Quick },
                j["case"]["seed"].as_u64().unwrap_or(1),
            ),
            None => {
                println!("unknown search {}", j["part"]);
                return 2;
            }
        },
    };
    let _ = std::fs::remove_dir_all(&dir);
    if let Some(w) = v.inconclusive {
        println!("inconclusive: {w}");
        return 2;
    }
    for x in &v.viols {
        println!("{:?} {} at {} ns: {}", x.props, x.kind, x.t, x.msg);
    }
    println!("observed: {:?} nontrivial {}", v.stats, v.nontrivial);
    if mine(id, &v.viols).is_empty() {
        println!("property {id} holds on this case");
        0
    } else {
        println!("VIOLATION property={id} replay={path}");
        1
    }
}
