//! Backends against the reference model, storage round trips, retry arithmetic.
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex, OnceLock};

use aj::backend::types::{get_from_storage, upsert_to_storage, Backend, QueueDirection};
use aj::job::{CronContext, JobStatus, JobType, Retry, RetryStrategy};
use aj::{Job, JobContext, WorkQueue};
use chrono::{DateTime, Duration, Utc};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::backends::{RefBackend, Store};
use crate::jobs::{Alpha, Jt, Payload, RunSpec};
use crate::pure::{silent, v1};
use crate::rng::Rng;
use crate::runner::*;

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum BOp {
    Push(String, String),
    /// that many numbered items
    Fill(String, u16),
    /// from, to, count, from the back, to the back
    Move(String, String, u64, bool, bool),
    Remove(String, String),
    Get(String, u64, bool),
    Count(String),
    Put(String, String, String),
    Look(String, String),
    /// that many numbered keys
    Stock(String, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BCase {
    redis: bool,
    ops: Vec<BOp>,
    /// (operation, its n-th command, way of failing)
    #[serde(default)]
    fails: Vec<(u64, u64, u64)>,
}

fn dir(back: bool) -> QueueDirection {
    if back {
        QueueDirection::Back
    } else {
        QueueDirection::Front
    }
}

fn redis_url() -> &'static str {
    static U: OnceLock<String> = OnceLock::new();
    U.get_or_init(crate::fakeredis::serve)
}
fn flush() {
    let c = redis::Client::open(redis_url()).unwrap();
    let mut c = c.get_connection().expect("fake redis");
    let _: () = redis::cmd("FLUSHALL").query(&mut c).expect("flush");
}

fn run_model(case: &BCase, b: &dyn Backend, o: &mut Verdict) {
    let mut m = Store::default();
    let mut bump = |k: &str| *o.stats.entry(k.to_string()).or_insert(0) += 1;
    let mut bad = None;
    for (i, op) in case.ops.iter().enumerate() {
        let fail = case.fails.iter().find(|f| f.0 == i as u64 && !matches!(op, BOp::Fill(..) | BOp::Stock(..)));
        let before = fail.map(|f| {
            crate::fakeredis::fail_in(f.1, f.2);
            m.clone()
        });
        let r: Result<(String, String), String> = silent(|| match op {
            BOp::Push(q, x) => {
                m.push(q, x);
                (format!("{:?}", b.queue_push(q, x).map_err(|e| format!("{e:?}"))), "Ok(())".to_string())
            }
            BOp::Fill(q, n) => {
                let mut got = Ok(());
                for k in 0..*n {
                    m.push(q, &format!("n{k}"));
                    got = got.and(b.queue_push(q, &format!("n{k}")).map_err(|e| format!("{e:?}")));
                }
                (format!("{got:?}"), "Ok(())".to_string())
            }
            BOp::Move(f, t, n, fb, tb) => {
                let e = m.mv(f, t, *n as usize, dir(*fb), dir(*tb));
                let g = b.queue_move(f, t, *n as usize, dir(*fb), dir(*tb)).map_err(|e| format!("{e:?}"));
                (format!("{g:?}"), format!("{:?}", Ok::<_, String>(e)))
            }
            BOp::Remove(q, x) => {
                m.remove(q, x);
                (format!("{:?}", b.queue_remove(q, x).map_err(|e| format!("{e:?}"))), "Ok(())".to_string())
            }
            BOp::Get(q, n, bk) => {
                let g = b.queue_get(q, *n as usize, dir(*bk)).map_err(|e| format!("{e:?}"));
                (format!("{g:?}"), format!("{:?}", Ok::<_, String>(m.get(q, *n as usize, dir(*bk)))))
            }
            BOp::Count(q) => {
                let g = b.queue_count(q).map_err(|e| format!("{e:?}"));
                (format!("{g:?}"), format!("{:?}", Ok::<_, String>(m.count(q))))
            }
            BOp::Put(h, k, v) => {
                m.hset(h, k, v.clone());
                (format!("{:?}", b.storage_upsert(h, k, v.clone()).map_err(|e| format!("{e:?}"))), "Ok(())".to_string())
            }
            BOp::Look(h, k) => {
                let g = b.storage_get(h, k).map_err(|e| format!("{e:?}"));
                (format!("{g:?}"), format!("{:?}", Ok::<_, String>(m.hget(h, k))))
            }
            BOp::Stock(h, n) => {
                let mut got = Ok(());
                for k in 0..*n {
                    // some look like finished jobs
                    let v = if k % 3 == 0 { format!("{{\"job_status\":\"Finished\",\"n\":{k}}}") } else { format!("v{k}") };
                    m.hset(h, &format!("k{k}"), v.clone());
                    got = got.and(b.storage_upsert(h, &format!("k{k}"), v).map_err(|e| format!("{e:?}")));
                }
                (format!("{got:?}"), "Ok(())".to_string())
            }
        });
        bump(match op {
            BOp::Push(..) => "push",
            BOp::Fill(..) => "fill",
            BOp::Move(..) => "move",
            BOp::Remove(..) => "remove",
            BOp::Get(..) => "get",
            BOp::Count(..) => "count",
            BOp::Put(..) => "put",
            BOp::Look(..) => "look",
            BOp::Stock(..) => "stock",
        });
        let hit = fail.is_some() && crate::fakeredis::fail_off();
        if hit {
            bump("failed_commands");
        }
        match r {
            Ok((g, e)) if g == e => {}
            Ok((g, _)) if hit && g.starts_with("Err(") => {
                // nothing happened, or the first items of several were moved
                m = before.unwrap();
                if let BOp::Move(f, t, n, fb, tb) = op {
                    let mut j = 0;
                    while !holds(&m, b, &[f, t]) {
                        if j == *n || m.mv(f, t, 1, dir(*fb), dir(*tb)).is_empty() {
                            bad = Some(format!("step {i} {op:?} failed and left the queues in a state no partial move explains"));
                            break;
                        }
                        j += 1;
                    }
                    if bad.is_some() {
                        break;
                    }
                }
            }
            Ok((g, e)) => {
                bad = Some(format!("step {i} {op:?}: got {g}, the model says {e}"));
                break;
            }
            Err(p) => {
                bad = Some(format!("step {i} {op:?} panicked: {p}"));
                break;
            }
        }
    }
    // complete contents at the end
    if bad.is_none() {
        for (q, items) in &m.queues {
            let all = b.queue_get(q, items.len() + 3, QueueDirection::Front).map_err(|e| format!("{e:?}"));
            let exp: Vec<String> = items.iter().cloned().collect();
            if all.as_ref() != Ok(&exp) {
                bad = Some(format!("at the end queue {q:?} holds {all:?}, the model says {exp:?}"));
            }
        }
        for (h, kv) in &m.hashes {
            for (k, v) in kv {
                let g = b.storage_get(h, k).map_err(|e| format!("{e:?}"));
                if g.as_ref() != Ok(&Some(v.clone())) {
                    bad = Some(format!("at the end {h:?}/{k:?} holds {g:?}, the model says {v:?}"));
                }
            }
        }
    }
    if let Some(b) = bad {
        let name = if case.redis { "Redis" } else { "InMemory" };
        o.viols.push(v1("C13", "backend", format!("{name}: {b}")));
    }
}

fn holds(m: &Store, b: &dyn Backend, qs: &[&String]) -> bool {
    qs.iter().all(|q| {
        let n = m.count(q);
        b.queue_get(q, n + 3, QueueDirection::Front).ok() == Some(m.get(q, n + 3, QueueDirection::Front))
    })
}

/// C16: commands of the Redis server fail without effect: the operation says so, and nothing else
/// happens (or it is tried again, and works).
pub fn redis_failures() -> Part {
    fn gen(r: &mut Rng, t: Tier) -> Value {
        loop {
            let mut c: BCase = serde_json::from_value((model_part().gen)(r, t)).unwrap();
            c.redis = true;
            if c.ops.len() < 2 || c.ops.iter().any(|o| matches!(o, BOp::Fill(_, n) if *n > 60)) {
                continue;
            }
            for (i, op) in c.ops.iter().enumerate() {
                if r.chance(35) && !matches!(op, BOp::Fill(..)) {
                    c.fails.push((i as u64, if r.chance(70) { 0 } else { r.below(4) }, r.below(3)));
                }
            }
            return serde_json::to_value(c).unwrap();
        }
    }
    fn run(v: &Value) -> Verdict {
        let mut o = (model_part().run)(v);
        for x in &mut o.viols {
            x.props = vec!["C16".into()];
            x.kind = "redis".into();
        }
        o.nontrivial = o.stats.get("failed_commands").is_some_and(|n| *n > 0);
        o
    }
    Part { name: "redis-failures", gen, run, quick: 3000, weight: 1 }
}

/// A string that sloppy handling would take for `s`.
fn sibling(r: &mut Rng, s: &str) -> String {
    match r.below(12) {
        0 => format!("{s} "),
        1 => format!("{s}\n"),
        2 => format!("{s}\0"),
        3 => s.to_uppercase(),
        4 => format!("{s}{s}"),
        5 => format!("{s}:queue"),
        6 => s.chars().take(s.chars().count().saturating_sub(1).max(1)).collect(),
        7 => format!("{s}*"),
        8 => format!("{s}a"),
        9 => format!("{}\u{301}", s),
        10 => s.replace(|c: char| c.is_ascii_digit(), "?"),
        _ => format!("{s}{}", "x".repeat(300)),
    }
}

pub fn model_part() -> Part {
    fn gen(r: &mut Rng, t: Tier) -> Value {
        let weird = r.chance(30);
        let mut qn: Vec<String> = vec![];
        for i in 0..1 + r.below(4) {
            qn.push(if weird { format!("q{}{i}", r.text(8)) } else { format!("q{i}") });
        }
        let mut items: Vec<String> = vec![];
        for i in 0..1 + r.below(9) {
            items.push(if weird { r.text(10) } else { format!("i{i}") });
        }
        let mut hs: Vec<String> = vec![];
        for i in 0..1 + r.below(3) {
            hs.push(if weird { format!("h{}{i}", r.text(8)) } else { format!("h{i}") });
        }
        if r.chance(30) {
            // nearly the same
            for v in [&mut qn, &mut items, &mut hs] {
                for _ in 0..1 + r.below(3) {
                    let b = r.pick(v).clone();
                    v.push(sibling(r, &b));
                }
                v.sort();
                v.dedup();
            }
        }
        let max = if t == Tier::Thorough && r.chance(20) { 400 } else { 60 };
        let n = 1 + r.below(max);
        let w = [
            30 + r.below(60) as u32,
            r.below(50) as u32,
            r.below(20) as u32,
            r.below(40) as u32,
            r.below(15) as u32,
            r.below(20) as u32,
            r.below(20) as u32,
        ];
        let mut ops = vec![];
        let redis = r.chance(35);
        if r.chance(4) {
            let n = if !redis || r.chance(8) { 3000 } else { 300 };
            ops.push(BOp::Fill(r.pick(&qn).clone(), 20 + r.below(n) as u16));
        }
        if r.chance(2) {
            let n = if !redis || r.chance(8) { *r.pick(&[300, 3000, 12000]) } else { 300 };
            ops.push(BOp::Stock(r.pick(&hs).clone(), 20 + r.below(n) as u16));
        }
        for _ in 0..n {
            let q = r.pick(&qn).clone();
            ops.push(match r.weighted(&w) {
                0 => BOp::Push(q, r.pick(&items).clone()),
                1 => {
                    let to = r.pick(&qn).clone();
                    // rotating a queue by a huge count never ends by definition
                    let n = if to == q || r.chance(85) { r.below(6) } else { *r.pick(&[20, 1000, u32::MAX as u64, u64::MAX]) };
                    BOp::Move(q, to, n, r.chance(50), r.chance(50))
                }
                2 => BOp::Remove(q, r.pick(&items).clone()),
                3 => BOp::Get(q, if r.chance(80) { r.below(8) } else { *r.pick(&[19, 20, 21, 1000, i64::MAX as u64, u64::MAX]) }, r.chance(50)),
                4 => BOp::Count(q),
                5 => {
                    let (h, k) = (r.pick(&hs).clone(), r.pick(&items).clone());
                    let v = match r.below(40) {
                        0 => "y".repeat(20_000 + r.below(100_000) as usize),
                        1 => String::new(),
                        2 => k.clone(),
                        _ => r.text(30),
                    };
                    BOp::Put(h, k, v)
                }
                _ => BOp::Look(r.pick(&hs).clone(), r.pick(&items).clone()),
            });
        }
        serde_json::to_value(BCase { redis, ops, fails: vec![] }).unwrap()
    }
    fn run(v: &Value) -> Verdict {
        let mut o = Verdict::default();
        let Ok(c) = serde_json::from_value::<BCase>(v.clone()) else { return o };
        for op in &c.ops {
            if let BOp::Move(f, t, n, ..) = op {
                if f == t && *n > 100 {
                    return o;
                }
            }
        }
        // on Redis, queues and hashes share one name space
        let hash = |h: &String| c.ops.iter().any(|o| matches!(o, BOp::Put(x, ..) | BOp::Look(x, _) | BOp::Stock(x, _) if x == h));
        if c.ops.iter().any(|o| match o {
            BOp::Push(q, _) | BOp::Fill(q, _) | BOp::Remove(q, _) | BOp::Get(q, ..) | BOp::Count(q) => hash(q),
            BOp::Move(f, t, ..) => hash(f) || hash(t),
            _ => false,
        }) {
            return o;
        }
        if c.redis {
            flush();
            let b = aj::redis::Redis::new(redis_url());
            run_model(&c, &b, &mut o);
        } else {
            run_model(&c, &aj::mem::InMemory::default(), &mut o);
        }
        o.nontrivial = c.ops.len() >= 6 && c.ops.iter().any(|x| matches!(x, BOp::Move(..) | BOp::Remove(..) | BOp::Look(..)));
        o
    }
    Part { name: "model", gen, run, quick: 24000, weight: 3 }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TCase {
    redis: bool,
    kind: u8,
    threads: usize,
    rounds: usize,
    items: usize,
}

fn stress(c: &TCase, b: Arc<dyn Backend + Send + Sync>) -> Option<String> {
    let n = c.threads.clamp(2, 8);
    let bad: Arc<Mutex<Option<String>>> = Default::default();
    let note = {
        let bad = bad.clone();
        move |m: String| {
            bad.lock().unwrap().get_or_insert(m);
        }
    };
    let bar = Arc::new(Barrier::new(n));
    let stop = Arc::new(AtomicBool::new(false));
    let left = Arc::new(AtomicUsize::new(n));
    let moved: Arc<Mutex<Vec<String>>> = Default::default();
    std::thread::scope(|sc| {
        for t in 0..n {
            let (b, bar, stop, left, moved) = (b.clone(), bar.clone(), stop.clone(), left.clone(), moved.clone());
            let note = note.clone();
            let c = c.clone();
            sc.spawn(move || {
                let run = || -> Result<(), aj::Error> {
                    match c.kind % 5 {
                        // everybody pushes to the same fresh queue
                        0 => {
                            for r in 0..c.rounds {
                                bar.wait();
                                b.queue_push(&format!("fresh{r}"), &format!("{t}"))?;
                                b.storage_upsert(&format!("freshh{r}"), &format!("{t}"), format!("{r}"))?;
                            }
                        }
                        // rotate; every look sees every item exactly once
                        1 => {
                            if t == 0 {
                                for i in 0..c.items {
                                    b.queue_push("rot", &format!("{i}"))?;
                                }
                            }
                            bar.wait();
                            if t % 2 == 0 {
                                for r in 0..c.rounds * 20 {
                                    b.queue_move("rot", "rot", 1 + r % 3, dir(r % 2 == 0), dir(r % 2 == 1))?;
                                }
                                if left.fetch_sub(1, SeqCst) == n.div_ceil(2) {}
                                stop.store(true, SeqCst);
                            } else {
                                while !stop.load(SeqCst) {
                                    let k = b.queue_count("rot")?;
                                    if k != c.items {
                                        note(format!("a rotating queue of {} items counts {k}", c.items));
                                        break;
                                    }
                                    let mut v = b.queue_get("rot", c.items + 5, QueueDirection::Back)?;
                                    v.sort();
                                    v.dedup();
                                    if v.len() != c.items {
                                        note(format!("a rotating queue of {} items shows only {} of them", c.items, v.len()));
                                        break;
                                    }
                                }
                            }
                        }
                        // a pipeline: each item is handed out to exactly one mover
                        2 => {
                            let mut mine = vec![];
                            if t == 0 {
                                for i in 0..c.items {
                                    b.queue_push("in", &format!("{i}"))?;
                                }
                            }
                            bar.wait();
                            for r in 0..c.rounds * 10 {
                                if t == 0 && r < c.items {
                                    b.queue_push("in", &format!("{}", c.items + r))?;
                                }
                                mine.extend(b.queue_move("in", "out", 1 + r % 4, QueueDirection::Back, QueueDirection::Front)?);
                            }
                            moved.lock().unwrap().extend(mine);
                        }
                        // pushes and removals of own items in one queue
                        3 => {
                            bar.wait();
                            for r in 0..c.rounds * 5 {
                                let id = format!("{t}-{r}");
                                b.queue_push("own", &id)?;
                                if r % 2 == 0 {
                                    b.queue_remove("own", &id)?;
                                }
                            }
                        }
                        // own keys in one hash
                        _ => {
                            bar.wait();
                            for r in 0..c.rounds * 5 {
                                let k = format!("{t}-{}", r % 7);
                                b.storage_upsert("hash", &k, format!("{r}"))?;
                                let g = b.storage_get("hash", &k)?;
                                if g.as_deref() != Some(&format!("{r}")) {
                                    note(format!("own key {k} shows {g:?} after writing {r}"));
                                    break;
                                }
                            }
                        }
                    }
                    Ok(())
                };
                if let Err(e) = run() {
                    note(format!("operation failed: {e:?}"));
                }
                stop.store(true, SeqCst);
            });
        }
    });
    let r = (|| -> Result<(), aj::Error> {
        match c.kind % 5 {
            0 => {
                for r in 0..c.rounds {
                    let k = b.queue_count(&format!("fresh{r}"))?;
                    if k != n {
                        note(format!("{n} concurrent first pushes to one queue left {k} items"));
                    }
                    for t in 0..n {
                        if b.storage_get(&format!("freshh{r}"), &format!("{t}"))? != Some(format!("{r}")) {
                            note(format!("{n} concurrent first writes to one hash lost one"));
                        }
                    }
                }
            }
            1 => {
                let k = b.queue_count("rot")?;
                if k != c.items {
                    note(format!("{} items after rotating {}", k, c.items));
                }
            }
            2 => {
                let total = c.items + c.items.min(c.rounds * 10);
                let m = moved.lock().unwrap().clone();
                let mut all = b.queue_get("in", usize::MAX / 4, QueueDirection::Front)?;
                let out = b.queue_get("out", usize::MAX / 4, QueueDirection::Front)?;
                if out.len() != m.len() {
                    note(format!("{} items arrived, but {} were handed out", out.len(), m.len()));
                }
                all.extend(m);
                all.sort();
                let len = all.len();
                all.dedup();
                if len != total || all.len() != total {
                    note(format!("{total} items pushed, {len} accounted for, {} distinct", all.len()));
                }
            }
            3 => {
                let mut v = b.queue_get("own", usize::MAX / 4, QueueDirection::Front)?;
                v.sort();
                let mut e: Vec<String> = (0..n).flat_map(|t| (0..c.rounds * 5).filter(|r| r % 2 == 1).map(move |r| format!("{t}-{r}"))).collect();
                e.sort();
                if v != e {
                    note(format!("{} items left, expected {}", v.len(), e.len()));
                }
            }
            _ => {}
        }
        Ok(())
    })();
    if let Err(e) = r {
        note(format!("operation failed: {e:?}"));
    }
    let m = bad.lock().unwrap().take();
    m
}

pub fn stress_part() -> Part {
    fn gen(r: &mut Rng, _: Tier) -> Value {
        let redis = r.chance(20);
        serde_json::to_value(TCase {
            redis,
            kind: r.below(5) as u8,
            threads: 2 + r.below(5) as usize,
            rounds: if redis { 20 } else { 100 + r.below(300) as usize },
            items: 1 + r.below(12) as usize,
        })
        .unwrap()
    }
    fn run(v: &Value) -> Verdict {
        let mut o = Verdict::default();
        let Ok(c) = serde_json::from_value::<TCase>(v.clone()) else { return o };
        if c.rounds > 2000 || c.items > 1000 {
            return o;
        }
        let b: Arc<dyn Backend + Send + Sync> = if c.redis {
            flush();
            Arc::new(aj::redis::Redis::new(redis_url()))
        } else {
            Arc::new(aj::mem::InMemory::default())
        };
        // a panic inside a backend thread must not take down the check
        match silent(|| stress(&c, b)) {
            Ok(None) => {}
            Ok(Some(m)) => o.viols.push(v1("C13", "concurrent", format!("{}: {m}", if c.redis { "Redis" } else { "InMemory" }))),
            Err(p) => o.viols.push(v1("C13", "concurrent", format!("panic under concurrent use: {p}"))),
        }
        o.stats.insert("concurrent_cases".into(), 1);
        o.nontrivial = true;
        o
    }
    Part { name: "threads", gen, run, quick: 1600, weight: 1 }
}

// ---------------------------------------------------------------- C20 and C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RSpec {
    retried: i32,
    max: Option<i32>,
    exp: bool,
    /// delay: seconds and nanoseconds
    s: i64,
    ns: u32,
}
impl RSpec {
    fn dur(&self) -> Duration {
        Duration::new(self.s, self.ns % 1_000_000_000).unwrap_or(Duration::max_value())
    }
    fn real(&self) -> Retry {
        let d = self.dur();
        Retry::new(self.retried, self.max, if self.exp { RetryStrategy::ExponentialBackoff(d) } else { RetryStrategy::Interval(d) })
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    r: RSpec,
    /// seconds and nanoseconds of the instant
    at: (i64, u32),
    plans: u8,
    reload_every: u8,
}

fn nanos(t: DateTime<Utc>) -> i128 {
    t.timestamp() as i128 * 1_000_000_000 + t.timestamp_subsec_nanos() as i128
}
fn dnanos(d: Duration) -> i128 {
    d.num_seconds() as i128 * 1_000_000_000 + d.subsec_nanos() as i128
}

fn gen_instant(r: &mut Rng) -> (i64, u32) {
    let max = DateTime::<Utc>::MAX_UTC.timestamp();
    let min = DateTime::<Utc>::MIN_UTC.timestamp();
    let s = match r.below(8) {
        0 => r.range(min, max),
        1 => max - r.below(1000) as i64,
        2 => min + r.below(1000) as i64,
        3 => r.range(-10, 10),
        4 => r.range(-62_000_000_000, 0),
        _ => r.range(0, 4_200_000_000),
    };
    let ns = match r.below(5) {
        0 => 0,
        1 => r.below(1000) as u32,
        2 => 999_999_999,
        3 => r.below(1_000_000) as u32 * 1000,
        _ => r.below(1_000_000_000) as u32,
    };
    (s, ns)
}
fn gen_delay(r: &mut Rng) -> (i64, u32) {
    let s = match r.below(10) {
        0 => 0,
        1 => r.below(10) as i64,
        2 => r.below(100_000) as i64,
        3 => r.below(1 << 40) as i64,
        4 => i64::MAX / 1000 - r.below(5) as i64,
        5 => -(r.below(1 << 33) as i64),
        6 => (1i64 << r.below(53)) + r.range(-1, 1),
        7 => return (0, r.below(3000) as u32),
        _ => r.below(5000) as i64,
    };
    (s, if r.chance(30) { 0 } else { r.below(1_000_000_000) as u32 })
}
fn gen_rspec(r: &mut Rng, wild: bool) -> RSpec {
    let (s, ns) = gen_delay(r);
    let retried = match r.below(7) {
        0 => 0,
        1 => r.below(10) as i32,
        2 => r.below(105) as i32,
        3 if wild => i32::MAX - r.below(3) as i32,
        4 if wild => -(r.below(5) as i32),
        5 if wild => r.next() as i32,
        _ => r.below(4) as i32,
    };
    let max = match r.below(6) {
        0 => None,
        1 => Some(0),
        2 => Some(r.next() as i32),
        3 => Some(retried.saturating_add(r.range(-2, 2) as i32)),
        4 => Some(i32::MAX),
        _ => Some(r.below(8) as i32),
    };
    RSpec { retried, max, exp: r.chance(60), s, ns }
}

/// The delay of the k-th retry in ns, None = beyond anything representable.
fn want_delay(d: i128, exp: bool, k: i32) -> Option<i128> {
    if !exp || d == 0 {
        return Some(d);
    }
    if k > 100 {
        return None;
    }
    d.checked_mul(1i128 << k.clamp(0, 100)).filter(|x| x.unsigned_abs() < 1 << 120)
}

pub fn retry_part() -> Part {
    fn gen(r: &mut Rng, _: Tier) -> Value {
        serde_json::to_value(RCase {
            r: gen_rspec(r, true),
            at: gen_instant(r),
            plans: 1 + r.below(12) as u8,
            reload_every: r.below(4) as u8,
        })
        .unwrap()
    }
    fn run(v: &Value) -> Verdict {
        let mut o = Verdict::default();
        let Ok(c) = serde_json::from_value::<RCase>(v.clone()) else { return o };
        let Some(now) = DateTime::<Utc>::from_timestamp(c.at.0, c.at.1 % 1_000_000_000) else { return o };
        let mut d = c.r.dur();
        // stored policies have microsecond delays
        let storable = d.num_microseconds().is_some();
        if c.reload_every > 0 && storable {
            d = Duration::microseconds(d.num_microseconds().unwrap());
        }
        let mut spec = c.r.clone();
        spec.s = d.num_seconds();
        spec.ns = d.subsec_nanos().unsigned_abs();
        if d < Duration::zero() {
            let dn = dnanos(d);
            spec.s = dn.div_euclid(1_000_000_000) as i64;
            spec.ns = dn.rem_euclid(1_000_000_000) as u32;
        }
        let d = spec.dur();
        let mut real = spec.real();
        let mut k = c.r.retried;
        let maxn = nanos(DateTime::<Utc>::MAX_UTC);
        let minn = nanos(DateTime::<Utc>::MIN_UTC);
        let mut capped = false;
        for i in 0..c.plans {
            let want = spec.max.is_none_or(|m| k < m);
            match silent(|| real.should_retry()) {
                Ok(g) if g == want => {}
                g => {
                    o.viols.push(v1("C20", "permit", format!("plan {i}: permits a retry: {g:?}, expected {want} ({k} used of {:?})", spec.max)));
                    break;
                }
            }
            let got = silent(|| real.retry_at(Some(now)));
            let Ok(got) = got else {
                o.viols.push(v1("C20", "panic", format!("plan {i}: planning panicked: {}", got.unwrap_err())));
                break;
            };
            k = k.saturating_add(1);
            // exact values for policies a user can build: non-negative delays and counts
            if d >= Duration::zero() && c.r.retried >= 0 {
                let want = match want_delay(dnanos(d), spec.exp, k) {
                    Some(x) => (nanos(now) + x).min(maxn),
                    None => maxn,
                };
                // instants are compared to the microsecond, the cap as a whole
                let eq = |a: i128, b: i128| a == b || (a.div_euclid(1000) == b.div_euclid(1000));
                if want < maxn && !eq(nanos(got), want) || want >= maxn && nanos(got) < maxn - 1_000_000_000 {
                    o.viols.push(v1("C20", "instant", format!("plan {i} (retry number {k}) from {now}: {got}, off by {} ns", nanos(got) - want)));
                    break;
                }
                if got < now && nanos(got) < maxn - 1_000_000_000 {
                    o.viols.push(v1("C20", "instant", format!("plan {i}: planned before the given instant")));
                    break;
                }
                capped |= want >= maxn;
            } else if nanos(got) < minn {
                o.viols.push(v1("C20", "instant", "unrepresentable instant".into()));
            }
            if c.reload_every > 0 && i % c.reload_every == 0 && storable {
                match silent(|| serde_json::from_str::<Retry>(&serde_json::to_string(&real).unwrap()).unwrap()) {
                    Ok(r) => real = r,
                    Err(p) => {
                        o.viols.push(v1("C20", "reload", format!("storing and reloading the policy failed: {p}")));
                        break;
                    }
                }
                *o.stats.entry("reloads".into()).or_insert(0) += 1;
            }
        }
        *o.stats.entry("plans".into()).or_insert(0) += c.plans as u64;
        if capped {
            o.stats.insert("capped".into(), 1);
        }
        o.nontrivial = c.plans >= 2;
        o
    }
    Part { name: "retry-plans", gen, run, quick: 1_000_000, weight: 1 }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum TSpec {
    Normal,
    At((i64, u32)),
    Cron { expr: String, slot: (i64, u32), n: i32, tick: i32, max: Option<i32>, end: Option<(i64, u32)> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SCase {
    be: u8,
    id: String,
    ty: TSpec,
    status: u8,
    retry: Option<RSpec>,
    created: i64,
    times: [Option<i64>; 4],
    run_count: u64,
    p: Payload,
    /// 0 round trip, 1 without job id, 2 cron without context, 3 cron without counter and context,
    /// 4 unreadable text, 5 a record as earlier versions wrote it
    form: u8,
    junk: String,
    /// bytes of text added to the data
    #[serde(default)]
    big: u32,
}

fn inst(x: (i64, u32)) -> Option<DateTime<Utc>> {
    DateTime::<Utc>::from_timestamp(x.0, x.1 % 1_000_000_000)
}
/// the instant as stored: whole microseconds
fn us(t: DateTime<Utc>) -> DateTime<Utc> {
    DateTime::<Utc>::from_timestamp_micros(t.timestamp_micros()).unwrap()
}

pub fn storage_part() -> Part {
    fn gen(r: &mut Rng, _: Tier) -> Value {
        let ty = match r.below(4) {
            0 => TSpec::Normal,
            1 => TSpec::At(gen_instant(r)),
            _ => TSpec::Cron {
                expr: if r.chance(60) { r.pick(&["* * * * * * *", "0 */5 * * * Mon-Fri", "@daily"]).to_string() } else { r.text(20) },
                slot: gen_instant(r),
                n: if r.chance(60) { r.below(20) as i32 } else { r.next() as i32 },
                tick: if r.chance(60) { r.below(20) as i32 } else { r.next() as i32 },
                max: if r.chance(50) { Some(if r.chance(70) { r.below(9) as i32 } else { r.next() as i32 }) } else { None },
                end: if r.chance(50) { Some(gen_instant(r)) } else { None },
            },
        };
        let o = |r: &mut Rng| if r.chance(60) { Some(if r.chance(80) { r.below(1 << 42) as i64 } else { r.next() as i64 }) } else { None };
        let times = [o(r), o(r), o(r), o(r)];
        let retry = if r.chance(65) { Some(gen_rspec(r, true)) } else { None };
        let runs = (0..r.below(3))
            .map(|_| RunSpec { dur_us: r.next(), yields: r.next() as u8, fail: r.chance(50), post_flip: r.chance(50), panic: r.below(5) as u8, block: r.chance(50) })
            .collect();
        let custom = (0..r.below(3)).map(|_| if r.chance(50) { Some(r.next() as i64) } else { None }).collect();
        let form = match r.below(10) {
            0 => 1,
            1 => 2,
            2 => 3,
            3 => 4,
            4 | 5 => 5,
            _ => 0,
        };
        serde_json::to_value(SCase {
            be: r.below(8) as u8,
            id: r.text(20),
            ty,
            status: r.below(5) as u8,
            retry,
            created: if r.chance(80) { r.below(1 << 42) as i64 } else { r.next() as i64 },
            times,
            run_count: if r.chance(70) { r.below(50) } else { r.next() },
            big: if r.below(1500) == 0 { 1 << r.urange(10, 21) } else { 0 },
            p: Payload { tag: r.next() as u32, text: r.text(40), counter: r.next() as u32, runs, custom },
            form,
            junk: match r.below(6) {
                0 => r.text(40),
                1 => "{}".into(),
                2 => "null".into(),
                3 => "{\"context\":{},\"data\":{}}".into(),
                4 => String::new(),
                _ => format!("cut:{}", r.below(400)),
            },
        })
        .unwrap()
    }
    fn run(v: &Value) -> Verdict {
        let mut o = Verdict::default();
        let Ok(c) = serde_json::from_value::<SCase>(v.clone()) else { return o };
        match silent(|| storage_case(&c)) {
            Ok(Ok((m, nt))) => {
                for x in m {
                    o.viols.push(v1("C14", "storage", x));
                }
                o.nontrivial = nt;
                o.stats.insert(["roundtrip", "legacy_no_id", "legacy_cron_no_context", "legacy_cron_short", "unreadable", "legacy_record"][c.form as usize % 6].into(), 1);
            }
            Ok(Err(())) => {}
            Err(p) => o.viols.push(v1("C14", "panic", format!("panic while storing or reading: {p}"))),
        }
        o
    }
    Part { name: "storage", gen, run, quick: 200_000, weight: 2 }
}

fn storage_case(c: &SCase) -> Result<(Vec<String>, bool), ()> {
    let job_type = match &c.ty {
        TSpec::Normal => JobType::Normal,
        TSpec::At(t) => JobType::ScheduledAt(inst(*t).ok_or(())?),
        TSpec::Cron { expr, slot, n, tick, max, end } => JobType::Cron(
            expr.clone(),
            inst(*slot).ok_or(())?,
            *n,
            CronContext {
                tick_number: *tick,
                max_repeat: *max,
                end_at: match end {
                    None => None,
                    Some(e) => Some(inst(*e).ok_or(())?),
                },
            },
        ),
    };
    // stored policies have microsecond delays that fit 64 bits
    let retry = match &c.retry {
        None => None,
        Some(r) => {
            let d = r.dur().num_microseconds().ok_or(())?;
            let d = Duration::microseconds(d);
            Some(Retry::new(r.retried, r.max, if r.exp { RetryStrategy::ExponentialBackoff(d) } else { RetryStrategy::Interval(d) }))
        }
    };
    let mut ctx = JobContext::new(c.id.clone());
    ctx.job_type = job_type;
    ctx.retry = retry;
    ctx.job_status = [JobStatus::Queued, JobStatus::Running, JobStatus::Finished, JobStatus::Failed, JobStatus::Canceled][c.status as usize % 5];
    ctx.created_at = c.created;
    [ctx.enqueue_at, ctx.run_at, ctx.complete_at, ctx.cancel_at] = c.times;
    ctx.run_count = c.run_count as usize;
    let mut p = c.p.clone();
    while p.text.len() < (c.big as usize).min(4 << 20) {
        p.text.push_str("long text \u{e9}, ");
    }
    let job: Job<Alpha> = Job { context: ctx, data: Alpha::make(p) };

    let be: Arc<dyn Backend + Send + Sync> = match c.be {
        0 => {
            flush();
            Arc::new(aj::redis::Redis::new(redis_url()))
        }
        1..=3 => Arc::new(aj::mem::InMemory::default()),
        _ => Arc::new(RefBackend::default()),
    };
    let q = WorkQueue::<Alpha>::new("Alpha".into(), be.clone());
    let mut bad = vec![];
    if let Err(e) = upsert_to_storage(&*be, &c.id, &job) {
        bad.push(format!("storing failed: {e:?}"));
        return Ok((bad, true));
    }
    // where it was put, found without assuming a layout
    let hash = aj::backend::types::STORAGE_HASH;
    let Some(raw) = be.storage_get(hash, &c.id).map_err(|_| ())? else {
        // another layout: only the round trip can be judged
        match get_from_storage::<Job<Alpha>>(&*be, &c.id) {
            Ok(Some(j)) => same(&job, &j, None, &mut bad),
            x => bad.push(format!("stored job reads back as {:?}", x.map(|j| j.is_some()))),
        }
        return Ok((bad, c.form == 0));
    };
    let mut form = c.form;
    let text = match form {
        1 => {
            let mut j: Value = serde_json::from_str(&raw).map_err(|_| ())?;
            j["context"].as_object_mut().ok_or(())?.remove("job_id").ok_or(())?;
            j.to_string()
        }
        2 | 3 => {
            let mut j: Value = serde_json::from_str(&raw).map_err(|_| ())?;
            match j.pointer_mut("/context/job_type/Cron").and_then(|x| x.as_array_mut()) {
                Some(a) => {
                    a.truncate(if form == 2 { 3 } else { 2 });
                    j.to_string()
                }
                None => {
                    form = 0;
                    raw.clone()
                }
            }
        }
        4 => {
            if let Some(n) = c.junk.strip_prefix("cut:") {
                let n: usize = n.parse().unwrap_or(3);
                raw.chars().take(n.min(raw.chars().count().saturating_sub(1))).collect()
            } else {
                c.junk.clone()
            }
        }
        5 => old_record(&job, c, raw.len() % 2 == 0).to_string(),
        _ => raw.clone(),
    };
    if form != 0 {
        be.storage_upsert(hash, &c.id, text.clone()).map_err(|_| ())?;
    }
    let readers: [(&str, Result<Option<Job<Alpha>>, aj::Error>); 3] =
        [("get_from_storage", get_from_storage(&*be, &c.id)), ("read_job", q.read_job(&c.id)), ("get_job", q.get_job(&c.id))];
    for (name, r) in readers {
        if form == 4 {
            // a record that is no job
            if serde_json::from_str::<Value>(&text).is_ok_and(|v| v["data"].is_object() && v["context"].is_object() && c.junk.starts_with("cut:")) {
                continue;
            }
            match r {
                Ok(None) => {}
                Ok(Some(_)) => bad.push(format!("{name}: the unreadable record {:?} was read as a job", crate::monitor::short(&text))),
                Err(e) => bad.push(format!("{name}: an unreadable record is an error ({e:?}), not absent")),
            }
            continue;
        }
        match r {
            Ok(Some(j)) => {
                same(&job, &j, Some(form), &mut bad);
                if form == 0 {
                    match serde_json::to_string(&j) {
                        Ok(again) if again == raw => {}
                        x => bad.push(format!("storing again gives {x:?}, first time it was {raw:?}")),
                    }
                }
            }
            Ok(None) => bad.push(format!("{name}: stored job (form {form}) is reported absent: {}", crate::monitor::short(&text))),
            Err(e) => bad.push(format!("{name}: {e:?}")),
        }
    }
    bad.truncate(3);
    Ok((bad, true))
}

/// The record as version 0.7 of the library writes it.
fn old_record(job: &Job<Alpha>, c: &SCase, whole: bool) -> Value {
    let x = &job.context;
    let at = |t: &DateTime<Utc>| t.timestamp_micros();
    let job_type = match &x.job_type {
        JobType::Normal => json!("Normal"),
        JobType::ScheduledAt(t) => json!({ "ScheduledAt": at(t) }),
        JobType::Cron(e, s, n, cx) => {
            let cx = json!({ "tick_number": cx.tick_number, "max_repeat": cx.max_repeat, "end_at": cx.end_at.as_ref().map(at) });
            json!({ "Cron": [e, at(s), n, cx] })
        }
    };
    let retry = c.retry.as_ref().map(|r| {
        let us = r.dur().num_microseconds();
        let strategy = if r.exp { json!({ "ExponentialBackoff": us }) } else { json!({ "Interval": us }) };
        json!({ "retried_times": r.retried, "max_retries": r.max, "strategy": strategy })
    });
    let status = ["Queued", "Running", "Finished", "Failed", "Canceled"][c.status as usize % 5];
    let mut ctx = json!({
        "job_id": x.job_id, "job_type": job_type, "job_status": status, "retry": retry,
        "created_at": x.created_at, "enqueue_at": x.enqueue_at, "run_at": x.run_at,
        "complete_at": x.complete_at, "cancel_at": x.cancel_at, "run_count": x.run_count,
    });
    if !whole {
        // absent is the same as null
        ctx.as_object_mut().unwrap().retain(|_, v| !v.is_null());
    }
    json!({ "context": ctx, "data": job.data })
}

fn same(a: &Job<Alpha>, b: &Job<Alpha>, form: Option<u8>, bad: &mut Vec<String>) {
    let (x, y) = (&a.context, &b.context);
    let mut cmp = |n: &str, l: String, r: String| {
        if l != r {
            bad.push(format!("{n}: stored {l}, read {r}"));
        }
    };
    cmp("job id", if form == Some(1) { String::new() } else { x.job_id.clone() }, y.job_id.clone());
    let jt = match &x.job_type {
        JobType::Normal => JobType::Normal,
        JobType::ScheduledAt(t) => JobType::ScheduledAt(us(*t)),
        JobType::Cron(e, s, n, cx) => JobType::Cron(
            e.clone(),
            us(*s),
            if form == Some(3) { 0 } else { *n },
            if matches!(form, Some(2) | Some(3)) {
                CronContext::default()
            } else {
                CronContext { end_at: cx.end_at.map(us), ..cx.clone() }
            },
        ),
    };
    cmp("schedule", format!("{jt:?}"), format!("{:?}", y.job_type));
    cmp("status", format!("{:?}", x.job_status), format!("{:?}", y.job_status));
    cmp("retry", format!("{:?}", x.retry), format!("{:?}", y.retry));
    cmp("created_at", x.created_at.to_string(), y.created_at.to_string());
    for (n, l, r) in [
        ("enqueue_at", x.enqueue_at, y.enqueue_at),
        ("run_at", x.run_at, y.run_at),
        ("complete_at", x.complete_at, y.complete_at),
        ("cancel_at", x.cancel_at, y.cancel_at),
    ] {
        cmp(n, format!("{l:?}"), format!("{r:?}"));
    }
    cmp("run count", x.run_count.to_string(), y.run_count.to_string());
    cmp("data", format!("{:?}", a.data), format!("{:?}", b.data));
}

