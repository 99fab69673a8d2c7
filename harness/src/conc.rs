//! C18 (start and first use), C21 (independence of job types), and the part of C14 about data that
//! cannot be stored.
use std::collections::BTreeMap;
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

use aj::{async_trait, BackgroundJob, Executable, JobContext, AJ};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::backends::{RefBackend, Store};
use crate::engine::*;
use crate::forked::{self, Outcome};
use crate::gen::{self, Prof};
use crate::jobs::*;
use crate::monitor::{self, Viol};
use crate::props::{fork_verdict, judge, run_engine};
use crate::rng::Rng;
use crate::runner::*;
use crate::{sim, with_ty};

fn viol(id: &str, kind: &str, msg: String) -> Viol {
    Viol { props: vec![id.into()], kind: kind.into(), msg, t: 0 }
}

// ---------------------------------------------------------------- C18, virtual scheduler

/// Concurrent first submissions of several types, repeated starts, then ordinary use.
fn gen_first(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof { p_retry: 10, p_fail: 20, sched: [80, 10, 10, 0], dur: [60, 20, 20, 0], nslots: 30, ..Prof::default() };
    let epoch_us = gen::epoch(r);
    let mut steps = vec![];
    let mut slot = 0u8;
    let mut order: Vec<usize> = vec![0, 1, 2, 3];
    for i in (1..4).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let waves = 1 + r.below(3);
    let mut used = 0;
    for _ in 0..waves {
        used = (used + 1 + r.below(2) as usize).min(4);
        if r.chance(25) {
            steps.push(Step { gap_us: r.below(3), op: Op::Start });
        }
        let n = if r.chance(8) { 17 + r.below(40) } else { 1 + r.below(9) };
        let mut ops = vec![];
        for _ in 0..n {
            let ty = order[r.below(used as u64) as usize];
            if r.chance(8) {
                ops.push(Op::Start);
                continue;
            }
            let mut g = gen::G::new(r, &p, 100_000, 0, epoch_us);
            let (sched, retry, pl) = (g.sched(), g.retry(), g.payload());
            let how = *r.pick(&[How::Run, How::Run, How::JustRun, How::JustRun, How::Add, How::Cfg(true, true)]);
            ops.push(Op::Submit { ty, slot, auto: r.chance(20), how, sched, retry, p: pl });
            slot += 1;
        }
        let gap_us = if r.chance(50) { r.below(4) } else { r.below(400_000) };
        if r.chance(80) {
            steps.push(Step { gap_us, op: Op::Par(ops) });
        } else {
            for o in ops {
                steps.push(Step { gap_us: 0, op: o });
            }
        }
    }
    let mut clients = vec![steps];
    if r.chance(30) {
        // a second client that starts at the same time with types of its own
        let mut s2 = vec![];
        for _ in 0..1 + r.below(4) {
            let ty = *r.pick(&order);
            let mut g = gen::G::new(r, &p, 100_000, 0, epoch_us);
            let pl = g.payload();
            s2.push(Step { gap_us: r.below(3), op: Op::Submit { ty, slot, auto: false, how: How::Run, sched: Sched::Now, retry: None, p: pl } });
            slot += 1;
        }
        clients.push(s2);
    }
    let c = Case {
        epoch_us,
        sched_seed: r.next(),
        host: *r.pick(&[Host::Actix, Host::Tokio, Host::Plain]),
        be: *r.pick(&[Be::Mem, Be::Ref, Be::Quick]),
        ids: r.below(ID_STYLES as u64) as u8,
        names: gen::names(r),
        plugins: vec![],
        clients,
        settle_us: 12_000_000,
        faults: Default::default(),
        after_crash: vec![],
        down_us: 0,
    };
    serde_json::to_value(c).unwrap()
}

fn run_first(v: &Value) -> Verdict {
    let Ok(c) = serde_json::from_value::<Case>(v.clone()) else { return Verdict::default() };
    let mut v = judge(&c);
    for x in v.viols.iter_mut() {
        if x.kind != "order" {
            x.props.push("C18".into());
        }
    }
    let par = c.clients.iter().flatten().any(|s| matches!(&s.op, Op::Par(o) if o.len() >= 2));
    v.nontrivial = par && v.stats.get("runs").copied().unwrap_or(0) >= 2;
    v
}

// ---------------------------------------------------------------- C18, real threads

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RaceThread {
    host: Host,
    /// use quick_start instead of a backend of its own
    quick: bool,
    /// wait until everybody has started before submitting
    meet: bool,
    /// (type, fire and forget)
    jobs: Vec<(usize, bool)>,
    starts: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Race {
    threads: Vec<RaceThread>,
    last_type: usize,
}

fn gen_race(r: &mut Rng, _t: Tier) -> Value {
    let n = 2 + r.below(5);
    let ntypes = 1 + r.below(3);
    let off = r.below(4);
    let mut threads = vec![];
    for _ in 0..n {
        let many = if r.chance(12) { 60 } else { 6 };
        let jobs = (0..r.below(many)).map(|_| (((r.below(ntypes) + off) % 4) as usize, r.chance(40))).collect();
        threads.push(RaceThread {
            host: *r.pick(&[Host::Actix, Host::Tokio, Host::Plain]),
            quick: r.chance(12),
            meet: r.chance(40),
            jobs,
            starts: 1 + r.below(3) as u8,
        });
    }
    let last_type = ((off + 3) % 4) as usize;
    serde_json::to_value(Race { threads, last_type }).unwrap()
}

async fn race_submit(ty: usize, id: String, just: bool) -> Option<String> {
    let p = Payload { tag: 1, text: id.clone(), ..Default::default() };
    with_ty!(ty, T => {
        let job = T::make(p).job().set_id(id.clone());
        if just {
            job.just_run();
            None
        } else {
            match actix_rt::time::timeout(Duration::from_secs(40), job.run()).await {
                Err(_) => Some(format!("submission of {id} was not answered")),
                Ok(Err(e)) => Some(format!("submission of {id} was refused: {e:?}")),
                Ok(Ok(x)) if x != id => Some(format!("submission of {id} returned id {x}")),
                _ => None,
            }
        }
    })
}

fn executed() -> BTreeMap<(usize, String), usize> {
    let mut m = BTreeMap::new();
    for r in LOG.lock().unwrap_or_else(|e| e.into_inner()).iter() {
        if let Ev::Start { ty, id, .. } = &r.ev {
            *m.entry((*ty, id.clone())).or_insert(0) += 1;
        }
    }
    m
}

fn race_child(c: &Race) -> Value {
    install_panic_hook();
    let n = c.threads.len();
    let b0 = Arc::new(Barrier::new(n));
    let b1 = Arc::new(Barrier::new(n));
    let done = Arc::new(Barrier::new(n + 1));
    let stores: Vec<RefBackend> = (0..n + 1).map(|_| RefBackend::default()).collect();
    let addrs = Arc::new(Mutex::new(vec![]));
    let problems: Arc<Mutex<Vec<String>>> = Default::default();
    let mut want: BTreeMap<(usize, String), usize> = BTreeMap::new();
    for (i, t) in c.threads.iter().enumerate() {
        for (k, (ty, _)) in t.jobs.iter().enumerate() {
            want.insert((*ty, format!("t{i}-{k}")), 1);
        }
        let t = t.clone();
        let (b0, b1, done, addrs, problems) = (b0.clone(), b1.clone(), done.clone(), addrs.clone(), problems.clone());
        let store = stores[i].clone();
        std::thread::spawn(move || {
            let start = {
                let (t, addrs) = (t.clone(), addrs.clone());
                move || {
                    b0.wait();
                    for _ in 0..t.starts {
                        let a = if t.quick { AJ::quick_start() } else { AJ::start(store.clone()) };
                        addrs.lock().unwrap().push(a);
                    }
                }
            };
            let meet = move || {
                b1.wait();
            };
            let p2 = problems.clone();
            let jobs = t.jobs.clone();
            let submit = async move {
                let mut js = vec![];
                for (k, (ty, just)) in jobs.into_iter().enumerate() {
                    let p3 = p2.clone();
                    js.push(tokio::task::spawn_local(async move {
                        if let Some(e) = race_submit(ty, format!("t{i}-{k}"), just).await {
                            p3.lock().unwrap().push(e);
                        }
                    }));
                }
                for j in js {
                    let _ = j.await;
                }
            };
            let tail = move || {
                done.wait();
                loop {
                    std::thread::park();
                }
            };
            let wait_all = t.meet;
            match t.host {
                Host::Actix => actix_rt::System::new().block_on(async move {
                    start();
                    if wait_all {
                        meet();
                    } else {
                        std::thread::spawn(meet);
                    }
                    submit.await;
                    // keep the system alive
                    std::thread::spawn(tail);
                    std::future::pending::<()>().await
                }),
                Host::Tokio => {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    tokio::task::LocalSet::new().block_on(&rt, async move {
                        start();
                        if wait_all {
                            meet();
                        } else {
                            std::thread::spawn(meet);
                        }
                        submit.await;
                        std::thread::spawn(tail);
                        std::future::pending::<()>().await
                    })
                }
                Host::Plain => {
                    start();
                    if wait_all {
                        meet();
                    } else {
                        std::thread::spawn(meet);
                    }
                    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                    tokio::task::LocalSet::new().block_on(&rt, submit);
                    tail();
                }
            }
        });
    }
    // a thread that panics never arrives: give up after a while
    let arrived = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let a2 = arrived.clone();
    std::thread::spawn(move || {
        done.wait();
        a2.store(true, std::sync::atomic::Ordering::SeqCst);
    });
    let t0 = Instant::now();
    while !arrived.load(std::sync::atomic::Ordering::SeqCst) && t0.elapsed() < Duration::from_secs(60) {
        std::thread::sleep(Duration::from_millis(2));
        if LOG.lock().unwrap_or_else(|e| e.into_inner()).iter().any(|r| matches!(r.ev, Ev::Panic { .. })) {
            std::thread::sleep(Duration::from_millis(200));
            break;
        }
    }
    let mut out: Vec<String> = vec![];
    for r in LOG.lock().unwrap_or_else(|e| e.into_inner()).iter() {
        if let Ev::Panic { msg } = &r.ev {
            out.push(format!("panic: {msg}"));
        }
    }
    if !arrived.load(std::sync::atomic::Ordering::SeqCst) && out.is_empty() {
        out.push("starting or submitting did not return within 60 s".into());
    }
    out.extend(problems.lock().unwrap_or_else(|e| e.into_inner()).drain(..));
    if out.is_empty() {
        let a = addrs.lock().unwrap();
        if a.iter().any(|x| *x != a[0] || !x.connected()) {
            out.push("AJ::start returned different instances".into());
        }
        // the first backend stays
        let later = AJ::start(stores[n].clone());
        if later != a[0] {
            out.push("a later AJ::start returned another instance".into());
        }
        drop(a);
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let lt = c.last_type;
        want.insert((lt, "last".into()), 1);
        if let Some(e) = tokio::task::LocalSet::new().block_on(&rt, race_submit(lt, "last".into(), false)) {
            out.push(e);
        }
        let t0 = Instant::now();
        while executed() != want && t0.elapsed() < Duration::from_secs(40) {
            std::thread::sleep(Duration::from_millis(5));
        }
        std::thread::sleep(Duration::from_millis(230));
        let got = executed();
        if got != want {
            let bad: Vec<String> = want
                .keys()
                .chain(got.keys())
                .filter(|k| want.get(k) != got.get(k))
                .take(3)
                .map(|k| format!("{} of type {}: {} runs", k.1, k.0, got.get(k).unwrap_or(&0)))
                .collect();
            out.push(format!("not every job ran exactly once: {bad:?}"));
        }
        let usedn = stores.iter().filter(|s| *s.0.lock().unwrap() != Store::default()).count();
        if usedn > 1 {
            out.push(format!("{usedn} backends are in use"));
        }
        if *stores[n].0.lock().unwrap() != Store::default() {
            out.push("the backend of a later start is in use".into());
        }
        for r in LOG.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            if let Ev::Panic { msg } = &r.ev {
                out.push(format!("panic: {msg}"));
            }
        }
    }
    json!({"problems": out, "jobs": want.len(), "threads": n})
}

fn run_race(v: &Value) -> Verdict {
    let Ok(c) = serde_json::from_value::<Race>(v.clone()) else { return Verdict::default() };
    if c.threads.is_empty() || c.threads.iter().any(|t| t.starts == 0 || t.jobs.iter().any(|j| j.0 > 3)) || c.last_type > 3 {
        return Verdict::default();
    }
    let c2 = c.clone();
    match forked::run(move || Outcome::Val(race_child(&c2))) {
        Err(e) => fork_verdict(e),
        Ok(Outcome::Val(o)) => {
            let mut v = Verdict::default();
            for p in o["problems"].as_array().cloned().unwrap_or_default() {
                v.viols.push(viol("C18", "race", p.as_str().unwrap_or("").into()));
            }
            v.stats.insert("race_jobs".into(), o["jobs"].as_u64().unwrap_or(0));
            v.stats.insert("race_threads".into(), o["threads"].as_u64().unwrap_or(0));
            v.nontrivial = c.threads.len() >= 2 && c.threads.iter().filter(|t| !t.jobs.is_empty()).count() >= 2;
            v
        }
        Ok(Outcome::Log { log, .. }) => {
            let mut v = Verdict::default();
            let m = log.iter().rev().find_map(|r| if let Ev::Panic { msg } = &r.ev { Some(msg.clone()) } else { None });
            v.viols.push(viol("C18", "race", m.unwrap_or_default()));
            v
        }
        _ => Verdict { inconclusive: Some("no result".into()), ..Default::default() },
    }
}

pub fn first_part() -> Part {
    Part { name: "first-use", gen: gen_first, run: run_first, quick: 3000, weight: 1 }
}
pub fn race_part() -> Part {
    Part { name: "threads", gen: gen_race, run: run_race, quick: 320, weight: 1 }
}

// ---------------------------------------------------------------- C21

fn gen_types(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof {
        types: vec![0, 1, 2, 3],
        max_types: 4,
        nslots: 3,
        steps: (6, 30),
        ops: [38, 8, 2, 9, 8, 9, 14, 9, 0],
        maxes: vec![1, 1, 2, 3, 20],
        p_just: 10,
        p_panic: 3,
        p_fail: 45,
        p_retry: 40,
        settle_ticks: (20, 60),
        ..Prof::default()
    };
    let mut c = gen::case(r, &p);
    for s in c.clients.iter_mut().flatten() {
        match &mut s.op {
            Op::Submit { auto, .. } => *auto = false,
            // fire-and-forget bursts take time on the client side
            Op::Burst { how, .. } => *how = How::Run,
            _ => {}
        }
    }
    if r.chance(30) {
        // every type has its own client, and the runs of some types block their thread
        let mut types: Vec<usize> = c.clients.iter().flatten().filter_map(|s| monitor::op_ty(&s.op)).collect();
        types.sort();
        types.dedup();
        let steps: Vec<Step> = c.clients.iter().flatten().cloned().collect();
        c.clients = types
            .iter()
            .map(|ty| {
                let mut v = vec![];
                let mut gap = 0;
                for s in &steps {
                    if monitor::op_ty(&s.op) == Some(*ty) {
                        v.push(Step { gap_us: s.gap_us + gap, op: s.op.clone() });
                        gap = 0;
                    } else {
                        gap += s.gap_us / 2;
                    }
                }
                v
            })
            .collect();
        let nb = types.len() as u64;
        let blocking: Vec<usize> = types.into_iter().take(1 + r.below(nb) as usize).collect();
        for s in c.clients.iter_mut().flatten() {
            if let Op::Submit { ty, p, .. } | Op::Update { ty, p, .. } = &mut s.op {
                if blocking.contains(ty) {
                    for x in p.runs.iter_mut() {
                        x.block = true;
                    }
                }
            }
        }
    }
    serde_json::to_value(c).unwrap()
}

/// Everything that can be observed of one job type, without call numbers.
fn project(log: &[Rec], ty: usize, until: u64) -> Vec<(u64, String)> {
    let mut calls: BTreeMap<usize, String> = BTreeMap::new();
    let mut v = vec![];
    for r in log {
        if r.t >= until {
            break;
        }
        match &r.ev {
            Ev::Call { call, op } => {
                let t = match op {
                    OpRec::Submit { ty, .. }
                    | OpRec::Cancel { ty, .. }
                    | OpRec::Update { ty, .. }
                    | OpRec::Retry { ty, .. }
                    | OpRec::Get { ty, .. }
                    | OpRec::Config { ty, .. } => *ty,
                    OpRec::Plugin { .. } => continue,
                };
                if t == ty {
                    calls.insert(*call, format!("{op:?}"));
                }
            }
            Ev::Ret { call, res } => {
                if let Some(o) = calls.remove(call) {
                    v.push((r.t, format!("{o} -> {res:?}")));
                }
            }
            Ev::Pre { ty: t, .. } | Ev::Start { ty: t, .. } | Ev::End { ty: t, .. } | Ev::Post { ty: t, .. } | Ev::RetryAsk { ty: t, .. } if *t == ty => {
                v.push((r.t, format!("{:?}", r.ev)));
            }
            _ => {}
        }
    }
    v.sort();
    v
}

fn run_types(v: &Value) -> Verdict {
    let Ok(c) = serde_json::from_value::<Case>(v.clone()) else { return Verdict::default() };
    if c.clients.iter().flatten().any(|s| matches!(s.op, Op::Config { tick_ms: 0, .. } | Op::Par(_) | Op::Burst { how: How::JustRun, .. } | Op::Submit { auto: true, .. })) {
        return Verdict::default();
    }
    let mut types: Vec<usize> = c.clients.iter().flatten().filter_map(|s| monitor::op_ty(&s.op)).collect();
    types.sort();
    types.dedup();
    let mut out = Verdict::default();
    if types.len() < 2 {
        return out;
    }
    let (full, _) = match run_engine(&c) {
        Ok(x) => x,
        Err(e) => return fork_verdict(e),
    };
    // runs that block make the clients end at different times: the final look-ups do not compare
    let blocking = c.clients.iter().flatten().any(|s| matches!(&s.op, Op::Submit { p, .. } | Op::Update { p, .. } if p.runs.iter().any(|x| x.block)));
    if blocking && c.clients.iter().any(|v| v.iter().any(|s| monitor::op_ty(&s.op) != v.first().and_then(|f| monitor::op_ty(&f.op)))) {
        return out;
    }
    let cut = |l: &[Rec]| l.iter().find(|r| matches!(r.ev, Ev::Cut) || blocking && matches!(r.ev, Ev::Sweep)).map_or(u64::MAX, |r| r.t);
    let mut busy = 0;
    for ty in types {
        let mut c2 = c.clone();
        for s in c2.clients.iter_mut().flatten() {
            if monitor::op_ty(&s.op).is_some_and(|t| t != ty) {
                s.op = Op::Nop;
            }
        }
        let (solo, _) = match run_engine(&c2) {
            Ok(x) => x,
            Err(e) => return fork_verdict(e),
        };
        let until = cut(&full).min(cut(&solo));
        let (a, b) = (project(&full, ty, until), project(&solo, ty, until));
        let runs = b.iter().filter(|x| x.1.starts_with("Start")).count();
        *out.stats.entry("events_compared".into()).or_insert(0) += b.len() as u64;
        *out.stats.entry("runs".into()).or_insert(0) += runs as u64;
        busy += (runs >= 2) as usize;
        if a != b {
            let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            let f = |v: &Vec<(u64, String)>| v.get(i).map_or("nothing".into(), |x| format!("at {} ns {}", x.0, x.1.chars().take(300).collect::<String>()));
            out.viols.push(viol("C21", "interference", format!("type {ty}: with the other types {}; without them {}", f(&a), f(&b))));
        }
    }
    out.nontrivial = busy >= 2;
    out
}

pub fn types_part() -> Part {
    Part { name: "types", gen: gen_types, run: run_types, quick: 4000, weight: 1 }
}

/// Known finding K-IDS: all types share one record per job id.
pub fn probe_shared_ids() -> Option<bool> {
    let o = forked::run(|| {
        install_panic_hook();
        sim::enable(1, 1_700_000_000_000_000_000, |w| abort_case(w));
        let r = actix_rt::System::new().block_on(async {
            AJ::quick_start();
            let p = Payload { tag: 1, ..Default::default() };
            let far = chrono::Duration::seconds(100);
            let _ = Alpha::make(p.clone()).job().set_id("same".into()).delay(far).run().await;
            let _ = Beta::make(p).job().set_id("same".into()).delay(far).run().await;
            AJ::get_job::<Alpha>("same").await.is_none()
        });
        Outcome::Val(json!(r))
    });
    match o {
        Ok(Outcome::Val(v)) => v.as_bool(),
        _ => None,
    }
}

// ---------------------------------------------------------------- C14: data that cannot be stored

/// JSON has no maps with such keys: data with a non-empty map cannot be stored.
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
pub struct Odd {
    tag: u32,
    m: BTreeMap<(u8, u8), u8>,
}
static ODD_RUNS: Mutex<Vec<(String, u32)>> = Mutex::new(Vec::new());
#[async_trait]
impl Executable for Odd {
    type Output = ();
    async fn execute(&mut self, ctx: &JobContext) {
        ODD_RUNS.lock().unwrap().push((ctx.job_id.clone(), self.tag));
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OddOp {
    slot: u8,
    bad: bool,
    how: u8,
    delayed: bool,
    tag: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OddCase {
    seed: u64,
    ops: Vec<OddOp>,
}
fn gen_odd(r: &mut Rng, _t: Tier) -> Value {
    let n = 2 + r.below(9);
    let ops = (0..n)
        .map(|i| OddOp { slot: r.below(3) as u8, bad: r.chance(50), how: r.below(4) as u8, delayed: r.chance(30), tag: i as u32 + 1 })
        .collect();
    serde_json::to_value(OddCase { seed: r.next(), ops }).unwrap()
}
fn run_odd(v: &Value) -> Verdict {
    let Ok(c) = serde_json::from_value::<OddCase>(v.clone()) else { return Verdict::default() };
    let c2 = c.clone();
    let o = forked::run(move || {
        install_panic_hook();
        sim::enable(c2.seed, 1_700_000_000_000_000_000, |w| abort_case(w));
        let problems = actix_rt::System::new().block_on(async {
            AJ::quick_start();
            let mut out: Vec<String> = vec![];
            // what is expected per id: (tag, waiting)
            let mut model: BTreeMap<u8, (u32, bool)> = BTreeMap::new();
            let mut want: Vec<(String, u32)> = vec![];
            for o in &c2.ops {
                let id = format!("o{}", o.slot);
                let mut m = BTreeMap::new();
                if o.bad {
                    m.insert((1, 2), 3);
                }
                let mut job = Odd { tag: o.tag, m }.job().set_id(id.clone());
                if o.delayed {
                    job = job.delay(chrono::Duration::seconds(10_000_000));
                }
                let fut = async {
                    match o.how {
                        0 => {
                            job.just_run();
                            None
                        }
                        1 => Some(AJ::add_job(job, Odd::queue_name()).await.map(|_| ())),
                        2 => Some(AJ::enqueue_job(job, aj::queue::EnqueueConfig::new_re_run(), Odd::queue_name()).await),
                        _ => Some(job.run().await.map(|_| ())),
                    }
                };
                match actix_rt::time::timeout(Duration::from_secs(1000), fut).await {
                    Err(_) => out.push(format!("submission {} was not answered", o.tag)),
                    Ok(Some(Ok(()))) if o.bad => out.push(format!("submission {} with data that cannot be stored was accepted", o.tag)),
                    Ok(Some(Err(e))) if !o.bad => out.push(format!("submission {} was refused: {e:?}", o.tag)),
                    _ => {}
                }
                if !o.bad {
                    model.insert(o.slot, (o.tag, o.delayed));
                    if !o.delayed {
                        want.push((id.clone(), o.tag));
                    }
                }
                sim::sleep_ns(2_000_000_000).await;
                for (slot, (tag, waiting)) in &model {
                    let j = AJ::get_job::<Odd>(&format!("o{slot}")).await;
                    match j {
                        None => out.push(format!("o{slot} is not found after submission {}", o.tag)),
                        Some(j) if j.data.tag != *tag || !j.data.m.is_empty() => {
                            out.push(format!("o{slot} has data {:?}, expected tag {tag}", j.data))
                        }
                        Some(j) => {
                            let ok = if *waiting { j.is_queued() } else { j.context.job_status == aj::job::JobStatus::Finished };
                            if !ok {
                                out.push(format!("o{slot} is {:?} after submission {}", j.context.job_status, o.tag));
                            }
                        }
                    }
                }
                if !model.contains_key(&o.slot) && AJ::get_job::<Odd>(&id).await.is_some() {
                    out.push(format!("{id} exists although its only submissions were refused"));
                }
                if *ODD_RUNS.lock().unwrap() != want {
                    out.push(format!("runs {:?}, expected {want:?}", ODD_RUNS.lock().unwrap()));
                }
                if !out.is_empty() {
                    break;
                }
            }
            out
        });
        let mut problems = problems;
        for r in take_log() {
            if let Ev::Panic { msg } = r.ev {
                problems.push(msg);
            }
        }
        Outcome::Val(json!(problems))
    });
    let mut v = Verdict::default();
    match o {
        Err(e) => return fork_verdict(e),
        Ok(Outcome::Val(p)) => {
            for p in p.as_array().cloned().unwrap_or_default() {
                v.viols.push(viol("C14", "refusal", p.as_str().unwrap_or("").into()));
            }
        }
        Ok(Outcome::Log { log, .. }) => {
            let m = log.iter().rev().find_map(|r| if let Ev::Panic { msg } = &r.ev { Some(msg.clone()) } else { None });
            v.viols.push(viol("C14", "refusal", m.unwrap_or_default()));
        }
        _ => v.inconclusive = Some("no result".into()),
    }
    v.stats.insert("refused_submissions".into(), c.ops.iter().filter(|o| o.bad).count() as u64);
    v.nontrivial = c.ops.iter().any(|o| o.bad) && c.ops.iter().any(|o| !o.bad);
    v
}
pub fn odd_part() -> Part {
    Part { name: "unstorable", gen: gen_odd, run: run_odd, quick: 600, weight: 1 }
}
