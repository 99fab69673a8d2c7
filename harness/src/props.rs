//! The properties: what is generated for each, and how a run is judged.
use std::collections::{BTreeMap, HashMap};

use serde_json::Value;

use crate::engine::*;
use crate::forked::{self, ForkErr, Outcome};
use crate::gen::{self, Prof};
use crate::jobs::*;
use crate::monitor::{self, Viol};
use crate::rng::Rng;
use crate::runner::*;

pub type Stats = BTreeMap<String, u64>;

/// Run one case (with its crash, if any) against the real engine.
/// Waiting jobs times ticks: a long wait of many jobs costs too much behind the Redis server.
fn costly(c: &Case) -> bool {
    let mut jobs = 0u64;
    let mut gaps = 0u64;
    let mut tick = 100u64;
    for s in c.clients.iter().flatten() {
        gaps = gaps.saturating_add(s.gap_us);
        match &s.op {
            Op::FarBurst { n, .. } | Op::Burst { n, .. } => jobs += *n as u64,
            Op::Config { tick_ms, .. } => tick = tick.min(*tick_ms),
            Op::Par(v) => jobs += v.len() as u64,
            _ => jobs += 1,
        }
    }
    let ticks = c.settle_us.saturating_add(gaps) / 1000 / tick.max(1);
    jobs.saturating_mul(ticks) > 20_000
}

pub fn run_engine(case: &Case) -> Result<(Vec<Rec>, u64), ForkErr> {
    let mut c = case.clone();
    if c.be == Be::Redis && !c.faults.server && costly(&c) {
        c.be = Be::Mem;
    }
    let o = forked::run(move || {
        let log = run_child(&c, None);
        Outcome::Log { log, steps: crate::sim::steps() }
    })?;
    match o {
        Outcome::Log { log, steps } => Ok((log, steps)),
        Outcome::Crashed { mut log, store, vnow } => {
            let mut execs: HashMap<(usize, String), usize> = HashMap::new();
            for r in &log {
                if let Ev::Start { ty, id, .. } = &r.ev {
                    *execs.entry((*ty, id.clone())).or_insert(0) += 1;
                }
            }
            log.push(Rec { t: vnow, ev: Ev::Crash });
            let c = case.clone();
            let o = forked::run(move || {
                let log = run_child(&c, Some((store, vnow + c.down_us * 1000, execs)));
                Outcome::Log { log, steps: crate::sim::steps() }
            })?;
            match o {
                Outcome::Log { log: l2, steps } => {
                    log.extend(l2);
                    Ok((log, steps))
                }
                _ => Err(ForkErr::Timeout),
            }
        }
        Outcome::Val(_) => Err(ForkErr::Timeout),
    }
}

pub fn fork_verdict(e: ForkErr) -> Verdict {
    let mut v = Verdict::default();
    match e {
        ForkErr::Timeout => v.inconclusive = Some("no answer from the case process".into()),
        ForkErr::Spins => v.viols.push(Viol {
            props: vec!["*".into()],
            kind: "livelock".into(),
            msg: format!("the case process used {} s of CPU without finishing", forked::CPU_LIMIT_S),
            t: 0,
        }),
        ForkErr::Died(w) => v.viols.push(Viol {
            props: vec!["*".into()],
            kind: "abort".into(),
            msg: format!("the case process died: {w}"),
            t: 0,
        }),
    }
    v
}

fn parse<T: serde::de::DeserializeOwned>(v: &Value) -> Option<T> {
    serde_json::from_value(v.clone()).ok()
}
fn bad_case() -> Verdict {
    Verdict::default()
}

type Ablate = fn(&Case) -> Case;

pub fn judge(case: &Case) -> Verdict {
    if case.clients.iter().flatten().chain(&case.after_crash).any(|s| matches!(s.op, Op::Config { tick_ms: 0, .. })) {
        return bad_case();
    }
    match run_engine(case) {
        Err(e) => fork_verdict(e),
        Ok((log, steps)) => {
            let rep = monitor::check(case, &log);
            let mut v = Verdict::default();
            v.viols = rep.viols;
            v.stats = rep.stats.into_iter().map(|(k, n)| (k.to_string(), n)).collect();
            v.stats.insert("scheduling_steps".into(), steps);
            if steps >= crate::sim::MAX_STEPS && v.viols.is_empty() {
                v.inconclusive = Some("cut off: too many steps".into());
            }
            v
        }
    }
}

/// Judge a case for one property; a violation of another kind counts for this property as well if
/// it disappears when the operations this property is about are taken out of the case.
fn engine_run(id: &str, case: &Value, ablate: Option<Ablate>, nontrivial: fn(&Stats) -> bool) -> Verdict {
    let Some(case) = parse::<Case>(case) else { return bad_case() };
    let mut v = judge(&case);
    v.nontrivial = nontrivial(&v.stats);
    if !v.viols.is_empty() && mine(id, &v.viols).is_empty() {
        if let Some(a) = ablate {
            let c2 = a(&case);
            if c2 != case {
                let v2 = judge(&c2);
                if v2.inconclusive.is_none() && v2.viols.is_empty() {
                    for x in v.viols.iter_mut() {
                        x.props.push(id.into());
                        x.msg.push_str(" [and not without the operations this property is about]");
                    }
                }
            }
        }
    }
    v
}

fn s(st: &Stats, k: &str) -> u64 {
    st.get(k).copied().unwrap_or(0)
}
fn sum(st: &Stats, ks: &[&str]) -> u64 {
    ks.iter().map(|k| s(st, k)).sum()
}

fn drop_ops(c: &Case, f: impl Fn(&Op) -> bool) -> Case {
    let mut c = c.clone();
    for st in c.clients.iter_mut().flatten() {
        if f(&st.op) {
            st.op = Op::Nop;
        }
    }
    c
}
fn no_cancel(c: &Case) -> Case {
    drop_ops(c, |o| matches!(o, Op::Cancel { .. }))
}
fn no_update(c: &Case) -> Case {
    drop_ops(c, |o| matches!(o, Op::Update { .. }))
}
fn no_mretry(c: &Case) -> Case {
    drop_ops(c, |o| matches!(o, Op::Retry { .. }))
}
fn no_plugins(c: &Case) -> Case {
    let mut c = drop_ops(c, |o| matches!(o, Op::Plugin { .. }));
    c.plugins.clear();
    c
}
fn no_config(c: &Case) -> Case {
    drop_ops(c, |o| matches!(o, Op::Config { .. }))
}
fn no_get(c: &Case) -> Case {
    drop_ops(c, |o| matches!(o, Op::Get { .. }))
}
fn no_retry_policy(c: &Case) -> Case {
    let mut c = c.clone();
    for st in c.clients.iter_mut().flatten() {
        match &mut st.op {
            Op::Submit { retry, .. } => *retry = None,
            Op::Update { ctx: Some(ctx), .. } => ctx.retry = None,
            _ => {}
        }
    }
    c
}
fn no_cron(c: &Case) -> Case {
    let mut c = c.clone();
    let fix = |s: &mut Sched| {
        if let Sched::Cron(..) = s {
            *s = Sched::Now
        }
    };
    for st in c.clients.iter_mut().flatten() {
        match &mut st.op {
            Op::Submit { sched, .. } => fix(sched),
            Op::Update { ctx: Some(ctx), .. } => fix(&mut ctx.sched),
            _ => {}
        }
    }
    c
}
fn no_sched(c: &Case) -> Case {
    let mut c = c.clone();
    let fix = |s: &mut Sched| {
        if let Sched::At(..) | Sched::Delay(..) = s {
            *s = Sched::Now
        }
    };
    for st in c.clients.iter_mut().flatten() {
        match &mut st.op {
            Op::Submit { sched, .. } => fix(sched),
            Op::Update { ctx: Some(ctx), .. } => fix(&mut ctx.sched),
            Op::FarBurst { .. } => st.op = Op::Nop,
            _ => {}
        }
    }
    c
}
fn no_panics(c: &Case) -> Case {
    let mut c = c.clone();
    for st in c.clients.iter_mut().flatten() {
        match &mut st.op {
            Op::Submit { p, .. } | Op::Update { p, .. } => {
                for r in p.runs.iter_mut() {
                    r.panic = 0;
                }
            }
            _ => {}
        }
    }
    c
}

fn no_spoil(c: &Case) -> Case {
    drop_ops(c, |o| matches!(o, Op::Spoil { .. }))
}

/// Histories in which records become unreadable or vanish: these jobs are unknown from then on (and
/// can be submitted again), all others go on as if nothing had happened.
fn spoil_gen(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof {
        bes: vec![Be::Ref],
        ops: [45, 8, 4, 30, 4, 5, 12, 2, 0],
        sched: [35, 35, 15, 12],
        nslots: 6,
        maxes: vec![1, 1, 2, 3, 20],
        ..Prof::default()
    };
    let mut c = gen::case(r, &p);
    for st in c.clients.iter_mut().flatten() {
        if let Op::Cancel { ty, slot } = st.op {
            if r.chance(80) {
                st.op = Op::Spoil { ty, slot, kind: r.below(8) as u8 };
            }
        }
    }
    serde_json::to_value(c).unwrap()
}
fn spoil_part(id: &'static str) -> Part {
    fn nt(st: &Stats) -> bool {
        s(st, "spoiled") > 0 && s(st, "runs") >= 2
    }
    fn c01(v: &Value) -> Verdict {
        engine_run("C01", v, Some(no_spoil), nt)
    }
    fn c14(v: &Value) -> Verdict {
        engine_run("C14", v, Some(no_spoil), nt)
    }
    Part { name: "unreadable", gen: spoil_gen, run: if id == "C01" { c01 } else { c14 }, quick: 500, weight: 4 }
}

/// the same histories behind (and in front of) hundreds of jobs that are not due
fn deepen(r: &mut Rng, c: &mut Case) {
    let ops: Vec<usize> = c.clients.iter().flatten().filter_map(|s| crate::monitor::op_ty(&s.op)).collect();
    if ops.is_empty() {
        return;
    }
    for i in 0..1 + r.below(2) {
        let ty = *r.pick(&ops);
        let k = r.below(c.clients.len() as u64) as usize;
        let at = if i == 0 { 0 } else { r.below(c.clients[k].len() as u64 + 1) as usize };
        let op = Op::FarBurst { ty, n: 40 + r.below(220) as u16, delay_us: 40_000_000_000_000 };
        c.clients[k].insert(at, Step { gap_us: 0, op });
    }
}
macro_rules! deep_part {
    ($id:expr, $quick:expr, $prof:expr, $ablate:expr, $nt:expr) => {{
        fn gen_case(r: &mut Rng, _t: Tier) -> Value {
            let p: Prof = $prof;
            let mut c = gen::case(r, &p);
            deepen(r, &mut c);
            serde_json::to_value(c).unwrap()
        }
        fn run_case(v: &Value) -> Verdict {
            let a: Option<Ablate> = $ablate;
            engine_run($id, v, a, $nt)
        }
        Part { name: "deep", gen: gen_case, run: run_case, quick: $quick, weight: 1 }
    }};
}
/// One to three jobs with long lives: hundreds of repetitions, attempts, manual retries or resubmissions.
fn gen_marathon(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof { scales: vec![0], max_types: 1, types: vec![0, 1, 2, 3], steps: (0, 0), clients: 1, p_plugins: 10, ..Prof::default() };
    let mut c = gen::case(r, &p);
    let ty = *r.pick(&p.types);
    let fast = r.chance(60);
    let tick_us: u64 = if fast { 100_000 } else { 1_000_000 };
    let mut steps = vec![
        Step { gap_us: 0, op: Op::Burst { ty, n: 1, how: How::Run, dur_us: 0 } },
        Step { gap_us: 0, op: Op::Config { ty, tick_ms: tick_us / 1000, max: *r.pick(&[1usize, 2, 20]) } },
    ];
    let jobs = 1 + r.below(3) as u8;
    let many = |r: &mut Rng| {
        let n = *r.pick(&[30u64, 120, 300]);
        20 + r.below(n) as i32
    };
    for slot in 0..jobs {
        let ever = r.chance(60);
        let mut runs = vec![];
        for _ in 0..if ever { 0 } else { 10 + r.below(200) } {
            runs.push(RunSpec { dur_us: if r.chance(80) { 0 } else { r.below(3 * tick_us) }, fail: r.chance(85), ..Default::default() });
        }
        runs.push(RunSpec { fail: ever, ..Default::default() });
        let max = if r.chance(30) { None } else { Some(many(r)) };
        let (sched, retry) = match r.below(4) {
            0 => (Sched::Cron("* * * * * * *".into(), max, None), None),
            1 => (Sched::Now, Some(RetrySpec::Interval(max, r.below(2 * tick_us) as i64))),
            2 => (Sched::Cron("*/2 * * * * * *".into(), max, None), Some(RetrySpec::Interval(max, r.below(tick_us) as i64))),
            _ => (Sched::Now, None),
        };
        let p = Payload { tag: r.below(1000) as u32, counter: r.below(1000) as u32, runs, ..Default::default() };
        steps.push(Step { gap_us: r.below(tick_us), op: Op::Submit { ty, slot, auto: false, how: How::Run, sched, retry, p } });
    }
    let again = r.weighted(&[30, 35, 35]);
    for _ in 0..20 + r.below(150) {
        let slot = r.below(jobs as u64) as u8;
        let op = match again {
            1 if r.chance(70) => Op::Retry { ty, slot },
            2 if r.chance(70) => Op::Submit { ty, slot, auto: false, how: How::Run, sched: Sched::Now, retry: None, p: Payload { runs: vec![RunSpec { fail: r.chance(30), ..Default::default() }], ..Default::default() } },
            _ => Op::Get { ty, slot },
        };
        steps.push(Step { gap_us: tick_us / 2 + r.below(3 * tick_us), op });
    }
    for slot in 0..jobs {
        steps.push(Step { gap_us: r.below(tick_us), op: Op::Get { ty, slot } });
    }
    c.clients = vec![steps];
    c.be = *r.pick(&[Be::Mem, Be::Ref]);
    c.settle_us = 6 * tick_us;
    serde_json::to_value(c).unwrap()
}
macro_rules! marathon_part {
    ($id:expr) => {{
        fn run_case(v: &Value) -> Verdict {
            engine_run($id, v, None, |st| s(st, "runs") >= 40)
        }
        Part { name: "marathon", gen: gen_marathon, run: run_case, quick: 80, weight: 1 }
    }};
}
macro_rules! engine_part {
    ($name:expr, $id:expr, $quick:expr, $prof:expr, $ablate:expr, $nt:expr) => {{
        fn gen_case(r: &mut Rng, _t: Tier) -> Value {
            let p: Prof = $prof;
            serde_json::to_value(gen::case(r, &p)).unwrap()
        }
        fn run_case(v: &Value) -> Verdict {
            let a: Option<Ablate> = $ablate;
            engine_run($id, v, a, $nt)
        }
        Part { name: $name, gen: gen_case, run: run_case, quick: $quick, weight: 8 }
    }};
}

const ENGINE_ASSUMPTIONS: &[&str] = &[
    "time, thread scheduling and blocking are virtualised by interposing libc calls; the engine itself runs unchanged on the real actix/tokio runtimes",
    "thread switches happen where threads block (not inside a handler); each generated operation falls on its own virtual instant",
    "durations are bounded (tens to thousands of queue ticks per case)",
];

fn prop(id: &'static str, rule: &'static str, parts: Vec<Part>) -> Prop {
    Prop { id, level: "exploration", rule, parts, known: vec![], assumptions: ENGINE_ASSUMPTIONS.to_vec(), once: None }
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.push(prop(
        "C01",
        "Random histories (1-2 clients, 1-2 job types, submissions immediate/delayed/scheduled/cron, bursts up to 60 jobs, far-future backlog, limits 1..40, ticks 20 ms..1 day, cancel/update/retry/config mixed in) on a virtual clock; and due jobs behind 200-2200 jobs that are not due; and 10-100 mostly fire-and-forget calls at one instant; non-trivial: at least 3 runs and at least one of: backlog larger than the limit, delayed start, retry, repetition.",
        vec![
            engine_part!("mixed", "C01", 2400, Prof::default(), None, |st| s(st, "runs") >= 3
                && sum(st, &["limit_reached", "scheduled_starts", "retry_planned", "cron_runs"]) > 0),
            engine_part!(
                "backlog",
                "C01",
                900,
                Prof {
                    ops: [25, 22, 18, 4, 4, 3, 3, 3, 0],
                    burst: (5, 70),
                    maxes: vec![1, 2, 3, 7, 20, 40, 1 << 31, 1 << 32, usize::MAX],
                    steps: (2, 12),
                    settle_ticks: (40, 160),
                    scales: vec![0, 0, 1],
                    ..Prof::default()
                },
                None,
                |st| s(st, "runs") >= 10 && s(st, "limit_reached") > 0
            ),
            Part { name: "shower", gen: gen_shower, run: run_shower, quick: 150, weight: 1 },
            Part { name: "huge-backlog", gen: gen_huge, run: run_huge, quick: 60, weight: 1 },
            spoil_part("C01"),
        ],
    ));
    v.push(prop(
        "C02",
        "Histories that resubmit few ids again and again in every state (waiting, executing, done), through run, add_job, just_run and enqueue_job with all EnqueueConfig values; and ids given out by the library, by several threads and processes; non-trivial: at least two different resubmission states occur. Last search (\"marathon\"): one to three jobs with 20 to 300 runs each, non-trivial: at least 40 runs.",
        vec![
            engine_part!(
                "resubmit",
                "C02",
                6000,
                Prof { ops: [70, 3, 1, 6, 4, 4, 8, 3, 0], nslots: 3, p_cfg_how: 15, dur: [25, 10, 35, 30], ..Prof::default() },
                None,
                |st| (s(st, "submit_waiting") > 0) as u8 + (s(st, "submit_running") > 0) as u8 + (s(st, "submit_done") > 0) as u8 >= 2
            ),
            crate::pure::ids_part(),
            marathon_part!("C02"),
        ],
    ));
    v.push(prop(
        "C03",
        "Histories dominated by delayed/scheduled jobs (instants from years in the past to years ahead, microsecond offsets, mixed submission order, limits, updates of the instant, now and then a quiet time of up to 2000 ticks before a call); non-trivial: at least 2 scheduled starts.",
        vec![engine_part!(
            "scheduled",
            "C03",
            2600,
            Prof { sched: [15, 45, 35, 5], ops: [60, 3, 8, 5, 8, 4, 6, 4, 0], nslots: 8, p_retry: 10, p_long: 4, ..Prof::default() },
            Some(no_sched),
            |st| s(st, "scheduled_starts") >= 2
        )],
    ));
    v.push(prop(
        "C04",
        "Histories dominated by cron jobs (expressions from every second to yearly, finite expressions, max repeats -1..12, end times, runs shorter and longer than the slot distance, failing runs, cancel/update/retry in between) plus arbitrary strings as cron expressions; non-trivial: at least 2 cron runs or a cron job that ended. Last search (\"marathon\"): one to three jobs with 20 to 300 runs each, non-trivial: at least 40 runs.",
        vec![
            engine_part!(
                "cron",
                "C04",
                6000,
                Prof { sched: [10, 5, 5, 80], nslots: 4, p_retry: 15, settle_ticks: (60, 160), steps: (1, 14), ops: [50, 2, 1, 8, 8, 8, 14, 3, 0], ..Prof::default() },
                Some(no_cron),
                |st| s(st, "cron_runs") >= 2 || s(st, "cron_ended") > 0
            ),
            crate::pure::cron_part(),
            marathon_part!("C04"),
        ],
    ));
    v.push(prop(
        "C05",
        "Histories dominated by failing jobs with retry policies (interval and exponential, max -1..5 and none, delays 0..several ticks, custom retry decisions, cron jobs with retries, outcome turned around by post_execute, cancel/update/resubmit between attempts); non-trivial: at least 2 automatic retries observed. Last search (\"marathon\"): one to three jobs with 20 to 300 runs each, non-trivial: at least 40 runs.",
        vec![engine_part!(
            "retry",
            "C05",
            7000,
            Prof { p_retry: 85, p_fail: 75, sched: [55, 15, 5, 25], nslots: 4, steps: (1, 14), settle_ticks: (50, 150), ops: [50, 3, 1, 8, 8, 8, 12, 3, 0], ..Prof::default() },
            Some(no_retry_policy),
            |st| sum(st, &["auto_retries", "cron_retries"]) >= 2
        ), marathon_part!("C05")],
    ));
    v.push(prop(
        "C06",
        "Histories with frequent cancels of jobs in every state (waiting, scheduled, cron, between retries, executing, done, unknown), followed by time for the job to run anyway; a second search (\"deep\") does so among hundreds of jobs that are not due; non-trivial: at least one cancel of a waiting job and one other cancel.",
        vec![deep_part!("C06", 100, Prof { ops: [45, 4, 0, 40, 2, 4, 5, 1, 0], scales: vec![0, 0, 1], nslots: 5, steps: (3, 14), settle_ticks: (10, 40), ..Prof::default() }, Some(no_cancel), |st| s(st, "cancel_waiting") > 0), engine_part!(
            "cancel",
            "C06",
            4500,
            Prof { ops: [45, 4, 3, 35, 4, 5, 8, 2, 0], sched: [25, 30, 15, 20], p_retry: 40, p_fail: 50, nslots: 5, ..Prof::default() },
            Some(no_cancel),
            |st| s(st, "cancel_waiting") > 0 && sum(st, &["cancel_waiting", "cancel_running", "cancel_done", "cancel_unknown"]) >= 2
        )],
    ));
    v.push(prop(
        "C07",
        "Histories with frequent updates in every state, with and without a new context (schedule, retry policy, foreign or empty id, arbitrary status and run count in the context); a second search (\"deep\") does so among hundreds of jobs that are not due; non-trivial: at least one update of a waiting and one of a done job.",
        vec![deep_part!("C07", 100, Prof { ops: [45, 4, 0, 3, 40, 3, 5, 1, 0], scales: vec![0, 0, 1], nslots: 5, steps: (3, 14), settle_ticks: (10, 40), ..Prof::default() }, Some(no_update), |st| s(st, "update_waiting") > 0), engine_part!(
            "update",
            "C07",
            4500,
            Prof { ops: [40, 5, 2, 5, 35, 4, 8, 2, 0], nslots: 4, ..Prof::default() },
            Some(no_update),
            |st| s(st, "update_waiting") > 0 && s(st, "update_done") > 0
        )],
    ));
    v.push(prop(
        "C08",
        "Histories with frequent manual retries of jobs in every state (finished, failed, cancelled, waiting, executing, unknown), for plain, scheduled and cron jobs with and without retry policies; a second search (\"deep\") does so among hundreds of jobs that are not due; non-trivial: at least one granted and one refused manual retry. Last search (\"marathon\"): one to three jobs with 20 to 300 runs each, non-trivial: at least 40 runs.",
        vec![deep_part!("C08", 100, Prof { ops: [45, 3, 0, 10, 2, 36, 5, 1, 0], scales: vec![0, 0, 1], nslots: 5, steps: (3, 14), settle_ticks: (10, 40), ..Prof::default() }, Some(no_mretry), |st| sum(st, &["mretry_finished", "mretry_failed", "mretry_canceled"]) > 0), engine_part!(
            "manual-retry",
            "C08",
            4500,
            Prof { ops: [40, 3, 2, 12, 4, 35, 8, 2, 0], nslots: 4, p_fail: 45, p_panic: 2, ..Prof::default() },
            Some(no_mretry),
            |st| sum(st, &["mretry_finished", "mretry_failed", "mretry_canceled"]) > 0
                && sum(st, &["mretry_waiting", "mretry_running", "mretry_unknown"]) > 0
        ), marathon_part!("C08")],
    ));
    v.push(prop(
        "C09",
        "Histories with long runs, bursts and frequent changes of limit (0..40) and tick while jobs execute, on 1-3 types; a second search (\"wide\") has limits of hundreds and as many jobs due at once. Non-trivial: the limit was reached and the configuration changed at least once (wide: at least 50 runs).",
        vec![Part { name: "wide", gen: gen_wide, run: run_wide, quick: 60, weight: 1 }, engine_part!(
            "limit",
            "C09",
            2200,
            Prof { ops: [40, 18, 3, 4, 3, 4, 4, 24, 0], dur: [10, 5, 35, 50], burst: (2, 30), max_types: 3, maxes: vec![1, 1, 2, 3, 4, 6, 20, 40, 1 << 32, usize::MAX], nslots: 12, ..Prof::default() },
            Some(no_config),
            |st| s(st, "limit_reached") > 0 && s(st, "config") > 0
        )],
    ));
    v.push(prop(
        "C10",
        "Histories with look-ups after every few operations, in every state, all schedules and policies, odd ids and payloads; a third search injects backend failures; a second search (\"deep\") does so among hundreds of jobs that are not due; non-trivial: look-ups in at least 3 different states (a failure and 3 look-ups in the third). Last search (\"marathon\"): one to three jobs with 20 to 300 runs each, non-trivial: at least 40 runs.",
        vec![deep_part!("C10", 100, Prof { ops: [40, 3, 0, 6, 5, 5, 40, 1, 0], scales: vec![0, 0, 1], nslots: 5, steps: (3, 14), settle_ticks: (10, 40), ..Prof::default() }, Some(no_get), |st| sum(st, &["get_finished", "get_waiting"]) > 1), engine_part!(
            "lookup",
            "C10",
            4000,
            Prof { ops: [34, 2, 1, 8, 7, 7, 40, 2, 0], nslots: 4, p_fail: 40, dur: [20, 10, 40, 30], p_panic: 2, ..Prof::default() },
            Some(no_get),
            |st| ["get_waiting", "get_running", "get_finished", "get_failed", "get_canceled"].iter().filter(|k| s(st, k) > 0).count() >= 3
        ), crate::faults::lookup_part(), marathon_part!("C10")],
    ));
    v.push(prop(
        "C11",
        "Histories with 1-3 recording plugins (registered before or in the middle), all job kinds and operations; a second search uses hooks that take time, a third adds a plugin whose every hook panics; a fourth injects backend failures and compares the statuses reported with the statuses stored. Non-trivial: at least 10 plugin callbacks (at least 3 runs with panicking hooks; a failure and 6 reports in the fourth).",
        vec![
            engine_part!(
                "plugins",
                "C11",
                2000,
                Prof { p_plugins: 100, ops: [45, 4, 2, 8, 6, 8, 4, 2, 4], hosts: vec![Host::Actix], max_types: 3, p_panic: 1, ..Prof::default() },
                Some(no_plugins),
                |st| s(st, "plugin_calls") >= 10
            ),
            Part { name: "slow-hooks", gen: gen_slow_hooks, run: run_slow_hooks, quick: 600, weight: 3 },
            Part { name: "panicking-hooks", gen: gen_panicky, run: run_panicky, quick: 400, weight: 2 },
            crate::faults::plugin_part(),
        ],
    ));
    v.last_mut().unwrap().known.push(Known {
        id: "K4",
        what: "AJ::register_plugin panics when the caller is not inside an actix system",
        probe: crate::probes::plugin_host,
    });
    v.push(prop(
        "C12",
        "Bursts and single submissions of immediately due jobs mixed with delayed and far-future ones, backlogs up to 160 jobs, limits 1..40; non-trivial: at least 20 ordered pairs (a start while a later-submitted due job still waits).",
        vec![
            engine_part!(
                "order",
                "C12",
                2000,
                Prof {
                    ops: [35, 30, 15, 4, 6, 4, 0, 3, 0],
                    burst: (2, 60),
                    maxes: vec![1, 1, 2, 3, 5, 7, 20],
                    nslots: 20,
                    steps: (2, 14),
                    sched: [70, 15, 5, 10],
                    scales: vec![0, 0, 1],
                    settle_ticks: (40, 170),
                    ..Prof::default()
                },
                None,
                |st| s(st, "fifo_pairs") >= 20
            ),
        ],
    ));
    v.push(prop(
        "C17",
        "Histories in which a share of the runs panics (in pre_execute, at the start or end of execute, in post_execute), with other jobs of the same and other types executing, waiting and submitted later, look-ups and manual retries of the panicked jobs; non-trivial: at least one panic and at least 3 other runs. Second search (\"storm\"): 15 to 130 panicking runs of few jobs; non-trivial: at least 10 panics.",
        vec![engine_part!(
            "panic",
            "C17",
            6000,
            Prof { p_panic: 22, ops: [50, 6, 2, 4, 4, 12, 10, 2, 0], maxes: vec![1, 1, 2, 3, 20], p_plugins: 15, ..Prof::default() },
            Some(no_panics),
            |st| s(st, "panics") > 0 && s(st, "runs") >= s(st, "panics") + 3
        ), Part { name: "storm", gen: gen_storm, run: run_storm, quick: 120, weight: 1 }],
    ));
    v.push(prop(
        "C22",
        "Histories with many repeated runs of the same jobs (retries, cron, manual retries, resubmissions), data changed by every run, outcomes decided in post_execute; non-trivial: some job ran at least twice (retry, repetition or manual retry). Last search (\"marathon\"): one to three jobs with 20 to 300 runs each, non-trivial: at least 40 runs.",
        vec![engine_part!(
            "steps",
            "C22",
            6000,
            Prof { p_retry: 55, p_fail: 60, ops: [45, 2, 1, 5, 8, 14, 14, 2, 0], nslots: 3, sched: [50, 10, 10, 30], settle_ticks: (40, 130), ..Prof::default() },
            None,
            |st| sum(st, &["auto_retries", "cron_next", "mretry_finished", "mretry_failed"]) > 0 && s(st, "runs") >= 3
        ), marathon_part!("C22")],
    ));
    v.push(Prop {
        id: "C13",
        level: "exploration",
        rule: "Random operation sequences (1-60 operations, in the thorough tier up to 400; few queues, items and hashes, plain and odd strings, counts 0..u64::MAX) on InMemory and on Redis behind an in-process Redis server, compared step by step and at the end with a reference model; non-trivial: at least 6 operations including a move, removal or read of a key. Second search: 2-6 real threads pushing, rotating, moving, removing and writing at once; conservation of items, exactly-once hand-out, complete views while rotating.",
        parts: vec![crate::store::model_part(), crate::store::stress_part()],
        known: vec![],
        assumptions: vec![
            "the Redis server is a stand-in written from the Redis command reference (no server in the sandbox)",
            "rotating a queue onto itself by a huge count (which never ends by definition) is not generated",
            "thread interleavings of the concurrent search are those the operating system produces",
        ],
        once: None,
    });
    v.push(Prop {
        id: "C14",
        level: "exploration",
        rule: "Random jobs (any id, every kind of schedule with instants over the whole range of the calendar, counters and limits over all of i32, every status, policies with any used count and microsecond delay, timestamps and run counts over their range, odd texts in the data), stored through InMemory, Redis and a reference backend and read back by every reader; one in ten each: without job id, cron without context, cron without counter, unreadable text. Non-trivial: a job was stored and read. Second search: submissions of data that cannot be serialised.",
        parts: vec![crate::store::storage_part(), crate::conc::odd_part(), spoil_part("C14")],
        known: vec![],
        assumptions: vec!["data types whose own JSON form does not round-trip (e.g. NaN) are outside the property", "retry delays fit 64-bit microseconds"],
        once: None,
    });
    v.push(Prop {
        id: "C15",
        level: "fault_enumeration",
        rule: "Random histories (plain, delayed, cron and retrying jobs, cancels, updates, manual retries, limits 1..20) cut off just before a generated backend operation, inside a client call or anywhere else; a second process on the surviving contents uses the job types again, repeats submissions that were not acknowledged and adds further operations; the reference model runs across both lives. Second search: the process dies inside a submission, manual retry or cancel, which the client repeats or after which it looks the job up: a job that is then reported as waiting is executed. Non-trivial: the crash happened and at least one acknowledged job was certainly waiting; in the second search, the call was repeated before the job started, or the job looked up when it had to be started.",
        parts: vec![Part { name: "crash", gen: gen_crash, run: run_crash, quick: 8000, weight: 3 }, Part { name: "half-done", gen: gen_half, run: run_half, quick: 2500, weight: 1 }],
        known: vec![
            Known { id: "K1", what: "jobs that were executing when the process died keep occupying slots of the queue after the restart; with as many as the limit, nothing is started any more", probe: crate::probes::crash_slots },
        ],
        assumptions: ENGINE_ASSUMPTIONS.iter().copied().chain(["every single backend operation is atomic and durable", "jobs that were executing, or in the middle of being started or accounted for, at the crash are not judged"]).collect(),
        once: None,
    });
    v.push(Prop {
        id: "C16",
        level: "fault_enumeration",
        rule: "Random histories (submissions, repeated submissions, cancels, manual retries, look-ups, limits 1..20) with generated failures of backend operations: the m-th operation of the n-th client call, and windows of 1..40 operations anywhere, flickering ones, failures aimed at successive calls for one job, on stand-in backends and on Redis with a failing server, then a working backend again. A second search lets commands of the Redis server fail (error replies, closed connections) under arbitrary backend operations: each operation reports an error or has its full effect. Non-trivial: at least one operation failed and at least one job ran.",
        parts: vec![crate::faults::part(), crate::store::redis_failures()],
        known: vec![
            Known { id: "K2", what: "if removing a job from the running list fails when its run ends, its slot is lost for good", probe: crate::probes::slot_release },
            Known { id: "K6", what: "if storing the status of a run that ended fails twice in a row, the job stays reported as running and later submissions of its id are answered with success and ignored", probe: crate::probes::stale_running },
            Known { id: "K7", what: "if moving a job to the running list fails while it is being started, it is reported as running until the next tick, and a cancel in that window is answered with success and ignored", probe: crate::probes::half_started },
        ],
        assumptions: ENGINE_ASSUMPTIONS.iter().copied().chain(["a failing backend operation has no effect", "the removal that frees a slot when a run ends is not made to fail (known finding F-SLOT)"]).collect(),
        once: None,
    });
    v.push(Prop {
        id: "C20",
        level: "exploration",
        rule: "Random retry policies (used count over all of i32, limits over all of i32 and none, interval and exponential delays from negative over zero to the largest) and instants over the whole calendar; 1-12 successive plans with storing and reloading in between, compared with 128-bit arithmetic. Non-trivial: at least two plans in a row.",
        parts: vec![crate::store::retry_part()],
        known: vec![],
        assumptions: vec!["negative delays and negative used counts are only checked for not panicking and for the permission rule"],
        once: None,
    });
    v.push(Prop {
        id: "C18",
        level: "exploration",
        rule: "First search (virtual scheduler): 1-3 waves of up to 9 concurrent first submissions of 1-4 types, awaited and fire-and-forget, with further AJ::start calls on a decoy backend, under an actix system, a tokio runtime and none; judged by the reference model. Second search: 2-6 real threads behind a barrier, each under a generated runtime, start the engine with backends of their own and submit at once; one instance, one backend, every job exactly once, a further type afterwards. Non-trivial: at least two concurrent submissions that ran.",
        parts: vec![crate::conc::first_part(), crate::conc::race_part()],
        known: vec![],
        assumptions: vec![
            "interleavings are those of the virtual scheduler (switches where threads block) and those the operating system produces for real threads",
            "the thread that starts the engine inside an actix system keeps that system running",
        ],
        once: None,
    });
    v.push(Prop {
        id: "C19",
        level: "exploration",
        rule: "Generated programs of 3-10 annotated functions (0-8 by-value arguments of 18 types incl. containers, own structs and enums, some mut, names that clash with those the macro uses; sync and async; 8 return types; nested modules, visibility, attributes), compiled and run: every entry point is called 1-2 times with generated values, and recorded calls, returned ids and stored contexts are compared with the direct call. Non-trivial: a function with at least two arguments and at least five calls.",
        parts: vec![crate::macrogen::part()],
        known: vec![],
        assumptions: vec!["patterns, references, generics and self arguments are not plain by-value arguments", "two functions whose names give the same job name are not generated (see K5)"],
        once: None,
    });
    v.push(Prop {
        id: "C21",
        level: "exploration",
        rule: "Random histories over 2-4 job types (one with the same shape as another and a name that starts like it) with their own limits and ticks, failing, retrying, repeating and panicking jobs; for each type the run is repeated without the operations of the other types, and everything observable of the type (instants, steps, data, answers) must be the same. Non-trivial: at least two types with at least two runs each.",
        parts: vec![crate::conc::types_part()],
        known: vec![Known {
            id: "K3",
            what: "two job types using the same custom job id share one stored record: the later submission replaces the data of the other type's job, which is then not found and never runs",
            probe: crate::conc::probe_shared_ids,
        },
        Known {
            id: "K5",
            what: "two job types with the same struct name: the first use of the second one panics inside the engine, which then accepts no further job type",
            probe: crate::probes::same_name,
        }],
        assumptions: ENGINE_ASSUMPTIONS.iter().copied().chain(["job ids of different types differ (otherwise known finding K3)"]).collect(),
        once: None,
    });
    v.push(prop(
        "C23",
        "Random histories over 1-3 job types (submissions of all kinds, bursts, backlogs, cancels, updates, retries, look-ups, many configuration changes, further AJ::start calls, panicking jobs, in a third of the cases failing backend operations), followed by quiet time; every use of a queue of the backend is logged with its instant. Non-trivial: at least 8 pairs of looks in idle time and 6 other events.",
        vec![crate::looks::part()],
    ));
    v.push(Prop {
        id: "C24",
        level: "exploration",
        rule: "Random sequences of 0-6 builder calls (set_id, context, job_type and their aliases, schedule_at, delay, cron, retry) with instants around now and up to decades away, all statuses, cron limits and end times; the context is compared field by field with the last value given for each, and the questions about the job with their definition. Non-trivial: at least two calls.",
        parts: vec![crate::built::part()],
        known: vec![],
        assumptions: vec!["an answer that depends on the clock is judged when no instant of the job lies between two looks at the clock around the call"],
        once: None,
    });
    v
}

/// Histories that die before a generated backend operation and go on in a second process.
fn gen_crash(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof {
        types: vec![0, 0, 1, 2, 3],
        max_types: 2,
        nslots: 8,
        steps: (1, 12),
        clients: 1,
        ops: [60, 6, 1, 9, 7, 8, 5, 2, 0],
        sched: [45, 30, 12, 13],
        p_retry: 25,
        p_cfg_how: 3,
        p_just: 0,
        maxes: vec![1, 1, 2, 3, 5, 8, 12],
        burst: (1, 5),
        scales: vec![0, 0, 0, 1],
        bes: vec![Be::Ref],
        settle_ticks: (60, 130),
        dur: [40, 15, 30, 15],
        ..Prof::default()
    };
    let mut c = gen::case(r, &p);
    let mut types = vec![];
    for s in c.clients.iter_mut().flatten() {
        if let Op::Submit { auto, .. } = &mut s.op {
            *auto = false;
        }
        if let Some(t) = monitor::op_ty(&s.op) {
            if !types.contains(&t) {
                types.push(t);
            }
        }
    }
    let ncalls: u64 = c.clients.iter().flatten().map(|s| if let Op::Burst { n, .. } | Op::FarBurst { n, .. } = s.op { n as u64 } else { 1 }).sum();
    if r.chance(60) {
        // calls come last in time more often than not: leave waiting jobs behind
        let n = 1 + ncalls.saturating_sub(if r.chance(50) { r.below(3) } else { r.below(ncalls.max(1)) } + 1);
        c.faults.crash_call = Some((n, r.below(6)));
        if r.chance(35) {
            // in the middle of a manual retry or cancel
            let mut k = 0;
            let mut at = vec![];
            for s in c.clients.iter().flatten() {
                k += if let Op::Burst { n, .. } | Op::FarBurst { n, .. } = s.op { n as u64 } else { 1 };
                if let Op::Retry { .. } | Op::Cancel { .. } = s.op {
                    at.push(k);
                }
            }
            if !at.is_empty() {
                c.faults.crash_call = Some((*r.pick(&at), 1 + r.below(5)));
            }
        }
    } else {
        let span = *r.pick(&[40u64, 150, 500, 1200]);
        c.faults.crash_at = Some(r.below(span));
    }
    let tick = c.settle_us / 100;
    let mut after = vec![];
    for ty in &types {
        if r.chance(90) {
            after.push(Step { gap_us: r.below(4 * tick), op: Op::Burst { ty: *ty, n: 1, how: How::Run, dur_us: 0 } });
        }
    }
    let p2 = Prof { ops: [55, 4, 0, 10, 8, 10, 8, 0, 0], ..p.clone() };
    let scale = 0;
    for _ in 0..r.below(8) {
        let ty = if types.is_empty() { 0 } else { *r.pick(&types) };
        let epoch = c.epoch_us;
        let mut g = gen::G::new(r, &p2, 100_000, scale, epoch);
        let gap_us = g.gap();
        let op = g.op(ty);
        after.push(Step { gap_us, op });
    }
    // the client repeats what was not acknowledged, sometimes first of all
    if let Some((n, _)) = c.faults.crash_call {
        if r.chance(60) {
            let mut k = 0;
            for s in c.clients.iter().flatten() {
                k += if let Op::Burst { n, .. } | Op::FarBurst { n, .. } = s.op { n as u64 } else { 1 };
                if k >= n {
                    if let Op::Submit { .. } | Op::Retry { .. } | Op::Cancel { .. } = s.op {
                        let max = if let Op::Submit { .. } = s.op { 2 } else { 5 };
                        let at = r.below(after.len() as u64 + 1).min(max) as usize;
                        after.insert(at.min(after.len()), Step { gap_us: r.below(1000), op: s.op.clone() });
                    }
                    break;
                }
            }
        }
    }
    c.after_crash = after;
    c.down_us = match r.below(4) {
        0 => 0,
        1 => r.below(20 * tick),
        2 => r.below(3_000_000_000),
        _ => r.below(400 * 86_400_000_000),
    };
    serde_json::to_value(c).unwrap()
}
/// Dies in the middle of a manual retry or cancel, which the client repeats in the next life.
fn gen_half(r: &mut Rng, t: Tier) -> Value {
    let mut c: Case = parse(&gen_crash(r, t)).unwrap();
    let ty = *r.pick(&[0usize, 1, 3]);
    let p = Prof { p_retry: 30, p_fail: 50, ..Prof::default() };
    let epoch = c.epoch_us;
    let mut steps = vec![];
    let n = 1 + r.below(4);
    let cancel = r.chance(40);
    let slot = r.below(n) as u8;
    for i in 0..n {
        let mut g = gen::G::new(r, &p, 100_000, 0, epoch);
        let mut pl = g.payload();
        let gap_us = g.gap();
        let retry = if g.r.chance(20) { g.retry() } else { None };
        let sched = if i as u8 == slot && cancel || g.r.chance(30) {
            Sched::Delay(2_000_000 + g.r.below(4_000_000) as i64)
        } else {
            Sched::Now
        };
        pl.runs.truncate(1);
        steps.push(Step { gap_us, op: Op::Submit { ty, slot: i as u8, auto: false, how: How::Run, sched, retry, p: pl } });
    }
    let submit = r.chance(25);
    let op = if submit {
        let mut g = gen::G::new(r, &p, 100_000, 0, epoch);
        let mut pl = g.payload();
        pl.runs.truncate(1);
        let sched = if g.r.chance(30) { Sched::Delay(g.r.below(4_000_000) as i64) } else { Sched::Now };
        let slot = g.r.below(n + 1) as u8;
        Op::Submit { ty, slot, auto: false, how: How::Run, sched, retry: None, p: pl }
    } else if cancel {
        Op::Cancel { ty, slot }
    } else {
        Op::Retry { ty, slot }
    };
    let gap = if cancel { r.below(500_000) } else { 500_000 + r.below(3_000_000) };
    steps.push(Step { gap_us: gap, op: op.clone() });
    c.faults.crash_at = None;
    c.faults.crash_call = Some((n + 1, r.below(7)));
    c.clients = vec![steps];
    let mut after = vec![Step { gap_us: r.below(200_000), op: Op::Burst { ty, n: 1, how: How::Run, dur_us: 0 } }];
    if submit || r.chance(35) {
        // not repeated, but looked up
        let slot = match &op {
            Op::Submit { slot, .. } => *slot,
            _ => slot,
        };
        for _ in 0..3 {
            after.push(Step { gap_us: r.below(6_000_000), op: Op::Get { ty, slot } });
        }
        c.after_crash = after;
        c.settle_us = 12_000_000;
        if c.down_us > 1_000_000 && r.chance(70) {
            c.down_us = r.below(1_000_000);
        }
        return serde_json::to_value(c).unwrap();
    }
    for _ in 0..1 + r.below(2) {
        after.push(Step { gap_us: if r.chance(50) { r.below(1000) } else { r.below(700_000) }, op: op.clone() });
    }
    c.after_crash = after;
    c.settle_us = 12_000_000;
    if c.down_us > 1_000_000 && r.chance(70) {
        c.down_us = r.below(1_000_000);
    }
    serde_json::to_value(c).unwrap()
}
fn run_half(v: &Value) -> Verdict {
    let Some(c) = parse::<Case>(v) else { return bad_case() };
    if c.be != Be::Ref || c.clients.len() > 1 {
        return bad_case();
    }
    engine_run("C15", v, None, |st| sum(st, &["crash_reretried", "crash_recancelled", "crash_halfway_looked_at"]) > 0)
}

fn run_crash(v: &Value) -> Verdict {
    let Some(c) = parse::<Case>(v) else { return bad_case() };
    if c.be != Be::Ref || c.clients.len() > 1 {
        return bad_case();
    }
    engine_run("C15", v, None, |st| s(st, "crashes") > 0 && s(st, "crash_waiting") > 0)
}

fn gen_slow_hooks(r: &mut Rng, _t: Tier) -> Value {
    // hooks of milliseconds up to hours
    let k = *r.pick(&[1u64, 1, 1, 60, 6000, 100_000]);
    let tick_us = k * 100_000;
    let mut steps = vec![];
    if k > 1 {
        for ty in [0usize, 1, 3] {
            steps.push(Step { gap_us: 0, op: Op::Burst { ty, n: 1, how: How::Run, dur_us: 0 } });
            steps.push(Step { gap_us: 0, op: Op::Config { ty, tick_ms: tick_us / 1000, max: 20 } });
        }
    }
    let n = 1 + r.below(8);
    for i in 0..n {
        let delay = r.below(20 * tick_us) as i64;
        let sched = match r.below(3) {
            0 => Sched::Now,
            1 => Sched::Delay(delay),
            _ => Sched::At(delay),
        };
        let mut runs = vec![];
        for _ in 0..1 + r.below(4) {
            runs.push(RunSpec { dur_us: r.below(2 * tick_us), yields: 0, fail: r.chance(50), post_flip: r.chance(10), panic: 0, block: false });
        }
        let retry = if r.chance(50) {
            Some(RetrySpec::Interval(Some(r.below(4) as i32), r.below(4 * tick_us) as i64))
        } else {
            None
        };
        steps.push(Step {
            gap_us: r.below(3 * tick_us),
            op: Op::Submit {
                ty: *r.pick(&[0usize, 1, 3]),
                slot: i as u8,
                auto: r.chance(20),
                how: How::Run,
                sched,
                retry,
                p: Payload { tag: r.below(1000) as u32, runs, ..Default::default() },
            },
        });
    }
    let mut plugins = vec![];
    for _ in 0..1 + r.below(3) {
        plugins.push(if r.chance(75) { 1 + r.below(2 * tick_us) } else { 0 });
    }
    if plugins.iter().all(|d| *d == 0) {
        plugins[0] = 1 + r.below(tick_us);
    }
    let c = Case {
        epoch_us: gen::epoch(r),
        sched_seed: r.next(),
        host: Host::Actix,
        be: *r.pick(&[Be::Mem, Be::Ref]),
        ids: 0,
        names: 0,
        plugins,
        clients: vec![steps],
        settle_us: 260 * tick_us,
        faults: Default::default(),
        after_crash: vec![],
        down_us: 0,
    };
    serde_json::to_value(c).unwrap()
}
fn gen_huge(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof { scales: vec![0], max_types: 1, types: vec![0, 1], steps: (0, 0), clients: 1, ..Prof::default() };
    let mut c = gen::case(r, &p);
    let ty = *r.pick(&p.types);
    let tick_us = 100_000;
    let mut left = r.urange(200, 2200);
    let mut steps = vec![];
    while left > 0 {
        let n = (1 + r.below(900)).min(left);
        left -= n;
        steps.push(Step { gap_us: r.below(2), op: Op::FarBurst { ty, n: n as u16, delay_us: 3_000_000_000 + r.below(1_000_000) as i64 } });
        if r.chance(60) {
            let n = 1 + r.below(30) as u16;
            steps.push(Step { gap_us: r.below(tick_us), op: Op::Burst { ty, n, how: How::Run, dur_us: r.below(3 * tick_us) } });
        }
    }
    let n = 1 + r.below(10) as u16;
    steps.push(Step { gap_us: r.below(tick_us), op: Op::Burst { ty, n, how: How::Run, dur_us: 0 } });
    c.clients = vec![steps];
    c.settle_us = (6 + r.below(8)) * tick_us;
    serde_json::to_value(c).unwrap()
}
/// many calls at one instant, most of them fire-and-forget
fn gen_shower(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof { scales: vec![0], steps: (0, 0), clients: 1, ..Prof::default() };
    let mut c = gen::case(r, &p);
    let types: Vec<usize> = if r.chance(60) { vec![*r.pick(&[0usize, 1, 3])] } else { vec![0, 1] };
    let mut steps = vec![];
    for ty in &types {
        if r.chance(80) {
            steps.push(Step { gap_us: 0, op: Op::Burst { ty: *ty, n: 1, how: How::Run, dur_us: 0 } });
        }
    }
    let mut slot = 0u8;
    for _ in 0..1 + r.below(2) {
        let n = 10 + r.below(90);
        let awaited = *r.pick(&[0u32, 0, 10, 40]);
        let ops = (0..n)
            .map(|_| {
                slot += 1;
                Op::Submit {
                    ty: *r.pick(&types),
                    slot,
                    auto: false,
                    how: if r.chance(awaited) { How::Run } else { How::JustRun },
                    sched: if r.chance(90) { Sched::Now } else { Sched::Delay(r.below(500_000) as i64) },
                    retry: None,
                    p: Payload { tag: r.below(1000) as u32, runs: vec![RunSpec { dur_us: if r.chance(70) { 0 } else { r.below(200_000) }, ..Default::default() }], ..Default::default() },
                }
            })
            .collect();
        steps.push(Step { gap_us: r.below(300_000), op: Op::Par(ops) });
    }
    c.clients = vec![steps];
    c.settle_us = 8_000_000;
    serde_json::to_value(c).unwrap()
}
fn run_shower(v: &Value) -> Verdict {
    engine_run("C01", v, None, |st| s(st, "runs") >= 10)
}
/// limits of hundreds, with as many jobs due at once
fn gen_wide(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof { scales: vec![0], max_types: 1, types: vec![0, 1], steps: (0, 0), clients: 1, ..Prof::default() };
    let mut c = gen::case(r, &p);
    let ty = *r.pick(&p.types);
    let tick_us = *r.pick(&[50_000u64, 100_000, 200_000]);
    let max = *r.pick(&[60usize, 130, 200, 256, 300, 500, 1000, 1 << 32, usize::MAX]);
    let mut steps = vec![
        Step { gap_us: 0, op: Op::Burst { ty, n: 1, how: How::Run, dur_us: 0 } },
        Step { gap_us: r.below(tick_us), op: Op::Config { ty, tick_ms: tick_us / 1000, max } },
    ];
    for _ in 0..1 + r.below(3) {
        let n = (10 + r.below(450)) as u16;
        let op = if r.chance(60) {
            Op::Burst { ty, n, how: How::Run, dur_us: r.below(12 * tick_us) }
        } else {
            Op::FarBurst { ty, n, delay_us: r.below(6 * tick_us) as i64 }
        };
        steps.push(Step { gap_us: r.below(3 * tick_us), op });
        if r.chance(30) {
            steps.push(Step { gap_us: r.below(3 * tick_us), op: Op::Config { ty, tick_ms: tick_us / 1000, max: *r.pick(&[1usize, 60, 250, 1000]) } });
        }
    }
    c.clients = vec![steps];
    c.settle_us = (12 + r.below(8)) * tick_us;
    serde_json::to_value(c).unwrap()
}
fn run_wide(v: &Value) -> Verdict {
    engine_run("C09", v, Some(no_config), |st| s(st, "runs") >= 50)
}
fn run_huge(v: &Value) -> Verdict {
    engine_run("C01", v, None, |st| s(st, "runs") >= 3)
}

/// dozens of panicking runs in the life of one process
fn gen_storm(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof { scales: vec![0], max_types: 2, types: vec![0, 1, 2, 3], steps: (0, 0), clients: 1, p_plugins: 10, ..Prof::default() };
    let mut c = gen::case(r, &p);
    let types: Vec<usize> = if r.chance(70) { vec![*r.pick(&p.types)] } else { vec![0, 1] };
    let tick_us = 100_000;
    let mut steps = vec![];
    for ty in &types {
        steps.push(Step { gap_us: 0, op: Op::Burst { ty: *ty, n: 1, how: How::Run, dur_us: 0 } });
        steps.push(Step { gap_us: 0, op: Op::Config { ty: *ty, tick_ms: tick_us / 1000, max: *r.pick(&[1usize, 2, 3, 20]) } });
    }
    let share = *r.pick(&[50u32, 80, 100]);
    for _ in 0..15 + r.below(130) {
        let (ty, slot) = (*r.pick(&types), r.below(6) as u8);
        let op = match r.weighted(&[70, 12, 10, 8]) {
            0 => Op::Submit {
                ty,
                slot,
                auto: false,
                how: if r.chance(20) { How::JustRun } else { How::Run },
                sched: if r.chance(85) { Sched::Now } else { Sched::Delay(r.below(3 * tick_us) as i64) },
                retry: if r.chance(20) { Some(RetrySpec::Interval(Some(2), r.below(tick_us) as i64)) } else { None },
                p: Payload {
                    tag: r.below(1000) as u32,
                    runs: vec![RunSpec { dur_us: if r.chance(70) { 0 } else { r.below(3 * tick_us) }, fail: r.chance(30), panic: if r.chance(share) { 1 + r.below(6) as u8 } else { 0 }, ..Default::default() }],
                    ..Default::default()
                },
            },
            1 => Op::Retry { ty, slot },
            2 => Op::Get { ty, slot },
            _ => Op::Burst { ty, n: 1 + r.below(3) as u16, how: How::Run, dur_us: r.below(tick_us) },
        };
        steps.push(Step { gap_us: r.below(3 * tick_us), op });
    }
    c.clients = vec![steps];
    c.settle_us = 30 * tick_us;
    serde_json::to_value(c).unwrap()
}
fn run_storm(v: &Value) -> Verdict {
    engine_run("C17", v, None, |st| s(st, "panics") >= 10)
}
fn gen_panicky(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof { p_plugins: 70, hosts: vec![Host::Actix], steps: (1, 16), ..Prof::default() };
    let mut c = gen::case(r, &p);
    c.host = Host::Actix;
    c.plugins.push(PANICKY);
    serde_json::to_value(c).unwrap()
}
fn run_panicky(v: &Value) -> Verdict {
    let last = |c: &Case| c.plugins.iter().position(|d| *d == PANICKY).is_none_or(|i| i + 1 == c.plugins.len());
    if !parse::<Case>(v).is_some_and(|c| last(&c) && c.clients.iter().flatten().all(|s| !matches!(s.op, Op::Plugin { .. }))) {
        return bad_case();
    }
    engine_run("C11", v, Some(no_plugins), |st| s(st, "runs") >= 3)
}
fn run_slow_hooks(v: &Value) -> Verdict {
    // the settle time covers every run only for cases as generated
    let ok = parse::<Case>(v).is_some_and(|c| c.settle_us >= 26_000_000 && c.clients.len() <= 1);
    if !ok {
        return bad_case();
    }
    engine_run("C11", v, None, |st| s(st, "plugin_calls") >= 10)
}
