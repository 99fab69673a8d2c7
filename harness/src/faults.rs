//! C16: histories with failing backend operations, judged by rules that hold whatever fails.
use std::collections::{BTreeMap, HashMap};

use serde_json::Value;

use crate::backends::FaultPlan;
use crate::engine::*;
use crate::gen;
use crate::jobs::*;
use crate::monitor::{op_ty, short, Viol};
use crate::props::{fork_verdict, run_engine};
use crate::rng::Rng;
use crate::runner::*;

const TICK_US: u64 = 100_000;

pub fn part() -> Part {
    Part { name: "faults", gen: gen_case, run: run_case, quick: 12000, weight: 1 }
}

fn gen_case(r: &mut Rng, _t: Tier) -> Value {
    let types: Vec<usize> = if r.chance(70) { vec![*r.pick(&[0usize, 1, 3])] } else { vec![0, 1] };
    let mut steps = vec![];
    let tick = *r.pick(&[TICK_US, TICK_US, 50_000, 30_000]);
    for ty in &types {
        if r.chance(70) {
            steps.push(Step { gap_us: 0, op: Op::Burst { ty: *ty, n: 1, how: How::Run, dur_us: 0 } });
            steps.push(Step { gap_us: 0, op: Op::Config { ty: *ty, tick_ms: tick / 1000, max: *r.pick(&[1usize, 1, 2, 3, 5, 20]) } });
        }
    }
    let n = 2 + r.below(16);
    let nslots = 1 + r.below(8);
    for _ in 0..n {
        let ty = *r.pick(&types);
        let slot = r.below(nslots) as u8;
        let gap_us = match r.below(4) {
            0 => r.below(3),
            1 => r.below(tick),
            2 => r.below(3 * tick),
            _ => r.below(8 * tick),
        };
        let op = match r.weighted(&[55, 10, 15, 14, 12]) {
            0 => {
                let sched = match r.weighted(&[70, 20, 10]) {
                    0 => Sched::Now,
                    1 => Sched::Delay(r.below(8 * tick) as i64),
                    _ => Sched::At(r.below(8 * tick) as i64 - tick as i64),
                };
                let retry = if r.chance(12) { Some(RetrySpec::Interval(Some(1 + r.below(2) as i32), r.below(3 * tick) as i64)) } else { None };
                let fail = r.chance(if retry.is_some() { 70 } else { 20 });
                let dur_us = match r.below(3) {
                    0 => 0,
                    1 => r.below(1000),
                    _ => r.below(3 * tick),
                };
                Op::Submit {
                    ty,
                    slot,
                    auto: false,
                    how: if r.chance(12) { How::JustRun } else if r.chance(20) { How::Add } else { How::Run },
                    sched,
                    retry,
                    p: Payload { tag: r.below(1_000_000) as u32, runs: vec![RunSpec { dur_us, fail, ..Default::default() }], ..Default::default() },
                }
            }
            1 => Op::Burst { ty, n: 1 + r.below(6) as u16, how: How::Run, dur_us: r.below(2 * tick) },
            2 => Op::Cancel { ty, slot },
            3 => Op::Retry { ty, slot },
            _ => Op::Get { ty, slot },
        };
        // clients repeat what failed
        let again = if matches!(op, Op::Submit { .. } | Op::Retry { .. } | Op::Cancel { .. }) && r.chance(25) { 1 + r.below(3) } else { 0 };
        steps.push(Step { gap_us, op: op.clone() });
        for _ in 0..again {
            steps.push(Step { gap_us: if r.chance(50) { r.below(1000) } else { r.below(2 * tick) }, op: op.clone() });
        }
        if r.chance(20) {
            steps.push(Step { gap_us: r.below(1000), op: Op::Get { ty, slot } });
        }
    }
    let mut aimed = vec![];
    if r.chance(30) {
        // one job, calls in quick succession, several of them hit
        let (ty, slot) = (*r.pick(&types), r.below(nslots) as u8);
        let before = steps.iter().map(|s| if let Op::Burst { n, .. } = s.op { n as u64 } else { 1 }).sum::<u64>();
        let submit = |r: &mut Rng| Op::Submit {
            ty,
            slot,
            auto: false,
            how: How::Run,
            sched: if r.chance(60) { Sched::Delay(r.below(6 * tick) as i64) } else { Sched::Now },
            retry: None,
            p: Payload { tag: r.below(1_000_000) as u32, runs: vec![RunSpec { fail: r.chance(30), dur_us: if r.chance(60) { r.below(4 * tick) } else { 0 }, ..Default::default() }], ..Default::default() },
        };
        let mut ops = vec![submit(r)];
        for _ in 0..2 + r.below(4) {
            let after_cancel = matches!(ops.last(), Some(Op::Cancel { .. }));
            let op = match r.weighted(&if after_cancel { [1, 6, 2] } else { [4, 2, 2] }) {
                0 => Op::Cancel { ty, slot },
                1 => Op::Retry { ty, slot },
                _ => submit(r),
            };
            ops.push(op);
        }
        for (i, op) in ops.into_iter().enumerate() {
            let gap_us = if r.chance(85) { r.below(2000) } else { r.below(2 * tick) };
            steps.push(Step { gap_us, op });
            if r.chance(45) {
                aimed.push((before + i as u64 + 1, *r.pick(&[0, 1, 2, 2, 2, 3, 4]), if r.chance(80) { 1 } else { 2 }));
            }
        }
    }
    // an outage of many ticks
    let outage = if r.chance(3) { 40 + r.below(300) } else { 0 };
    steps.push(Step { gap_us: r.below(4 * tick) + outage * tick, op: Op::Calm });
    for ty in &types {
        for _ in 0..1 + r.below(3) {
            steps.push(Step {
                gap_us: r.below(2 * tick),
                op: match r.below(4) {
                    0 => Op::Retry { ty: *ty, slot: r.below(nslots) as u8 },
                    1 => Op::Get { ty: *ty, slot: r.below(nslots) as u8 },
                    _ => Op::Burst { ty: *ty, n: 1, how: How::Run, dur_us: 0 },
                },
            });
        }
        steps.push(Step { gap_us: 0, op: Op::Burst { ty: *ty, n: 1, how: How::Run, dur_us: 0 } });
    }
    let mut f = FaultPlan { spare_slot_release: true, ..Default::default() };
    let ncalls = steps.iter().map(|s| if let Op::Burst { n, .. } = s.op { n as u64 } else { 1 }).sum::<u64>();
    f.fail_call = aimed;
    if f.fail_call.is_empty() && r.chance(65) {
        for _ in 0..1 + r.below(3) {
            f.fail_call.push((1 + r.below(ncalls), r.below(5), 1 + r.below(3)));
        }
    }
    if f.fail_call.is_empty() || r.chance(50) {
        for _ in 0..1 + r.below(4) {
            let span = *r.pick(&[60u64, 200, 500]);
            let len = match r.below(4) {
                0 | 1 => 1,
                2 => 1 + r.below(4),
                _ => 1 + r.below(40),
            };
            f.fail.push((r.below(span), len));
        }
    }
    if outage > 0 {
        f.fail.push((r.below(200), 2 * outage));
    }
    if r.chance(25) {
        // flickering
        let (from, n, p) = (r.below(120), 4 + r.below(40), 20 + r.below(50) as u32);
        for i in 0..n {
            if r.chance(p) {
                f.fail.push((from + i, 1));
            }
        }
    }
    let be = if types.len() == 1 && r.chance(5) { Be::Redis } else { *r.pick(&[Be::Mem, Be::Ref]) };
    f.server = be == Be::Redis;
    // time for everything to run one after the other
    let mut need = 30 * TICK_US;
    for s in &steps {
        need += cost(&s.op);
    }
    serde_json::to_value(Case {
        epoch_us: gen::epoch(r),
        sched_seed: r.next(),
        host: *r.pick(&[Host::Actix, Host::Actix, Host::Tokio, Host::Plain]),
        be,
        ids: r.below(ID_STYLES as u64) as u8,
        names: gen::names(r),
        plugins: vec![],
        clients: vec![steps],
        settle_us: need,
        faults: f,
        after_crash: vec![],
        down_us: 0,
    })
    .unwrap()
}

/// virtual time an operation can add to the backlog of a queue with a limit of one
fn cost(op: &Op) -> u64 {
    match op {
        Op::Submit { p, retry, .. } => {
            let d = p.runs.iter().map(|x| x.dur_us).max().unwrap_or(0);
            let (n, delay) = match retry {
                Some(RetrySpec::Interval(Some(m), us)) | Some(RetrySpec::Exp(Some(m), us)) => (1 + *m as u64, *us as u64 * 8),
                Some(RetrySpec::Default) => (4, 100_000),
                _ => (1, 0),
            };
            n * (d + delay + 3 * TICK_US)
        }
        Op::Burst { n, dur_us, .. } => *n as u64 * (*dur_us + 3 * TICK_US),
        Op::Retry { .. } => 3 * (6 * TICK_US),
        _ => 0,
    }
}

fn run_case(v: &Value) -> Verdict {
    let Ok(case) = serde_json::from_value::<Case>(v.clone()) else { return Verdict::default() };
    let steps: Vec<&Step> = case.clients.iter().flatten().collect();
    if case.faults.server && (case.be != Be::Redis || steps.iter().any(|s| op_ty(&s.op) != op_ty(&steps[0].op) && op_ty(&s.op).is_some())) {
        return Verdict::default();
    }
    if case.clients.len() > 1 || !case.faults.spare_slot_release || case.faults.crash_at.is_some() || case.faults.crash_call.is_some() {
        return Verdict::default();
    }
    if steps.iter().any(|s| {
        matches!(s.op, Op::Update { .. } | Op::Plugin { .. } | Op::FarBurst { .. } | Op::Config { tick_ms: 0, .. } | Op::Config { max: 0, .. })
            || matches!(&s.op, Op::Submit { how: How::Cfg(..), .. } | Op::Submit { sched: Sched::Cron(..), .. } | Op::Submit { auto: true, .. })
            || matches!(&s.op, Op::Submit { retry: Some(x), .. } if !matches!(x, RetrySpec::Interval(Some(0..=5), _)))
            || matches!(&s.op, Op::Submit { p, .. } if p.runs.iter().any(|r| r.panic != 0))
    }) {
        return Verdict::default();
    }
    match run_engine(&case) {
        Err(e) => fork_verdict(e),
        Ok((log, nsteps)) => {
            let mut v = judge(&case, &log);
            v.stats.insert("scheduling_steps".into(), nsteps);
            if nsteps >= crate::sim::MAX_STEPS && v.viols.is_empty() {
                v.inconclusive = Some("cut off: too many steps".into());
            }
            v
        }
    }
}

/// C11: what plugins are told when the backend fails.
pub fn plugin_part() -> Part {
    Part { name: "plugins-and-failures", gen: gen_plugin_case, run: run_plugin_case, quick: 1500, weight: 1 }
}
fn gen_plugin_case(r: &mut Rng, t: Tier) -> Value {
    let mut c: Case = serde_json::from_value(gen_case(r, t)).unwrap();
    c.host = Host::Actix;
    c.plugins = vec![0; 1 + r.below(3) as usize];
    if c.be == Be::Redis {
        c.be = Be::Mem;
    }
    c.faults.server = false;
    c.faults.log_stores = true;
    serde_json::to_value(c).unwrap()
}
fn run_plugin_case(v: &Value) -> Verdict {
    let Ok(case) = serde_json::from_value::<Case>(v.clone()) else { return Verdict::default() };
    let f = &case.faults;
    if case.host != Host::Actix || case.clients.len() > 1 || case.plugins.is_empty() || case.plugins.iter().any(|d| *d != 0) {
        return Verdict::default();
    }
    if !f.log_stores || f.server || f.crash_at.is_some() || f.crash_call.is_some() {
        return Verdict::default();
    }
    if case.clients.iter().flatten().any(|s| matches!(s.op, Op::Plugin { .. } | Op::Spoil { .. } | Op::Start | Op::Par(..))) {
        return Verdict::default();
    }
    match run_engine(&case) {
        Err(e) => fork_verdict(e),
        Ok((log, nsteps)) => {
            let mut v = judge_plugins(&case, &log);
            v.stats.insert("scheduling_steps".into(), nsteps);
            if nsteps >= crate::sim::MAX_STEPS {
                v.viols.clear();
                v.inconclusive = Some("cut off: too many steps".into());
            }
            v
        }
    }
}

/// C10: what look-ups show when the backend fails now and then.
pub fn lookup_part() -> Part {
    Part { name: "lookups-and-failures", gen: gen_lookup_case, run: run_lookup_case, quick: 1200, weight: 1 }
}
fn gen_lookup_case(r: &mut Rng, t: Tier) -> Value {
    let mut c: Case = serde_json::from_value(gen_case(r, t)).unwrap();
    let mut steps = vec![];
    for mut s in std::mem::take(&mut c.clients[0]) {
        // more of the runs are still going on when they are looked at
        if let Op::Submit { p, .. } = &mut s.op {
            if let (Some(x), true) = (p.runs.first_mut(), r.chance(50)) {
                x.dur_us = r.below(6 * TICK_US);
            }
        }
        let at = match s.op {
            Op::Submit { ty, slot, .. } | Op::Cancel { ty, slot } | Op::Retry { ty, slot } | Op::Get { ty, slot } => Some((ty, slot)),
            _ => None,
        };
        steps.push(s);
        if let Some((ty, slot)) = at {
            for _ in 0..1 + r.below(3) {
                steps.push(Step { gap_us: if r.chance(50) { r.below(TICK_US / 2) } else { r.below(4 * TICK_US) }, op: Op::Get { ty, slot } });
            }
        }
    }
    // the calls have other numbers now
    let n = steps.len() as u64;
    for f in &mut c.faults.fail_call {
        f.0 = 1 + r.below(n);
    }
    c.clients = vec![steps];
    c.settle_us *= 2;
    serde_json::to_value(c).unwrap()
}
fn run_lookup_case(v: &Value) -> Verdict {
    let Ok(case) = serde_json::from_value::<Case>(v.clone()) else { return Verdict::default() };
    let f = &case.faults;
    let steps: Vec<&Step> = case.clients.iter().flatten().collect();
    if case.clients.len() > 1 || f.crash_at.is_some() || f.crash_call.is_some() {
        return Verdict::default();
    }
    if f.server && (case.be != Be::Redis || steps.iter().any(|s| op_ty(&s.op) != op_ty(&steps[0].op) && op_ty(&s.op).is_some())) {
        return Verdict::default();
    }
    if steps.iter().any(|s| matches!(s.op, Op::Plugin { .. } | Op::Spoil { .. } | Op::Start | Op::Par(..)) || matches!(&s.op, Op::Submit { p, .. } if p.runs.iter().any(|r| r.panic != 0))) {
        return Verdict::default();
    }
    match run_engine(&case) {
        Err(e) => fork_verdict(e),
        Ok((log, nsteps)) => {
            let mut v = judge_lookups(&log);
            v.stats.insert("scheduling_steps".into(), nsteps);
            v
        }
    }
}
/// Whatever failed before: an executing job is reported so, an accepted one is found, one that
/// nobody submitted is not.
fn judge_lookups(log: &[Rec]) -> Verdict {
    let mut o = Verdict::default();
    #[derive(Default)]
    struct L {
        tried: bool,
        accepted: bool,
        executing: bool,
        /// when the job was last started or ended
        moved: Option<u64>,
    }
    let mut ls: HashMap<(usize, String), L> = HashMap::new();
    let mut open: HashMap<usize, (OpRec, u64, u64)> = HashMap::new();
    let (mut faults, mut looks) = (0u64, 0u64);
    for r in log {
        match &r.ev {
            Ev::Fault { .. } => faults += 1,
            // from the first step of the job's own code to the last
            Ev::Pre { ty, id, .. } | Ev::Start { ty, id, .. } => {
                let l = ls.entry((*ty, id.clone())).or_default();
                l.executing = true;
                l.moved = Some(r.t);
            }
            Ev::End { ty, id, .. } | Ev::Post { ty, id, .. } => {
                let l = ls.entry((*ty, id.clone())).or_default();
                l.executing = false;
                l.moved = Some(r.t);
            }
            Ev::Call { call, op } => {
                if let OpRec::Submit { ty, id, .. } = op {
                    ls.entry((*ty, id.clone())).or_default().tried = true;
                }
                open.insert(*call, (op.clone(), r.t, faults));
            }
            Ev::Ret { call, res } => {
                let Some((op, t0, f0)) = open.remove(call) else { continue };
                match (&op, res) {
                    (OpRec::Submit { ty, id, how, .. }, Res::Ok | Res::Id(_)) if *how != How::JustRun => {
                        ls.entry((*ty, id.clone())).or_default().accepted = true;
                    }
                    (OpRec::Get { ty, id }, Res::Job(j)) => {
                        let l = ls.entry((*ty, id.clone())).or_default();
                        if faults != f0 || l.moved.is_some_and(|t| t >= t0) {
                            continue;
                        }
                        looks += 1;
                        let st = j.as_ref().map(|j| j.status);
                        let bad = if l.executing && st != Some(PlugKind::Running) {
                            format!("it is executing, the look-up shows {st:?}")
                        } else if l.accepted && st.is_none() {
                            "it was accepted, the look-up returned nothing".to_string()
                        } else if !l.tried && st.is_some() {
                            format!("nobody submitted it, the look-up shows {st:?}")
                        } else {
                            continue;
                        };
                        o.viols.push(Viol { props: vec!["C10".into()], kind: "get".into(), msg: format!("type {ty} id {:?}: {bad}", short(id)), t: r.t });
                        return o;
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    o.nontrivial = faults >= 1 && looks >= 3;
    o.stats.insert("faults".into(), faults);
    o.stats.insert("get_with_failures".into(), looks);
    o
}

/// The statuses reported are those stored, one after the other; hooks surround every run.
fn judge_plugins(case: &Case, log: &[Rec]) -> Verdict {
    let mut o = Verdict::default();
    let mut stored: BTreeMap<&str, Vec<PlugKind>> = BTreeMap::new();
    let mut told: BTreeMap<(usize, &str), Vec<PlugKind>> = BTreeMap::new();
    let mut starts: HashMap<&str, u64> = HashMap::new();
    let mut posts: HashMap<&str, u64> = HashMap::new();
    let mut hooks: HashMap<(usize, &str, PlugKind), u64> = HashMap::new();
    let (mut faults, mut reports) = (0u64, 0u64);
    let np = case.plugins.len();
    let mut bad: Option<(u64, &str, String)> = None;
    macro_rules! viol {
        ($t:expr, $kind:expr, $($a:tt)*) => { if bad.is_none() { bad = Some(($t, $kind, format!($($a)*))) } };
    }
    for r in log {
        match &r.ev {
            Ev::Fault { .. } => faults += 1,
            Ev::Stored { id, kind } => stored.entry(id).or_default().push(*kind),
            Ev::Start { id, .. } => {
                let n = starts.entry(id).or_insert(0);
                *n += 1;
                for p in 0..np {
                    let b = hooks.get(&(p, id.as_str(), PlugKind::Before)).copied().unwrap_or(0);
                    if b != *n {
                        viol!(r.t, "before-hook", "job {id:?}: run {n} starts after {b} before-run hook call(s) of plugin {p}");
                    }
                }
            }
            Ev::Post { id, .. } => *posts.entry(id).or_insert(0) += 1,
            Ev::Plug { p, kind: kind @ (PlugKind::Before | PlugKind::After), id } => {
                let n = hooks.entry((*p, id, *kind)).or_insert(0);
                *n += 1;
                if *kind == PlugKind::After && *n > posts.get(id.as_str()).copied().unwrap_or(0) {
                    viol!(r.t, "after-hook", "job {id:?}: after-run hook call {n} of plugin {p} without a run that ended");
                }
            }
            Ev::Plug { p, kind, id } => {
                reports += 1;
                told.entry((*p, id)).or_default().push(*kind);
            }
            _ => {}
        }
    }
    let end = log.last().map_or(0, |r| r.t);
    for (id, n) in &posts {
        for p in 0..np {
            let a = hooks.get(&(p, *id, PlugKind::After)).copied().unwrap_or(0);
            if a != *n {
                viol!(end, "after-hook", "job {id:?}: {n} run(s) ended, plugin {p} got {a} after-run hook call(s)");
            }
        }
    }
    // a record that is stored again with the same status is not a change
    let squeeze = |v: &[PlugKind]| {
        let mut v = v.to_vec();
        v.dedup();
        v
    };
    let ids: std::collections::BTreeSet<&str> = stored.keys().copied().chain(told.keys().map(|k| k.1)).collect();
    let none = vec![];
    for id in ids {
        let s = stored.get(id).unwrap_or(&none);
        for p in 0..np {
            let t = told.get(&(p, id)).unwrap_or(&none);
            if squeeze(s) != squeeze(t) {
                viol!(end, "status-reports", "job {id:?}: its status went {s:?}, plugin {p} was told {t:?}");
            } else if t.len() > s.len() {
                viol!(end, "status-reports", "job {id:?}: its status went {s:?}, plugin {p} was told {t:?} (too often)");
            }
        }
    }
    if let Some((t, kind, msg)) = bad {
        o.viols.push(Viol { props: vec!["C11".into()], kind: kind.into(), msg, t });
    }
    o.nontrivial = faults >= 1 && reports >= 6;
    o.stats.insert("faults".into(), faults);
    o.stats.insert("plugin_calls".into(), reports);
    o
}

#[derive(Clone, Copy, PartialEq)]
enum Answer {
    Open,
    Yes,
    Fail,
}

struct Sub {
    call: usize,
    t: u64,
    due_us: i64,
    ans: Answer,
    just: bool,
    tag: u32,
    executing: bool,
    policy: i32,
}

#[derive(Default)]
struct K {
    subs: Vec<Sub>,
    executing: bool,
    avail: i64,
    /// policy retries that may still come
    extra: i64,
    /// position at which the job was last certainly waiting / done
    queued: Option<usize>,
    done: Option<usize>,
    /// cancelled for certain: no start until asked for again
    off: Option<String>,
    /// must start again (position, time from which it could)
    must: Option<(usize, u64, String)>,
    end_faults: u32,
    /// faults hit while the end of a run was recorded: the reported state may be stale
    stale: bool,
    end_t: Option<u64>,
    starts: usize,
    ends: usize,
}

fn judge(case: &Case, log: &[Rec]) -> Verdict {
    let mut o = Verdict::default();
    let mut ks: BTreeMap<(usize, String), K> = BTreeMap::new();
    let mut calls: HashMap<usize, (OpRec, usize, bool)> = HashMap::new();
    let mut maxes: HashMap<usize, usize> = HashMap::new();
    let mut running: HashMap<usize, usize> = HashMap::new();
    let mut last_fault: Option<(usize, u64)> = None;
    let mut faults_in_calls = 0u64;
    let mut faults_outside = 0u64;
    let mut calm = false;
    let mut t_need_us = 20 * TICK_US;
    for s in case.clients.iter().flatten() {
        t_need_us += cost(&s.op);
    }
    let end_t = log.last().map_or(0, |r| r.t);
    let mut bad: Vec<(u64, String, String)> = vec![];
    macro_rules! viol {
        ($t:expr, $kind:expr, $($a:tt)*) => { bad.push(($t, $kind.to_string(), format!($($a)*))) };
    }
    for (i, r) in log.iter().enumerate() {
        match &r.ev {
            Ev::Fault { .. } => {
                last_fault = Some((i, r.t));
                if calls.is_empty() {
                    faults_outside += 1;
                } else {
                    faults_in_calls += 1;
                }
                // Recording the end of a run makes up for one failure, not for two (known finding K6)
                for k in ks.values_mut() {
                    if k.end_t == Some(r.t) {
                        k.end_faults += 1;
                        k.stale |= k.end_faults > 1;
                    }
                }
            }
            Ev::Calm => calm = true,
            Ev::Panic { msg } => viol!(r.t, "panic", "engine panic or abort: {msg}"),
            Ev::Call { call, op } => {
                calls.insert(*call, (op.clone(), i, calm));
                match op {
                    OpRec::Submit { ty, id, how, jt, retry, p } => {
                        let k = ks.entry((*ty, id.clone())).or_default();
                        let due_us = if let JtM::At(us) = jt { *us } else { i64::MIN };
                        k.subs.push(Sub {
                            call: *call,
                            t: r.t,
                            due_us,
                            ans: Answer::Open,
                            just: *how == How::JustRun,
                            tag: p.tag,
                            executing: k.executing,
                            policy: retry.as_ref().map_or(0, |x| x.max.unwrap_or(0)),
                        });
                        if !k.executing {
                            k.avail = k.avail.max(1);
                        }
                        k.extra = k.extra.max(retry.as_ref().map_or(0, |x| x.max.unwrap_or(0)) as i64);
                        k.off = None;
                        k.queued = None;
                        k.done = None;
                    }
                    OpRec::Retry { ty, id } => {
                        let k = ks.entry((*ty, id.clone())).or_default();
                        if !k.executing {
                            k.avail = k.avail.max(1);
                        }
                        k.off = None;
                        k.queued = None;
                    }
                    OpRec::Cancel { ty, id } => {
                        let k = ks.entry((*ty, id.clone())).or_default();
                        k.must = None;
                        k.done = None;
                        // the job is still certainly waiting if nothing failed since we knew, or if
                        // it is not due yet
                        if let Some(q) = k.queued {
                            let early = k.subs.iter().all(|s| s.due_us as i128 * 1000 > (case.epoch_us as i128 * 1000 + r.t as i128));
                            if !early && last_fault.is_some_and(|(f, _)| f > q) {
                                k.queued = None;
                            }
                        }
                    }
                    OpRec::Config { ty, max, .. } => {
                        maxes.insert(*ty, *max);
                    }
                    _ => {}
                }
            }
            Ev::Ret { call, res } => {
                let Some((op, at, was_calm)) = calls.remove(call) else { continue };
                if *res == Res::Hang {
                    viol!(r.t, "hang", "{op:?} never answered");
                    continue;
                }
                let used = ks.iter().any(|((t, _), k)| matches!(&op, OpRec::Retry { ty, .. } | OpRec::Cancel { ty, .. } if ty == t) && !k.subs.is_empty());
                if was_calm && matches!(res, Res::Err(_)) && (used || matches!(op, OpRec::Submit { .. })) {
                    viol!(r.t, "not-recovered", "{op:?} fails although the backend works again: {res:?}");
                }
                match &op {
                    OpRec::Submit { ty, id, .. } => {
                        let k = ks.get_mut(&(*ty, id.clone())).unwrap();
                        let ok = matches!(res, Res::Id(_));
                        let stale = k.stale;
                        let now_executing = k.executing;
                        let s = k.subs.iter_mut().rev().find(|s| s.call == *call).unwrap();
                        s.ans = if ok { Answer::Yes } else if s.just { Answer::Open } else { Answer::Fail };
                        if ok && !s.executing && !stale {
                            let due = (s.due_us as i128 * 1000 - case.epoch_us as i128 * 1000).max(s.t as i128) as u64;
                            if !log[at..i].iter().any(|r| matches!(&r.ev, Ev::Pre { ty: t2, id: i2, .. } if t2 == ty && i2 == id)) {
                                k.must = Some((i, due, "submitted".into()));
                                // (known finding F-PICK, see above)
                                let sure = k.subs.len() == 1 || last_fault.is_none_or(|(_, t)| t < k.subs[0].t);
                                if !now_executing && sure {
                                    k.queued = Some(i);
                                }
                            }
                        }
                    }
                    OpRec::Cancel { ty, id } => {
                        let k = ks.get_mut(&(*ty, id.clone())).unwrap();
                        if *res == Res::Ok && k.queued.is_some() && !k.executing {
                            k.off = Some("cancelling it while it was waiting was acknowledged".into());
                            *o.stats.entry("cancels_of_waiting_jobs".into()).or_insert(0) += 1;
                        }
                        k.queued = None;
                    }
                    OpRec::Retry { ty, id } => {
                        let k = ks.get_mut(&(*ty, id.clone())).unwrap();
                        let started = log[at..i].iter().any(|r| matches!(&r.ev, Ev::Pre { ty: t2, id: i2, .. } if t2 == ty && i2 == id));
                        match res {
                            Res::Bool(true) => {
                                if !started {
                                    let due = k.subs.iter().map(|s| (s.due_us as i128 * 1000 - case.epoch_us as i128 * 1000).max(0) as u64).max().unwrap_or(0);
                                    k.must = Some((i, due.max(r.t), "manual retry answered true".into()));
                                    k.queued = Some(i);
                                    *o.stats.entry("manual_retries_granted".into()).or_insert(0) += 1;
                                }
                                k.done = None;
                            }
                            Res::Bool(false) => {
                                if k.done.is_some() && !k.executing {
                                    viol!(r.t, "retry", "type {ty} id {:?}: reported done, but a manual retry answered false", short(id));
                                }
                            }
                            _ => k.done = None,
                        }
                    }
                    OpRec::Get { ty, id } => {
                        let Res::Job(Some(j)) = res else { continue };
                        let k = ks.entry((*ty, id.clone())).or_default();
                        if let Some(why) = &k.off {
                            if j.status != PlugKind::Canceled {
                                viol!(r.t, "cancel", "type {ty} id {:?}: {why}, but it is reported {:?}", short(id), j.status);
                            }
                        }
                        match j.status {
                            PlugKind::Queued => {
                                k.queued = Some(i);
                                k.done = None;
                            }
                            PlugKind::Canceled => {
                                if k.off.is_none() {
                                    k.off = Some("it was reported cancelled".into());
                                }
                                k.done = Some(i);
                                k.queued = None;
                            }
                            PlugKind::Finished | PlugKind::Failed => {
                                if k.starts == 0 {
                                    viol!(r.t, "status", "type {ty} id {:?}: reported {:?} but never executed", short(id), j.status);
                                }
                                if !k.executing {
                                    k.done = Some(i);
                                }
                                k.queued = None;
                            }
                            _ => {
                                k.queued = None;
                                k.done = None;
                            }
                        }
                    }
                    _ => {}
                }
            }
            Ev::Pre { ty, id, .. } => {
                let n = running.entry(*ty).or_default();
                *n += 1;
                let max = maxes.get(ty).copied().unwrap_or(DEFAULT_MAX);
                if *n > max {
                    viol!(r.t, "limit", "type {ty}: {n} jobs executing, limit {max}");
                }
                let k = ks.entry((*ty, id.clone())).or_default();
                if k.executing {
                    viol!(r.t, "overlap", "type {ty} id {:?}: second execution while one is in progress", short(id));
                }
                if let Some(why) = &k.off {
                    viol!(r.t, "cancelled-runs", "type {ty} id {:?}: executed although {why}", short(id));
                }
                if k.subs.is_empty() {
                    viol!(r.t, "exec", "type {ty} id {:?}: never submitted", short(id));
                }
                k.avail -= 1;
                if k.avail < 0 {
                    k.extra -= 1;
                    if k.extra < 0 {
                        viol!(r.t, "double", "type {ty} id {:?}: executed {} times, more often than asked for", short(id), k.starts + 1);
                    }
                    k.avail = 0;
                }
                k.executing = true;
                k.starts += 1;
                k.must = None;
                k.queued = None;
                k.done = None;
                k.stale = false;
                k.end_t = None;
                k.end_faults = 0;
                let now = case.epoch_us as i128 * 1000 + r.t as i128;
                if !k.subs.is_empty() && k.subs.iter().all(|s| (s.due_us as i128) * 1000 > now) {
                    viol!(r.t, "early", "type {ty} id {:?}: executed before its instant", short(id));
                }
            }
            Ev::Start { ty, id, p, .. } => {
                let k = ks.entry((*ty, id.clone())).or_default();
                if !k.subs.iter().any(|s| s.tag == p.tag) {
                    viol!(r.t, "data", "type {ty} id {:?}: executed with data that was never submitted for it", short(id));
                } else if let Some(s) = k.subs.last() {
                    // a failure while it was being started leaves it reported as running until it is
                    // (known finding F-PICK): only judged if nothing failed since it was first known
                    let first = k.subs[0].t;
                    let clean = last_fault.is_none_or(|(_, t)| t < first);
                    if s.ans == Answer::Yes && !s.executing && clean && k.starts == 1 && s.tag != p.tag {
                        viol!(r.t, "data", "type {ty} id {:?}: executed with old data although its replacement was acknowledged", short(id));
                    }
                }
            }
            Ev::End { ty, id, .. } => {
                let k = ks.entry((*ty, id.clone())).or_default();
                k.ends += 1;
                k.end_t = Some(r.t);
                k.executing = false;
                *running.entry(*ty).or_default() -= 1;
            }
            _ => {}
        }
    }
    let cut = log.iter().any(|r| matches!(&r.ev, Ev::Cut) || matches!(&r.ev, Ev::Panic { msg } if msg.starts_with("ABORT")));
    if !cut {
        for (op, ..) in calls.values() {
            viol!(end_t, "hang", "{op:?} never returned");
        }
        // everything acknowledged has run, given time without failures
        let from = last_fault.map_or(0, |(_, t)| t);
        for ((ty, id), k) in &ks {
            if let Some((_, due, why)) = &k.must {
                if end_t > from.max(*due).saturating_add(t_need_us * 1000) {
                    viol!(end_t, "lost", "type {ty} id {:?}: {why} (acknowledged), but never executed afterwards", short(id));
                }
            }
        }
    }
    bad.sort_by_key(|b| b.0);
    for (t, kind, msg) in bad.into_iter().take(8) {
        o.viols.push(Viol { props: vec!["C16".into()], kind, msg, t });
    }
    let runs: usize = ks.values().map(|k| k.starts).sum();
    let failed: u64 = ks.values().flat_map(|k| &k.subs).filter(|s| s.ans == Answer::Fail).count() as u64;
    let policy = ks.values().flat_map(|k| &k.subs).filter(|s| s.policy > 0).count() as u64;
    for (k, n) in [
        ("faults_in_calls", faults_in_calls),
        ("faults_in_dispatch", faults_outside),
        ("runs", runs as u64),
        ("refused_submissions", failed),
        ("submissions_with_policy", policy),
    ] {
        o.stats.insert(k.into(), n);
    }
    o.nontrivial = faults_in_calls + faults_outside > 0 && runs > 0;
    o
}
