//! C23: how often a queue turns to its backend.
use std::collections::{BTreeMap, BTreeSet};

use serde_json::Value;

use crate::engine::*;
use crate::gen::{self, Prof};
use crate::jobs::*;
use crate::monitor::Viol;
use crate::props::{fork_verdict, run_engine};
use crate::rng::Rng;
use crate::runner::*;

const MS: u64 = 1_000_000;
const DEFAULT_TICK: u64 = 100 * MS;
/// timers have a resolution of a millisecond
const EARLY: u64 = 2 * MS;
const LATE: u64 = 10 * MS;

pub fn part() -> Part {
    Part { name: "looks", gen: gen_case, run: run_case, quick: 3000, weight: 1 }
}

fn gen_case(r: &mut Rng, _t: Tier) -> Value {
    let p = Prof {
        max_types: 3,
        steps: (2, 18),
        ops: [40, 5, 3, 8, 8, 8, 6, 16, 0],
        p_panic: if r.chance(30) { 15 } else { 0 },
        bes: vec![Be::Mem, Be::Ref, Be::Ref, Be::Ref, Be::Redis],
        scales: vec![0, 0, 0, 1, 2],
        settle_ticks: if r.chance(10) { (100, 400) } else { (15, 60) },
        ..Prof::default()
    };
    let mut c = gen::case(r, &p);
    c.names = 0;
    if r.chance(25) {
        for steps in c.clients.iter_mut() {
            let at = r.below(steps.len() as u64 + 1) as usize;
            steps.insert(at, Step { gap_us: r.below(200_000), op: Op::Start });
        }
    }
    if r.chance(30) && c.be != Be::Redis {
        for _ in 0..1 + r.below(3) {
            c.faults.fail.push((r.below(120), 1 + r.below(12)));
        }
    }
    tidy(&mut c);
    serde_json::to_value(c).unwrap()
}

/// the searches of this module know the plain names only, and jobs do not block their thread
fn tidy(c: &mut Case) {
    fn plain(op: &mut Op) {
        match op {
            Op::Submit { p, .. } | Op::Update { p, .. } => p.runs.iter_mut().for_each(|x| x.block = false),
            Op::Par(v) => v.iter_mut().for_each(plain),
            Op::Plugin { .. } => *op = Op::Nop,
            _ => {}
        }
    }
    c.names = 0;
    c.plugins.clear();
    c.faults.log_looks = true;
    if c.be == Be::Quick {
        c.be = Be::Mem;
    }
    c.clients.iter_mut().flatten().for_each(|s| plain(&mut s.op));
}

fn type_of(key: &str) -> Option<usize> {
    // (the names of the types, by number)
    ["Alpha:", "Beta:", "Gamma:", "AlphaB:"].iter().position(|n| key.starts_with(n))
}

fn run_case(v: &Value) -> Verdict {
    let Ok(mut case) = serde_json::from_value::<Case>(v.clone()) else { return Verdict::default() };
    tidy(&mut case);
    if case.clients.iter().flatten().any(|s| matches!(s.op, Op::Config { tick_ms: 0, .. })) {
        return Verdict::default();
    }
    let (log, steps) = match run_engine(&case) {
        Ok(x) => x,
        Err(e) => return fork_verdict(e),
    };
    let mut out = Verdict::default();
    out.stats.insert("scheduling_steps".into(), steps);
    let mut bad = |kind: &str, msg: String, t: u64| out.viols.push(Viol { props: vec!["C23".into()], kind: kind.into(), msg, t });

    // instants at which something else happens
    let mut busy: BTreeSet<u64> = BTreeSet::new();
    let mut looks: BTreeMap<usize, BTreeMap<u64, u64>> = BTreeMap::new();
    let mut config: BTreeMap<usize, Vec<(u64, u64)>> = BTreeMap::new();
    let mut calls: Vec<u64> = vec![];
    let mut end = log.last().map_or(0, |r| r.t);
    let mut cut = false;
    let mut events = 0u64;
    let mut pending: BTreeMap<usize, (usize, u64)> = BTreeMap::new();
    for r in &log {
        match &r.ev {
            Ev::Look { key } => {
                if let Some(ty) = type_of(key) {
                    *looks.entry(ty).or_default().entry(r.t).or_insert(0) += 1;
                }
                continue;
            }
            Ev::Sweep => {
                end = r.t;
                break;
            }
            Ev::Cut => cut = true,
            Ev::Call { call, op } => {
                calls.push(r.t);
                if let OpRec::Config { ty, tick_ms, .. } = op {
                    pending.insert(*call, (*ty, tick_ms.saturating_mul(MS)));
                }
            }
            Ev::Ret { call, res } => {
                if let Some((ty, tick)) = pending.remove(call) {
                    if matches!(res, Res::Ok) {
                        config.entry(ty).or_default().push((r.t, tick));
                    }
                }
            }
            Ev::Panic { msg } => bad("panic", format!("the library panicked: {msg}"), r.t),
            _ => {}
        }
        events += 1;
        busy.insert(r.t);
    }
    let mut judged = 0u64;
    let mut idle = 0u64;
    for (ty, l) in &looks {
        let l: Vec<(u64, u64)> = l.iter().map(|(t, n)| (*t, *n)).filter(|x| x.0 <= end).collect();
        let conf = config.get(ty).cloned().unwrap_or_default();
        // the ticks that can be in force for a look at t
        let tick = |t: u64| -> (u64, u64) {
            let before = conf.iter().filter(|c| c.0 < t).last().map_or(DEFAULT_TICK, |c| c.1);
            let at = conf.iter().filter(|c| c.0 == t).map(|c| c.1);
            (at.clone().fold(before, u64::min), at.fold(before, u64::max))
        };
        // a call or a job uses the queue at a busy instant, which may or may not be a look: the
        // ticks of all uses since the last certain look bound the time to the next one
        let mut longest = l.first().map_or(DEFAULT_TICK, |x| tick(x.0).1);
        for (i, (a, _)) in l.iter().enumerate() {
            let (lo, hi) = tick(*a);
            let certain = !busy.contains(a);
            longest = if certain { hi } else { longest.max(hi) };
            let limit = longest.saturating_mul(2) + LATE;
            let Some((b, _)) = l.get(i + 1) else {
                if !cut && end - a > limit {
                    bad("stopped", format!("the queue of type {ty} did not look for work in the last {} us, its tick is {} us", (end - a) / 1000, longest / 1000), end);
                }
                break;
            };
            judged += 1;
            if certain && !busy.contains(b) {
                idle += 1;
                if b - a + EARLY < lo {
                    bad("often", format!("the queue of type {ty} turned to the backend {} us after the last time, its tick is {} us", (b - a) / 1000, lo / 1000), *b);
                }
            }
            if b - a > limit {
                bad("late", format!("the queue of type {ty} did not look for work for {} us, its tick is {} us", (b - a) / 1000, longest / 1000), *b);
            }
        }
        for (t, n) in &l {
            let given = calls.iter().filter(|c| **c <= *t).count() as u64;
            if *n > 40 + 10 * given {
                bad("cost", format!("{n} queue operations at one instant with {given} calls so far"), *t);
            }
        }
    }
    out.stats.insert("looks_judged".into(), judged);
    out.stats.insert("idle_looks".into(), idle);
    out.stats.insert("other_events".into(), events);
    out.nontrivial = idle >= 8 && events >= 6;
    if steps >= crate::sim::MAX_STEPS && out.viols.is_empty() {
        out.inconclusive = Some("cut off: too many steps".into());
    }
    out
}
