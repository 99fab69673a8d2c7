//! C24: a job is what it was put together as.
use aj::job::{CronContext, JobContext, JobStatus, JobType, Retry, RetryStrategy};
use chrono::{DateTime, Duration, Utc};
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::jobs::*;
use crate::pure::{silent, v1};
use crate::rng::Rng;
use crate::runner::*;

pub fn part() -> Part {
    Part { name: "builder", gen, run, quick: 300_000, weight: 1 }
}

/// microseconds: of the epoch, or from now
#[derive(Clone, Debug, Serialize, Deserialize)]
enum At {
    Epoch(i64),
    Now(i64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ty {
    Normal,
    At(At),
    Cron { expr: String, slot: At, n: i32, max: Option<i32>, end: Option<At>, tick: i32 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rt {
    used: i32,
    max: Option<i32>,
    exp: bool,
    ns: i64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cx {
    id: String,
    ty: Ty,
    status: u8,
    retry: Option<Rt>,
    created: i64,
    at: [Option<i64>; 4],
    runs: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum B {
    Id(String),
    Context(Cx, bool),
    Type(Ty, bool),
    Schedule(At),
    Delay(i64),
    Cron(String),
    Retry(Rt, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tag: u32,
    text: String,
    derived: bool,
    calls: Vec<B>,
}

fn at(r: &mut Rng) -> At {
    let magnitude = 10i64.pow(r.below(16) as u32);
    let d = r.range(-magnitude, magnitude);
    if r.chance(30) {
        At::Epoch(d)
    } else {
        At::Now(d)
    }
}
const EXPRS: &[&str] = &["* * * * * * *", "*/7 * * * * *", "0 30 9 * * MON-FRI", "0 0 0 1 1 * 2040", "59 59 23 31 12 *", "0 0 0 29 2 *", "1 2 3 4 5 * 1999"];
fn ty(r: &mut Rng) -> Ty {
    match r.below(4) {
        0 => Ty::Normal,
        1 => Ty::At(at(r)),
        _ => {
            let slot = at(r);
            Ty::Cron {
            expr: r.pick(EXPRS).to_string(),
            slot: slot.clone(),
            n: r.range(-1, 6) as i32,
            max: if r.chance(60) { Some(r.range(-1, 6) as i32) } else { None },
            end: if r.chance(10) { Some(slot) } else if r.chance(50) { Some(at(r)) } else { None },
            tick: r.range(-3, 9) as i32,
        }
        }
    }
}
fn rt(r: &mut Rng) -> Rt {
    let m = 10i64.pow(r.below(17) as u32);
    Rt { used: r.range(-1, 5) as i32, max: if r.chance(70) { Some(r.range(-1, 5) as i32) } else { None }, exp: r.chance(50), ns: r.range(0, m) }
}
fn gen(r: &mut Rng, _: Tier) -> Value {
    let n = r.below(7);
    let calls = (0..n)
        .map(|_| match r.below(8) {
            0 => B::Id(r.text(12)),
            1 => B::Context(
                Cx {
                    id: r.text(12),
                    ty: ty(r),
                    status: r.below(5) as u8,
                    retry: if r.chance(50) { Some(rt(r)) } else { None },
                    created: r.range(-5_000_000_000_000, 5_000_000_000_000),
                    at: std::array::from_fn(|_| if r.chance(50) { Some(r.range(-5_000_000_000_000, 5_000_000_000_000)) } else { None }),
                    runs: r.below(1 << 20) as u32,
                },
                r.chance(50),
            ),
            2 | 3 => B::Type(ty(r), r.chance(50)),
            4 => B::Schedule(at(r)),
            5 => {
                let m = 10i64.pow(r.below(16) as u32);
                B::Delay(r.range(-m, m))
            }
            6 => B::Cron(r.pick(EXPRS).to_string()),
            _ => B::Retry(rt(r), r.chance(50)),
        })
        .collect();
    serde_json::to_value(Case { tag: r.below(1000) as u32, text: r.text(8), derived: r.chance(50), calls }).unwrap()
}

fn inst(a: &At, now: DateTime<Utc>) -> DateTime<Utc> {
    match a {
        At::Epoch(us) => DateTime::<Utc>::from_timestamp_micros(*us).unwrap_or(now),
        At::Now(us) => now.checked_add_signed(Duration::microseconds(*us)).unwrap_or(now),
    }
}
fn job_type(t: &Ty, now: DateTime<Utc>) -> JobType {
    match t {
        Ty::Normal => JobType::Normal,
        Ty::At(a) => JobType::ScheduledAt(inst(a, now)),
        Ty::Cron { expr, slot, n, max, end, tick } => JobType::Cron(
            expr.clone(),
            inst(slot, now),
            *n,
            CronContext { tick_number: *tick, max_repeat: *max, end_at: end.as_ref().map(|e| inst(e, now)) },
        ),
    }
}
fn retry(r: &Rt) -> Retry {
    let d = Duration::nanoseconds(r.ns);
    Retry::new(r.used, r.max, if r.exp { RetryStrategy::ExponentialBackoff(d) } else { RetryStrategy::Interval(d) })
}
fn status(n: u8) -> JobStatus {
    match n % 5 {
        0 => JobStatus::Queued,
        1 => JobStatus::Running,
        2 => JobStatus::Finished,
        3 => JobStatus::Failed,
        _ => JobStatus::Canceled,
    }
}

/// what is known of the job type: exactly this, or an instant / first slot between two looks at the clock
enum Want {
    Is(JobType),
    Between(DateTime<Utc>, DateTime<Utc>),
    Cron(String, DateTime<Utc>, DateTime<Utc>),
}

fn run(v: &Value) -> Verdict {
    use std::str::FromStr;
    let mut o = Verdict::default();
    let Ok(c) = serde_json::from_value::<Case>(v.clone()) else { return o };
    let base = Utc::now();
    let p = Payload { tag: c.tag, text: c.text.clone(), ..Default::default() };
    let mut bad = |kind: &str, msg: String| o.viols.push(v1("C24", kind, msg));
    let t0 = Utc::now().timestamp_millis();
    let mut job = match silent(|| if c.derived { aj::BackgroundJob::job(Alpha::make(p.clone())) } else { aj::Job::new(Alpha::make(p.clone())) }) {
        Ok(j) => j,
        Err(e) => {
            bad("panic", format!("a job cannot be made: {e}"));
            return o;
        }
    };
    let t1 = Utc::now().timestamp_millis();
    let k = &job.context;
    if !(t0..=t1).contains(&k.created_at) {
        bad("fresh", format!("created at {}, the clock says {t0}..{t1}", k.created_at));
    }
    if k.job_id.is_empty() || k.enqueue_at.is_some() || k.run_at.is_some() || k.complete_at.is_some() || k.cancel_at.is_some() || k.retry.is_some() {
        bad("fresh", format!("a new job has the context {k:?}"));
    }
    let mut want: JobContext = k.clone();
    want.job_status = JobStatus::Queued;
    want.run_count = 0;
    let mut wty = Want::Is(JobType::Normal);
    for b in &c.calls {
        let before = Utc::now();
        let r = silent(|| match b {
            B::Id(s) => job.clone().set_id(s.clone()),
            B::Context(cx, alias) => {
                let mut k = JobContext::new(cx.id.clone());
                k.job_type = job_type(&cx.ty, base);
                k.job_status = status(cx.status);
                k.retry = cx.retry.as_ref().map(retry);
                k.created_at = cx.created;
                [k.enqueue_at, k.run_at, k.complete_at, k.cancel_at] = cx.at;
                k.run_count = cx.runs as usize;
                if *alias {
                    job.clone().context(k)
                } else {
                    job.clone().set_context(k)
                }
            }
            B::Type(t, alias) if *alias => job.clone().job_type(job_type(t, base)),
            B::Type(t, _) => job.clone().set_job_type(job_type(t, base)),
            B::Schedule(a) => job.clone().schedule_at(inst(a, base)),
            B::Delay(us) => job.clone().delay(Duration::microseconds(*us)),
            B::Cron(e) => job.clone().cron(e),
            B::Retry(x, alias) if *alias => job.clone().retry(retry(x)),
            B::Retry(x, _) => job.clone().set_retry(retry(x)),
        });
        let after = Utc::now();
        job = match r {
            Ok(j) => j,
            Err(e) => {
                bad("panic", format!("{b:?} panicked: {e}"));
                return o;
            }
        };
        match b {
            B::Id(s) => want.job_id = s.clone(),
            B::Context(cx, _) => {
                want.job_id = cx.id.clone();
                wty = Want::Is(job_type(&cx.ty, base));
                want.job_status = status(cx.status);
                want.retry = cx.retry.as_ref().map(retry);
                want.created_at = cx.created;
                [want.enqueue_at, want.run_at, want.complete_at, want.cancel_at] = cx.at;
                want.run_count = cx.runs as usize;
            }
            B::Type(t, _) => wty = Want::Is(job_type(t, base)),
            B::Schedule(a) => wty = Want::Is(JobType::ScheduledAt(inst(a, base))),
            B::Delay(us) => wty = Want::Between(before + Duration::microseconds(*us), after + Duration::microseconds(*us)),
            B::Cron(e) => wty = Want::Cron(e.clone(), before, after),
            B::Retry(x, _) => want.retry = Some(retry(x)),
        }
    }
    let got = job.context.clone();
    let fits = match (&wty, &got.job_type) {
        (Want::Is(t), g) => t == g,
        (Want::Between(a, b), JobType::ScheduledAt(x)) => a <= x && x <= b,
        (Want::Cron(e, a, b), JobType::Cron(x, slot, n, k)) => {
            let s = cron::Schedule::from_str(e).unwrap();
            let first = s.after(a).next();
            x == e && *n == 1 && *k == CronContext::default() && (Some(*slot) == first || Some(*slot) == s.after(b).next() || first.is_none() && a <= slot && slot <= b)
        }
        _ => false,
    };
    if !fits {
        bad("built", format!("after {:?} the schedule is {:?}", c.calls.last(), got.job_type));
    }
    want.job_type = got.job_type.clone();
    if format!("{want:?}") != format!("{got:?}") {
        bad("built", format!("the calls give {got:?}, not {want:?}"));
    }
    if job.id() != want.job_id {
        bad("built", format!("id() is {:?}, not {:?}", job.id(), want.job_id));
    }
    if *job.data.payload() != p {
        bad("built", format!("the data became {:?}", job.data.payload()));
    }
    // the questions a job answers
    let st = want.job_status;
    if (job.is_queued(), job.is_running(), job.is_cancelled()) != (st == JobStatus::Queued, st == JobStatus::Running, st == JobStatus::Canceled) {
        bad("status", format!("a {st:?} job: queued {}, running {}, cancelled {}", job.is_queued(), job.is_running(), job.is_cancelled()));
    }
    let a = Utc::now();
    let ready = silent(|| job.is_ready());
    let b = Utc::now();
    let edge = |t: &DateTime<Utc>| a <= *t && *t <= b;
    let expected = match &got.job_type {
        JobType::Normal => Some(true),
        JobType::ScheduledAt(t) if edge(t) => None,
        JobType::ScheduledAt(t) => Some(*t < a),
        JobType::Cron(_, slot, _, k) if edge(slot) || k.end_at.as_ref().is_some_and(edge) => None,
        JobType::Cron(_, slot, n, k) => Some(*slot < a && k.max_repeat.map_or(true, |m| *n <= m) && k.end_at.map_or(true, |e| a < e)),
    };
    match (ready, expected) {
        (Err(e), _) => bad("panic", format!("is_ready panicked: {e}")),
        (Ok(x), Some(y)) if x != y => bad("ready", format!("is_ready is {x} at {a} for {:?}", got.job_type)),
        _ => {}
    }
    o.stats.insert("calls".into(), c.calls.len() as u64);
    o.stats.insert("ready_judged".into(), expected.is_some() as u64);
    o.nontrivial = c.calls.len() >= 2;
    o
}
